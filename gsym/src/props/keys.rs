//! Keys and commitments: C05 C06 C08 C15.
use super::{job, literal_lengths};
use crate::eng::*;
use crate::explore::Job;
use crate::harness::*;
use ark_ff::{UniformRand, Zero};
use groth_sahai::prover::*;
use groth_sahai::*;

// ---------------------------------------------------------------- C05
/// index of an unused draw with this concrete value
fn pick<X: Eng>(e: &X, draws: &[(char, F<X>)], used: &mut Vec<usize>, ok: impl Fn(&X, F<X>) -> bool) -> Option<F<X>> {
    let i = (0..draws.len()).find(|i| !used.contains(i) && ok(e, draws[*i].1))?;
    used.push(i);
    Some(draws[i].1)
}
fn c05<X: Eng>(e: &mut X) {
    let mut r = e.rng(CRS_STREAM);
    let crs = CRS::<X::E>::generate_crs(&mut r);
    e.ob("two commitment keys in u", crs.u.len() == 2);
    e.ob("two commitment keys in v", crs.v.len() == 2);
    if crs.u.len() < 2 || crs.v.len() < 2 {
        return;
    }
    let draws = e.draws(CRS_STREAM);
    let mut used = vec![];
    let g = [e.dlog1("g1", crs.g1_gen), e.dlog2("g2", crs.g2_gen)];
    let gt = e.dlogt("gt", crs.gt_gen);
    e.ob_t("gt_gen is the pairing of the generators", crs.gt_gen, <X::E as ark_ec::pairing::Pairing>::pairing(crs.g1_gen, crs.g2_gen));
    e.ob_s("gt_gen exponent", gt, g[0] * g[1]);
    let k = [
        [e.dlog1("u00", crs.u[0].0), e.dlog1("u01", crs.u[0].1), e.dlog1("u10", crs.u[1].0), e.dlog1("u11", crs.u[1].1)],
        [e.dlog2("v00", crs.v[0].0), e.dlog2("v01", crs.v[0].1), e.dlog2("v10", crs.v[1].0), e.dlog2("v11", crs.v[1].1)],
    ];
    for s in 0..2 {
        let nm = ["u", "v"][s];
        e.ob_s(&format!("generator is the first component of {nm}[0]"), g[s], k[s][0]);
        let gen = pick(e, &draws, &mut used, |e, d| e.same(d, g[s]));
        e.ob(&format!("{nm}: the generator is a fresh draw"), gen.is_some());
        let a = pick(e, &draws, &mut used, |e, d| e.same(d * k[s][0], k[s][1]));
        e.ob(&format!("{nm}: the secret a is a fresh draw"), a.is_some());
        let t = pick(e, &draws, &mut used, |e, d| e.same(d * k[s][0], k[s][2]));
        e.ob(&format!("{nm}: the secret t is a fresh draw"), t.is_some());
        if let (Some(gen), Some(a), Some(t)) = (gen, a, t) {
            e.ob_s(&format!("{nm}: generator"), g[s], gen);
            e.ob_s(&format!("{nm}[0] = (g, a g)"), k[s][1], a * g[s]);
            e.ob_s(&format!("{nm}[1].0 = t g"), k[s][2], t * g[s]);
            e.ob_s(&format!("{nm}[1].1 = t a g"), k[s][3], t * (a * g[s]));
        }
    }
    e.reached("generated");
}
/// several keys from one generator: no draw shared between them
fn c05_two<X: Eng>(e: &mut X) {
    let mut r = e.rng(CRS_STREAM);
    let c1 = CRS::<X::E>::generate_crs(&mut r);
    let n = e.draws(CRS_STREAM).len();
    let c2 = CRS::<X::E>::generate_crs(&mut r);
    let d = e.draws(CRS_STREAM);
    e.ob("as many draws for the second key", d.len() == 2 * n);
    let (g, h) = (e.dlog1("g1", c2.g1_gen), e.dlog1("u01", c2.u[0].1));
    let t = e.dlog1("u10", c2.u[1].0);
    let _ = c1;
    let fresh: Vec<F<X>> = d.iter().skip(n).map(|x| x.1).collect();
    e.ob("second generator from the later draws", fresh.iter().any(|x| e.same(*x, g)));
    e.ob("second a from the later draws", fresh.iter().any(|x| e.same(*x * g, h)));
    e.ob("second t from the later draws", fresh.iter().any(|x| e.same(*x * g, t)));
    e.reached("generated");
}
pub fn c05_jobs(_th: bool) -> Vec<Job> {
    let mut v = vec![job!("C05", "generate".to_string(), c05()), job!("C05", "generate-twice".to_string(), c05_two())];
    for j in v.iter_mut() {
        j.must_reach = vec!["generated".into()];
    }
    v
}

// ---------------------------------------------------------------- C06
fn c06<X: Eng>(e: &mut X, side: usize, group: bool, n: usize, batch: bool, k: Key) {
    let crs = key(e, k);
    let xs = vars(e, "x", n);
    let mut r = e.rng(1);
    let mut got: Vec<[F<X>; 2]> = vec![];
    if side == 1 {
        let mut cs = vec![];
        if batch {
            cs = com1(e, group, &xs, &crs, &mut r).coms;
        } else {
            for x in &xs {
                cs.extend(single1(e, group, *x, &crs, &mut r).coms);
            }
        }
        for (i, c) in cs.iter().enumerate() {
            got.push([e.dlog1(&format!("c{i}.0"), c.0), e.dlog1(&format!("c{i}.1"), c.1)]);
        }
    } else {
        let mut cs = vec![];
        if batch {
            cs = com2(e, group, &xs, &crs, &mut r).coms;
        } else {
            for x in &xs {
                cs.extend(single2(e, group, *x, &crs, &mut r).coms);
            }
        }
        for (i, c) in cs.iter().enumerate() {
            got.push([e.dlog2(&format!("c{i}.0"), c.0), e.dlog2(&format!("c{i}.1"), c.1)]);
        }
    }
    e.ob("one commitment per value", got.len() == n);
    let (u, p) = if side == 1 {
        (
            [[e.dlog1("u00", crs.u[0].0), e.dlog1("u01", crs.u[0].1)], [e.dlog1("u10", crs.u[1].0), e.dlog1("u11", crs.u[1].1)]],
            e.dlog1("g", crs.g1_gen),
        )
    } else {
        (
            [[e.dlog2("v00", crs.v[0].0), e.dlog2("v01", crs.v[0].1)], [e.dlog2("v10", crs.v[1].0), e.dlog2("v11", crs.v[1].1)]],
            e.dlog2("g", crs.g2_gen),
        )
    };
    let z = F::<X>::zero();
    let draws: Vec<F<X>> = e.draws(1).iter().filter(|d| d.0 == 's').map(|d| d.1).collect();
    let per = if group { 2 } else { 1 };
    let mut used = vec![false; draws.len()];
    for (i, c) in got.iter().enumerate().take(n) {
        let base = if group { [z, xs[i]] } else { [xs[i] * u[1][0], xs[i] * (u[1][1] + p)] };
        let form = |a: F<X>, b: F<X>, j: usize| base[j] + a * u[0][j] + if group { b * u[1][j] } else { z };
        let hit = |e: &X, a: F<X>, b: F<X>| e.same(c[0], form(a, b, 0)) && e.same(c[1], form(a, b, 1));
        let mut found = None;
        let nat = (per * i, per * i + per - 1);
        if nat.1 < draws.len() && !used[nat.0] && !used[nat.1] && hit(e, draws[nat.0], draws[nat.1]) {
            found = Some(nat);
        } else {
            'o: for a in 0..draws.len() {
                for b in 0..draws.len() {
                    if (group && a == b) || (!group && a != b) || used[a] || used[b] {
                        continue;
                    }
                    if hit(e, draws[a], draws[b]) {
                        found = Some((a, b));
                        break 'o;
                    }
                }
            }
        }
        e.ob(&format!("commitment {i} has the prescribed form with draws of its own"), found.is_some());
        if let Some((a, b)) = found {
            used[a] = true;
            used[b] = true;
            for j in 0..2 {
                e.ob_s(&format!("commitment {i} component {j}"), c[j], form(draws[a], draws[b], j));
            }
        }
        if k == Key::Binding {
            let a = e.s(if side == 1 { "a1" } else { "a2" });
            let open = c[1] - a * c[0];
            e.ob_s(&format!("value {i} recovered with the trapdoor"), open, if group { xs[i] } else { xs[i] * p });
        }
        if k == Key::Gen {
            e.ob_s(&format!("value {i} recovered with the key"), u[0][0] * c[1] - u[0][1] * c[0], if group { u[0][0] * xs[i] } else { u[0][0] * xs[i] * p });
        }
    }
    e.reached("committed");
}
pub fn c06_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut lens: Vec<(usize, bool)> = [1usize, 2, 3, 4, 5].iter().map(|l| (*l, true)).collect();
    lens.extend([9, 17, 33, 65, 129, 257].iter().map(|l| (*l, false)));
    if th {
        lens.extend([6, 7, 8, 10, 12, 16, 31, 32, 64, 128, 256, 513].iter().map(|l| (*l, false)));
    }
    lens.extend(literal_lengths(if th { 600 } else { 140 }).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        for side in [1usize, 2] {
            for group in [true, false] {
                for batch in [true, false] {
                    for k in [Key::Gen, Key::Binding, Key::Hiding] {
                        if !core && k == Key::Hiding {
                            continue;
                        }
                        if n > 5 && !batch {
                            continue;
                        }
                        let mut j = job!("C06", format!("side{side}-{}-{n}-{}-{k:?}", if group { "group" } else { "scalar" }, if batch { "batch" } else { "single" }), c06(side, group, n, batch, k));
                        j.must_reach = vec!["committed".into()];
                        j.core = core;
                        v.push(j);
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C08
/// the openings inside two commitment objects act alike: proofs made with them coincide
fn same_opening1<X: Eng>(e: &mut X, l: &str, group: bool, xs: &[F<X>], a: &Commit1<X::E>, b: &Commit1<X::E>, crs: &CRS<X::E>) {
    let ty = if group { Ty::P } else { Ty::Q };
    let c = coef(e, "o", xs.len(), 1);
    let ys = vars(e, "oy", 1);
    let t = e.s("ot");
    let q = equ(e, ty, &c, t);
    let mut r = e.rng(20);
    let yc = com2(e, ty.yg(), &ys, crs, &mut r);
    let mut r = e.rng(21);
    let p = prove(e, &q, xs, &ys, a, &yc, crs, &mut r);
    let mut r = e.rng(21);
    let p2 = prove(e, &q, xs, &ys, b, &yc, crs, &mut r);
    ob_proof(e, l, &p, &p2);
}
fn same_opening2<X: Eng>(e: &mut X, l: &str, group: bool, ys: &[F<X>], a: &Commit2<X::E>, b: &Commit2<X::E>, crs: &CRS<X::E>) {
    let ty = if group { Ty::P } else { Ty::Q };
    let c = coef(e, "o", 1, ys.len());
    let xs = vars(e, "ox", 1);
    let t = e.s("ot");
    let q = equ(e, ty, &c, t);
    let mut r = e.rng(20);
    let xc = com1(e, ty.xg(), &xs, crs, &mut r);
    let mut r = e.rng(21);
    let p = prove(e, &q, &xs, ys, &xc, a, crs, &mut r);
    let mut r = e.rng(21);
    let p2 = prove(e, &q, &xs, ys, &xc, b, crs, &mut r);
    ob_proof(e, l, &p, &p2);
}
fn c08<X: Eng>(e: &mut X, side: usize, group: bool, n: usize, k: Key) {
    let crs = key(e, k);
    let xs = vars(e, "x", n);
    let mut r = e.rng(1);
    if side == 1 {
        let a = com1(e, group, &xs, &crs, &mut r);
        let na = F::<X>::rand(&mut r);
        let mut r = e.rng(1);
        let mut b = single1(e, group, xs[0], &crs, &mut r);
        for x in &xs[1..] {
            let mut s = single1(e, group, *x, &crs, &mut r);
            b.append(&mut s);
        }
        let nb = F::<X>::rand(&mut r);
        ob_coms1(e, "commitments", &a.coms, &b.coms);
        e.ob_s("same randomness consumed", na, nb);
        same_opening1(e, "openings", group, &xs, &a, &b, &crs);
        for (i, c) in a.coms.iter().enumerate() {
            see_com1(e, &format!("c{i}"), c);
        }
        let eq = a == b;
        e.ob("objects compare equal", eq);
    } else {
        let a = com2(e, group, &xs, &crs, &mut r);
        let na = F::<X>::rand(&mut r);
        let mut r = e.rng(1);
        let mut b = single2(e, group, xs[0], &crs, &mut r);
        for x in &xs[1..] {
            let mut s = single2(e, group, *x, &crs, &mut r);
            b.append(&mut s);
        }
        let nb = F::<X>::rand(&mut r);
        ob_coms2(e, "commitments", &a.coms, &b.coms);
        e.ob_s("same randomness consumed", na, nb);
        same_opening2(e, "openings", group, &xs, &a, &b, &crs);
        for (i, c) in a.coms.iter().enumerate() {
            see_com2(e, &format!("c{i}"), c);
        }
        let eq = a == b;
        e.ob("objects compare equal", eq);
    }
    e.reached("compared");
}
pub fn c08_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut lens: Vec<(usize, bool)> = [1usize, 2, 3, 4, 5, 6].iter().map(|l| (*l, true)).collect();
    lens.extend([9, 17, 33, 65, 129, 257].iter().map(|l| (*l, false)));
    if th {
        lens.extend([7, 8, 10, 12, 16, 31, 32, 64, 128, 256, 513].iter().map(|l| (*l, false)));
    }
    lens.extend(literal_lengths(if th { 600 } else { 140 }).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        for side in [1usize, 2] {
            for group in [true, false] {
                let keys: &[Key] = if core { &[Key::Gen, Key::Hiding] } else { &[Key::Fixed] };
                for k in keys {
                    let k = *k;
                    let mut j = job!("C08", format!("side{side}-{}-{n}-{k:?}", if group { "group" } else { "scalar" }), c08(side, group, n, k));
                    j.must_reach = vec!["compared".into()];
                    j.core = core;
                    v.push(j);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C15
fn c15<X: Eng>(e: &mut X, side: usize, group: bool, parts: Vec<usize>, k: Key) {
    let crs = key(e, k);
    let n: usize = parts.iter().sum();
    let xs = vars(e, "x", n);
    let mut r = e.rng(1);
    let ty = if group { Ty::P } else { Ty::Q };
    let (m1, n1) = if side == 1 { (n, 1) } else { (1, n) };
    let c = coef(e, "", m1, n1);
    let other = vars(e, "w", 1);
    let q = if side == 1 { equ(e, ty, &c, target(&c, &xs, &other)) } else { equ(e, ty, &c, target(&c, &other, &xs)) };
    // the part that differs between the two sides
    macro_rules! side {
        ($com:ident, $ocom:ident, $obs:ident, $prove:expr, $bundle:expr) => {{
            let mut objs = vec![];
            let mut off = 0;
            for p in &parts {
                objs.push($com(e, group, &xs[off..off + p], &crs, &mut r));
                off += p;
            }
            let want: Vec<_> = objs.iter().flat_map(|o| o.coms.clone()).collect();
            let oc = $ocom(e, group, &other, &crs, &mut r);
            let mut acc = objs.remove(0);
            let mut drained = vec![];
            let mut len = acc.coms.len();
            for mut o in objs {
                len += o.coms.len();
                acc.append(&mut o);
                e.ob("appended object holds no commitments", o.coms.is_empty());
                e.ob("all commitments present", acc.coms.len() == len);
                drained.push(o);
            }
            $obs(e, "concatenation", &acc.coms, &want);
            let before = acc.clone();
            // a drained object is empty: appending it changes nothing
            for o in drained.iter_mut() {
                let r = e.catch(|| acc.append(o));
                e.ob("appending an empty object is possible", r.is_ok());
                e.ob("still empty", o.coms.is_empty());
            }
            $obs(e, "unchanged by empty objects", &acc.coms, &before.coms);
            let mut r1 = e.rng(30);
            let p1 = $prove(e, &q, &acc, &oc, &mut r1);
            let mut r2 = e.rng(30);
            let p2 = $prove(e, &q, &before, &oc, &mut r2);
            ob_proof(e, "same openings after appending empty objects", &p1, &p2);
            let p = $bundle(acc.clone(), oc.clone(), p1);
            let ok = q.verify(&p, &crs);
            e.see("verdict", ok);
            e.ob("appended commitments prove and verify", ok);
            // into an empty object: everything moves over, openings included
            if let Some(mut o) = drained.pop() {
                o.append(&mut acc);
                e.ob("moved out", acc.coms.is_empty());
                // appending the emptied source once more changes nothing
                let r = e.catch(|| o.append(&mut acc));
                e.ob("the emptied source can be appended", r.is_ok());
                $obs(e, "moved into the empty object", &o.coms, &want);
                let mut r3 = e.rng(31);
                let p3 = $prove(e, &q, &o, &oc, &mut r3);
                let (p3c, ocs) = (p3.clone(), oc.clone());
                let p = $bundle(o, oc, p3);
                let ok = q.verify(&p, &crs);
                e.ob("commitments appended to an empty object prove and verify", ok);
                // the emptied source is an empty object like any other: it takes new commitments ...
                let mut again = before.clone();
                let r = e.catch(|| acc.append(&mut again));
                e.ob("emptied object can be appended to", r.is_ok());
                if r.is_ok() {
                    $obs(e, "refilled", &acc.coms, &want);
                    let mut r4 = e.rng(31);
                    let p4 = $prove(e, &q, &acc, &ocs, &mut r4);
                    ob_proof(e, "refilled object has its own openings", &p4, &p3c);
                    // ... and equals any other drained one
                    e.ob("drained objects are equal", drained.iter().all(|d| *d == again));
                }
            }
        }};
    }
    if side == 1 {
        side!(com1, com2, ob_coms1, |e: &X, q: &Equ<X::E>, a: &Commit1<X::E>, o: &Commit2<X::E>, r: &mut X::R| prove(e, q, &xs, &other, a, o, &crs, r), |a, o, p| CProof { xcoms: a, ycoms: o, equ_proofs: vec![p] });
    } else {
        side!(com2, com1, ob_coms2, |e: &X, q: &Equ<X::E>, a: &Commit2<X::E>, o: &Commit1<X::E>, r: &mut X::R| prove(e, q, &other, &xs, o, a, &crs, r), |a, o, p| CProof { xcoms: o, ycoms: a, equ_proofs: vec![p] });
    }
    e.reached("appended");
}
pub fn c15_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut parts: Vec<(Vec<usize>, bool)> = vec![
        (vec![1, 1], true),
        (vec![1, 2], true),
        (vec![2, 1], true),
        (vec![2, 2], true),
        (vec![3, 2], true),
        (vec![1, 1, 1], true),
        (vec![2, 1, 3], true),
        (vec![1, 3, 1, 2], true),
        (vec![9, 8], false),
        (vec![1, 17], false),
        (vec![17, 1], false),
        (vec![20, 15], false),
        (vec![33, 32], false),
        (vec![129, 130], false),
    ];
    if th {
        parts.extend([(vec![4, 4], false), (vec![64, 1], false), (vec![1, 64], false), (vec![65, 65], false), (vec![1; 12], false)]);
    }
    for l in literal_lengths(140) {
        parts.push((vec![l, 1], false));
        parts.push((vec![1, l], false));
    }
    for (p, core) in parts {
        for side in [1usize, 2] {
            for group in [true, false] {
                let n: usize = p.iter().sum();
                let k = if n > 12 { Key::Fixed } else { Key::Gen };
                let mut j = job!("C15", format!("side{side}-{}-{p:?}", if group { "group" } else { "scalar" }), c15(side, group, p, k));
                j.must_reach = vec!["appended".into()];
                j.core = core;
                v.push(j);
            }
        }
    }
    v
}
