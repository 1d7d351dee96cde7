//! Equations, proofs and verification: C01 C02 C04 C21 C22 C23 C24 C25.
use super::{job, literal_shapes};
use crate::eng::*;
use crate::explore::Job;
use crate::harness::*;
use ark_ff::Zero;
use groth_sahai::prover::*;
use groth_sahai::*;

/// keys of large shapes are fixed numbers, everything else stays symbolic
fn key_for(m: usize, n: usize) -> Key {
    if m * n > 64 || m.max(n) > 17 {
        Key::Fixed
    } else {
        Key::Gen
    }
}

// ---------------------------------------------------------------- C01
fn c01<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, k: Key) {
    let crs = key(e, k);
    let c = coef(e, "", m, n);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let q = equ(e, ty, &c, target(&c, &xs, &ys));
    let mut r = e.rng(1);
    let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
    see_cproof(e, "proof", &p);
    let ok = q.verify(&p, &crs);
    e.see("verdict", ok);
    e.ob("honest proof accepted", ok);
    e.reached("verified");
}
pub fn c01_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let small: Vec<(usize, usize)> = if th {
        (1..=5).flat_map(|m| (1..=5).map(move |n| (m, n))).chain([(8, 8)]).collect()
    } else {
        vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 4), (3, 3), (5, 5)]
    };
    let mut large = vec![(9, 1), (1, 9), (17, 1), (33, 1), (1, 33), (33, 2), (2, 33), (9, 8), (65, 1), (1, 65)];
    if th {
        large.extend([(8, 16), (16, 8), (1, 65), (129, 1), (1, 129), (2, 65), (16, 16), (257, 1), (1, 257)]);
    }
    large.extend(literal_shapes(if th { 300 } else { 140 }));
    for ty in TYPES {
        for (m, n) in small.iter() {
            let (m, n) = (*m, *n);
            let keys: &[Key] = if m * n <= 6 { &[Key::Gen, Key::Hiding] } else { &[Key::Gen] };
            for k in keys {
                let k = *k;
                let mut j = job!("C01", format!("{}-{m}x{n}-{k:?}", ty.name()), c01(ty, m, n, k));
                j.must_reach = vec!["verified".into()];
                v.push(j);
            }
        }
    }
    for (m, n) in large {
        for ty in TYPES {
            let k = key_for(m, n);
            let mut j = job!("C01", format!("{}-{m}x{n}-{k:?}", ty.name()), c01(ty, m, n, k));
            j.must_reach = vec!["verified".into()];
            j.core = false;
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C02
fn c02<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize) {
    let crs = key(e, Key::Gen);
    let c = coef(e, "", m, n);
    let t = e.s("target");
    let q = equ(e, ty, &c, t);
    let (np, nt) = ty.sizes();
    let p = any_cproof(e, ty, m, n, np, nt, &crs);
    let ok = e.catch(|| q.verify(&p, &crs)).unwrap_or(false);
    e.see("verdict", ok);
    if !ok {
        return;
    }
    e.reached("accepted");
    let p1 = e.dlog1("u0.0", crs.u[0].0);
    let q1 = e.dlog1("u0.1", crs.u[0].1);
    let p2 = e.dlog2("v0.0", crs.v[0].0);
    let q2 = e.dlog2("v0.1", crs.v[0].1);
    let xs: Vec<F<X>> = (0..m).map(|i| p1 * e.s(&format!("c{i}_1")) - q1 * e.s(&format!("c{i}_0"))).collect();
    let ys: Vec<F<X>> = (0..n).map(|j| p2 * e.s(&format!("d{j}_1")) - q2 * e.s(&format!("d{j}_0"))).collect();
    let dx = if ty.xg() { p1 } else { p1 * p1 };
    let dy = if ty.yg() { p2 } else { p2 * p2 };
    let scaled = Coef {
        a: c.a.iter().map(|a| *a * dx).collect(),
        b: c.b.iter().map(|b| *b * dy).collect(),
        g: c.g.clone(),
    };
    e.ob_s("extracted values satisfy the equation", target(&scaled, &xs, &ys), dx * dy * t);
}
pub fn c02_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut shapes: Vec<((usize, usize), bool)> = vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (4, 2), (2, 5)].into_iter().map(|s| (s, true)).collect();
    let mut large = vec![(5, 5), (9, 1), (1, 9), (17, 1), (1, 17), (8, 8)];
    if th {
        large.extend([(33, 1), (1, 33), (16, 8), (65, 1), (1, 65)]);
    }
    large.extend(literal_shapes(if th { 140 } else { 70 }));
    shapes.extend(large.into_iter().map(|s| (s, false)));
    for ((m, n), core) in shapes {
        for ty in TYPES {
            let mut j = job!("C02", format!("{}-{m}x{n}", ty.name()), c02(ty, m, n));
            j.must_reach = vec!["accepted".into()];
            j.core = core;
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C04
#[derive(Clone, Debug)]
enum Bad {
    /// tagged as another type, with the element counts of the second
    Type(Ty, Ty),
    NoProof,
    /// a second proof of the given type (0: the same proof again)
    Two(Option<Ty>),
    /// that many copies of the proof
    Proofs(usize),
    Counts(usize, usize),
    /// commitments too many (+) or too few (-) on the x / y side
    Coms(isize, isize),
}
fn c04<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, bad: Bad) {
    let crs = key(e, Key::Gen);
    let c = coef(e, "", m, n);
    let t = e.s("target");
    let q = equ(e, ty, &c, t);
    let (np, nt) = match &bad {
        Bad::Type(_, s) => s.sizes(),
        Bad::Counts(a, b) => (*a, *b),
        _ => ty.sizes(),
    };
    let (mx, ny) = match &bad {
        Bad::Coms(a, b) => ((m as isize + a) as usize, (n as isize + b) as usize),
        _ => (m, n),
    };
    let mut p = any_cproof(e, ty, m.max(mx), n.max(ny), np, nt, &crs);
    p.xcoms.coms.truncate(mx);
    p.ycoms.coms.truncate(ny);
    match &bad {
        Bad::Type(tag, _) => p.equ_proofs[0].equ_type = tag.equ_type(),
        Bad::NoProof => p.equ_proofs.clear(),
        Bad::Proofs(k) => {
            let one = p.equ_proofs[0].clone();
            p.equ_proofs = vec![one; *k];
        }
        Bad::Two(other) => {
            let (np, nt) = other.unwrap_or(ty).sizes();
            let mut s = dummy_cproof(e, other.unwrap_or(ty), 1, 1, &crs);
            s.equ_proofs[0].pi = (0..np).map(|i| Com2(e.g2(&format!("pib{i}_0")), e.g2(&format!("pib{i}_1")))).collect();
            s.equ_proofs[0].theta = (0..nt).map(|i| Com1(e.g1(&format!("thb{i}_0")), e.g1(&format!("thb{i}_1")))).collect();
            p.equ_proofs.append(&mut s.equ_proofs);
        }
        _ => {}
    }
    let r = e.catch(|| q.verify(&p, &crs));
    e.see("accepted", r == Ok(true));
    e.reached(match r {
        Ok(_) => "answered",
        Err(_) => "refused",
    });
    e.ob(&format!("not accepted: {bad:?}"), r != Ok(true));
}
pub fn c04_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut shapes = if th { vec![(1, 1), (2, 2), (3, 2), (2, 3), (4, 4)] } else { vec![(1, 1), (2, 2), (3, 2)] };
    let small = shapes.len();
    shapes.extend([(5, 4), (9, 1), (1, 9), (2, 17)]);
    for (si, (m, n)) in shapes.into_iter().enumerate() {
        for ty in TYPES {
            if si >= small {
                for (a, b) in [(1, 0), (-1, 0), (0, 1), (0, -1), (m as isize, 0), (0, n as isize)] {
                    let bad = Bad::Coms(a, b);
                    let mut j = job!("C04", format!("{}-{m}x{n}-{bad:?}", ty.name()), c04(ty, m, n, bad));
                    j.validate = true;
                    v.push(j);
                }
                continue;
            }
            let mut bads = vec![Bad::NoProof, Bad::Two(None)];
            for o in TYPES {
                if o != ty {
                    bads.push(Bad::Two(Some(o)));
                    for s in TYPES {
                        if (m, n) == (1, 1) || s == ty || s == o {
                            bads.push(Bad::Type(o, s));
                        }
                    }
                }
            }
            let top = if th { 5 } else { 3 };
            for a in 0..=top {
                for b in 0..=top {
                    if (a, b) != ty.sizes() {
                        bads.push(Bad::Counts(a, b));
                    }
                }
            }
            for (a, b) in [(1, 0), (-1, 0), (0, 1), (0, -1), (2, 0), (0, 2), (1, 1), (-1, -1), (1, -1), (-1, 1)] {
                bads.push(Bad::Coms(a, b));
            }
            if (m, n) == (2, 2) {
                // counts that agree modulo a power of two
                let (p, t) = ty.sizes();
                for k in if th { vec![16isize, 32, 64, 128, 256] } else { vec![16isize, 256] } {
                    bads.extend([Bad::Coms(k, 0), Bad::Coms(0, k), Bad::Counts(p + k as usize, t), Bad::Counts(p, t + k as usize), Bad::Proofs(1 + k as usize)]);
                }
                bads.extend([Bad::Proofs(3), Bad::Proofs(4), Bad::Proofs(5)]);
            }
            for bad in bads {
                let mut j = job!("C04", format!("{}-{m}x{n}-{bad:?}", ty.name()), c04(ty, m, n, bad));
                j.validate = true;
                v.push(j);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C21
fn c21<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, k: Key) {
    let crs = key(e, k);
    let c = coef(e, "", m, n);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let t = e.s("target");
    let q = equ(e, ty, &c, t);
    let mut r = e.rng(1);
    let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
    let next1 = <F<X> as ark_ff::UniformRand>::rand(&mut r);
    let mut r = e.rng(1);
    let xc = com1(e, ty.xg(), &xs, &crs, &mut r);
    let yc = com2(e, ty.yg(), &ys, &crs, &mut r);
    let pf = prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r);
    let next2 = <F<X> as ark_ff::UniformRand>::rand(&mut r);
    e.ob("exactly one equation proof", p.equ_proofs.len() == 1);
    e.ob("prescribed number of proof elements", p.equ_proofs.iter().all(|q| (q.pi.len(), q.theta.len()) == ty.sizes()));
    e.ob("prescribed number of proof elements (separate)", (pf.pi.len(), pf.theta.len()) == ty.sizes());
    ob_coms1(e, "x commitments", &p.xcoms.coms, &xc.coms);
    ob_coms2(e, "y commitments", &p.ycoms.coms, &yc.coms);
    if p.equ_proofs.len() == 1 {
        ob_proof(e, "proof", &p.equ_proofs[0], &pf);
    }
    e.ob_s("same generator state afterwards", next1, next2);
    // the commitments carry the same openings
    let mut r = e.rng(5);
    let o1 = prove(e, &q, &xs, &ys, &p.xcoms, &p.ycoms, &crs, &mut r);
    let mut r = e.rng(5);
    let o2 = prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r);
    ob_proof(e, "proof from either commitments", &o1, &o2);
    see_cproof(e, "p", &p);
    see_proof(e, "q", &pf);
    e.reached("compared");
}
pub fn c21_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut shapes = vec![((1, 1), true), ((1, 2), true), ((2, 1), true), ((2, 2), true), ((3, 3), true), ((5, 4), true), ((9, 1), false), ((1, 9), false), ((17, 2), false), ((1, 33), false)];
    if th {
        shapes.extend([((8, 8), false), ((33, 2), false), ((65, 1), false), ((1, 65), false), ((16, 16), false)]);
    }
    shapes.extend(literal_shapes(if th { 300 } else { 140 }).into_iter().map(|s| (s, false)));
    for ((m, n), core) in shapes {
        for ty in TYPES {
            let k = key_for(m, n);
            let mut j = job!("C21", format!("{}-{m}x{n}", ty.name()), c21(ty, m, n, k));
            j.must_reach = vec!["compared".into()];
            j.core = core;
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C22
fn c22<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, at: Option<(bool, usize, usize)>) {
    let crs = key(e, Key::Gen);
    let z = F::<X>::zero();
    // the secrets t of both sides are not zero (they are with negligible probability)
    e.assume_ne_1(crs.u[1].0, crs.u[1].0 .into_group_zero());
    e.assume_ne_2(crs.v[1].0, crs.v[1].0 .into_group_zero());
    let c = coef(e, "", m, n);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let t = target(&c, &xs, &ys);
    let q = equ(e, ty, &c, t);
    let mut r = e.rng(1);
    let mut p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
    let d = e.s("delta");
    e.assume_ne(d, z);
    let q2 = match at {
        None => equ(e, ty, &c, t + d),
        Some((pi, k, comp)) => {
            let pf = &mut p.equ_proofs[0];
            if pi {
                let x = if comp == 0 { &mut pf.pi[k].0 } else { &mut pf.pi[k].1 };
                *x = (*x + e.mk2(d)).into();
            } else {
                let x = if comp == 0 { &mut pf.theta[k].0 } else { &mut pf.theta[k].1 };
                *x = (*x + e.mk1(d)).into();
            }
            q
        }
    };
    let ok = e.catch(|| q2.verify(&p, &crs)).unwrap_or(false);
    e.see("accepted", ok);
    e.reached("verified");
    e.ob("altered proof or statement rejected", !ok);
}
trait ZeroOf: Sized {
    fn into_group_zero(self) -> Self;
}
impl<A: ark_ec::AffineRepr> ZeroOf for A {
    fn into_group_zero(self) -> A {
        A::zero()
    }
}
pub fn c22_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let mut shapes = vec![((1, 1), true), ((2, 2), true), ((3, 2), true), ((1, 3), true), ((5, 3), false)];
    if th {
        shapes.extend([((8, 8), false), ((17, 1), false), ((1, 17), false)]);
    }
    for ((m, n), core) in shapes {
        for ty in TYPES {
            let mut ats = vec![None];
            let (np, nt) = ty.sizes();
            for comp in 0..2 {
                ats.extend((0..np).map(|k| Some((true, k, comp))));
                ats.extend((0..nt).map(|k| Some((false, k, comp))));
            }
            for at in ats {
                let nm = match at {
                    None => "target".to_string(),
                    Some((pi, k, c)) => format!("{}{k}.{c}", if pi { "pi" } else { "theta" }),
                };
                let mut j = job!("C22", format!("{}-{m}x{n}-{nm}", ty.name()), c22(ty, m, n, at));
                j.must_reach = vec!["verified".into()];
                j.core = core;
                v.push(j);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C23
fn c23<X: Eng>(e: &mut X, m: usize, n: usize, first: usize, k: Key) {
    let crs = key(e, k);
    let (xg, yg) = (vars(e, "xg", m), vars(e, "yg", n));
    let (xsc, ysc) = (vars(e, "xs", m), vars(e, "ys", n));
    let mut r = e.rng(1);
    let cxg = com1(e, true, &xg, &crs, &mut r);
    let cyg = com2(e, true, &yg, &crs, &mut r);
    let cxs = com1(e, false, &xsc, &crs, &mut r);
    let cys = com2(e, false, &ysc, &crs, &mut r);
    let (k1, k2, k3, k4) = (cxg.clone(), cyg.clone(), cxs.clone(), cys.clone());
    let order = [Ty::P, Ty::M1, Ty::M2, Ty::Q, Ty::P, Ty::Q, Ty::M1, Ty::M2];
    for (i, ty) in order.iter().cycle().skip(first).take(5).enumerate() {
        let (ty, tag) = (*ty, format!("e{i}"));
        let c = coef(e, &tag, m, n);
        let xs = if ty.xg() { &xg } else { &xsc };
        let ys = if ty.yg() { &yg } else { &ysc };
        let xc = if ty.xg() { &cxg } else { &cxs };
        let yc = if ty.yg() { &cyg } else { &cys };
        let q = equ(e, ty, &c, target(&c, xs, ys));
        let pf = prove(e, &q, xs, ys, xc, yc, &crs, &mut r);
        see_proof(e, &tag, &pf);
        // the verifier sees the commitments made once
        let p = CProof { xcoms: if ty.xg() { k1.clone() } else { k3.clone() }, ycoms: if ty.yg() { k2.clone() } else { k4.clone() }, equ_proofs: vec![pf] };
        let ok = q.verify(&p, &crs);
        e.ob(&format!("equation {i} ({}) accepted with the shared commitments", ty.name()), ok);
    }
    ob_coms1(e, "x group commitments unchanged", &cxg.coms, &k1.coms);
    ob_coms2(e, "y group commitments unchanged", &cyg.coms, &k2.coms);
    ob_coms1(e, "x scalar commitments unchanged", &cxs.coms, &k3.coms);
    ob_coms2(e, "y scalar commitments unchanged", &cys.coms, &k4.coms);
    e.reached("all verified");
}
/// a history: commitments that grow between proofs, copies that grow differently, other keys
fn c23_grow<X: Eng>(e: &mut X, ty: Ty, first: (usize, usize), more: (usize, usize), k: Key) {
    let crs = key(e, k);
    let ((m1, n1), (m2, n2)) = (first, more);
    let (xs, ys) = (vars(e, "x", m1 + m2), vars(e, "y", n1 + n2));
    let (xz, yz) = (vars(e, "w", m2), vars(e, "z", n2));
    let mut r = e.rng(1);
    let mut xc = com1(e, ty.xg(), &xs[..m1], &crs, &mut r);
    let mut yc = com2(e, ty.yg(), &ys[..n1], &crs, &mut r);
    let (mut xc2, mut yc2) = (xc.clone(), yc.clone());
    let run = |e: &mut X, l: &str, xv: &[F<X>], yv: &[F<X>], xc: &Commit1<X::E>, yc: &Commit2<X::E>, crs: &CRS<X::E>, r: &mut X::R| {
        let c = coef(e, l, xv.len(), yv.len());
        let q = equ(e, ty, &c, target(&c, xv, yv));
        let res = e.catch_with(|e| {
            let pf = prove(e, &q, xv, yv, xc, yc, crs, r);
            q.verify(&CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![pf] }, crs)
        });
        e.ob(&format!("{l}: accepted"), res == Ok(true));
    };
    run(e, "first", &xs[..m1], &ys[..n1], &xc, &yc, &crs, &mut r);
    // grow in x, prove, grow in y, prove
    if m2 > 0 {
        let mut o = com1(e, ty.xg(), &xs[m1..], &crs, &mut r);
        xc.append(&mut o);
    }
    run(e, "x grown", &xs, &ys[..n1], &xc, &yc, &crs, &mut r);
    if n2 > 0 {
        let mut o = com2(e, ty.yg(), &ys[n1..], &crs, &mut r);
        yc.append(&mut o);
    }
    run(e, "both grown", &xs, &ys, &xc, &yc, &crs, &mut r);
    // the copies grow by other values
    let (mut x2, mut y2) = (xs[..m1].to_vec(), ys[..n1].to_vec());
    if m2 > 0 {
        let mut o = com1(e, ty.xg(), &xz, &crs, &mut r);
        xc2.append(&mut o);
        x2.extend(xz);
    }
    if n2 > 0 {
        let mut o = com2(e, ty.yg(), &yz, &crs, &mut r);
        yc2.append(&mut o);
        y2.extend(yz);
    }
    run(e, "copies grown", &x2, &y2, &xc2, &yc2, &crs, &mut r);
    run(e, "mixed", &xs, &y2, &xc, &yc2, &crs, &mut r);
    // the same values under the same key, committed anew, and the old ones again
    let (xn, yn) = (com1(e, ty.xg(), &xs, &crs, &mut r), com2(e, ty.yg(), &ys, &crs, &mut r));
    run(e, "committed anew", &xs, &ys, &xn, &yn, &crs, &mut r);
    run(e, "old again", &xs, &ys, &xc, &yc, &crs, &mut r);
    // another key altogether
    let mut rk = e.rng(9);
    let other = CRS::<X::E>::generate_crs(&mut rk);
    let (xn, yn) = (com1(e, ty.xg(), &xs, &other, &mut r), com2(e, ty.yg(), &ys, &other, &mut r));
    run(e, "other key", &xs, &ys, &xn, &yn, &other, &mut r);
    e.reached("all verified");
}
pub fn c23_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    for ty in TYPES {
        for (a, b) in [((1, 1), (1, 1)), ((1, 1), (0, 2)), ((1, 2), (1, 0)), ((2, 1), (1, 1))] {
            let k = Key::Gen;
            let mut j = job!("C23", format!("history-{}-{a:?}-{b:?}", ty.name()), c23_grow(ty, a, b, k));
            j.must_reach = vec!["all verified".into()];
            v.push(j);
        }
    }
    let mut shapes = vec![((1, 1), true), ((2, 2), true), ((3, 2), true), ((1, 4), false)];
    if th {
        shapes.extend([((4, 4), false), ((9, 1), false), ((1, 9), false), ((17, 2), false)]);
    }
    for ((m, n), core) in shapes {
        for first in [0, 1, 2, 3, 4] {
            let k = key_for(m, n);
            let mut j = job!("C23", format!("{m}x{n}-order{first}"), c23(m, n, first, k));
            j.must_reach = vec!["all verified".into()];
            j.core = core;
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C24
fn c24<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, variant: usize, honest: bool) {
    let crs = key(e, Key::Gen);
    let c = coef(e, "", m, n);
    let (np, nt) = ty.sizes();
    let (q, p) = if honest {
        let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
        let q = equ(e, ty, &c, target(&c, &xs, &ys));
        let mut r = e.rng(1);
        let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
        (q, p)
    } else {
        let t = e.s("target");
        let q = equ(e, ty, &c, t);
        let p = any_cproof(e, ty, m, n, np, nt, &crs);
        (q, p)
    };
    // the same public values around other opening randomness
    let z = F::<X>::zero();
    let mut r = e.rng(7);
    let (gx, gy, mx, ny) = match variant {
        0 => (ty.xg(), ty.yg(), m, n),
        1 => (!ty.xg(), !ty.yg(), m, n),
        2 => (ty.xg(), ty.yg(), m + 1, n + 2),
        _ => (!ty.xg(), ty.yg(), 1, 1),
    };
    let mut xc = com1(e, gx, &vec![z; mx], &crs, &mut r);
    let mut yc = com2(e, gy, &vec![z; ny], &crs, &mut r);
    xc.coms = p.xcoms.coms.clone();
    yc.coms = p.ycoms.coms.clone();
    let dty = if variant == 1 { TYPES[(TYPES.iter().position(|t| *t == ty).unwrap() + 1) % 4] } else { ty };
    let dc = Coef { a: vec![z; 1], b: vec![z; 1], g: vec![vec![z; 1]; 1] };
    let dq = equ(e, dty, &dc, z);
    let mut pf = commit_and_prove(e, &dq, &[z], &[z], &crs, &mut r).equ_proofs.remove(0);
    pf.pi = p.equ_proofs[0].pi.clone();
    pf.theta = p.equ_proofs[0].theta.clone();
    pf.equ_type = ty.equ_type();
    let p2 = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![pf] };
    let a = e.catch(|| q.verify(&p, &crs));
    let b = e.catch(|| q.verify(&p2, &crs));
    let a2 = e.catch(|| q.verify(&p, &crs));
    let b2 = e.catch(|| q.verify(&p2, &crs));
    e.see("a", a == Ok(true));
    e.see("b", b == Ok(true));
    e.reached(if a == Ok(true) { "accepted" } else { "rejected" });
    // again and again, interleaved
    let mut again = true;
    for _ in 0..4 {
        again &= e.catch(|| q.verify(&p, &crs)).ok() == a.clone().ok();
        again &= e.catch(|| q.verify(&p2, &crs)).ok() == b.clone().ok();
    }
    e.ob("same answer however often repeated", again);
    let v = |r: &Result<bool, String>| r.clone().ok();
    e.ob("same answer whatever the opening randomness", v(&a) == v(&b));
    e.ob("same answer when repeated", v(&a) == v(&a2) && v(&b) == v(&b2));
    ob_coms1(e, "x commitments unmodified", &p.xcoms.coms, &p2.xcoms.coms);
    ob_coms2(e, "y commitments unmodified", &p.ycoms.coms, &p2.ycoms.coms);
    e.ob("proof list unmodified", p.equ_proofs.len() == 1 && p2.equ_proofs.len() == 1);
    ob_proof(e, "proof unmodified", &p.equ_proofs[0], &p2.equ_proofs[0]);
}
pub fn c24_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let shapes = if th { vec![(1, 1), (2, 2), (3, 2), (1, 4), (5, 5)] } else { vec![(1, 1), (2, 2), (3, 1)] };
    for (m, n) in shapes {
        for ty in TYPES {
            for variant in 0..4usize {
                for honest in [true, false] {
                    let mut j = job!("C24", format!("{}-{m}x{n}-v{variant}-{}", ty.name(), if honest { "honest" } else { "any" }), c24(ty, m, n, variant, honest));
                    j.must_reach = if honest { vec!["accepted".into()] } else { vec!["accepted".into(), "rejected".into()] };
                    v.push(j);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C25
/// lengths handed to the prover; rows/cols are the coefficient matrix
#[derive(Clone, Copy, Debug)]
pub struct Dims {
    xv: usize,
    xc: usize,
    b: usize,
    rows: usize,
    yv: usize,
    yc: usize,
    a: usize,
    cols: usize,
    /// commitments of the right kind?
    xk: bool,
    yk: bool,
}
impl Dims {
    fn ok(&self) -> bool {
        self.xk && self.yk && [self.xc, self.b, self.rows].iter().all(|k| *k == self.xv) && [self.yc, self.a, self.cols].iter().all(|k| *k == self.yv)
    }
}
fn c25<X: Eng>(e: &mut X, ty: Ty, set: Vec<Dims>, one_step: bool) {
    let crs = key(e, Key::Gen);
    for d in set {
        let c = Coef { a: vars(e, "a", d.a), b: vars(e, "b", d.b), g: mat(e, "g", d.rows, d.cols) };
        let (xs, ys) = (vars(e, "x", d.xv), vars(e, "y", d.yv));
        let t = e.s("target");
        let q = equ(e, ty, &c, t);
        let mut r = e.rng(1);
        let res = if one_step {
            e.catch_with(|e| {
                commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
            })
        } else {
            let xo = vars(e, "x", d.xc);
            let yo = vars(e, "y", d.yc);
            let xc = com1(e, ty.xg() == d.xk, &xo, &crs, &mut r);
            let yc = com2(e, ty.yg() == d.yk, &yo, &crs, &mut r);
            e.catch_with(|e| {
                prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r);
            })
        };
        e.see("refused", res.is_err());
        if d.ok() {
            // the machinery is not vacuous: consistent inputs do give a proof
            e.ob(&format!("consistent inputs {d:?} are proved"), res.is_ok());
            e.reached("proved");
        } else {
            e.ob(&format!("refused: {d:?}"), res.is_err());
            e.reached("refused");
        }
    }
}
/// one commitment of the wrong kind among right ones
fn c25_mixed<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize) {
    let crs = key(e, Key::Gen);
    let c = coef(e, "", m, n);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let t = e.s("target");
    let q = equ(e, ty, &c, t);
    let mut r = e.rng(1);
    for at in 0..m + n {
        let mut xc = com1(e, ty.xg() != (at == 0), &xs[..1], &crs, &mut r);
        for i in 1..m {
            let mut k = com1(e, ty.xg() != (at == i), &xs[i..i + 1], &crs, &mut r);
            xc.append(&mut k);
        }
        let mut yc = com2(e, ty.yg() != (at == m), &ys[..1], &crs, &mut r);
        for i in 1..n {
            let mut k = com2(e, ty.yg() != (at == m + i), &ys[i..i + 1], &crs, &mut r);
            yc.append(&mut k);
        }
        let res = e.catch_with(|e| {
            prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r);
        });
        e.see("refused", res.is_err());
        e.ob(&format!("refused: commitment {at} of the wrong kind, {m}x{n}"), res.is_err());
        e.reached("refused");
    }
}
pub fn c25_jobs(th: bool) -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    let top = if th { 4 } else { 3 };
    let (sep, one) = (false, true);
    for ty in TYPES {
        let base = |m: usize, n: usize| Dims { xv: m, xc: m, b: m, rows: m, yv: n, yc: n, a: n, cols: n, xk: true, yk: true };
        for n in 1..=2usize {
            // one side consistent, the other runs through all length combinations
            for p in 1..=top {
                let (mut l, mut r) = (vec![base(p, n)], vec![base(n, p)]);
                for a in 0..=top {
                    for b in 1..=top {
                        for c in 1..=top {
                            if [a, b, c].iter().all(|k| *k == p) {
                                continue;
                            }
                            l.push(Dims { xv: a, xc: b, b: c, ..base(p, n) });
                            r.push(Dims { yv: a, yc: b, a: c, ..base(n, p) });
                        }
                    }
                }
                v.push(job!("C25", format!("{}-left-gamma{p}x{n}", ty.name()), c25(ty, l, sep)));
                v.push(job!("C25", format!("{}-right-gamma{n}x{p}", ty.name()), c25(ty, r, sep)));
            }
        }
        let mut kinds = vec![];
        let mut trans = vec![];
        let mut ones = vec![];
        for m in 1..=top {
            for n in 1..=top {
                for (xk, yk) in [(true, false), (false, true), (false, false)] {
                    kinds.push(Dims { xk, yk, ..base(m, n) });
                }
                if m != n {
                    trans.push(Dims { rows: n, cols: m, ..base(m, n) });
                    trans.push(Dims { b: n, a: m, ..base(m, n) });
                    trans.push(Dims { xv: n, xc: n, yv: m, yc: m, ..base(m, n) });
                }
                for (rows, cols, b, a) in [(m + 1, n, m, n), (m, n + 1, m, n), (m, n, m + 1, n), (m, n, m, n + 1), (m + 1, n, m + 1, n), (m, n + 1, m, n + 1), (m + 1, n + 1, m + 1, n + 1)] {
                    ones.push(Dims { rows, cols, b, a, ..base(m, n) });
                    ones.push(Dims { xv: rows, xc: rows, yv: cols, yc: cols, b, a, rows: m, cols: n, xk: true, yk: true });
                }
            }
        }
        ones.retain(|d| !d.ok());
        // longer lists: one of the lists off by one, by a power of two, or by a whole byte
        let mut wide = vec![base(9, 2)];
        for (m, n) in [(5, 4), (9, 2), (2, 9), (17, 1), (1, 17)] {
            for k in [m - 1, m + 1, 2 * m] {
                wide.extend([Dims { xv: k, ..base(m, n) }, Dims { xc: k, ..base(m, n) }, Dims { b: k, ..base(m, n) }, Dims { rows: k, ..base(m, n) }]);
            }
            for k in [n - 1, n + 1, 2 * n] {
                wide.extend([Dims { yv: k, ..base(m, n) }, Dims { yc: k, ..base(m, n) }, Dims { a: k, ..base(m, n) }, Dims { cols: k, ..base(m, n) }]);
            }
        }
        for k in if th { vec![16, 32, 64, 256] } else { vec![256] } {
            let d = base(2, 1);
            wide.extend([Dims { xv: 2 + k, ..d }, Dims { xc: 2 + k, ..d }, Dims { b: 2 + k, ..d }, Dims { rows: 2 + k, ..d }]);
            wide.extend([Dims { yv: 1 + k, ..d }, Dims { yc: 1 + k, ..d }, Dims { a: 1 + k, ..d }, Dims { cols: 1 + k, ..d }]);
        }
        wide.retain(|d| (d.rows > 0 && d.cols > 0 && d.xc > 0 && d.yc > 0 && !d.ok()) || d.xv == 9);
        v.push(job!("C25", format!("{}-wide", ty.name()), c25(ty, wide, sep)));
        kinds.push(base(2, 2));
        trans.push(base(2, 2));
        ones.push(base(2, 2));
        v.push(job!("C25", format!("{}-kinds", ty.name()), c25(ty, kinds, sep)));
        v.push(job!("C25", format!("{}-transposed", ty.name()), c25(ty, trans, sep)));
        v.push(job!("C25", format!("{}-onestep", ty.name()), c25(ty, ones, one)));
        v.push(job!("C25", format!("{}-onestep-transposed", ty.name()), c25(ty, trans, one)));
        v.push(job!("C25", format!("{}-twooff", ty.name()), c25(ty, ones, sep)));
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["proved".into(), "refused".into()];
    }
    for ty in TYPES {
        for (m, n) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 4), (5, 2), (2, 17)] {
            let mut j = job!("C25", format!("{}-mixed kinds {m}x{n}", ty.name()), c25_mixed(ty, m, n));
            j.must_reach = vec!["refused".into()];
            v.push(j);
        }
    }
    v
}
