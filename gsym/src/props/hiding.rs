//! C03 C07 C26 C27: what the outputs reveal, and where the randomness comes from.
//! Two runs of the real code with different witnesses; draws that make the second produce the
//! outputs of the first are computed by elimination over terms, the second run is repeated with
//! exactly these draws, and the solver decides that all outputs agree, for every key, every pair of
//! witnesses and every value of the first run's draws.
use super::job;
use crate::eng::*;
use crate::explore::Job;
use crate::harness::*;
use ark_ff::Zero;
use ark_serialize::{CanonicalSerialize, Compress};
use groth_sahai::prover::*;
use groth_sahai::*;

type Row<X> = F<X>;
fn com1_terms<X: Eng>(e: &mut X, l: &str, c: &[Com1<X::E>]) -> Vec<Row<X>> {
    let mut v = vec![];
    for (i, c) in c.iter().enumerate() {
        v.push(e.dlog1(&format!("{l}{i}.0"), c.0));
        v.push(e.dlog1(&format!("{l}{i}.1"), c.1));
    }
    v
}
fn com2_terms<X: Eng>(e: &mut X, l: &str, c: &[Com2<X::E>]) -> Vec<Row<X>> {
    let mut v = vec![];
    for (i, c) in c.iter().enumerate() {
        v.push(e.dlog2(&format!("{l}{i}.0"), c.0));
        v.push(e.dlog2(&format!("{l}{i}.1"), c.1));
    }
    v
}
fn terms<X: Eng>(e: &mut X, l: &str, p: &CProof<X::E>) -> Vec<Row<X>> {
    let mut v = com1_terms(e, &format!("{l}.x"), &p.xcoms.coms);
    v.extend(com2_terms(e, &format!("{l}.y"), &p.ycoms.coms));
    for q in &p.equ_proofs {
        v.extend(com2_terms(e, &format!("{l}.pi"), &q.pi));
        v.extend(com1_terms(e, &format!("{l}.theta"), &q.theta));
    }
    v
}
/// rows to solve for; differing counts are left to the caller's comparison
fn zip<X: Eng>(a: &[Row<X>], b: &[Row<X>]) -> Vec<(Row<X>, Row<X>)> {
    a.iter().cloned().zip(b.iter().cloned()).collect()
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    Batch,
    Single,
    Appended,
}
fn commit_list1<X: Eng>(e: &mut X, g: bool, xs: &[F<X>], crs: &CRS<X::E>, how: How, st: u32) -> Commit1<X::E> {
    let mut r = e.rng(st);
    match how {
        How::Batch => com1(e, g, xs, crs, &mut r),
        How::Single => single1(e, g, xs[0], crs, &mut r),
        How::Appended => {
            let mut c = single1(e, g, xs[0], crs, &mut r);
            for x in &xs[1..] {
                let mut d = single1(e, g, *x, crs, &mut r);
                c.append(&mut d);
            }
            c
        }
    }
}
fn commit_list2<X: Eng>(e: &mut X, g: bool, xs: &[F<X>], crs: &CRS<X::E>, how: How, st: u32) -> Commit2<X::E> {
    let mut r = e.rng(st);
    match how {
        How::Batch => com2(e, g, xs, crs, &mut r),
        How::Single => single2(e, g, xs[0], crs, &mut r),
        How::Appended => {
            let mut c = single2(e, g, xs[0], crs, &mut r);
            for x in &xs[1..] {
                let mut d = single2(e, g, *x, crs, &mut r);
                c.append(&mut d);
            }
            c
        }
    }
}
fn c07<X: Eng>(e: &mut X, side: u8, g: bool, n: usize, how: How) {
    let crs = key(e, Key::Hiding);
    let xs = vars(e, "x", n);
    let ws = vars(e, "w", n);
    macro_rules! run {
        ($f:ident, $t:ident, $ob:ident) => {{
            e.generic_draws(2);
            let a = $f(e, g, &xs, &crs, how, 1);
            let b = $f(e, g, &ws, &crs, how, 2);
            let (ta, tb) = ($t(e, "a", &a.coms), $t(e, "b", &b.coms));
            e.solve_draws(2, 3, 1, &zip::<X>(&tb, &ta));
            let c = $f(e, g, &ws, &crs, how, 3);
            $ob(e, "commitments to other values, suitable randomness", &c.coms, &a.coms);
        }};
    }
    if side == 1 {
        run!(commit_list1, com1_terms, ob_coms1)
    } else {
        run!(commit_list2, com2_terms, ob_coms2)
    }
    e.reached("matched");
}
pub fn c07_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let ns: Vec<usize> = if thorough { vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64] } else { vec![1, 2, 3, 5, 9, 20] };
    for side in [1u8, 2] {
        for g in [true, false] {
            for n in &ns {
                for how in [How::Batch, How::Single, How::Appended] {
                    if (how == How::Single) != (*n == 1) && how != How::Batch {
                        continue;
                    }
                    let n = *n;
                    v.push(job!("C07", format!("{} side {side}, {n} values, {how:?}", if g { "group" } else { "scalar" }), c07(side, g, n, how)));
                }
            }
        }
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["matched".into()];
    }
    v
}

// ---------------------------------------------------------------- C03 and C27
/// An equation with two arbitrary witnesses that differ at least in variable `k` (x variables first,
/// then y variables).  With d the difference there (d is not 0), every list of coefficients is d
/// times another list, and the coefficient of the differing variable is determined by the others.
/// Group elements are multiples of the key's generators (which are not the identity).
fn two_witnesses<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, k: usize) -> (Equ<X::E>, [Vec<F<X>>; 2], [Vec<F<X>>; 2]) {
    let one = F::<X>::from(1u64);
    let p1 = if ty.xg() { e.s("p1") } else { one };
    let p2 = if ty.yg() { e.s("p2") } else { one };
    let (mut xs, mut ys) = (vars(e, "x", m), vars(e, "y", n));
    let (mut xw, mut yw) = (vars(e, "u", m), vars(e, "w", n));
    let d = e.s("d");
    e.assume_ne(d, F::<X>::zero());
    let mut co = coef(e, "", m, n);
    let z = F::<X>::zero();
    if k < m {
        xw[k] = xs[k] + d;
        co.b[k] = z;
    } else {
        yw[k - m] = ys[k - m] + d;
        co.a[k - m] = z;
    }
    // in units of the generators first
    let rest = target(&co, &xs, &ys) - target(&co, &xw, &yw);
    for c in co.a.iter_mut().chain(co.b.iter_mut()).chain(co.g.iter_mut().flatten()) {
        *c *= d;
    }
    if k < m {
        co.b[k] = rest;
    } else {
        co.a[k - m] = rest;
    }
    co.a.iter_mut().for_each(|c| *c *= p1);
    co.b.iter_mut().for_each(|c| *c *= p2);
    xs.iter_mut().chain(xw.iter_mut()).for_each(|c| *c *= p1);
    ys.iter_mut().chain(yw.iter_mut()).for_each(|c| *c *= p2);
    let t = target(&co, &xs, &ys);
    (equ(e, ty, &co, t), [xs, xw], [ys, yw])
}
fn whole<X: Eng>(e: &mut X, q: &Equ<X::E>, ty: Ty, xs: &[F<X>], ys: &[F<X>], crs: &CRS<X::E>, st: u32, parts: bool) -> CProof<X::E> {
    let mut r = e.rng(st);
    if !parts {
        return commit_and_prove(e, q, xs, ys, crs, &mut r);
    }
    let xc = com1(e, ty.xg(), xs, crs, &mut r);
    let yc = com2(e, ty.yg(), ys, crs, &mut r);
    let p = prove(e, q, xs, ys, &xc, &yc, crs, &mut r);
    CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }
}
fn c03<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, k: usize, parts: bool) {
    e.generic_draws(2);
    let crs = key(e, Key::Hiding);
    let (q, xs, ys) = two_witnesses(e, ty, m, n, k);
    let a = whole(e, &q, ty, &xs[0], &ys[0], &crs, 1, parts);
    let b = whole(e, &q, ty, &xs[1], &ys[1], &crs, 2, parts);
    let (ta, tb) = (terms(e, "a", &a), terms(e, "b", &b));
    e.solve_draws(2, 3, 1, &zip::<X>(&tb, &ta));
    let c = whole(e, &q, ty, &xs[1], &ys[1], &crs, 3, parts);
    e.ob("one proof each", a.equ_proofs.len() == 1 && c.equ_proofs.len() == 1);
    ob_coms1(e, "x commitments", &c.xcoms.coms, &a.xcoms.coms);
    ob_coms2(e, "y commitments", &c.ycoms.coms, &a.ycoms.coms);
    for (c, a) in c.equ_proofs.iter().zip(&a.equ_proofs) {
        ob_proof(e, "proof", c, a);
    }
    e.reached("matched");
}
pub fn c03_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for ty in TYPES {
        let mut shapes = vec![(1, 1), (1, 2), (2, 1), (2, 2)];
        let extra = if thorough { vec![(3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (4, 2), (4, 4), (1, 6), (6, 1), (9, 2), (2, 9), (5, 5), (8, 8), (17, 1), (1, 17)] } else { vec![(3, 1), (1, 3), (3, 2), (3, 3), (4, 4), (5, 1), (1, 5), (9, 2)] };
        let ncore = shapes.len();
        shapes.extend(extra);
        for (i, (m, n)) in shapes.into_iter().enumerate() {
            for k in 0..m + n {
                if m + n > 5 && ![0, m - 1, m, m + n - 1].contains(&k) {
                    continue;
                }
                let parts = k % 2 == 1;
                let mut j = job!("C03", format!("{} {m}x{n} differing in {k}", ty.name()), c03(ty, m, n, k, parts));
                j.core = i < ncore;
                j.must_reach = vec!["matched".into()];
                v.push(j);
            }
        }
    }
    v
}

fn bytes<X: Eng, T: CanonicalSerialize>(e: &mut X, l: &str, o: &T, c: Compress) -> Vec<u8> {
    let mut b = vec![];
    let r = e.catch(|| o.serialize_with_mode(&mut b, c));
    e.ob(&format!("{l}: encodes"), matches!(r, Ok(Ok(()))));
    b
}
/// remove the encodings of the opening randomness: a finding, under the key of the object
fn strip<X: Eng>(e: &mut X, kind: &str, mut b: Vec<u8>, draws: &[F<X>], c: Compress) -> Vec<u8> {
    let mut found = false;
    for d in draws {
        let mut enc = vec![];
        d.serialize_with_mode(&mut enc, c).expect("scalar");
        if let Some(i) = b.windows(enc.len()).position(|w| w == enc) {
            // leave a mark: position and number of removed scalars stay visible
            b.splice(i..i + enc.len(), [0xee, 0xee]);
            found = true;
        }
    }
    if found {
        e.finding(&format!("{kind}-randomness"));
    }
    b
}
fn c27<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, k: usize, comp: bool) {
    let c = if comp { Compress::Yes } else { Compress::No };
    e.generic_draws(2);
    let crs = key(e, Key::Hiding);
    let (q, xs, ys) = two_witnesses(e, ty, m, n, k);
    let a = whole(e, &q, ty, &xs[0], &ys[0], &crs, 1, false);
    let b = whole(e, &q, ty, &xs[1], &ys[1], &crs, 2, false);
    let (ta, tb) = (terms(e, "a", &a), terms(e, "b", &b));
    e.solve_draws(2, 3, 1, &zip::<X>(&tb, &ta));
    let b = whole(e, &q, ty, &xs[1], &ys[1], &crs, 3, false);
    let da: Vec<F<X>> = e.draws(1).iter().map(|d| d.1).collect();
    let db: Vec<F<X>> = e.draws(3).iter().map(|d| d.1).collect();
    macro_rules! cmp {
        ($k:literal, $x:expr, $y:expr) => {{
            let x = bytes(e, $k, $x, c);
            let x = strip(e, $k, x, &da, c);
            let y = bytes(e, $k, $y, c);
            let y = strip(e, $k, y, &db, c);
            e.ob_bytes(&format!("encoding of {}", $k), &x, &y);
        }};
    }
    cmp!("commit1", &a.xcoms, &b.xcoms);
    cmp!("commit2", &a.ycoms, &b.ycoms);
    for (x, y) in a.xcoms.coms.iter().zip(&b.xcoms.coms) {
        cmp!("com1", x, y);
    }
    for (x, y) in a.ycoms.coms.iter().zip(&b.ycoms.coms) {
        cmp!("com2", x, y);
    }
    e.ob("as many proofs", a.equ_proofs.len() == b.equ_proofs.len());
    for (x, y) in a.equ_proofs.iter().zip(&b.equ_proofs) {
        cmp!("equproof", x, y);
    }
    e.reached("compared");
}
pub fn c27_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for ty in TYPES {
        for (m, n) in if thorough { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)] } else { vec![(1, 1), (1, 2), (2, 1), (2, 2)] } {
            for k in 0..m + n {
                for comp in [true, false] {
                    let mut j = job!("C27", format!("{} {m}x{n} differing in {k} {}", ty.name(), if comp { "compressed" } else { "uncompressed" }), c27(ty, m, n, k, comp));
                    j.must_reach = vec!["compared".into()];
                    v.push(j);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C26
fn own_randomness_only<X: Eng>(e: &mut X) {
    let f = e.foreign();
    e.ob("no randomness from another source", !f);
}
/// outputs determine every draw: `k`-th draw differing forces some output to differ
fn blinds<X: Eng>(e: &mut X, l: &str, outs: &[(Row<X>, Row<X>)], da: &[(char, F<X>)], db: &[(char, F<X>)], at_least: usize) {
    e.ob(&format!("{l}: {} draws, at least {at_least} needed", da.len()), da.len() >= at_least && da.len() == db.len());
    for (k, (a, b)) in da.iter().zip(db).enumerate() {
        // "draw k differs" as an equation with an auxiliary unknown
        let z = e.s(&format!("{l} apart {k}"));
        let mut v = outs.to_vec();
        v.push(((a.1 - b.1) * z, F::<X>::from(1u64)));
        e.ob_some_ne(&format!("{l}: outputs depend injectively on draw {k}"), &v);
    }
}
/// identical inputs, two sets of draws: outputs equal only for equal draws
fn c26_draws<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, twice: bool) {
    let crs = key(e, Key::Hiding);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let co = coef(e, "", m, n);
    let t = target(&co, &xs, &ys);
    let q = equ(e, ty, &co, t);
    let mut outs = vec![];
    let mut go = |e: &mut X, st: u32, l: &str| {
        let mut r = e.rng(st);
        let mut v = vec![];
        for k in 0..1 + twice as usize {
            let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
            v.extend(terms(e, &format!("{l}{k}"), &p));
        }
        outs.push(v);
    };
    go(e, 1, "a");
    go(e, 2, "b");
    let per = |g: bool| if g { 2 } else { 1 };
    let need = (per(ty.xg()) * m + per(ty.yg()) * n + ty.pf_draws()) * (1 + twice as usize);
    let (da, db) = (e.draws(1), e.draws(2));
    e.ob("scalars are drawn", da.iter().all(|d| d.0 == 's'));
    blinds(e, ty.name(), &zip::<X>(&outs[0], &outs[1]), &da, &db, need);
    own_randomness_only(e);
    e.reached("blinded");
}
/// commitments alone
fn c26_commit<X: Eng>(e: &mut X, side: u8, g: bool, n: usize, how: How) {
    let crs = key(e, Key::Hiding);
    let xs = vars(e, "x", n);
    let (a, b) = if side == 1 {
        let (a, b) = (commit_list1(e, g, &xs, &crs, how, 1), commit_list1(e, g, &xs, &crs, how, 2));
        (com1_terms(e, "a", &a.coms), com1_terms(e, "b", &b.coms))
    } else {
        let (a, b) = (commit_list2(e, g, &xs, &crs, how, 1), commit_list2(e, g, &xs, &crs, how, 2));
        (com2_terms(e, "a", &a.coms), com2_terms(e, "b", &b.coms))
    };
    let (da, db) = (e.draws(1), e.draws(2));
    let need = n * if g { 2 } else { 1 };
    blinds(e, "commit", &zip::<X>(&a, &b), &da, &db, need);
    own_randomness_only(e);
    e.reached("blinded");
}
/// several proofs over shared commitments, from one generator
fn c26_shared<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize) {
    let crs = key(e, Key::Hiding);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let co = coef(e, "", m, n);
    let t = target(&co, &xs, &ys);
    let q = equ(e, ty, &co, t);
    let mut r = e.rng(1);
    let xc = com1(e, ty.xg(), &xs, &crs, &mut r);
    let yc = com2(e, ty.yg(), &ys, &crs, &mut r);
    let mut outs = vec![];
    for (st, l) in [(2, "a"), (3, "b")] {
        let mut r = e.rng(st);
        let mut v = vec![];
        for k in 0..2 {
            let p = prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r);
            v.extend(com2_terms(e, &format!("{l}{k}.pi"), &p.pi));
            v.extend(com1_terms(e, &format!("{l}{k}.theta"), &p.theta));
        }
        outs.push(v);
    }
    let (da, db) = (e.draws(2), e.draws(3));
    blinds(e, "two proofs", &zip::<X>(&outs[0], &outs[1]), &da, &db, 2 * ty.pf_draws());
    own_randomness_only(e);
    e.reached("blinded");
}
/// the same inputs and draws give the same outputs, whatever was computed before
fn c26_function<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize) {
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let co = coef(e, "", m, n);
    let t = target(&co, &xs, &ys);
    let mut seen: Vec<(CRS<X::E>, CProof<X::E>, EquProof<X::E>)> = vec![];
    for round in 0..3 {
        let crs = key(e, Key::Gen);
        let q = equ(e, ty, &co, t);
        let mut r = e.rng(1);
        let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
        let mut r = e.rng(2);
        let f = prove(e, &q, &xs, &ys, &p.xcoms, &p.ycoms, &crs, &mut r);
        if let Some((crs0, p0, f0)) = seen.first() {
            let (crs0, p0, f0) = (crs0.clone(), p0.clone(), f0.clone());
            ob_coms1(e, "crs.u", &crs.u, &crs0.u);
            ob_coms2(e, "crs.v", &crs.v, &crs0.v);
            e.ob_1("crs.g1", crs.g1_gen, crs0.g1_gen);
            e.ob_2("crs.g2", crs.g2_gen, crs0.g2_gen);
            e.ob_t("crs.gt", crs.gt_gen, crs0.gt_gen);
            ob_coms1(e, "x commitments", &p.xcoms.coms, &p0.xcoms.coms);
            ob_coms2(e, "y commitments", &p.ycoms.coms, &p0.ycoms.coms);
            e.ob("one proof", p.equ_proofs.len() == 1 && p0.equ_proofs.len() == 1);
            ob_proof(e, "proof", &p.equ_proofs[0], &p0.equ_proofs[0]);
            ob_proof(e, "second proof", &f, &f0);
            e.ob("same randomness kept", p == p0 && f == f0);
        }
        seen.push((crs.clone(), p, f));
        // something else in between: another statement, other randomness, another key
        if round < 2 {
            let mut r = e.rng(50 + round);
            let k = CRS::<X::E>::generate_crs(&mut r);
            let other = TYPES[(ty as usize + 1 + round as usize) % 4];
            let z = F::<X>::zero();
            let c2 = Coef { a: vec![z; 2], b: vec![z; 1], g: vec![vec![z; 2]] };
            let q2 = equ(e, other, &c2, z);
            let p2 = commit_and_prove(e, &q2, &[z], &[z, z], &k, &mut r);
            let _ = q2.verify(&p2, &k);
        }
    }
    own_randomness_only(e);
    e.reached("repeated");
}
/// keys: every secret is a draw of its own
fn c26_crs<X: Eng>(e: &mut X, count: usize) {
    let mut outs = vec![];
    for (st, l) in [(1, "a"), (2, "b")] {
        let mut r = e.rng(st);
        let mut v = vec![];
        for k in 0..count {
            let crs = CRS::<X::E>::generate_crs(&mut r);
            e.assume_ne_1(crs.g1_gen, A1::<X>::zero_());
            e.assume_ne_2(crs.g2_gen, A2::<X>::zero_());
            v.extend(com1_terms(e, &format!("{l}{k}.u"), &crs.u));
            v.extend(com2_terms(e, &format!("{l}{k}.v"), &crs.v));
            v.push(e.dlog1(&format!("{l}{k}.g1"), crs.g1_gen));
            v.push(e.dlog2(&format!("{l}{k}.g2"), crs.g2_gen));
        }
        outs.push(v);
    }
    let (da, db) = (e.draws(1), e.draws(2));
    blinds(e, "crs", &zip::<X>(&outs[0], &outs[1]), &da, &db, 6 * count);
    own_randomness_only(e);
    e.reached("blinded");
}
trait ZeroPoint {
    fn zero_() -> Self;
}
impl<T: ark_ec::AffineRepr> ZeroPoint for T {
    fn zero_() -> T {
        T::zero()
    }
}
pub fn c26_jobs(thorough: bool) -> Vec<Job> {
    let (no, yes) = (false, true);
    let mut v = vec![];
    for count in [1usize, 2] {
        v.push(job!("C26", format!("{count} key generations"), c26_crs(count)));
    }
    for side in [1u8, 2] {
        for g in [true, false] {
            for (n, how) in [(1, How::Single), (1, How::Batch), (2, How::Batch), (3, How::Appended), (4, How::Batch), (9, How::Batch)] {
                v.push(job!("C26", format!("commit side {side} {} {n} {how:?}", if g { "group" } else { "scalar" }), c26_commit(side, g, n, how)));
            }
        }
    }
    for ty in TYPES {
        for (m, n) in if thorough { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 4)] } else { vec![(1, 1), (1, 2), (2, 1), (2, 2)] } {
            v.push(job!("C26", format!("proof {} {m}x{n}", ty.name()), c26_draws(ty, m, n, no)));
            v.push(job!("C26", format!("shared {} {m}x{n}", ty.name()), c26_shared(ty, m, n)));
            v.push(job!("C26", format!("function {} {m}x{n}", ty.name()), c26_function(ty, m, n)));
        }
        let (m, n) = (1, 1);
        v.push(job!("C26", format!("two proofs {} {m}x{n}", ty.name()), c26_draws(ty, m, n, yes)));
    }
    for j in v.iter_mut() {
        j.must_reach = vec![if j.name.starts_with("function") { "repeated".into() } else { "blinded".into() }];
    }
    v
}
