//! What every property's harness is made of: equations, witnesses, keys.
use crate::eng::*;
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::*;
use std::ops::Mul;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    P,
    M1,
    M2,
    Q,
}
pub const TYPES: [Ty; 4] = [Ty::P, Ty::M1, Ty::M2, Ty::Q];
impl Ty {
    pub fn xg(self) -> bool {
        matches!(self, Ty::P | Ty::M1)
    }
    pub fn yg(self) -> bool {
        matches!(self, Ty::P | Ty::M2)
    }
    pub fn equ_type(self) -> EquType {
        match self {
            Ty::P => EquType::PairingProduct,
            Ty::M1 => EquType::MultiScalarG1,
            Ty::M2 => EquType::MultiScalarG2,
            Ty::Q => EquType::Quadratic,
        }
    }
    pub fn sizes(self) -> (usize, usize) {
        match self {
            Ty::P => (2, 2),
            Ty::M1 => (2, 1),
            Ty::M2 => (1, 2),
            Ty::Q => (1, 1),
        }
    }
    /// independent scalars that must blind a proof
    pub fn pf_draws(self) -> usize {
        let (p, t) = self.sizes();
        p * t
    }
    pub fn name(self) -> &'static str {
        match self {
            Ty::P => "ppe",
            Ty::M1 => "msmeg1",
            Ty::M2 => "msmeg2",
            Ty::Q => "quad",
        }
    }
}

pub type F<X> = ScalarOf<X>;
pub type Mx<T> = Vec<Vec<T>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Equ<E: Pairing> {
    P(PPE<E>),
    M1(MSMEG1<E>),
    M2(MSMEG2<E>),
    Q(QuadEqu<E>),
}

/// coefficients of an equation, all as scalars (group constants are multiples of the generators)
#[derive(Clone)]
pub struct Coef<T> {
    pub a: Vec<T>,
    pub b: Vec<T>,
    pub g: Mx<T>,
}
/// Positions that stay symbolic in long lists; all others become fixed numbers.
pub fn kept(i: usize, n: usize) -> bool {
    n <= 17 || i < 2 || i == n / 2 || i + 2 >= n
}
fn fixed<T: ark_ff::Field>(name: &str) -> T {
    let mut h = 0xcbf29ce484222325u64;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    T::from((h >> 33) | 1)
}
pub fn vars<X: Eng>(e: &mut X, p: &str, n: usize) -> Vec<F<X>> {
    (0..n)
        .map(|i| {
            let nm = format!("{p}{i}");
            if kept(i, n) {
                e.s(&nm)
            } else {
                fixed(&nm)
            }
        })
        .collect()
}
pub fn mat<X: Eng>(e: &mut X, p: &str, m: usize, n: usize) -> Mx<F<X>> {
    let big = m * n > 80;
    let k = |i: usize, n: usize| if big { i < 2 || i + 1 == n } else { true };
    (0..m)
        .map(|i| {
            (0..n)
                .map(|j| {
                    let nm = format!("{p}{i}_{j}");
                    if kept(i, m) && kept(j, n) && k(i, m) && k(j, n) {
                        e.s(&nm)
                    } else {
                        fixed(&nm)
                    }
                })
                .collect()
        })
        .collect()
}
pub fn coef<X: Eng>(e: &mut X, p: &str, m: usize, n: usize) -> Coef<F<X>> {
    Coef { a: vars(e, &format!("{p}a"), n), b: vars(e, &format!("{p}b"), m), g: mat(e, &format!("{p}g"), m, n) }
}
pub fn target<T: ark_ff::Field>(c: &Coef<T>, xs: &[T], ys: &[T]) -> T {
    let mut t = T::zero();
    for (a, y) in c.a.iter().zip(ys) {
        t += *a * y;
    }
    for (b, x) in c.b.iter().zip(xs) {
        t += *b * x;
    }
    for (i, x) in xs.iter().enumerate() {
        for (j, y) in ys.iter().enumerate() {
            t += c.g[i][j] * x * y;
        }
    }
    t
}
pub fn g1s<X: Eng>(e: &X, v: &[F<X>]) -> Vec<A1<X>> {
    v.iter().map(|s| e.mk1(*s)).collect()
}
pub fn g2s<X: Eng>(e: &X, v: &[F<X>]) -> Vec<A2<X>> {
    v.iter().map(|s| e.mk2(*s)).collect()
}
pub fn equ<X: Eng>(e: &X, ty: Ty, c: &Coef<F<X>>, t: F<X>) -> Equ<X::E> {
    match ty {
        Ty::P => Equ::P(PPE { a_consts: g1s(e, &c.a), b_consts: g2s(e, &c.b), gamma: c.g.clone(), target: e.mkt(t) }),
        Ty::M1 => Equ::M1(MSMEG1 { a_consts: g1s(e, &c.a), b_consts: c.b.clone(), gamma: c.g.clone(), target: e.mk1(t) }),
        Ty::M2 => Equ::M2(MSMEG2 { a_consts: c.a.clone(), b_consts: g2s(e, &c.b), gamma: c.g.clone(), target: e.mk2(t) }),
        Ty::Q => Equ::Q(QuadEqu { a_consts: c.a.clone(), b_consts: c.b.clone(), gamma: c.g.clone(), target: t }),
    }
}
impl<E: Pairing> Equ<E> {
    pub fn verify(&self, p: &CProof<E>, crs: &CRS<E>) -> bool {
        match self {
            Equ::P(q) => q.verify(p, crs),
            Equ::M1(q) => q.verify(p, crs),
            Equ::M2(q) => q.verify(p, crs),
            Equ::Q(q) => q.verify(p, crs),
        }
    }
    pub fn get_type(&self) -> EquType {
        match self {
            Equ::P(q) => q.get_type(),
            Equ::M1(q) => q.get_type(),
            Equ::M2(q) => q.get_type(),
            Equ::Q(q) => q.get_type(),
        }
    }
}
pub fn prove<X: Eng>(
    e: &X,
    q: &Equ<X::E>,
    xs: &[F<X>],
    ys: &[F<X>],
    xc: &Commit1<X::E>,
    yc: &Commit2<X::E>,
    crs: &CRS<X::E>,
    rng: &mut X::R,
) -> EquProof<X::E> {
    match q {
        Equ::P(q) => q.prove(&g1s(e, xs), &g2s(e, ys), xc, yc, crs, rng),
        Equ::M1(q) => q.prove(&g1s(e, xs), ys, xc, yc, crs, rng),
        Equ::M2(q) => q.prove(xs, &g2s(e, ys), xc, yc, crs, rng),
        Equ::Q(q) => q.prove(xs, ys, xc, yc, crs, rng),
    }
}
pub fn commit_and_prove<X: Eng>(
    e: &X,
    q: &Equ<X::E>,
    xs: &[F<X>],
    ys: &[F<X>],
    crs: &CRS<X::E>,
    rng: &mut X::R,
) -> CProof<X::E> {
    match q {
        Equ::P(q) => q.commit_and_prove(&g1s(e, xs), &g2s(e, ys), crs, rng),
        Equ::M1(q) => q.commit_and_prove(&g1s(e, xs), ys, crs, rng),
        Equ::M2(q) => q.commit_and_prove(xs, &g2s(e, ys), crs, rng),
        Equ::Q(q) => q.commit_and_prove(xs, ys, crs, rng),
    }
}
pub fn com1<X: Eng>(e: &X, group: bool, xs: &[F<X>], crs: &CRS<X::E>, rng: &mut X::R) -> Commit1<X::E> {
    if group {
        batch_commit_G1(&g1s(e, xs), crs, rng)
    } else {
        batch_commit_scalar_to_B1(xs, crs, rng)
    }
}
pub fn com2<X: Eng>(e: &X, group: bool, ys: &[F<X>], crs: &CRS<X::E>, rng: &mut X::R) -> Commit2<X::E> {
    if group {
        batch_commit_G2(&g2s(e, ys), crs, rng)
    } else {
        batch_commit_scalar_to_B2(ys, crs, rng)
    }
}
pub fn single1<X: Eng>(e: &X, group: bool, x: F<X>, crs: &CRS<X::E>, rng: &mut X::R) -> Commit1<X::E> {
    if group {
        commit_G1(&e.mk1(x), crs, rng)
    } else {
        commit_scalar_to_B1(&x, crs, rng)
    }
}
pub fn single2<X: Eng>(e: &X, group: bool, y: F<X>, crs: &CRS<X::E>, rng: &mut X::R) -> Commit2<X::E> {
    if group {
        commit_G2(&e.mk2(y), crs, rng)
    } else {
        commit_scalar_to_B2(&y, crs, rng)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    /// the library's generator, stream 90
    Gen,
    /// (p,ap), (tp,tap)
    Binding,
    /// (p,ap), (tp,tap-p)
    Hiding,
    /// a binding key with fixed numbers (for large shapes)
    Fixed,
}
pub const CRS_STREAM: u32 = 90;
/// A key of the given kind, every parameter symbolic, generators not the identity.
pub fn key<X: Eng>(e: &mut X, k: Key) -> CRS<X::E> {
    match k {
        Key::Gen => {
            let mut r = e.rng(CRS_STREAM);
            let crs = CRS::<X::E>::generate_crs(&mut r);
            e.assume_ne_1(crs.g1_gen, A1::<X>::zero());
            e.assume_ne_2(crs.g2_gen, A2::<X>::zero());
            crs
        }
        Key::Fixed => {
            let f = |n: u64| F::<X>::from(n);
            key_of(e, Key::Binding, [f(7), f(11)], [f(1009), f(2003)], [f(30011), f(40009)])
        }
        _ => {
            let p = [e.s("p1"), e.s("p2")];
            let a = [e.s("a1"), e.s("a2")];
            let t = [e.s("t1"), e.s("t2")];
            key_of(e, k, p, a, t)
        }
    }
}
pub fn key_of<X: Eng>(e: &mut X, k: Key, p: [F<X>; 2], a: [F<X>; 2], t: [F<X>; 2]) -> CRS<X::E> {
    let z = F::<X>::zero();
    e.assume_ne(p[0], z);
    e.assume_ne(p[1], z);
    let mut w = [t[0] * a[0] * p[0], t[1] * a[1] * p[1]];
    if k == Key::Hiding {
        w[0] -= p[0];
        w[1] -= p[1];
    }
    CRS {
        u: vec![Com1(e.mk1(p[0]), e.mk1(a[0] * p[0])), Com1(e.mk1(t[0] * p[0]), e.mk1(w[0]))],
        v: vec![Com2(e.mk2(p[1]), e.mk2(a[1] * p[1])), Com2(e.mk2(t[1] * p[1]), e.mk2(w[1]))],
        g1_gen: e.mk1(p[0]),
        g2_gen: e.mk2(p[1]),
        gt_gen: e.mkt(p[0] * p[1]),
    }
}

/// A proof object of the given sizes with arbitrary contents (honest dummies, then every public
/// field overwritten).
pub fn any_cproof<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, pi: usize, th: usize, crs: &CRS<X::E>) -> CProof<X::E> {
    let mut p = dummy_cproof(e, ty, m, n, crs);
    for i in 0..m {
        p.xcoms.coms[i] = Com1(e.g1(&format!("c{i}_0")), e.g1(&format!("c{i}_1")));
    }
    for j in 0..n {
        p.ycoms.coms[j] = Com2(e.g2(&format!("d{j}_0")), e.g2(&format!("d{j}_1")));
    }
    p.equ_proofs[0].pi = (0..pi).map(|i| Com2(e.g2(&format!("pi{i}_0")), e.g2(&format!("pi{i}_1")))).collect();
    p.equ_proofs[0].theta = (0..th).map(|i| Com1(e.g1(&format!("th{i}_0")), e.g1(&format!("th{i}_1")))).collect();
    p
}
pub const DUMMY_STREAM: u32 = 91;
pub fn dummy_cproof<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, crs: &CRS<X::E>) -> CProof<X::E> {
    let z = F::<X>::zero();
    let c = Coef { a: vec![z; n], b: vec![z; m], g: vec![vec![z; n]; m] };
    let q = equ(e, ty, &c, z);
    let mut r = e.rng(DUMMY_STREAM);
    commit_and_prove(e, &q, &vec![z; m], &vec![z; n], crs, &mut r)
}
pub fn see_com1<X: Eng>(e: &mut X, l: &str, c: &Com1<X::E>) {
    e.see_1(&format!("{l}.0"), c.0);
    e.see_1(&format!("{l}.1"), c.1);
}
pub fn see_com2<X: Eng>(e: &mut X, l: &str, c: &Com2<X::E>) {
    e.see_2(&format!("{l}.0"), c.0);
    e.see_2(&format!("{l}.1"), c.1);
}
pub fn see_cproof<X: Eng>(e: &mut X, l: &str, p: &CProof<X::E>) {
    for (i, c) in p.xcoms.coms.iter().enumerate() {
        see_com1(e, &format!("{l}.x{i}"), c);
    }
    for (i, c) in p.ycoms.coms.iter().enumerate() {
        see_com2(e, &format!("{l}.y{i}"), c);
    }
    for q in p.equ_proofs.iter() {
        see_proof(e, l, q);
    }
}
pub fn see_proof<X: Eng>(e: &mut X, l: &str, q: &EquProof<X::E>) {
    for (i, c) in q.pi.iter().enumerate() {
        see_com2(e, &format!("{l}.pi{i}"), c);
    }
    for (i, c) in q.theta.iter().enumerate() {
        see_com1(e, &format!("{l}.theta{i}"), c);
    }
}
pub fn ob_com1<X: Eng>(e: &mut X, l: &str, a: &Com1<X::E>, b: &Com1<X::E>) {
    e.ob_1(&format!("{l}.0"), a.0, b.0);
    e.ob_1(&format!("{l}.1"), a.1, b.1);
}
pub fn ob_com2<X: Eng>(e: &mut X, l: &str, a: &Com2<X::E>, b: &Com2<X::E>) {
    e.ob_2(&format!("{l}.0"), a.0, b.0);
    e.ob_2(&format!("{l}.1"), a.1, b.1);
}
pub fn ob_coms1<X: Eng>(e: &mut X, l: &str, a: &[Com1<X::E>], b: &[Com1<X::E>]) {
    e.ob(&format!("{l}: lengths {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ob_com1(e, &format!("{l}[{i}]"), x, y);
    }
}
pub fn ob_coms2<X: Eng>(e: &mut X, l: &str, a: &[Com2<X::E>], b: &[Com2<X::E>]) {
    e.ob(&format!("{l}: lengths {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ob_com2(e, &format!("{l}[{i}]"), x, y);
    }
}
pub fn ob_proof<X: Eng>(e: &mut X, l: &str, a: &EquProof<X::E>, b: &EquProof<X::E>) {
    ob_coms2(e, &format!("{l}.pi"), &a.pi, &b.pi);
    ob_coms1(e, &format!("{l}.theta"), &a.theta, &b.theta);
    e.ob(&format!("{l}.type"), a.equ_type == b.equ_type);
}
