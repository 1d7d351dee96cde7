//! The interface harnesses are written against, with two implementations: the symbolic engine
//! (real library code on symbolic values) and the concrete engine (real library code on
//! BLS12-381, used to validate the encoding and to replay counterexamples).
use crate::sym::*;
use crate::term::{self, with, Cond, Draw, Id, Model, Ob, ObKind};
use ark_bls12_381::{Bls12_381, Fq, Fq12, Fq2, Fr, G1Affine, G2Affine};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, PrimeGroup};
use ark_ff::{AdditiveGroup, Field, One, PrimeField, UniformRand, Zero};
use ark_std::rand::{Rng, RngCore};
use std::collections::{HashMap, VecDeque};
use std::ops::Mul;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type ScalarOf<X> = <<X as Eng>::E as Pairing>::ScalarField;
pub type A1<X> = <<X as Eng>::E as Pairing>::G1Affine;
pub type A2<X> = <<X as Eng>::E as Pairing>::G2Affine;
pub type GT<X> = PairingOutput<<X as Eng>::E>;

pub trait Eng: Sized {
    type E: Pairing;
    type R: Rng;
    const SYMBOLIC: bool;
    /// arbitrary scalar
    fn s(&mut self, name: &str) -> ScalarOf<Self>;
    fn rng(&mut self, stream: u32) -> Self::R;
    /// 'valid unless the solver says otherwise' elements; the number identifies the validity flag
    fn bad1(&mut self, name: &str) -> (A1<Self>, u32);
    fn bad2(&mut self, name: &str) -> (A2<Self>, u32);
    fn badt(&mut self, name: &str) -> (GT<Self>, u32);
    fn flag(&mut self, f: u32) -> bool;
    /// a symbolic boolean the harness itself branches on
    fn choose(&mut self, f: u32) -> bool {
        self.flag(f)
    }

    fn assume_ne(&mut self, a: ScalarOf<Self>, b: ScalarOf<Self>);
    fn assume_eq(&mut self, a: ScalarOf<Self>, b: ScalarOf<Self>);
    fn assume_ne_t(&mut self, a: GT<Self>, b: GT<Self>);
    fn assume_ne_1(&mut self, a: A1<Self>, b: A1<Self>);
    fn assume_ne_2(&mut self, a: A2<Self>, b: A2<Self>);

    fn ob_s(&mut self, l: &str, a: ScalarOf<Self>, b: ScalarOf<Self>);
    fn ob_1(&mut self, l: &str, a: A1<Self>, b: A1<Self>);
    fn ob_2(&mut self, l: &str, a: A2<Self>, b: A2<Self>);
    fn ob_t(&mut self, l: &str, a: GT<Self>, b: GT<Self>);
    fn ob(&mut self, l: &str, holds: bool);
    /// all listed flags are false / at least one is true, on this path for every input
    fn ob_flags_clear(&mut self, l: &str, f: &[u32]);
    fn ob_some_flag(&mut self, l: &str, f: &[u32]);
    /// observed value, compared between the two engines
    fn see_s(&mut self, l: &str, a: ScalarOf<Self>);
    fn see_1(&mut self, l: &str, a: A1<Self>);
    fn see_2(&mut self, l: &str, a: A2<Self>);
    fn see_t(&mut self, l: &str, a: GT<Self>);
    fn see(&mut self, l: &str, b: bool);
    fn reached(&mut self, l: &str);
    /// discrete logarithm relative to the fixed generators (the concrete engine checks the
    /// value the symbolic run predicts)
    fn dlog1(&mut self, l: &str, a: A1<Self>) -> ScalarOf<Self>;
    fn dlog2(&mut self, l: &str, a: A2<Self>) -> ScalarOf<Self>;
    fn dlogt(&mut self, l: &str, a: GT<Self>) -> ScalarOf<Self>;
    /// values drawn so far from a stream, as (kind, value), in order
    fn draws(&mut self, stream: u32) -> Vec<(char, ScalarOf<Self>)>;
    /// under the path condition the pairs cannot all be equal
    fn ob_some_ne(&mut self, l: &str, v: &[(ScalarOf<Self>, ScalarOf<Self>)]);
    /// Find draws of stream `to` (scripted from now on) for which outputs that depend affinely on
    /// the draws of stream `from` take prescribed values: pairs (output, value), in stages.
    /// Unsolvable rows are left to the obligations of the caller.
    fn solve_draws(&mut self, from: u32, to: u32, like: u32, pairs: &[(ScalarOf<Self>, ScalarOf<Self>)]);
    /// The draws of this stream are indeterminates: comparisons ask for equality whatever they are.
    /// (For a run that only serves to learn how the outputs depend on the draws.)
    fn generic_draws(&mut self, stream: u32);
    /// two encodings carry the same constants and the same elements
    fn ob_bytes(&mut self, l: &str, a: &[u8], b: &[u8]);
    /// was randomness drawn from elsewhere than an engine stream?
    fn foreign(&mut self) -> bool;
    /// a defect this job recognises by its key
    fn finding(&mut self, key: &str);
    /// concrete comparison that is not a branch of the program
    fn same(&self, a: ScalarOf<Self>, b: ScalarOf<Self>) -> bool;
    /// switch the schedule oracle on (true) or off; with it on, every scheduling decision of
    /// rayon is a symbolic boolean
    fn schedule(&mut self, threads: Option<usize>);
    fn ob_ne(&mut self, l: &str, a: ScalarOf<Self>, b: ScalarOf<Self>) {
        self.ob_some_ne(l, &[(a, b)])
    }

    // ---- provided
    fn g1(&mut self, name: &str) -> A1<Self> {
        let s = self.s(name);
        self.mk1(s)
    }
    fn g2(&mut self, name: &str) -> A2<Self> {
        let s = self.s(name);
        self.mk2(s)
    }
    fn gt(&mut self, name: &str) -> GT<Self> {
        let s = self.s(name);
        self.mkt(s)
    }
    fn mk1(&self, s: ScalarOf<Self>) -> A1<Self> {
        A1::<Self>::generator().mul(s).into_affine()
    }
    fn mk2(&self, s: ScalarOf<Self>) -> A2<Self> {
        A2::<Self>::generator().mul(s).into_affine()
    }
    fn mkt(&self, s: ScalarOf<Self>) -> GT<Self> {
        Self::E::pairing(A1::<Self>::generator(), A2::<Self>::generator()) * s
    }
    /// as `catch`, for library calls made through harness helpers that need the engine
    fn catch_with<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(v) => Ok(v),
            Err(e) => {
                let m = panic_msg(&e);
                if m.starts_with("UNSUPPORTED") {
                    resume_unwind(e)
                }
                Err(m)
            }
        }
    }
    /// run `f`; a panic of the library becomes Err(message)
    fn catch<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(e) => {
                let m = panic_msg(&e);
                if m.starts_with("UNSUPPORTED") {
                    resume_unwind(e)
                }
                Err(m)
            }
        }
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------------ symbolic
pub struct SymEng {
    pub nflags: u32,
}
impl SymEng {
    pub fn new() -> Self {
        SymEng { nflags: 0 }
    }
    fn newflag(&mut self, name: &str) -> u32 {
        self.nflags += 1;
        // distinct powers of two are not needed: flagged elements never take part in arithmetic
        let f = self.nflags;
        with(|a| a.flag_names.push(format!("flag{f}={name}")));
        f
    }
}
fn ob(l: &str, kind: ObKind) {
    with(|a| {
        let pc = a.conds.len();
        a.obs.push(Ob { label: l.to_string(), kind, pc })
    })
}
fn see(l: &str, k: char, id: Id) {
    with(|a| a.values_seen.push((l.to_string(), k, id)))
}
impl Eng for SymEng {
    type E = SymE;
    type R = SymRng;
    const SYMBOLIC: bool = true;
    fn s(&mut self, name: &str) -> S {
        S(with(|a| a.var(name)))
    }
    fn rng(&mut self, stream: u32) -> SymRng {
        SymRng { stream, ctr: 0 }
    }
    fn bad1(&mut self, name: &str) -> (Af<1>, u32) {
        let f = self.newflag(name);
        (Af(self.s(name).0, f), f)
    }
    fn bad2(&mut self, name: &str) -> (Af<2>, u32) {
        let f = self.newflag(name);
        (Af(self.s(name).0, f), f)
    }
    fn badt(&mut self, name: &str) -> (PairingOutput<SymE>, u32) {
        let f = self.newflag(name);
        (PairingOutput(T(self.s(name).0, f)), f)
    }
    fn flag(&mut self, f: u32) -> bool {
        with(|a| a.flag_val(f))
    }
    fn choose(&mut self, f: u32) -> bool {
        with(|a| a.flag(f))
    }
    fn assume_ne(&mut self, a: S, b: S) {
        with(|ar| ar.log(Cond::AssumeNe(a.0, b.0)))
    }
    fn assume_eq(&mut self, a: S, b: S) {
        with(|ar| ar.log(Cond::AssumeEq(a.0, b.0)))
    }
    fn assume_ne_t(&mut self, a: PairingOutput<SymE>, b: PairingOutput<SymE>) {
        with(|ar| ar.log(Cond::AssumeNe(a.0 .0, b.0 .0)))
    }
    fn assume_ne_1(&mut self, a: Af<1>, b: Af<1>) {
        with(|ar| ar.log(Cond::AssumeNe(a.0, b.0)))
    }
    fn assume_ne_2(&mut self, a: Af<2>, b: Af<2>) {
        with(|ar| ar.log(Cond::AssumeNe(a.0, b.0)))
    }
    fn ob_s(&mut self, l: &str, a: S, b: S) {
        ob(l, ObKind::Eq(a.0, b.0))
    }
    fn ob_1(&mut self, l: &str, a: Af<1>, b: Af<1>) {
        if a.1 != b.1 {
            ob(l, ObKind::Fact(false))
        }
        ob(l, ObKind::Eq(a.0, b.0))
    }
    fn ob_2(&mut self, l: &str, a: Af<2>, b: Af<2>) {
        if a.1 != b.1 {
            ob(l, ObKind::Fact(false))
        }
        ob(l, ObKind::Eq(a.0, b.0))
    }
    fn ob_t(&mut self, l: &str, a: PairingOutput<SymE>, b: PairingOutput<SymE>) {
        if a.0 .0 == TZERO || b.0 .0 == TZERO || a.0 .1 != b.0 .1 {
            ob(l, ObKind::Fact(a.0 .0 == b.0 .0 && a.0 .1 == b.0 .1))
        } else {
            ob(l, ObKind::Eq(a.0 .0, b.0 .0))
        }
    }
    fn ob(&mut self, l: &str, holds: bool) {
        ob(l, ObKind::Fact(holds))
    }
    fn ob_flags_clear(&mut self, l: &str, f: &[u32]) {
        ob(l, ObKind::FlagsClear(f.to_vec()))
    }
    fn ob_some_flag(&mut self, l: &str, f: &[u32]) {
        ob(l, ObKind::SomeFlag(f.to_vec()))
    }
    fn see_s(&mut self, l: &str, a: S) {
        see(l, 's', a.0)
    }
    fn see_1(&mut self, l: &str, a: Af<1>) {
        see(l, '1', a.0)
    }
    fn see_2(&mut self, l: &str, a: Af<2>) {
        see(l, '2', a.0)
    }
    fn see_t(&mut self, l: &str, a: PairingOutput<SymE>) {
        see(l, 't', a.0 .0)
    }
    fn see(&mut self, l: &str, b: bool) {
        see(l, 'b', b as Id)
    }
    fn reached(&mut self, l: &str) {
        with(|a| a.reached.push(l.to_string()))
    }
    fn dlog1(&mut self, l: &str, a: Af<1>) -> S {
        self.see_1(l, a);
        S(a.0)
    }
    fn dlog2(&mut self, l: &str, a: Af<2>) -> S {
        self.see_2(l, a);
        S(a.0)
    }
    fn dlogt(&mut self, l: &str, a: PairingOutput<SymE>) -> S {
        self.see_t(l, a);
        S(if a.0 .0 == TZERO { 0 } else { a.0 .0 })
    }
    fn draws(&mut self, stream: u32) -> Vec<(char, S)> {
        with(|a| {
            let mut v: Vec<&Draw> = a.draws.iter().filter(|d| d.stream == stream).collect();
            v.sort_by_key(|d| d.ctr);
            v.iter().map(|d| (d.kind, S(d.id))).collect()
        })
    }
    fn same(&self, a: S, b: S) -> bool {
        with(|ar| ar.val(a.0) == ar.val(b.0))
    }
    fn generic_draws(&mut self, stream: u32) {
        with(|a| a.generic = Some(stream))
    }
    fn solve_draws(&mut self, from: u32, to: u32, like: u32, pairs: &[(S, S)]) {
        let p: Vec<(Id, Id)> = pairs.iter().map(|(a, b)| (a.0, b.0)).collect();
        if let Err(m) = crate::affine::solve_draws(from, to, like, &p) {
            panic!("UNSUPPORTED: {m}")
        }
    }
    fn ob_bytes(&mut self, l: &str, a: &[u8], b: &[u8]) {
        self.ob(&format!("{l}: same length"), a.len() == b.len());
        let mut i = 0;
        while i < a.len().min(b.len()) {
            match (token(&a[i..]), token(&b[i..])) {
                (Some((k, x, n)), Some((k2, y, n2))) => {
                    if k != k2 || n != n2 || a[i + 6..i + 10] != b[i + 6..i + 10] {
                        self.ob(&format!("{l}: same kind of element at {i}"), false);
                        return;
                    }
                    ob(&format!("{l}: element at byte {i}"), ObKind::Eq(x, y));
                    i += n;
                }
                _ => {
                    if a[i] != b[i] {
                        self.ob(&format!("{l}: byte {i}"), false);
                        return;
                    }
                    i += 1;
                }
            }
        }
    }
    fn foreign(&mut self) -> bool {
        with(|a| a.notes.iter().any(|n| n.contains("other than the caller")))
    }
    fn finding(&mut self, key: &str) {
        with(|a| a.findings.push(key.to_string()))
    }
    fn schedule(&mut self, threads: Option<usize>) {
        match threads {
            Some(n) => {
                rayon_core::sched::set_threads(n);
                rayon_core::sched::set_oracle(Some(|| {
                    with(|a| {
                        let k = SCHED_BASE + a.sched_ctr;
                        a.sched_ctr += 1;
                        a.flag(k)
                    })
                }));
            }
            None => {
                rayon_core::sched::set_oracle(None);
                rayon_core::sched::drain();
                rayon_core::sched::set_threads(1);
            }
        }
    }
    fn ob_some_ne(&mut self, l: &str, v: &[(S, S)]) {
        ob(l, ObKind::SomeNe(v.iter().map(|(a, b)| (a.0, b.0)).collect()))
    }
}

// ------------------------------------------------------------------ concrete
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(Fr),
    P1(G1Affine),
    P2(G2Affine),
    T(PairingOutput<Bls12_381>),
    B(bool),
}
pub struct BlsEng {
    pub model: Model,
    pub seed: u64,
    pub draws: Vec<(u32, u32, char, Fr)>,
    pub nflags: u32,
    pub failed: Vec<String>,
    pub assumptions_ok: bool,
    pub seen: Vec<(String, Val)>,
    pub reached: Vec<String>,
    /// values the symbolic run predicts for `dlog*` labels
    pub predicted: HashMap<String, Fr>,
    sched_ctr: u32,
    pub findings: Vec<String>,
}
/// flags from here on are scheduling decisions
pub const SCHED_BASE: u32 = 1_000_000;
static BLS_SCHED: std::sync::Mutex<Option<(u32, HashMap<u32, bool>)>> = std::sync::Mutex::new(None);
impl BlsEng {
    pub fn new(model: Model, seed: u64, draws: Vec<(u32, u32, char, Fr)>, predicted: HashMap<String, Fr>) -> Self {
        BlsEng { predicted, findings: vec![], sched_ctr: 0, model, seed, draws, nflags: 0, failed: vec![], assumptions_ok: true, seen: vec![], reached: vec![] }
    }
    fn pred(&mut self, l: &str, ok: impl Fn(Fr) -> bool) -> Fr {
        match self.predicted.get(l) {
            Some(v) if ok(*v) => *v,
            _ => panic!("UNSUPPORTED: discrete logarithm of {l} not as predicted"),
        }
    }
    fn need(&mut self, l: &str, ok: bool) {
        if !ok {
            self.failed.push(l.to_string())
        }
    }
}
pub struct ScriptRng {
    q: VecDeque<u64>,
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.q.pop_front() {
            Some(v) => v,
            None => panic!("UNSUPPORTED: scripted randomness exhausted"),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let x = self.next_u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn script_point<P: SWCurveConfig>(target: Affine<P>, limbs: impl Fn(&P::BaseField) -> Vec<u64>) -> Vec<u64> {
    if target.is_zero() {
        panic!("UNSUPPORTED: identity cannot be scripted as a random point");
    }
    let hinv = P::COFACTOR_INV;
    let q: Affine<P> = target.mul(hinv).into_affine();
    let (x, y) = q.xy().unwrap();
    let mut out = limbs(&x);
    for g in [false, true] {
        if let Some(p) = Affine::<P>::get_point_from_x_unchecked(x, g) {
            if p.y == y {
                out.push(if g { 0x8000_0000 } else { 0 });
                return out;
            }
        }
    }
    panic!("UNSUPPORTED: scripting a random point");
}
fn fq_limbs(x: &Fq) -> Vec<u64> {
    x.0 .0.to_vec()
}
/// a point without component in the prime-order subgroup
fn torsion<P: SWCurveConfig>() -> Affine<P> {
    off_subgroup::<P>().mul_bigint(P::ScalarField::MODULUS).into_affine()
}
fn off_subgroup<P: SWCurveConfig>() -> Affine<P> {
    let mut k = 1u64;
    loop {
        if let Some(p) = Affine::<P>::get_point_from_x_unchecked(P::BaseField::from(k), false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
        k += 1;
    }
}
impl Eng for BlsEng {
    type E = Bls12_381;
    type R = ScriptRng;
    const SYMBOLIC: bool = false;
    fn s(&mut self, name: &str) -> Fr {
        match self.model.vars.get(name) {
            Some(v) => *v,
            None => term::hash_fr(self.seed, name),
        }
    }
    fn rng(&mut self, stream: u32) -> ScriptRng {
        let mut d: Vec<_> = self.draws.iter().filter(|d| d.0 == stream).cloned().collect();
        d.sort_by_key(|d| d.1);
        d.dedup_by_key(|d| d.1);
        let mut q = vec![];
        for (_, _, kind, v) in d {
            match kind {
                's' => q.extend(v.0 .0.iter().cloned()),
                '1' => q.extend(script_point(G1Affine::generator().mul(v).into_affine(), fq_limbs)),
                '2' => q.extend(script_point(G2Affine::generator().mul(v).into_affine(), |x: &Fq2| {
                    let mut l = fq_limbs(&x.c0);
                    l.extend(fq_limbs(&x.c1));
                    l
                })),
                _ => panic!("UNSUPPORTED: raw draw"),
            }
        }
        ScriptRng { q: q.into() }
    }
    fn bad1(&mut self, name: &str) -> (G1Affine, u32) {
        self.nflags += 1;
        let f = self.nflags;
        if self.flag(f) {
            let t: G1Affine = torsion();
            let t = if self.flag(term::SIGN + f) { -t } else { t };
            let t = if self.flag(term::TWICE + f) { (t + t).into_affine() } else { t };
            ((self.g1(name) + t).into_affine(), f)
        } else {
            (self.g1(name), f)
        }
    }
    fn bad2(&mut self, name: &str) -> (G2Affine, u32) {
        self.nflags += 1;
        let f = self.nflags;
        if self.flag(f) {
            let t: G2Affine = torsion();
            let t = if self.flag(term::SIGN + f) { -t } else { t };
            let t = if self.flag(term::TWICE + f) { (t + t).into_affine() } else { t };
            ((self.g2(name) + t).into_affine(), f)
        } else {
            (self.g2(name), f)
        }
    }
    fn badt(&mut self, name: &str) -> (PairingOutput<Bls12_381>, u32) {
        self.nflags += 1;
        let f = self.nflags;
        if self.flag(f) {
            // an element of the cyclotomic subgroup whose order is prime to r
            let mut w = Fq12::one();
            w.c0.c0.c0 = Fq::from(2u64);
            w.c0.c1.c0 = Fq::from(3u64);
            w.c1.c2.c1 = Fq::from(5u64);
            let mut x = w;
            x.conjugate_in_place();
            x /= w;
            let mut y = x;
            y.frobenius_map_in_place(2);
            let z = (y * x).pow(Fr::MODULUS);
            let z = if self.flag(term::SIGN + f) { z.inverse().unwrap() } else { z };
            let z = if self.flag(term::TWICE + f) { z * z } else { z };
            (PairingOutput(self.gt(name).0 * z), f)
        } else {
            (self.gt(name), f)
        }
    }
    fn flag(&mut self, f: u32) -> bool {
        *self.model.flags.get(&f).unwrap_or(&false)
    }
    fn assume_ne(&mut self, a: Fr, b: Fr) {
        self.assumptions_ok &= a != b
    }
    fn assume_eq(&mut self, a: Fr, b: Fr) {
        self.assumptions_ok &= a == b
    }
    fn assume_ne_t(&mut self, a: PairingOutput<Bls12_381>, b: PairingOutput<Bls12_381>) {
        self.assumptions_ok &= a != b
    }
    fn assume_ne_1(&mut self, a: G1Affine, b: G1Affine) {
        self.assumptions_ok &= a != b
    }
    fn assume_ne_2(&mut self, a: G2Affine, b: G2Affine) {
        self.assumptions_ok &= a != b
    }
    fn ob_s(&mut self, l: &str, a: Fr, b: Fr) {
        self.need(l, a == b)
    }
    fn ob_1(&mut self, l: &str, a: G1Affine, b: G1Affine) {
        self.need(l, a == b)
    }
    fn ob_2(&mut self, l: &str, a: G2Affine, b: G2Affine) {
        self.need(l, a == b)
    }
    fn ob_t(&mut self, l: &str, a: PairingOutput<Bls12_381>, b: PairingOutput<Bls12_381>) {
        self.need(l, a == b)
    }
    fn ob(&mut self, l: &str, holds: bool) {
        self.need(l, holds)
    }
    fn ob_flags_clear(&mut self, l: &str, f: &[u32]) {
        let ok = f.iter().all(|x| !self.flag(*x));
        self.need(l, ok)
    }
    fn ob_some_flag(&mut self, l: &str, f: &[u32]) {
        let ok = f.iter().any(|x| self.flag(*x));
        self.need(l, ok)
    }
    fn see_s(&mut self, l: &str, a: Fr) {
        self.seen.push((l.into(), Val::S(a)))
    }
    fn see_1(&mut self, l: &str, a: G1Affine) {
        self.seen.push((l.into(), Val::P1(a)))
    }
    fn see_2(&mut self, l: &str, a: G2Affine) {
        self.seen.push((l.into(), Val::P2(a)))
    }
    fn see_t(&mut self, l: &str, a: PairingOutput<Bls12_381>) {
        self.seen.push((l.into(), Val::T(a)))
    }
    fn see(&mut self, l: &str, b: bool) {
        self.seen.push((l.into(), Val::B(b)))
    }
    fn reached(&mut self, l: &str) {
        self.reached.push(l.to_string())
    }
    fn dlog1(&mut self, l: &str, a: G1Affine) -> Fr {
        self.see_1(l, a);
        self.pred(l, |v| G1Affine::generator().mul(v).into_affine() == a)
    }
    fn dlog2(&mut self, l: &str, a: G2Affine) -> Fr {
        self.see_2(l, a);
        self.pred(l, |v| G2Affine::generator().mul(v).into_affine() == a)
    }
    fn dlogt(&mut self, l: &str, a: PairingOutput<Bls12_381>) -> Fr {
        self.see_t(l, a);
        self.pred(l, |v| Bls12_381::pairing(G1Affine::generator(), G2Affine::generator()) * v == a)
    }
    fn draws(&mut self, stream: u32) -> Vec<(char, Fr)> {
        let mut d: Vec<_> = self.draws.iter().filter(|d| d.0 == stream).cloned().collect();
        d.sort_by_key(|d| d.1);
        d.iter().map(|d| (d.2, d.3)).collect()
    }
    fn same(&self, a: Fr, b: Fr) -> bool {
        a == b
    }
    fn generic_draws(&mut self, _: u32) {}
    fn solve_draws(&mut self, _: u32, _: u32, _: u32, _: &[(Fr, Fr)]) {}
    fn ob_bytes(&mut self, l: &str, a: &[u8], b: &[u8]) {
        self.need(l, a == b)
    }
    fn foreign(&mut self) -> bool {
        false
    }
    fn finding(&mut self, key: &str) {
        self.findings.push(key.to_string())
    }
    fn schedule(&mut self, threads: Option<usize>) {
        match threads {
            Some(n) => {
                *BLS_SCHED.lock().unwrap_or_else(|e| e.into_inner()) = Some((self.sched_ctr, self.model.flags.clone()));
                rayon_core::sched::set_threads(n);
                rayon_core::sched::set_oracle(Some(|| {
                    let mut g = BLS_SCHED.lock().unwrap_or_else(|e| e.into_inner());
                    let (c, f) = g.as_mut().unwrap();
                    let k = SCHED_BASE + *c;
                    *c += 1;
                    *f.get(&k).unwrap_or(&false)
                }));
            }
            None => {
                rayon_core::sched::set_oracle(None);
                rayon_core::sched::drain();
                rayon_core::sched::set_threads(1);
                if let Some((c, _)) = BLS_SCHED.lock().unwrap_or_else(|e| e.into_inner()).take() {
                    self.sched_ctr = c;
                }
            }
        }
    }
    fn ob_some_ne(&mut self, l: &str, v: &[(Fr, Fr)]) {
        let ok = v.iter().any(|(a, b)| a != b);
        self.need(l, ok)
    }
}
/// does the concrete observation equal what the symbolic run predicted?
pub fn matches(v: &Val, kind: char, pred: Fr) -> bool {
    match (v, kind) {
        (Val::S(x), 's') => *x == pred,
        (Val::P1(p), '1') => *p == G1Affine::generator().mul(pred).into_affine(),
        (Val::P2(p), '2') => *p == G2Affine::generator().mul(pred).into_affine(),
        (Val::T(t), 't') => *t == Bls12_381::pairing(G1Affine::generator(), G2Affine::generator()) * pred,
        (Val::B(b), 'b') => Fr::from(*b as u64) == pred,
        _ => false,
    }
}
