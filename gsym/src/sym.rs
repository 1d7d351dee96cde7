//! `SymE`: an implementation of `ark_ec::pairing::Pairing` whose scalars, group elements and
//! target-group elements are symbolic terms (group elements are represented by their discrete
//! logarithm relative to the fixed generator).  Instantiating the library's generic code with
//! `SymE` executes the real code symbolically.
use crate::term::*;
use ark_bls12_381::{Fq, Fr};
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, PrimeGroup, ScalarMul, VariableBaseMSM};
use ark_ff::{
    AdditiveGroup, BigInt, BigInteger, CyclotomicMultSubgroup, FftField, Field, LegendreSymbol, One, PrimeField,
    SqrtPrecomputation, Zero,
};
use ark_serialize::*;
use ark_std::rand::distributions::{Distribution, Standard};
use ark_std::rand::{Rng, RngCore};
use num_bigint::BigUint;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;
use zeroize::Zeroize;

const MAGIC: u64 = 0x5359_4d48;
const RNG_MAGIC: u64 = 0xA5C3;

fn unsupported(what: &str) -> ! {
    panic!("UNSUPPORTED: {what}")
}

// ---------------------------------------------------------------- scalars
#[derive(Clone, Copy)]
pub struct S(pub Id);
/// Group element of G1 (K=1) or G2 (K=2), affine
#[derive(Clone, Copy)]
pub struct Af<const K: u8>(pub Id, pub u32);
/// same, projective
#[derive(Clone, Copy)]
pub struct Pj<const K: u8>(pub Id, pub u32);
/// Element of the multiplicative target field; .0 is the exponent of e(g1,g2)
#[derive(Clone, Copy)]
pub struct T(pub Id, pub u32);
pub const TZERO: Id = u32::MAX;

fn k(v: Fr) -> Id {
    with(|a| a.konst(v))
}
fn limbs_id(l: &[u64]) -> Id {
    if let Some(i) = with(|a| a.limbs_in(l)) {
        return i;
    }
    let mut bytes = vec![];
    for x in l {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    k(Fr::from_le_bytes_mod_order(&bytes))
}

macro_rules! bin {
    ([$($g:tt)*] $A:ty, $B:ty, $O:ty, $Tr:ident, $m:ident, |$x:ident, $y:ident| $e:expr) => {
        impl<$($g)*> $Tr<$B> for $A { type Output = $O; fn $m(self, o: $B) -> $O { let $x = self; let $y = o; $e } }
        impl<'a, $($g)*> $Tr<&'a $B> for $A { type Output = $O; fn $m(self, o: &'a $B) -> $O { let $x = self; let $y = *o; $e } }
        impl<'a, $($g)*> $Tr<&'a mut $B> for $A { type Output = $O; fn $m(self, o: &'a mut $B) -> $O { let $x = self; let $y = *o; $e } }
        impl<'b, $($g)*> $Tr<$B> for &'b $A { type Output = $O; fn $m(self, o: $B) -> $O { let $x = *self; let $y = o; $e } }
        impl<'a, 'b, $($g)*> $Tr<&'a $B> for &'b $A { type Output = $O; fn $m(self, o: &'a $B) -> $O { let $x = *self; let $y = *o; $e } }
    };
}
macro_rules! asg {
    ([$($g:tt)*] $A:ty, $B:ty, $Tr:ident, $m:ident, $op:tt) => {
        impl<$($g)*> $Tr<$B> for $A { fn $m(&mut self, o: $B) { *self = *self $op o; } }
        impl<'a, $($g)*> $Tr<&'a $B> for $A { fn $m(&mut self, o: &'a $B) { *self = *self $op *o; } }
        impl<'a, $($g)*> $Tr<&'a mut $B> for $A { fn $m(&mut self, o: &'a mut $B) { *self = *self $op *o; } }
    };
}

bin!([] S, S, S, Add, add, |x, y| S(with(|a| a.add(x.0, y.0))));
bin!([] S, S, S, Sub, sub, |x, y| S(with(|a| a.sub(x.0, y.0))));
bin!([] S, S, S, Mul, mul, |x, y| S(with(|a| a.mul(x.0, y.0))));
bin!([] S, S, S, Div, div, |x, y| x * y.inverse().unwrap());
asg!([] S, S, AddAssign, add_assign, +);
asg!([] S, S, SubAssign, sub_assign, -);
asg!([] S, S, MulAssign, mul_assign, *);
asg!([] S, S, DivAssign, div_assign, /);
impl Neg for S {
    type Output = S;
    fn neg(self) -> S {
        S(with(|a| a.neg(self.0)))
    }
}
impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        with(|a| a.eq(self.0, o.0))
    }
}
impl Eq for S {}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for S {
    fn cmp(&self, o: &S) -> Ordering {
        if self == o {
            Ordering::Equal
        } else if with(|a| a.lt(self.0, o.0)) {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
}
macro_rules! common {
    ([$($g:tt)*] $A:ty, $zero:expr, $name:expr) => {
        impl<$($g)*> Hash for $A { fn hash<H: Hasher>(&self, _h: &mut H) {} }
        impl<$($g)*> fmt::Debug for $A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}#{}", $name, self.0) } }
        impl<$($g)*> fmt::Display for $A { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}#{}", $name, self.0) } }
        impl<$($g)*> Default for $A { fn default() -> Self { $zero } }
        impl<$($g)*> Zeroize for $A { fn zeroize(&mut self) { *self = $zero; } }
    };
}
common!([] S, S(0), "S");
common!([const K: u8] Af<K>, Af(0, 0), "Af");
common!([const K: u8] Pj<K>, Pj(0, 0), "Pj");
common!([] T, T(TZERO, 0), "T");

impl Zero for S {
    fn zero() -> S {
        S(0)
    }
    fn is_zero(&self) -> bool {
        *self == S(0)
    }
}
impl One for S {
    fn one() -> S {
        S(1)
    }
}
impl Sum for S {
    fn sum<I: Iterator<Item = S>>(it: I) -> S {
        it.fold(S(0), |a, b| a + b)
    }
}
impl<'a> Sum<&'a S> for S {
    fn sum<I: Iterator<Item = &'a S>>(it: I) -> S {
        it.fold(S(0), |a, b| a + *b)
    }
}
macro_rules! product {
    ($A:ty) => {
        impl Product for $A { fn product<I: Iterator<Item = $A>>(it: I) -> $A { it.fold(<$A>::one(), |a, b| a * b) } }
        impl<'a> Product<&'a $A> for $A { fn product<I: Iterator<Item = &'a $A>>(it: I) -> $A { it.fold(<$A>::one(), |a, b| a * *b) } }
    };
}
product!(S);
product!(T);
macro_rules! from_int {
    ($($t:ty),*) => { $(
        impl From<$t> for S { fn from(x: $t) -> S { S(k(Fr::from(x))) } }
        impl From<$t> for T { fn from(x: $t) -> T {
            let f = Fr::from(x);
            if f.is_one() { T(0, 0) } else if f.is_zero() { T(TZERO, 0) } else { unsupported("target field from integer") } } }
    )* };
}
from_int!(u128, u64, u32, u16, u8, i128, i64, i32, i16, i8, bool);
impl From<BigUint> for S {
    fn from(x: BigUint) -> S {
        S(k(Fr::from(x)))
    }
}
impl From<S> for BigUint {
    fn from(x: S) -> BigUint {
        x.into_bigint().into()
    }
}
impl FromStr for S {
    type Err = ();
    fn from_str(s: &str) -> Result<S, ()> {
        Fr::from_str(s).map(|v| S(k(v))).map_err(|_| ())
    }
}
impl From<SBig> for S {
    fn from(x: SBig) -> S {
        S::from_bigint(x).unwrap()
    }
}
impl From<S> for SBig {
    fn from(x: S) -> SBig {
        x.into_bigint()
    }
}
static CHAR: [u64; 4] = Fr::MODULUS.0;
impl AdditiveGroup for S {
    type Scalar = S;
    const ZERO: S = S(0);
}
impl Field for S {
    type BasePrimeField = S;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<S>> = None;
    const ONE: S = S(1);
    fn characteristic() -> &'static [u64] {
        &CHAR
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> impl Iterator<Item = S> {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(elems: impl IntoIterator<Item = S>) -> Option<S> {
        let mut it = elems.into_iter();
        let e = it.next()?;
        if it.next().is_some() {
            return None;
        }
        Some(e)
    }
    fn from_base_prime_field(e: S) -> S {
        e
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(S, F)> {
        Fr::from_random_bytes_with_flags::<F>(bytes).map(|(v, f)| (S(k(v)), f))
    }
    fn legendre(&self) -> LegendreSymbol {
        unsupported("legendre")
    }
    fn sqrt(&self) -> Option<S> {
        unsupported("sqrt")
    }
    fn square(&self) -> S {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut S {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<S> {
        if self.is_zero() {
            None
        } else {
            Some(S(with(|a| a.inv(self.0))))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut S> {
        let i = self.inverse()?;
        *self = i;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {}
    fn mul_by_base_prime_field(&self, e: &S) -> S {
        *self * *e
    }
    fn pow<X: AsRef<[u64]>>(&self, exp: X) -> S {
        // a symbolic exponent has been logged as an inspected integer
        let l = exp.as_ref();
        let mut res = S(1);
        for i in ark_ff::BitIteratorBE::without_leading_zeros(l) {
            res = res * res;
            if i {
                res = res * *self;
            }
        }
        res
    }
}
impl FftField for S {
    const GENERATOR: S = S(GEN_ID);
    const TWO_ADICITY: u32 = Fr::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: S = S(ROOT_ID);
}
impl PrimeField for S {
    type BigInt = SBig;
    const MODULUS: SBig = SBig::c(Fr::MODULUS);
    const MODULUS_MINUS_ONE_DIV_TWO: SBig = SBig::c(Fr::MODULUS_MINUS_ONE_DIV_TWO);
    const MODULUS_BIT_SIZE: u32 = Fr::MODULUS_BIT_SIZE;
    const TRACE: SBig = SBig::c(Fr::TRACE);
    const TRACE_MINUS_ONE_DIV_TWO: SBig = SBig::c(Fr::TRACE_MINUS_ONE_DIV_TWO);
    fn from_bigint(r: SBig) -> Option<S> {
        if let Some(i) = r.h() {
            return Some(S(i));
        }
        Fr::from_bigint(r.v()).map(|v| S(k(v)))
    }
    fn into_bigint(self) -> SBig {
        with(|a| {
            let v = a.val(self.0).into_bigint();
            if a.is_const(self.0) {
                SBig::c(v)
            } else {
                SBig { l: [v.0[0], v.0[1], v.0[2], v.0[3], (MAGIC << 32) | self.0 as u64] }
            }
        })
    }
}
impl Distribution<S> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> S {
        S(draw(rng, 's'))
    }
}

// ---------------------------------------------------------------- random generator
/// Every draw yields a distinct token; the sampling code of the symbolic types turns the token
/// into a fresh variable (or a scripted term).
pub struct SymRng {
    pub stream: u32,
    pub ctr: u32,
}
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 {
        with(|a| a.notes.push("raw rng use: next_u32".into()));
        let x = self.next_u64();
        (x.wrapping_mul(0x9E3779B97F4A7C15) >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let t = (RNG_MAGIC << 48) | ((self.stream as u64 & 0xffff) << 32) | self.ctr as u64;
        self.ctr += 1;
        t
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        with(|a| a.notes.push("raw rng use: fill_bytes".into()));
        for c in d.chunks_mut(8) {
            let x = self.next_u64().wrapping_mul(0x9E3779B97F4A7C15).to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn draw<R: Rng + ?Sized>(rng: &mut R, kind: char) -> Id {
    let t = rng.next_u64();
    if t >> 48 == RNG_MAGIC {
        let stream = ((t >> 32) & 0xffff) as u32;
        let ctr = (t & 0xffff_ffff) as u32;
        with(|a| {
            let id = match a.script.get(&(stream, ctr)) {
                Some(i) => *i,
                None => a.var(&format!("rng{stream}_{ctr}")),
            };
            a.draws.push(Draw { stream, ctr, kind, id });
            id
        })
    } else {
        // some other source of randomness: an unknown but definite value
        with(|a| {
            a.notes.push("draw from a generator other than the caller's".into());
            let v = hash_fr(t, "foreign-rng");
            a.konst(v)
        })
    }
}

// ---------------------------------------------------------------- big integers
#[derive(Clone, Copy, Default)]
pub struct SBig {
    l: [u64; 5],
}
impl SBig {
    const fn c(v: BigInt<4>) -> SBig {
        SBig { l: [v.0[0], v.0[1], v.0[2], v.0[3], 0] }
    }
    fn h(&self) -> Option<Id> {
        if self.l[4] >> 32 == MAGIC {
            Some((self.l[4] & 0xffff_ffff) as Id)
        } else {
            None
        }
    }
    /// concrete value without logging
    fn v(&self) -> BigInt<4> {
        BigInt([self.l[0], self.l[1], self.l[2], self.l[3]])
    }
    /// concrete value, the code looked at it
    fn cz(&self) -> BigInt<4> {
        if let Some(h) = self.h() {
            with(|a| a.looked_at(h));
        }
        self.v()
    }
}
impl fmt::Debug for SBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.v())
    }
}
impl fmt::Display for SBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v())
    }
}
impl PartialEq for SBig {
    fn eq(&self, o: &SBig) -> bool {
        let id = |x: &SBig| x.h().or_else(|| Fr::from_bigint(x.v()).map(k));
        match (self.h(), o.h()) {
            (None, None) => self.v() == o.v(),
            _ => match (id(self), id(o)) {
                (Some(a), Some(b)) => with(|ar| ar.eq(a, b)),
                _ => false,
            },
        }
    }
}
impl Eq for SBig {}
impl PartialOrd for SBig {
    fn partial_cmp(&self, o: &SBig) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SBig {
    fn cmp(&self, o: &SBig) -> Ordering {
        if self.h().is_none() && o.h().is_none() {
            return self.v().cmp(&o.v());
        }
        let id = |x: &SBig| x.h().or_else(|| Fr::from_bigint(x.v()).map(k));
        match (id(self), id(o)) {
            (Some(a), Some(b)) => {
                if with(|ar| ar.eq(a, b)) {
                    Ordering::Equal
                } else if with(|ar| ar.lt(a, b)) {
                    Ordering::Less
                } else {
                    Ordering::Greater
                }
            }
            // a canonical integer is always below a constant >= r
            (Some(_), None) => Ordering::Less,
            (None, _) => Ordering::Greater,
        }
    }
}
impl Zeroize for SBig {
    fn zeroize(&mut self) {
        self.l = [0; 5]
    }
}
impl AsMut<[u64]> for SBig {
    fn as_mut(&mut self) -> &mut [u64] {
        let v = self.cz();
        *self = SBig::c(v);
        &mut self.l[..4]
    }
}
impl AsRef<[u64]> for SBig {
    fn as_ref(&self) -> &[u64] {
        match self.h() {
            Some(h) => with(|a| a.limbs_out(h, &self.l[..4])),
            None => with(|a| {
                a.limb_ptrs.remove(&(self.l.as_ptr() as usize));
            }),
        }
        &self.l[..4]
    }
}
macro_rules! big_from {
    ($($t:ty),*) => { $( impl From<$t> for SBig { fn from(x: $t) -> SBig { SBig::c(BigInt::<4>::from(x)) } } )* };
}
big_from!(u64, u32, u16, u8);
impl TryFrom<BigUint> for SBig {
    type Error = ();
    fn try_from(x: BigUint) -> Result<SBig, ()> {
        BigInt::<4>::try_from(x).map(SBig::c).map_err(|_| ())
    }
}
impl FromStr for SBig {
    type Err = ();
    fn from_str(s: &str) -> Result<SBig, ()> {
        BigInt::<4>::from_str(s).map(SBig::c).map_err(|_| ())
    }
}
impl From<SBig> for BigUint {
    fn from(x: SBig) -> BigUint {
        x.cz().into()
    }
}
macro_rules! big_bit {
    ($($Tr:ident $m:ident $TrA:ident $ma:ident $op:tt),*) => { $(
        impl $Tr<SBig> for SBig { type Output = SBig; fn $m(self, o: SBig) -> SBig { SBig::c(self.cz() $op o.cz()) } }
        impl<'a> $Tr<&'a SBig> for SBig { type Output = SBig; fn $m(self, o: &'a SBig) -> SBig { SBig::c(self.cz() $op o.cz()) } }
        impl $TrA<SBig> for SBig { fn $ma(&mut self, o: SBig) { *self = SBig::c(self.cz() $op o.cz()); } }
        impl<'a> $TrA<&'a SBig> for SBig { fn $ma(&mut self, o: &'a SBig) { *self = SBig::c(self.cz() $op o.cz()); } }
    )* };
}
big_bit!(BitXor bitxor BitXorAssign bitxor_assign ^, BitAnd bitand BitAndAssign bitand_assign &, BitOr bitor BitOrAssign bitor_assign |);
impl Shr<u32> for SBig {
    type Output = SBig;
    fn shr(self, n: u32) -> SBig {
        SBig::c(self.cz() >> n)
    }
}
impl ShrAssign<u32> for SBig {
    fn shr_assign(&mut self, n: u32) {
        *self = *self >> n;
    }
}
impl Shl<u32> for SBig {
    type Output = SBig;
    fn shl(self, n: u32) -> SBig {
        SBig::c(self.cz() << n)
    }
}
impl ShlAssign<u32> for SBig {
    fn shl_assign(&mut self, n: u32) {
        *self = *self << n;
    }
}
impl Distribution<SBig> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SBig {
        SBig::c(Standard.sample(rng))
    }
}
impl CanonicalSerialize for SBig {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        self.cz().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.v().serialized_size(c)
    }
}
impl Valid for SBig {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for SBig {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        BigInt::<4>::deserialize_with_mode(r, c, v).map(SBig::c)
    }
}
impl BigInteger for SBig {
    const NUM_LIMBS: usize = 4;
    fn add_with_carry(&mut self, o: &SBig) -> bool {
        let mut x = self.cz();
        let r = x.add_with_carry(&o.cz());
        *self = SBig::c(x);
        r
    }
    fn sub_with_borrow(&mut self, o: &SBig) -> bool {
        let mut x = self.cz();
        let r = x.sub_with_borrow(&o.cz());
        *self = SBig::c(x);
        r
    }
    fn mul2(&mut self) -> bool {
        let mut x = self.cz();
        let r = x.mul2();
        *self = SBig::c(x);
        r
    }
    fn muln(&mut self, n: u32) {
        *self = *self << n;
    }
    fn mul_low(&self, o: &SBig) -> SBig {
        SBig::c(self.cz().mul_low(&o.cz()))
    }
    fn mul_high(&self, o: &SBig) -> SBig {
        SBig::c(self.cz().mul_high(&o.cz()))
    }
    fn mul(&self, o: &SBig) -> (SBig, SBig) {
        let (a, b) = BigInteger::mul(&self.cz(), &o.cz());
        (SBig::c(a), SBig::c(b))
    }
    fn div2(&mut self) {
        *self = *self >> 1;
    }
    fn divn(&mut self, n: u32) {
        *self = *self >> n;
    }
    fn is_odd(&self) -> bool {
        self.get_bit(0)
    }
    fn is_even(&self) -> bool {
        !self.get_bit(0)
    }
    fn is_zero(&self) -> bool {
        match self.h() {
            Some(i) => with(|a| a.eq(i, 0)),
            None => self.v().is_zero(),
        }
    }
    fn num_bits(&self) -> u32 {
        match self.h() {
            Some(i) => with(|a| a.num_bits(i)),
            None => self.v().num_bits(),
        }
    }
    fn get_bit(&self, i: usize) -> bool {
        match self.h() {
            Some(h) => with(|a| a.bit(h, i)),
            None => self.v().get_bit(i),
        }
    }
    fn from_bits_be(b: &[bool]) -> SBig {
        SBig::c(BigInt::<4>::from_bits_be(b))
    }
    fn from_bits_le(b: &[bool]) -> SBig {
        SBig::c(BigInt::<4>::from_bits_le(b))
    }
    fn to_bits_be(&self) -> Vec<bool> {
        (0..256).rev().map(|i| self.get_bit(i)).collect()
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..256).map(|i| self.get_bit(i)).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        self.cz().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.cz().to_bytes_le()
    }
}

// ---------------------------------------------------------------- groups
macro_rules! grp {
    ($A:ident, $B:ident, $O:ident) => {
        bin!([const K: u8] $A<K>, $B<K>, $O<K>, Add, add, |x, y| with(|a| $O(a.add(x.0, y.0), a.tors_lin(x.1, y.1, 1))));
        bin!([const K: u8] $A<K>, $B<K>, $O<K>, Sub, sub, |x, y| with(|a| $O(a.sub(x.0, y.0), a.tors_lin(x.1, y.1, -1))));
    };
}
grp!(Af, Af, Pj);
grp!(Af, Pj, Pj);
grp!(Pj, Pj, Pj);
grp!(Pj, Af, Pj);
bin!([const K: u8] Af<K>, S, Pj<K>, Mul, mul, |x, y| with(|a| Pj(a.mul(x.0, y.0), a.tors_scale(x.1, y.0))));
bin!([const K: u8] Pj<K>, S, Pj<K>, Mul, mul, |x, y| with(|a| Pj(a.mul(x.0, y.0), a.tors_scale(x.1, y.0))));
asg!([const K: u8] Pj<K>, Pj<K>, AddAssign, add_assign, +);
asg!([const K: u8] Pj<K>, Af<K>, AddAssign, add_assign, +);
asg!([const K: u8] Pj<K>, Pj<K>, SubAssign, sub_assign, -);
asg!([const K: u8] Pj<K>, Af<K>, SubAssign, sub_assign, -);
asg!([const K: u8] Pj<K>, S, MulAssign, mul_assign, *);
macro_rules! grp1 {
    ($A:ident) => {
        impl<const K: u8> Neg for $A<K> {
            type Output = Self;
            fn neg(self) -> Self {
                with(|a| $A(a.neg(self.0), a.tors_lin(0, self.1, -1)))
            }
        }
        impl<const K: u8> PartialEq for $A<K> {
            fn eq(&self, o: &Self) -> bool {
                with(|a| a.eq(self.0, o.0) && {
                    let d = a.tors_lin(self.1, o.1, -1);
                    !a.invalid(d)
                })
            }
        }
        impl<const K: u8> Eq for $A<K> {}
        impl<const K: u8> Zero for $A<K> {
            fn zero() -> Self {
                $A(0, 0)
            }
            fn is_zero(&self) -> bool {
                *self == $A(0, 0)
            }
        }
        impl<const K: u8> CanonicalSerialize for $A<K> {
            fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
                put(w, K, c, self.0, self.1, self.serialized_size(c))
            }
            fn serialized_size(&self, c: Compress) -> usize {
                let s = 48 * K as usize;
                match c {
                    Compress::Yes => s,
                    Compress::No => 2 * s,
                }
            }
        }
        impl<const K: u8> Valid for $A<K> {
            fn check(&self) -> Result<(), SerializationError> {
                if with(|a| a.invalid(self.1)) {
                    Err(SerializationError::InvalidData)
                } else {
                    Ok(())
                }
            }
        }
        impl<const K: u8> CanonicalDeserialize for $A<K> {
            fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
                let (i, b) = get(r, K, c, $A::<K>(0, 0).serialized_size(c))?;
                let x = $A(i, b);
                if let Validate::Yes = v {
                    x.check()?;
                }
                Ok(x)
            }
        }
        impl<const K: u8> Distribution<$A<K>> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $A<K> {
                $A(draw(rng, if K == 1 { '1' } else { '2' }), 0)
            }
        }
    };
}
grp1!(Pj);

impl<const K: u8> Neg for Af<K> {
    type Output = Self;
    fn neg(self) -> Self {
        Af(with(|a| a.neg(self.0)), self.1)
    }
}
impl<const K: u8> PartialEq for Af<K> {
    fn eq(&self, o: &Self) -> bool {
        self.1 == o.1 && with(|a| a.eq(self.0, o.0))
    }
}
impl<const K: u8> Eq for Af<K> {}
impl<const K: u8> CanonicalSerialize for Af<K> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> Result<(), SerializationError> {
        Pj::<K>(self.0, self.1).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        Pj::<K>(self.0, self.1).serialized_size(c)
    }
}
impl<const K: u8> Valid for Af<K> {
    fn check(&self) -> Result<(), SerializationError> {
        Pj::<K>(self.0, self.1).check()
    }
}
impl<const K: u8> CanonicalDeserialize for Af<K> {
    fn deserialize_with_mode<R: Read>(r: R, c: Compress, v: Validate) -> Result<Self, SerializationError> {
        Pj::<K>::deserialize_with_mode(r, c, v).map(|p| Af(p.0, p.1))
    }
}
impl<const K: u8> Distribution<Af<K>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Af<K> {
        Af(draw(rng, if K == 1 { '1' } else { '2' }), 0)
    }
}
impl<const K: u8> From<Pj<K>> for Af<K> {
    fn from(p: Pj<K>) -> Self {
        Af(p.0, p.1)
    }
}
impl<const K: u8> From<Af<K>> for Pj<K> {
    fn from(p: Af<K>) -> Self {
        Pj(p.0, p.1)
    }
}
impl<'a, const K: u8> From<&'a Pj<K>> for Af<K> {
    fn from(p: &'a Pj<K>) -> Self {
        Af(p.0, p.1)
    }
}
impl<'a, const K: u8> From<&'a Af<K>> for Af<K> {
    fn from(p: &'a Af<K>) -> Self {
        *p
    }
}
macro_rules! grp_sum {
    ($I:ident) => {
        impl<const K: u8> Sum<$I<K>> for Pj<K> {
            fn sum<I: Iterator<Item = $I<K>>>(it: I) -> Self {
                it.fold(Pj(0, 0), |a, b| a + b)
            }
        }
        impl<'a, const K: u8> Sum<&'a $I<K>> for Pj<K> {
            fn sum<I: Iterator<Item = &'a $I<K>>>(it: I) -> Self {
                it.fold(Pj(0, 0), |a, b| a + *b)
            }
        }
    };
}
grp_sum!(Pj);
grp_sum!(Af);
impl<const K: u8> AdditiveGroup for Pj<K> {
    type Scalar = S;
    const ZERO: Self = Pj(0, 0);
}
impl<const K: u8> PrimeGroup for Pj<K> {
    type ScalarField = S;
    fn generator() -> Self {
        Pj(1, 0)
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        *self * S(limbs_id(o.as_ref()))
    }
}
impl<const K: u8> ScalarMul for Pj<K> {
    type MulBase = Af<K>;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<Af<K>> {
        b.iter().map(|x| (*x).into()).collect()
    }
    fn batch_mul(self, v: &[S]) -> Vec<Af<K>> {
        v.iter().map(|s| (self * *s).into()).collect()
    }
}
impl<const K: u8> VariableBaseMSM for Pj<K> {
    fn msm_unchecked(b: &[Af<K>], s: &[S]) -> Self {
        b.iter().zip(s.iter()).fold(Pj(0, 0), |acc, (x, y)| acc + *x * *y)
    }
    fn msm_bigint(b: &[Af<K>], s: &[SBig]) -> Self {
        b.iter().zip(s.iter()).fold(Pj(0, 0), |acc, (x, y)| acc + x.mul_bigint(*y))
    }
}
pub struct Cfg<const K: u8>;
impl<const K: u8> CurveConfig for Cfg<K> {
    type BaseField = T;
    type ScalarField = S;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: S = S(1);
}
impl<const K: u8> CurveGroup for Pj<K> {
    type Config = Cfg<K>;
    type BaseField = T;
    type Affine = Af<K>;
    type FullGroup = Pj<K>;
    fn normalize_batch(v: &[Self]) -> Vec<Af<K>> {
        v.iter().map(|x| (*x).into()).collect()
    }
}
impl<const K: u8> AffineRepr for Af<K> {
    type Config = Cfg<K>;
    type ScalarField = S;
    type BaseField = T;
    type Group = Pj<K>;
    fn xy(&self) -> Option<(T, T)> {
        // coordinates are known up to equality: two points (of prime order, not the identity) have
        // the same x iff they are equal or opposite, and the same y iff they differ by an
        // automorphism, that is by a cube root of unity
        if AffineRepr::is_zero(self) {
            return None;
        }
        with(|a| {
            a.notes.push("affine coordinates compared".into());
            let (s, c) = (a.mul(self.0, self.0), a.konst(hash_fr(K as u64, "x coordinate")));
            let q = a.mul(s, self.0);
            let (x, y) = (a.add(s, c), a.add(q, c));
            Some((T(x, self.1), T(y, self.1)))
        })
    }
    fn zero() -> Self {
        Af(0, 0)
    }
    fn is_zero(&self) -> bool {
        *self == Af(0, 0)
    }
    fn generator() -> Self {
        Af(1, 0)
    }
    fn from_random_bytes(_b: &[u8]) -> Option<Self> {
        unsupported("from_random_bytes")
    }
    fn mul_bigint(&self, by: impl AsRef<[u64]>) -> Pj<K> {
        *self * S(limbs_id(by.as_ref()))
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> Pj<K> {
        (*self).into()
    }
}

// ---------------------------------------------------------------- target field
// Multiplication in the field is addition of exponents.
bin!([] T, T, T, Mul, mul, |x, y| if x.0 == TZERO || y.0 == TZERO {
    T(TZERO, 0)
} else {
    with(|a| T(a.add(x.0, y.0), a.tors_lin(x.1, y.1, 1)))
});
bin!([] T, T, T, Div, div, |x, y| x * y.inverse().unwrap());
bin!([] T, T, T, Add, add, |x, y| if x.0 == TZERO {
    y
} else if y.0 == TZERO {
    x
} else {
    unsupported("field addition in the target group")
});
bin!([] T, T, T, Sub, sub, |x, y| if y.0 == TZERO { x } else { unsupported("field subtraction in the target group") });
asg!([] T, T, AddAssign, add_assign, +);
asg!([] T, T, SubAssign, sub_assign, -);
asg!([] T, T, MulAssign, mul_assign, *);
asg!([] T, T, DivAssign, div_assign, /);
impl Neg for T {
    type Output = T;
    fn neg(self) -> T {
        if self.0 == TZERO {
            self
        } else {
            unsupported("field negation in the target group")
        }
    }
}
impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        if self.0 == TZERO || o.0 == TZERO {
            return self.0 == o.0;
        }
        with(|a| {
            a.eq(self.0, o.0) && {
                let d = a.tors_lin(self.1, o.1, -1);
                !a.invalid(d)
            }
        })
    }
}
impl Eq for T {}
impl PartialOrd for T {
    fn partial_cmp(&self, o: &T) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for T {
    fn cmp(&self, o: &T) -> Ordering {
        if self == o {
            return Ordering::Equal;
        }
        with(|a| a.notes.push("ordering of target-group elements (arbitrary in the model)".into()));
        self.0.cmp(&o.0)
    }
}
impl Zero for T {
    fn zero() -> T {
        T(TZERO, 0)
    }
    fn is_zero(&self) -> bool {
        self.0 == TZERO
    }
}
impl One for T {
    fn one() -> T {
        T(0, 0)
    }
}
impl Sum for T {
    fn sum<I: Iterator<Item = T>>(it: I) -> T {
        it.fold(T::zero(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a T> for T {
    fn sum<I: Iterator<Item = &'a T>>(it: I) -> T {
        it.fold(T::zero(), |a, b| a + *b)
    }
}
impl AdditiveGroup for T {
    type Scalar = T;
    const ZERO: T = T(TZERO, 0);
}
impl Distribution<T> for Standard {
    fn sample<R: Rng + ?Sized>(&self, _rng: &mut R) -> T {
        unsupported("random target field element")
    }
}
impl Field for T {
    type BasePrimeField = S;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<T>> = None;
    const ONE: T = T(0, 0);
    fn extension_degree() -> u64 {
        12
    }
    fn to_base_prime_field_elements(&self) -> impl Iterator<Item = S> {
        unsupported("coordinates of a target field element");
        #[allow(unreachable_code)]
        std::iter::empty()
    }
    fn from_base_prime_field_elems(_e: impl IntoIterator<Item = S>) -> Option<T> {
        unsupported("from_base_prime_field_elems")
    }
    fn from_base_prime_field(_e: S) -> T {
        unsupported("from_base_prime_field")
    }
    fn from_random_bytes_with_flags<F: Flags>(_b: &[u8]) -> Option<(T, F)> {
        unsupported("from_random_bytes_with_flags")
    }
    fn legendre(&self) -> LegendreSymbol {
        unsupported("legendre")
    }
    fn sqrt(&self) -> Option<T> {
        unsupported("sqrt")
    }
    fn square(&self) -> T {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut T {
        *self = *self * *self;
        self
    }
    fn inverse(&self) -> Option<T> {
        if self.0 == TZERO {
            None
        } else {
            Some(with(|a| T(a.neg(self.0), a.tors_lin(0, self.1, -1))))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut T> {
        let i = self.inverse()?;
        *self = i;
        Some(self)
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {
        unsupported("frobenius")
    }
    fn mul_by_base_prime_field(&self, _e: &S) -> T {
        unsupported("mul_by_base_prime_field")
    }
    fn pow<X: AsRef<[u64]>>(&self, exp: X) -> T {
        let l = exp.as_ref();
        if l == &CHAR[..] {
            // x^r = 1 exactly for elements of the prime-order target group
            if self.0 == TZERO {
                return *self;
            }
            return T(0, self.1);
        }
        if self.0 == TZERO {
            return *self;
        }
        let e = limbs_id(l);
        with(|a| T(a.mul(self.0, e), a.tors_scale(self.1, e)))
    }
}
impl CyclotomicMultSubgroup for T {
    const INVERSE_IS_FAST: bool = true;
    fn cyclotomic_exp_in_place(&mut self, e: impl AsRef<[u64]>) {
        *self = self.pow(e);
    }
    fn cyclotomic_exp(&self, e: impl AsRef<[u64]>) -> T {
        if self.0 == TZERO {
            return *self;
        }
        let e = limbs_id(e.as_ref());
        with(|a| T(a.mul(self.0, e), a.tors_scale(self.1, e)))
    }
}

// ---------------------------------------------------------------- serialization
fn put<W: Write>(mut w: W, kind: u8, c: Compress, id: Id, bad: u32, size: usize) -> Result<(), SerializationError> {
    let mut b = vec![0u8; size];
    b[0] = 0xE0 | kind;
    b[1] = if let Compress::Yes = c { 1 } else { 2 };
    b[2..6].copy_from_slice(&id.to_le_bytes());
    b[6..10].copy_from_slice(&bad.to_le_bytes());
    w.write_all(&b)?;
    Ok(())
}
fn get<R: Read>(mut r: R, kind: u8, c: Compress, size: usize) -> Result<(Id, u32), SerializationError> {
    let mut b = vec![0u8; size];
    r.read_exact(&mut b)?;
    let m = if let Compress::Yes = c { 1 } else { 2 };
    if b[0] != (0xE0 | kind) || b[1] != m || b[10..].iter().any(|x| *x != 0) {
        return Err(SerializationError::InvalidData);
    }
    let id = u32::from_le_bytes(b[2..6].try_into().unwrap());
    let bad = u32::from_le_bytes(b[6..10].try_into().unwrap());
    if id != TZERO && id as usize >= with(|a| a.nodes.len()) {
        return Err(SerializationError::InvalidData);
    }
    Ok((id, bad))
}
/// kind of a serialized token, its id, and how many bytes it takes: used to read back what an
/// encoding discloses
pub fn token(b: &[u8]) -> Option<(u8, Id, usize)> {
    if b.len() < 32 || b[0] & 0xF8 != 0xE0 {
        return None;
    }
    let kind = b[0] & 7;
    let size = match (kind, b[1]) {
        (3, 1) => 32,
        (1, 1) => 48,
        (1, 2) => 96,
        (2, 1) => 96,
        (2, 2) => 192,
        (4, 1) => 576,
        _ => return None,
    };
    if b.len() < size || b[10..size].iter().any(|x| *x != 0) {
        return None;
    }
    Some((kind, u32::from_le_bytes(b[2..6].try_into().unwrap()), size))
}
macro_rules! ser_field {
    ($A:ident, $kind:expr, $size:expr, $mk:expr, $bad:expr) => {
        impl CanonicalSerialize for $A {
            fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
                put(w, $kind, Compress::Yes, self.0, $bad(self), $size)
            }
            fn serialized_size(&self, _c: Compress) -> usize {
                $size
            }
        }
        impl CanonicalSerializeWithFlags for $A {
            fn serialize_with_flags<W: Write, F: Flags>(&self, w: W, _f: F) -> Result<(), SerializationError> {
                if F::BIT_SIZE != 0 {
                    unsupported("serialize_with_flags");
                }
                self.serialize_with_mode(w, Compress::Yes)
            }
            fn serialized_size_with_flags<F: Flags>(&self) -> usize {
                $size
            }
        }
        impl CanonicalDeserialize for $A {
            fn deserialize_with_mode<R: Read>(r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
                let (i, b) = get(r, $kind, Compress::Yes, $size)?;
                Ok($mk(i, b))
            }
        }
        impl CanonicalDeserializeWithFlags for $A {
            fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
                if F::BIT_SIZE != 0 {
                    unsupported("deserialize_with_flags");
                }
                Ok((Self::deserialize_with_mode(r, Compress::Yes, Validate::Yes)?, F::default()))
            }
        }
        impl Valid for $A {
            fn check(&self) -> Result<(), SerializationError> {
                Ok(())
            }
        }
    };
}
ser_field!(S, 3, 32, |i, _b| S(i), |_x: &S| 0);
ser_field!(T, 4, 576, |i, b| T(i, b), |x: &T| x.1);

// ---------------------------------------------------------------- the pairing engine
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymE;
impl Pairing for SymE {
    type BaseField = Fq;
    type ScalarField = S;
    type G1 = Pj<1>;
    type G1Affine = Af<1>;
    type G1Prepared = Af<1>;
    type G2 = Pj<2>;
    type G2Affine = Af<2>;
    type G2Prepared = Af<2>;
    type TargetField = T;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Af<1>>>,
        b: impl IntoIterator<Item = impl Into<Af<2>>>,
    ) -> MillerLoopOutput<SymE> {
        let a: Vec<Af<1>> = a.into_iter().map(|x| x.into()).collect();
        let b: Vec<Af<2>> = b.into_iter().map(|x| x.into()).collect();
        // as in ark-ec's engines (zip_eq): lists of different lengths are refused
        assert_eq!(a.len(), b.len(), "itertools: .zip_eq() reached end of one iterator before the other");
        let id = with(|ar| {
            let mut acc = 0;
            for (x, y) in a.iter().zip(b.iter()) {
                let p = ar.mul(x.0, y.0);
                acc = ar.add(acc, p);
            }
            acc
        });
        MillerLoopOutput(T(id, 0))
    }
    fn final_exponentiation(m: MillerLoopOutput<SymE>) -> Option<PairingOutput<SymE>> {
        Some(PairingOutput(m.0))
    }
}
