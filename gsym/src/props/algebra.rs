//! The algebra underneath: C09 C10 C11 C12 C13 C14 C20.
use super::{job, literal_lengths, literals};
use crate::eng::*;
use crate::explore::Job;
use crate::harness::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use groth_sahai::*;
use std::fmt::Debug;
use std::ops::*;

/// an element kind of the library, seen through the discrete logarithms of its components
trait Kind<X: Eng> {
    type T: Clone + PartialEq + Debug;
    const N: usize;
    const NAME: &'static str;
    fn mk(e: &X, v: &[F<X>]) -> Self::T;
    fn ob(e: &mut X, l: &str, t: &Self::T, v: &[F<X>]);
    fn same(e: &mut X, l: &str, t: &Self::T, u: &Self::T);
    fn see(e: &mut X, l: &str, t: &Self::T);
}
struct K1;
struct K2;
struct KT;
struct KF;
impl<X: Eng> Kind<X> for K1 {
    fn same(e: &mut X, l: &str, t: &Self::T, u: &Self::T) {
        ob_com1(e, l, t, u)
    }
    type T = Com1<X::E>;
    const N: usize = 2;
    const NAME: &'static str = "B1";
    fn mk(e: &X, v: &[F<X>]) -> Self::T {
        Com1(e.mk1(v[0]), e.mk1(v[1]))
    }
    fn ob(e: &mut X, l: &str, t: &Self::T, v: &[F<X>]) {
        let w = <K1 as Kind<X>>::mk(e, v);
        ob_com1(e, l, t, &w);
    }
    fn see(e: &mut X, l: &str, t: &Self::T) {
        see_com1(e, l, t)
    }
}
impl<X: Eng> Kind<X> for K2 {
    fn same(e: &mut X, l: &str, t: &Self::T, u: &Self::T) {
        ob_com2(e, l, t, u)
    }
    type T = Com2<X::E>;
    const N: usize = 2;
    const NAME: &'static str = "B2";
    fn mk(e: &X, v: &[F<X>]) -> Self::T {
        Com2(e.mk2(v[0]), e.mk2(v[1]))
    }
    fn ob(e: &mut X, l: &str, t: &Self::T, v: &[F<X>]) {
        let w = <K2 as Kind<X>>::mk(e, v);
        ob_com2(e, l, t, &w);
    }
    fn see(e: &mut X, l: &str, t: &Self::T) {
        see_com2(e, l, t)
    }
}
impl<X: Eng> Kind<X> for KT {
    fn same(e: &mut X, l: &str, t: &Self::T, u: &Self::T) {
        ob_comt(e, l, t, u)
    }
    type T = ComT<X::E>;
    const N: usize = 4;
    const NAME: &'static str = "BT";
    fn mk(e: &X, v: &[F<X>]) -> Self::T {
        ComT(e.mkt(v[0]), e.mkt(v[1]), e.mkt(v[2]), e.mkt(v[3]))
    }
    fn ob(e: &mut X, l: &str, t: &Self::T, v: &[F<X>]) {
        let w = <KT as Kind<X>>::mk(e, v);
        ob_comt(e, l, t, &w);
    }
    fn see(e: &mut X, l: &str, t: &Self::T) {
        e.see_t(&format!("{l}.0"), t.0);
        e.see_t(&format!("{l}.1"), t.1);
        e.see_t(&format!("{l}.2"), t.2);
        e.see_t(&format!("{l}.3"), t.3);
    }
}
impl<X: Eng> Kind<X> for KF {
    fn same(e: &mut X, l: &str, t: &Self::T, u: &Self::T) {
        e.ob_s(l, *t, *u)
    }
    type T = F<X>;
    const N: usize = 1;
    const NAME: &'static str = "Fr";
    fn mk(_: &X, v: &[F<X>]) -> Self::T {
        v[0]
    }
    fn ob(e: &mut X, l: &str, t: &Self::T, v: &[F<X>]) {
        e.ob_s(l, *t, v[0])
    }
    fn see(e: &mut X, l: &str, t: &Self::T) {
        e.see_s(l, *t)
    }
}
pub fn ob_comt<X: Eng>(e: &mut X, l: &str, a: &ComT<X::E>, b: &ComT<X::E>) {
    e.ob_t(&format!("{l}.0"), a.0, b.0);
    e.ob_t(&format!("{l}.1"), a.1, b.1);
    e.ob_t(&format!("{l}.2"), a.2, b.2);
    e.ob_t(&format!("{l}.3"), a.3, b.3);
}
fn v2<T: Copy + Add<Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| *x + *y).collect()
}
fn vs<T: Copy + Sub<Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
fn vn<T: Copy + Neg<Output = T>>(a: &[T]) -> Vec<T> {
    a.iter().map(|x| -*x).collect()
}
fn vm<T: Copy + Mul<Output = T>>(a: &[T], k: T) -> Vec<T> {
    a.iter().map(|x| *x * k).collect()
}

// ---------------------------------------------------------------- C09
fn c09_maps<X: Eng>(e: &mut X, k: Key) {
    let crs = key(e, k);
    let (x, x2, y, y2, z, z2) = (e.s("x"), e.s("xx"), e.s("y"), e.s("yy"), e.s("z"), e.s("zz"));
    let (gx, gx2, gy, gy2) = (e.mk1(x), e.mk1(x2), e.mk2(y), e.mk2(y2));
    let pair = |a: Com1<X::E>, b: Com2<X::E>| ComT::<X::E>::pairing(a, b);
    let i1 = |a: &A1<X>| Com1::<X::E>::linear_map(a);
    let i2 = |a: &A2<X>| Com2::<X::E>::linear_map(a);
    let s1 = |a: &F<X>| Com1::<X::E>::scalar_linear_map(a, &crs);
    let s2 = |a: &F<X>| Com2::<X::E>::scalar_linear_map(a, &crs);
    ob_com1(e, "i1(x) = (0,x)", &i1(&gx), &Com1(A1::<X>::zero(), gx));
    ob_com2(e, "i2(y) = (0,y)", &i2(&gy), &Com2(A2::<X>::zero(), gy));
    // commute with the pairings
    let t = <X::E as Pairing>::pairing(gx, gy);
    ob_comt(e, "F(i1 x, i2 y) = iT e(x,y)", &pair(i1(&gx), i2(&gy)), &ComT::<X::E>::linear_map_PPE(&t));
    let xy = (gx * y).into_affine();
    ob_comt(e, "F(i1 x, i2' y) = iT(y x)", &pair(i1(&gx), s2(&y)), &ComT::<X::E>::linear_map_MSMEG1(&xy, &crs));
    let yx = (gy * x).into_affine();
    ob_comt(e, "F(i1' x, i2 y) = iT(x y)", &pair(s1(&x), i2(&gy)), &ComT::<X::E>::linear_map_MSMEG2(&yx, &crs));
    ob_comt(e, "F(i1' x, i2' y) = iT'(x y)", &pair(s1(&x), s2(&y)), &ComT::<X::E>::linear_map_quad(&(x * y), &crs));
    // homomorphisms
    ob_com1(e, "i1 additive", &i1(&(gx + gx2).into_affine()), &(i1(&gx) + i1(&gx2)));
    ob_com2(e, "i2 additive", &i2(&(gy + gy2).into_affine()), &(i2(&gy) + i2(&gy2)));
    ob_com1(e, "i1' additive", &s1(&(x + x2)), &(s1(&x) + s1(&x2)));
    ob_com2(e, "i2' additive", &s2(&(y + y2)), &(s2(&y) + s2(&y2)));
    ob_com1(e, "i1' linear", &s1(&(x * y)), &s1(&x).scalar_mul(&y));
    ob_com2(e, "i2' linear", &s2(&(x * y)), &s2(&x).scalar_mul(&y));
    let (tz, tz2) = (e.mkt(z), e.mkt(z2));
    let lp = |a: &GT<X>| ComT::<X::E>::linear_map_PPE(a);
    ob_comt(e, "iT additive (PPE)", &lp(&(tz + tz2)), &(lp(&tz) + lp(&tz2)));
    let l1 = |a: &A1<X>| ComT::<X::E>::linear_map_MSMEG1(a, &crs);
    ob_comt(e, "iT additive (MSMEG1)", &l1(&(gx + gx2).into_affine()), &(l1(&gx) + l1(&gx2)));
    let l2 = |a: &A2<X>| ComT::<X::E>::linear_map_MSMEG2(a, &crs);
    ob_comt(e, "iT additive (MSMEG2)", &l2(&(gy + gy2).into_affine()), &(l2(&gy) + l2(&gy2)));
    let lq = |a: &F<X>| ComT::<X::E>::linear_map_quad(a, &crs);
    ob_comt(e, "iT additive (quadratic)", &lq(&(z + z2)), &(lq(&z) + lq(&z2)));
    // zeros
    ob_com1(e, "i1(0)", &i1(&A1::<X>::zero()), &Com1::zero());
    ob_com2(e, "i2(0)", &i2(&A2::<X>::zero()), &Com2::zero());
    ob_com1(e, "i1'(0)", &s1(&F::<X>::zero()), &Com1::zero());
    ob_com2(e, "i2'(0)", &s2(&F::<X>::zero()), &Com2::zero());
    ob_comt(e, "iT(0)", &lp(&PairingOutput::zero()), &ComT::zero());
    ob_comt(e, "iT'(0)", &lq(&F::<X>::zero()), &ComT::zero());
    see_com1(e, "s1", &s1(&x));
    see_com2(e, "s2", &s2(&y));
    <KT as Kind<X>>::see(e, "q", &lq(&z));
    <KT as Kind<X>>::see(e, "m1", &l1(&gx));
    <KT as Kind<X>>::see(e, "m2", &l2(&gy));
    <KT as Kind<X>>::see(e, "p", &lp(&tz));
    e.reached("compared");
}
fn c09_batch<X: Eng>(e: &mut X, n: usize, k: Key) {
    let crs = key(e, k);
    let xs = vars(e, "x", n);
    let (g1, g2) = (g1s(e, &xs), g2s(e, &xs));
    let a = Com1::<X::E>::batch_linear_map(&g1);
    let b = Com2::<X::E>::batch_linear_map(&g2);
    let c = Com1::<X::E>::batch_scalar_linear_map(&xs, &crs);
    let d = Com2::<X::E>::batch_scalar_linear_map(&xs, &crs);
    let wa: Vec<_> = g1.iter().map(|x| Com1::<X::E>::linear_map(x)).collect();
    let wb: Vec<_> = g2.iter().map(|x| Com2::<X::E>::linear_map(x)).collect();
    let wc: Vec<_> = xs.iter().map(|x| Com1::<X::E>::scalar_linear_map(x, &crs)).collect();
    let wd: Vec<_> = xs.iter().map(|x| Com2::<X::E>::scalar_linear_map(x, &crs)).collect();
    ob_coms1(e, "i1 batch", &a, &wa);
    ob_coms2(e, "i2 batch", &b, &wb);
    ob_coms1(e, "i1' batch", &c, &wc);
    ob_coms2(e, "i2' batch", &d, &wd);
    e.reached("compared");
}
pub fn c09_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![];
    for k in [Key::Gen, Key::Binding, Key::Hiding, Key::Fixed] {
        v.push(job!("C09", format!("maps-{k:?}"), c09_maps(k)));
    }
    let mut lens: Vec<(usize, bool)> = (0..=6).map(|l| (l, true)).collect();
    lens.extend([9, 17, 33, 65, 129, 257].map(|l| (l, false)));
    if th {
        lens.extend([128, 256, 513].map(|l| (l, false)));
    }
    lens.extend(literal_lengths(600).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        let k = if n <= 6 { Key::Gen } else { Key::Fixed };
        let mut j = job!("C09", format!("batch-{n}"), c09_batch(n, k));
        j.core = core;
        v.push(j);
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}

// ---------------------------------------------------------------- C10
fn c10<X: Eng>(e: &mut X) {
    let (x, x2, y, y2, s) = (vars(e, "x", 2), vars(e, "xx", 2), vars(e, "y", 2), vars(e, "yy", 2), e.s("s"));
    let m1 = |e: &X, v: &[F<X>]| <K1 as Kind<X>>::mk(e, v);
    let m2 = |e: &X, v: &[F<X>]| <K2 as Kind<X>>::mk(e, v);
    let (a, a2, b, b2) = (m1(e, &x), m1(e, &x2), m2(e, &y), m2(e, &y2));
    let f = |a: Com1<X::E>, b: Com2<X::E>| ComT::<X::E>::pairing(a, b);
    let spec = |x: &[F<X>], y: &[F<X>]| vec![x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]];
    let r = f(a, b);
    <KT as Kind<X>>::see(e, "F", &r);
    <KT as Kind<X>>::ob(e, "F is the matrix of component pairings", &r, &spec(&x, &y));
    let p = |u: A1<X>, w: A2<X>| <X::E as Pairing>::pairing(u, w);
    ob_comt(e, "F by components", &r, &ComT(p(a.0, b.0), p(a.0, b.1), p(a.1, b.0), p(a.1, b.1)));
    ob_comt(e, "additive on the left", &f(a + a2, b), &(f(a, b) + f(a2, b)));
    ob_comt(e, "additive on the right", &f(a, b + b2), &(f(a, b) + f(a, b2)));
    ob_comt(e, "negation left", &f(-a, b), &-f(a, b));
    ob_comt(e, "negation right", &f(a, -b), &-f(a, b));
    <KT as Kind<X>>::ob(e, "scalar left", &f(a.scalar_mul(&s), b), &vm(&spec(&x, &y), s));
    <KT as Kind<X>>::ob(e, "scalar right", &f(a, b.scalar_mul(&s)), &vm(&spec(&x, &y), s));
    let (z1, z2) = (A1::<X>::zero(), A2::<X>::zero());
    ob_comt(e, "zero left", &f(Com1::zero(), b), &ComT::zero());
    ob_comt(e, "zero right", &f(a, Com2::zero()), &ComT::zero());
    let zero = F::<X>::zero();
    <KT as Kind<X>>::ob(e, "identity entry left.0", &f(Com1(z1, a.1), b), &spec(&[zero, x[1]], &y));
    <KT as Kind<X>>::ob(e, "identity entry left.1", &f(Com1(a.0, z1), b), &spec(&[x[0], zero], &y));
    <KT as Kind<X>>::ob(e, "identity entry right.0", &f(a, Com2(z2, b.1)), &spec(&x, &[zero, y[1]]));
    <KT as Kind<X>>::ob(e, "identity entry right.1", &f(a, Com2(b.0, z2)), &spec(&x, &[y[0], zero]));
    e.reached("compared");
}
fn c10_sum<X: Eng>(e: &mut X, n: usize, zeros: usize) {
    let mut x: Vec<Vec<F<X>>> = vec![];
    let mut y: Vec<Vec<F<X>>> = vec![];
    for i in 0..n {
        let nm = |s: &str| format!("{s}{i}_");
        let sym = kept(i, n);
        x.push(if sym { vars(e, &nm("x"), 2) } else { vec![F::<X>::from(2 * i as u64 + 3), F::<X>::from(5 * i as u64 + 1)] });
        y.push(if sym { vars(e, &nm("y"), 2) } else { vec![F::<X>::from(7 * i as u64 + 2), F::<X>::from(i as u64 * i as u64 + 11)] });
        // identities at the places the bit mask names (the first four entries)
        if i < 2 {
            for c in 0..2 {
                if zeros >> (4 * i + c) & 1 == 1 {
                    x[i][c] = F::<X>::zero()
                }
                if zeros >> (4 * i + 2 + c) & 1 == 1 {
                    y[i][c] = F::<X>::zero()
                }
            }
        }
    }
    let a: Vec<_> = x.iter().map(|v| <K1 as Kind<X>>::mk(e, v)).collect();
    let b: Vec<_> = y.iter().map(|v| <K2 as Kind<X>>::mk(e, v)).collect();
    let r = ComT::<X::E>::pairing_sum(&a, &b);
    let mut w = vec![F::<X>::zero(); 4];
    for (x, y) in x.iter().zip(&y) {
        w = v2(&w, &[x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1]]);
    }
    <KT as Kind<X>>::see(e, "sum", &r);
    <KT as Kind<X>>::ob(e, "pairing_sum", &r, &w);
    let s: ComT<X::E> = a.iter().zip(&b).map(|(a, b)| ComT::<X::E>::pairing(*a, *b)).sum();
    ob_comt(e, "pairing_sum is the sum of the pairings", &r, &s);
    e.reached("compared");
}
pub fn c10_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![job!("C10", "pairing".to_string(), c10())];
    let mut lens: Vec<(usize, bool)> = (0..=6).map(|l| (l, true)).collect();
    lens.extend([9, 17, 33, 65, 129, 257].map(|l| (l, false)));
    if th {
        lens.extend([16, 32, 64, 128, 256, 513].map(|l| (l, false)));
    }
    lens.extend(literal_lengths(600).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        let z = 0;
        let mut j = job!("C10", format!("sum-{n}"), c10_sum(n, z));
        j.core = core;
        v.push(j);
    }
    for z in 1..256usize {
        let n = 2;
        v.push(job!("C10", format!("sum-2-identities-{z:08b}"), c10_sum(n, z)));
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}

// ---------------------------------------------------------------- C11
fn laws<X: Eng, K: Kind<X>>(e: &mut X)
where
    K::T: Copy + Zero + Add<Output = K::T> + AddAssign + Sub<Output = K::T> + SubAssign + Neg<Output = K::T> + std::iter::Sum,
{
    let n = K::NAME;
    let (a, b, c) = (vars(e, "a", K::N), vars(e, "b", K::N), vars(e, "c", K::N));
    let (x, y, z) = (K::mk(e, &a), K::mk(e, &b), K::mk(e, &c));
    K::ob(e, &format!("{n} addition"), &(x + y), &v2(&a, &b));
    K::see(e, "x+y", &(x + y));
    let ab = v2(&a, &b);
    K::ob(e, &format!("{n} (x+y)+z"), &((x + y) + z), &v2(&ab, &c));
    K::ob(e, &format!("{n} x+(y+z)"), &(x + (y + z)), &v2(&ab, &c));
    K::ob(e, &format!("{n} y+x"), &(y + x), &ab);
    K::ob(e, &format!("{n} x+x"), &(x + x), &v2(&a, &a));
    K::ob(e, &format!("{n} x+0"), &(x + K::T::zero()), &a);
    K::ob(e, &format!("{n} 0+x"), &(K::T::zero() + x), &a);
    let zeros = vec![F::<X>::zero(); K::N];
    K::ob(e, &format!("{n} zero"), &K::T::zero(), &zeros);
    K::ob(e, &format!("{n} x+(-x)"), &(x + -x), &zeros);
    K::ob(e, &format!("{n} -x"), &-x, &vn(&a));
    K::see(e, "-x", &-x);
    K::ob(e, &format!("{n} x-y"), &(x - y), &vs(&a, &b));
    K::see(e, "x-y", &(x - y));
    K::ob(e, &format!("{n} x-x"), &(x - x), &zeros);
    K::ob(e, &format!("{n} 0-x"), &(K::T::zero() - x), &vn(&a));
    K::ob(e, &format!("{n} -0"), &-K::T::zero(), &zeros);
    let mut t = x;
    t += y;
    K::ob(e, &format!("{n} +="), &t, &ab);
    t += x;
    K::ob(e, &format!("{n} += again"), &t, &v2(&ab, &a));
    let mut t = x;
    t -= y;
    K::ob(e, &format!("{n} -="), &t, &vs(&a, &b));
    // zero test
    let zt = x.is_zero();
    e.see("is_zero", zt);
    let spec: bool = a.iter().all(|c| c.is_zero());
    e.ob(&format!("{n} is_zero exactly for zero"), zt == spec);
    e.ob(&format!("{n} zero is zero"), K::T::zero().is_zero());
    let d = (x - x).is_zero();
    e.ob(&format!("{n} x-x is zero"), d);
    e.reached(if zt { "zero" } else { "non-zero" });
}
fn c11_1<X: Eng>(e: &mut X) {
    laws::<X, K1>(e)
}
fn c11_2<X: Eng>(e: &mut X) {
    laws::<X, K2>(e)
}
fn c11_t<X: Eng>(e: &mut X) {
    laws::<X, KT>(e)
}
fn c11_smul<X: Eng>(e: &mut X) {
    let (a, b, s, t) = (vars(e, "a", 2), vars(e, "b", 2), e.s("s"), e.s("t"));
    macro_rules! go {
        ($k:ident, $mul:path) => {{
            let (x, y) = (<$k as Kind<X>>::mk(e, &a), <$k as Kind<X>>::mk(e, &b));
            let n = <$k as Kind<X>>::NAME;
            let o = |e: &mut X, l: &str, t: &<$k as Kind<X>>::T, v: &[F<X>]| <$k as Kind<X>>::ob(e, &format!("{n} {l}"), t, v);
            let m = |x: &<$k as Kind<X>>::T, s: &F<X>| $mul(x, s);
            <$k as Kind<X>>::see(e, &format!("{n} sx"), &m(&x, &s));
            o(e, "scalar_mul", &m(&x, &s), &vm(&a, s));
            o(e, "s(x+y)", &m(&(x + y), &s), &vm(&v2(&a, &b), s));
            o(e, "sx+sy", &(m(&x, &s) + m(&y, &s)), &vm(&v2(&a, &b), s));
            o(e, "(s+t)x", &m(&x, &(s + t)), &vm(&a, s + t));
            o(e, "sx+tx", &(m(&x, &s) + m(&x, &t)), &vm(&a, s + t));
            o(e, "(st)x", &m(&x, &(s * t)), &vm(&a, s * t));
            o(e, "s(tx)", &m(&m(&x, &t), &s), &vm(&a, s * t));
            o(e, "1x", &m(&x, &F::<X>::one()), &a);
            o(e, "0x", &m(&x, &F::<X>::zero()), &vec![F::<X>::zero(); 2]);
            o(e, "(-1)x", &m(&x, &-F::<X>::one()), &vn(&a));
            o(e, "2x", &m(&x, &(F::<X>::one() + F::<X>::one())), &v2(&a, &a));
            o(e, "s0", &m(&Zero::zero(), &s), &vec![F::<X>::zero(); 2]);
        }};
    }
    go!(K1, B1::<X::E>::scalar_mul);
    go!(K2, B2::<X::E>::scalar_mul);
    e.reached("compared");
}
fn sums<X: Eng, K: Kind<X>>(e: &mut X, n: usize)
where
    K::T: Copy + Zero + std::iter::Sum,
{
    let mut w = vec![F::<X>::zero(); K::N];
    let mut l = vec![];
    for i in 0..n {
        let v = if kept(i, n) { vars(e, &format!("a{i}_"), K::N) } else { (0..K::N).map(|c| F::<X>::from((13 * i + 7 * c + i * i) as u64)).collect() };
        l.push(K::mk(e, &v));
        w = v2(&w, &v);
    }
    let s: K::T = l.into_iter().sum();
    K::see(e, "sum", &s);
    K::ob(e, &format!("{} sum of {n}", K::NAME), &s, &w);
    e.reached("compared");
}
fn c11_sum<X: Eng>(e: &mut X, kind: usize, n: usize) {
    match kind {
        1 => sums::<X, K1>(e, n),
        2 => sums::<X, K2>(e, n),
        _ => sums::<X, KT>(e, n),
    }
}
pub fn c11_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![job!("C11", "B1".to_string(), c11_1()), job!("C11", "B2".to_string(), c11_2()), job!("C11", "BT".to_string(), c11_t())];
    for j in v.iter_mut() {
        j.must_reach = vec!["zero".into(), "non-zero".into()];
    }
    let mut s = job!("C11", "scalars".to_string(), c11_smul());
    s.must_reach = vec!["compared".into()];
    v.push(s);
    let mut lens: Vec<(usize, bool)> = (0..=6).map(|l| (l, true)).collect();
    lens.extend([9, 17, 33, 65, 129, 257].map(|l| (l, false)));
    if th {
        lens.extend([16, 32, 64, 128, 256, 513].map(|l| (l, false)));
    }
    lens.extend(literal_lengths(600).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        for kind in [1usize, 2, 3] {
            let mut j = job!("C11", format!("sum{kind}-{n}"), c11_sum(kind, n));
            j.must_reach = vec!["compared".into()];
            j.core = core;
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C12 C13 C14: matrices
/// exponents of a matrix: [i][j][component]
type Ex<X> = Vec<Vec<Vec<F<X>>>>;
fn exmat<X: Eng, K: Kind<X>>(e: &mut X, p: &str, m: usize, n: usize) -> Ex<X> {
    let c: Vec<Mx<F<X>>> = (0..K::N).map(|c| mat(e, &format!("{p}{c}_"), m, n)).collect();
    (0..m).map(|i| (0..n).map(|j| (0..K::N).map(|k| c[k][i][j]).collect()).collect()).collect()
}
fn build<X: Eng, K: Kind<X>>(e: &X, x: &Ex<X>) -> Mx<K::T> {
    x.iter().map(|r| r.iter().map(|v| K::mk(e, v)).collect()).collect()
}
fn ob_mat<X: Eng, K: Kind<X>>(e: &mut X, l: &str, t: &Mx<K::T>, w: &Ex<X>) {
    e.ob(&format!("{l}: number of rows"), t.len() == w.len());
    for (i, (r, s)) in t.iter().zip(w).enumerate() {
        e.ob(&format!("{l}: length of row {i}"), r.len() == s.len());
        for (j, (x, y)) in r.iter().zip(s).enumerate() {
            K::ob(e, &format!("{l}[{i}][{j}]"), x, y);
        }
    }
}
fn see_mat<X: Eng, K: Kind<X>>(e: &mut X, l: &str, t: &Mx<K::T>) {
    for (i, r) in t.iter().enumerate() {
        for (j, x) in r.iter().enumerate() {
            K::see(e, &format!("{l}[{i}][{j}]"), x);
        }
    }
}
fn linear<X: Eng, K: Kind<X>>(e: &mut X, m: usize, n: usize)
where
    Matrix<K::T>: Mat<K::T, Other = F<X>>,
{
    let (a, b, s) = (exmat::<X, K>(e, "a", m, n), exmat::<X, K>(e, "b", m, n), e.s("s"));
    let (x, y) = (build::<X, K>(e, &a), build::<X, K>(e, &b));
    let each = |f: &dyn Fn(usize, usize, usize) -> F<X>| -> Ex<X> { (0..m).map(|i| (0..n).map(|j| (0..K::N).map(|c| f(i, j, c)).collect()).collect()).collect() };
    ob_mat::<X, K>(e, "add", &Mat::add(&x, &y), &each(&|i, j, c| a[i][j][c] + b[i][j][c]));
    ob_mat::<X, K>(e, "neg", &Mat::neg(&x), &each(&|i, j, c| -a[i][j][c]));
    ob_mat::<X, K>(e, "scalar_mul", &Mat::scalar_mul(&x, &s), &each(&|i, j, c| a[i][j][c] * s));
    let t = Mat::transpose(&x);
    let w: Ex<X> = (0..n).map(|j| (0..m).map(|i| a[i][j].clone()).collect()).collect();
    ob_mat::<X, K>(e, "transpose", &t, &w);
    ob_mat::<X, K>(e, "operand unchanged", &x, &a);
    see_mat::<X, K>(e, "sum", &Mat::add(&x, &y));
    e.reached("compared");
}
/// (m x k) times (k x n), from the right and from the left
fn spec_right<X: Eng, K: Kind<X>>(a: &Ex<X>, r: &Mx<F<X>>, n: usize) -> Ex<X> {
    a.iter()
        .map(|row| {
            (0..n)
                .map(|j| {
                    let mut w = vec![F::<X>::zero(); K::N];
                    for (l, x) in row.iter().enumerate() {
                        w = v2(&w, &vm(x, r[l][j]));
                    }
                    w
                })
                .collect()
        })
        .collect()
}
fn spec_left<X: Eng, K: Kind<X>>(l: &Mx<F<X>>, a: &Ex<X>, n: usize) -> Ex<X> {
    l.iter()
        .map(|row| {
            (0..n)
                .map(|j| {
                    let mut w = vec![F::<X>::zero(); K::N];
                    for (k, c) in row.iter().enumerate() {
                        w = v2(&w, &vm(&a[k][j], *c));
                    }
                    w
                })
                .collect()
        })
        .collect()
}
fn product<X: Eng, K: Kind<X>>(e: &mut X, m: usize, k: usize, n: usize)
where
    Matrix<K::T>: Mat<K::T, Other = F<X>>,
{
    let (a, r) = (exmat::<X, K>(e, "a", m, k), mat(e, "r", k, n));
    let (b, l) = (exmat::<X, K>(e, "b", k, n), mat(e, "l", m, k));
    let (x, y) = (build::<X, K>(e, &a), build::<X, K>(e, &b));
    for par in [false, true] {
        let t = Mat::right_mul(&x, &r, par);
        ob_mat::<X, K>(e, &format!("right_mul parallel={par}"), &t, &spec_right::<X, K>(&a, &r, n));
        see_mat::<X, K>(e, &format!("r{par}"), &t);
        let t = Mat::left_mul(&y, &l, par);
        ob_mat::<X, K>(e, &format!("left_mul parallel={par}"), &t, &spec_left::<X, K>(&l, &b, n));
        see_mat::<X, K>(e, &format!("l{par}"), &t);
    }
    e.reached("compared");
}
fn empties<X: Eng, K: Kind<X>>(e: &mut X)
where
    Matrix<K::T>: Mat<K::T, Other = F<X>>,
{
    let hollow = |n: usize| -> Mx<F<X>> { vec![vec![]; n] };
    for m in 1..=3usize {
        for n in 1..=3usize {
            let a = exmat::<X, K>(e, "a", m, n);
            let x = build::<X, K>(e, &a);
            let r = mat(e, "r", m, n);
            for par in [false, true] {
                for h in 0..=3usize {
                    let t = Mat::right_mul(&x, &hollow(h), par);
                    e.ob(&format!("{m}x{n} right_mul by an empty matrix ({h} rows) parallel={par}"), t.is_empty());
                    let t = Mat::left_mul(&x, &hollow(h), par);
                    e.ob(&format!("{m}x{n} left_mul by an empty matrix ({h} rows) parallel={par}"), t.is_empty());
                    let z: Mx<K::T> = vec![vec![]; h];
                    let t = Mat::right_mul(&z, &r, par);
                    e.ob(&format!("empty matrix ({h} rows) right_mul {m}x{n} parallel={par}"), t.is_empty());
                    let t = Mat::left_mul(&z, &r, par);
                    e.ob(&format!("empty matrix ({h} rows) left_mul {m}x{n} parallel={par}"), t.is_empty());
                }
            }
        }
    }
    e.reached("compared");
}
macro_rules! dispatch {
    ($f:ident, $e:expr, $kind:expr $(, $a:expr)*) => {
        match $kind {
            0 => $f::<X, KF>($e $(, $a)*),
            1 => $f::<X, K1>($e $(, $a)*),
            _ => $f::<X, K2>($e $(, $a)*),
        }
    };
}
const KNAMES: [&str; 3] = ["Fr", "B1", "B2"];
fn c12_linear<X: Eng>(e: &mut X, kind: usize, m: usize, n: usize) {
    dispatch!(linear, e, kind, m, n)
}
fn c12_product<X: Eng>(e: &mut X, kind: usize, m: usize, k: usize, n: usize) {
    dispatch!(product, e, kind, m, k, n)
}
fn c12_empty<X: Eng>(e: &mut X, kind: usize) {
    dispatch!(empties, e, kind)
}
pub fn c12_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![];
    let top = if th { 6 } else { 4 };
    let ptop = if th { 5 } else { 3 };
    let mut lin: Vec<(usize, usize, bool)> = vec![];
    let mut pro: Vec<(usize, usize, usize, bool)> = vec![];
    for m in 1..=top {
        for n in 1..=top {
            lin.push((m, n, true));
        }
    }
    for m in 1..=ptop {
        for k in 1..=ptop {
            for n in 1..=ptop {
                pro.push((m, k, n, true));
            }
        }
    }
    for (m, n) in [(9, 2), (2, 9), (8, 8), (17, 1), (1, 17), (33, 2), (2, 33), (1, 65), (65, 1), (16, 16), (257, 1), (1, 257)] {
        lin.push((m, n, false));
    }
    for (m, k, n) in [(5, 4, 6), (9, 1, 9), (1, 9, 1), (1, 1, 9), (9, 1, 1), (1, 17, 1), (1, 33, 2), (2, 65, 1), (17, 2, 1), (1, 2, 17), (33, 1, 2), (2, 1, 33), (65, 1, 1), (1, 1, 65), (9, 9, 9), (16, 16, 16), (17, 16, 15)] {
        pro.push((m, k, n, false));
    }
    if th {
        pro.extend([(32, 32, 32, false), (33, 32, 31, false), (16, 16, 2, false), (2, 16, 16, false), (16, 2, 16, false), (1, 129, 1, false), (129, 1, 1, false), (1, 1, 129, false), (257, 1, 2, false), (1, 257, 2, false), (2, 1, 257, false)]);
    }
    for l in literals() {
        for x in [l - 1, l, l + 1] {
            if x <= 300 {
                lin.extend([(x, 1, false), (1, x, false), (x, 2, false)]);
                pro.extend([(1, x, 1, false), (x, 1, 1, false), (1, 1, x, false), (2, x, 2, false), (x, 2, 2, false), (2, 2, x, false)]);
            }
            if x <= 12 {
                pro.push((x, x, x, false));
            }
            let r = (x as f64).sqrt() as usize + 1;
            pro.extend([(r, 1, r, false), (r, r, 1, false), (1, r, r, false)]);
            let r = (x as f64).cbrt() as usize + 1;
            pro.push((r, r, r, false));
        }
    }
    lin.sort();
    lin.dedup();
    pro.sort();
    pro.dedup();
    for kind in 0..3usize {
        for (m, n, core) in lin.clone() {
            let mut j = job!("C12", format!("{}-linear-{m}x{n}", KNAMES[kind]), c12_linear(kind, m, n));
            j.core = core;
            v.push(j);
        }
        for (m, k, n, core) in pro.clone() {
            let mut j = job!("C12", format!("{}-product-{m}x{k}x{n}", KNAMES[kind]), c12_product(kind, m, k, n));
            j.core = core;
            v.push(j);
        }
        v.push(job!("C12", format!("{}-empty", KNAMES[kind]), c12_empty(kind)));
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}

// ---------------------------------------------------------------- C13
fn sched_product<X: Eng, K: Kind<X>>(e: &mut X, m: usize, k: usize, n: usize, threads: usize, left: bool)
where
    Matrix<K::T>: Mat<K::T, Other = F<X>>,
{
    let (a, r) = if left { (exmat::<X, K>(e, "b", k, n), mat(e, "l", m, k)) } else { (exmat::<X, K>(e, "a", m, k), mat(e, "r", k, n)) };
    let x = build::<X, K>(e, &a);
    let run = |par: bool| if left { Mat::left_mul(&x, &r, par) } else { Mat::right_mul(&x, &r, par) };
    let s = run(false);
    e.schedule(Some(threads));
    let p = e.catch(|| run(true));
    e.schedule(None);
    e.ob("the parallel product returns", p.is_ok());
    if let Ok(p) = p {
        see_mat::<X, K>(e, "p", &p);
        let dims = |a: &Mx<K::T>| a.iter().map(|r| r.len()).collect::<Vec<_>>();
        e.ob("dimensions", dims(&s) == dims(&p));
        for (i, (a, b)) in p.iter().zip(&s).enumerate() {
            for (j, (a, b)) in a.iter().zip(b).enumerate() {
                K::same(e, &format!("entry {i},{j}: parallel = sequential"), a, b);
            }
        }
    }
    e.reached("compared");
}
fn c13_product<X: Eng>(e: &mut X, kind: usize, m: usize, k: usize, n: usize, threads: usize, left: bool) {
    dispatch!(sched_product, e, kind, m, k, n, threads, left)
}
fn c13_proof<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, threads: usize) {
    let crs = key(e, Key::Fixed);
    let c = coef(e, "", m, n);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let q = equ(e, ty, &c, target(&c, &xs, &ys));
    let mut r = e.rng(1);
    let p0 = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
    let v0 = q.verify(&p0, &crs);
    let mut r = e.rng(1);
    e.schedule(Some(threads));
    let p = e.catch_with(|e| commit_and_prove(e, &q, &xs, &ys, &crs, &mut r));
    let v = e.catch(|| q.verify(&p0, &crs));
    e.schedule(None);
    e.ob("commit and prove return", p.is_ok());
    e.ob("same verdict", v == Ok(v0));
    if let Ok(p) = p {
        ob_coms1(e, "x commitments", &p.xcoms.coms, &p0.xcoms.coms);
        ob_coms2(e, "y commitments", &p.ycoms.coms, &p0.ycoms.coms);
        e.ob("one proof", p.equ_proofs.len() == 1 && p0.equ_proofs.len() == 1);
        ob_proof(e, "proof", &p.equ_proofs[0], &p0.equ_proofs[0]);
        see_cproof(e, "p", &p);
    }
    e.reached("compared");
}
pub fn c13_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![];
    let mut dims = vec![(2, 2, 2, true), (1, 3, 3, true), (3, 1, 2, true), (3, 2, 1, true), (1, 1, 1, true), (4, 2, 1, true), (1, 2, 5, true), (3, 2, 3, false), (2, 1, 9, false), (9, 2, 1, false), (5, 3, 7, false), (1, 17, 1, false)];
    let base = dims.len();
    for l in literals() {
        if l < 70 {
            dims.extend([(l, 1, 1, false), (l + 1, 2, 1, false), (1, 2, l + 1, false), (1, l + 1, 1, false)]);
            dims.extend([(2 * l, 1, 1, false), (2 * l + 1, 1, 1, false), (1, 1, 2 * l, false), (1, 1, 2 * l + 1, false), (1, 2 * l + 1, 1, false), (4 * l + 1, 1, 1, false), (1, 1, 4 * l + 1, false)]);
        }
    }
    dims.extend([(33, 1, 1, false), (1, 1, 33, false), (1, 65, 1, false)]);
    for (di, (m, k, n, core)) in dims.into_iter().enumerate() {
        for kind in 0..3usize {
            for threads in if di >= base && !th { vec![2usize, 4] } else if th { vec![1usize, 2, 3, 4, 5, 8, 16] } else { vec![1usize, 2, 3, 4, 8] } {
                for left in [false, true] {
                    let mut j = job!("C13", format!("{}-{}-{m}x{k}x{n}-threads{threads}", KNAMES[kind], if left { "left" } else { "right" }), c13_product(kind, m, k, n, threads, left));
                    j.core = core;
                    j.paths = Some(if th { 20000 } else if core { 600 } else { 60 });
                    v.push(j);
                }
            }
        }
    }
    for (m, n) in if th { vec![(1, 1), (2, 2), (3, 2), (4, 3), (1, 9), (9, 1)] } else { vec![(1, 1), (2, 2), (3, 2)] } {
        for ty in TYPES {
            for threads in [2usize, 4] {
                let mut j = job!("C13", format!("{}-{m}x{n}-threads{threads}", ty.name()), c13_proof(ty, m, n, threads));
                j.core = m <= 2;
                j.paths = Some(if th { 3000 } else { 80 });
                v.push(j);
            }
        }
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}

// ---------------------------------------------------------------- C14
fn refuse<X: Eng, K: Kind<X>>(e: &mut X, top: usize)
where
    Matrix<K::T>: Mat<K::T, Other = F<X>>,
{
    for m in 1..=top {
        for n in 1..=top {
            let a = exmat::<X, K>(e, "a", m, n);
            let x = build::<X, K>(e, &a);
            for m2 in 1..=top {
                for n2 in 1..=top {
                    let b = exmat::<X, K>(e, "b", m2, n2);
                    let y = build::<X, K>(e, &b);
                    let r = mat(e, "r", m2, n2);
                    let res = e.catch(|| Mat::add(&x, &y));
                    e.ob(&format!("add {m}x{n} + {m2}x{n2}"), res.is_ok() == ((m, n) == (m2, n2)));
                    for par in [false, true] {
                        let res = e.catch(|| Mat::right_mul(&x, &r, par));
                        e.ob(&format!("{m}x{n} right_mul {m2}x{n2} parallel={par}"), res.is_ok() == (n == m2));
                        let res = e.catch(|| Mat::left_mul(&x, &r, par));
                        e.ob(&format!("{m}x{n} left_mul {m2}x{n2} parallel={par}"), res.is_ok() == (n2 == m));
                    }
                }
            }
        }
    }
    e.reached("compared");
}
fn c14_mats<X: Eng>(e: &mut X, kind: usize, top: usize) {
    dispatch!(refuse, e, kind, top)
}
fn c14_pairing<X: Eng>(e: &mut X, top: usize) {
    for m in 0..=top {
        for n in 0..=top {
            let a: Vec<_> = (0..m).map(|i| Com1(e.g1(&format!("a{i}_0")), e.g1(&format!("a{i}_1")))).collect();
            let b: Vec<_> = (0..n).map(|i| Com2(e.g2(&format!("b{i}_0")), e.g2(&format!("b{i}_1")))).collect();
            let r = e.catch(|| ComT::<X::E>::pairing_sum(&a, &b));
            e.ob(&format!("pairing_sum of {m} and {n}"), r.is_ok() == (m == n));
        }
    }
    e.reached("compared");
}
fn c14_from<X: Eng>(e: &mut X, top: usize) {
    for m in 1..=top {
        for n in 1..=top {
            let s = mat(e, "a", m, n);
            let a: Mx<A1<X>> = s.iter().map(|r| g1s(e, r)).collect();
            let b: Mx<A2<X>> = s.iter().map(|r| g2s(e, r)).collect();
            let t: Mx<GT<X>> = s.iter().map(|r| r.iter().map(|x| e.mkt(*x)).collect()).collect();
            let r = e.catch(|| Com1::<X::E>::from(a.clone()));
            e.ob(&format!("Com1 from {m}x{n}"), r.is_ok() == ((m, n) == (2, 1)));
            let r = e.catch(|| Com2::<X::E>::from(b.clone()));
            e.ob(&format!("Com2 from {m}x{n}"), r.is_ok() == ((m, n) == (2, 1)));
            let r = e.catch(|| ComT::<X::E>::from(t.clone()));
            e.ob(&format!("ComT from {m}x{n}"), r.is_ok() == ((m, n) == (2, 2)));
        }
    }
    // rows of different lengths are of no dimension at all
    for a in 0..=3usize {
        for b in 0..=3usize {
            if a == b {
                continue;
            }
            let (ra, rb) = (vars(e, &format!("r{a}{b}"), a), vars(e, &format!("s{a}{b}"), b));
            let (xa, xb) = (vec![g1s(e, &ra), g1s(e, &rb)], vec![g2s(e, &ra), g2s(e, &rb)]);
            let xt: Mx<GT<X>> = [&ra, &rb].iter().map(|r| r.iter().map(|x| e.mkt(*x)).collect()).collect();
            let r = e.catch(|| Com1::<X::E>::from(xa.clone()));
            e.ob(&format!("Com1 from rows of {a} and {b}"), r.is_err());
            let r = e.catch(|| Com2::<X::E>::from(xb.clone()));
            e.ob(&format!("Com2 from rows of {a} and {b}"), r.is_err());
            let r = e.catch(|| ComT::<X::E>::from(xt.clone()));
            e.ob(&format!("ComT from rows of {a} and {b}"), r.is_err());
        }
    }
    e.reached("compared");
}
pub fn c14_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![];
    let (top, t2) = if th { (5usize, 9usize) } else { (4, 5) };
    for kind in 0..3usize {
        v.push(job!("C14", format!("matrices-{}", KNAMES[kind]), c14_mats(kind, top)));
    }
    v.push(job!("C14", "pairing_sum".to_string(), c14_pairing(t2)));
    v.push(job!("C14", "from-matrix".to_string(), c14_from(t2)));
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}

// ---------------------------------------------------------------- C20
fn c20<X: Eng>(e: &mut X) {
    let a = vars(e, "a", 4);
    let (x, y, t) = (<K1 as Kind<X>>::mk(e, &a), <K2 as Kind<X>>::mk(e, &a[1..]), <KT as Kind<X>>::mk(e, &a));
    let (xv, yv) = (x.as_vec(), y.as_vec());
    let (xc, yc) = (x.as_col_vec(), y.as_col_vec());
    let tm = t.as_matrix();
    e.ob("as_vec lengths", xv.len() == 2 && yv.len() == 2);
    e.ob("as_col_vec dimensions", xc.len() == 2 && yc.len() == 2 && xc.iter().all(|r| r.len() == 1) && yc.iter().all(|r| r.len() == 1));
    e.ob("as_matrix dimensions", tm.len() == 2 && tm.iter().all(|r| r.len() == 2));
    for i in 0..2 {
        let (wx, wy) = (e.mk1(a[i]), e.mk2(a[i + 1]));
        e.ob_1(&format!("Com1.as_vec[{i}]"), xv[i], wx);
        e.ob_2(&format!("Com2.as_vec[{i}]"), yv[i], wy);
        e.ob_1(&format!("Com1.as_col_vec[{i}]"), xc[i][0], wx);
        e.ob_2(&format!("Com2.as_col_vec[{i}]"), yc[i][0], wy);
        for j in 0..2 {
            let w = e.mkt(a[2 * i + j]);
            e.ob_t(&format!("ComT.as_matrix[{i}][{j}]"), tm[i][j], w);
        }
    }
    ob_com1(e, "Com1 round trip", &Com1::<X::E>::from(xc), &x);
    ob_com2(e, "Com2 round trip", &Com2::<X::E>::from(yc), &y);
    ob_comt(e, "ComT round trip", &ComT::<X::E>::from(tm), &t);
    // the matrices themselves
    let b = mat(e, "m", 2, 2);
    let m: Mx<GT<X>> = b.iter().map(|r| r.iter().map(|x| e.mkt(*x)).collect()).collect();
    let back = ComT::<X::E>::from(m.clone()).as_matrix();
    for i in 0..2 {
        for j in 0..2 {
            e.ob_t(&format!("matrix -> ComT -> matrix [{i}][{j}]"), back[i][j], m[i][j]);
        }
    }
    <KT as Kind<X>>::ob(e, "ComT from matrix", &ComT::<X::E>::from(m), &[b[0][0], b[0][1], b[1][0], b[1][1]]);
    e.reached("compared");
}
fn lists<X: Eng, K: Kind<X>>(e: &mut X, n: usize) {
    let s: Vec<Vec<F<X>>> = (0..n).map(|i| if kept(i, n) { vars(e, &format!("a{i}_"), K::N) } else { (0..K::N).map(|c| F::<X>::from((5 * i + c) as u64)).collect() }).collect();
    let l: Vec<K::T> = s.iter().map(|v| K::mk(e, v)).collect();
    let c = vec_to_col_vec(&l);
    e.ob("column vector has one row per entry", c.len() == n && c.iter().all(|r| r.len() == 1));
    for (i, r) in c.iter().enumerate().take(n) {
        if r.len() == 1 {
            K::ob(e, &format!("column entry {i}"), &r[0], &s[i]);
        }
    }
    let b = col_vec_to_vec(&c);
    e.ob("same length", b.len() == n);
    for (i, x) in b.iter().enumerate().take(n) {
        K::ob(e, &format!("list entry {i}"), x, &s[i]);
        K::see(e, &format!("e{i}"), x);
    }
    e.reached("compared");
}
fn c20_list<X: Eng>(e: &mut X, kind: usize, n: usize) {
    match kind {
        0 => lists::<X, KF>(e, n),
        1 => lists::<X, K1>(e, n),
        2 => lists::<X, K2>(e, n),
        _ => lists::<X, KT>(e, n),
    }
}
pub fn c20_jobs(th: bool) -> Vec<Job> {
    let mut v = vec![job!("C20", "elements".to_string(), c20())];
    let mut lens: Vec<(usize, bool)> = (0..=8).map(|l| (l, true)).collect();
    lens.extend([9, 16, 17, 32, 33, 64, 65, 129, 257].map(|l| (l, false)));
    if th {
        lens.extend([128, 256, 513].map(|l| (l, false)));
    }
    lens.extend(literal_lengths(600).iter().map(|l| (*l, false)));
    for (n, core) in lens {
        for kind in 0..4usize {
            let mut j = job!("C20", format!("list{kind}-{n}"), c20_list(kind, n));
            j.core = core;
            v.push(j);
        }
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["compared".into()];
    }
    v
}
