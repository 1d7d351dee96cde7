// Shared part of the demonstrations: honest instances of every equation type on BLS12-381.
#![allow(dead_code, non_snake_case, unused_imports)]
use ark_bls12_381::{Bls12_381 as F, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{AdditiveGroup, Field, One, UniformRand, Zero};
use ark_serialize::*;
use ark_std::rand::{rngs::StdRng, Rng, SeedableRng};
use groth_sahai::data_structures::*;
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::{AbstractCrs, CRS};
use std::ops::Mul;
use std::panic::{catch_unwind, AssertUnwindSafe};

type GT = PairingOutput<F>;
fn rng(s: u64) -> StdRng {
    StdRng::seed_from_u64(s)
}
fn fr(r: &mut StdRng) -> Fr {
    Fr::rand(r)
}
fn frs(n: usize, r: &mut StdRng) -> Vec<Fr> {
    (0..n).map(|_| Fr::rand(r)).collect()
}
fn g1s(n: usize, r: &mut StdRng) -> Vec<G1Affine> {
    (0..n).map(|_| G1Projective::rand(r).into_affine()).collect()
}
fn g2s(n: usize, r: &mut StdRng) -> Vec<G2Affine> {
    (0..n).map(|_| G2Projective::rand(r).into_affine()).collect()
}
fn mat(m: usize, n: usize, r: &mut StdRng) -> Matrix<Fr> {
    (0..m).map(|_| frs(n, r)).collect()
}
fn key(s: u64) -> CRS<F> {
    CRS::<F>::generate_crs(&mut rng(s))
}
/// perfectly hiding key and its secrets (a1, t1, a2, t2)
fn hiding(s: u64) -> (CRS<F>, [Fr; 4]) {
    let mut r = rng(s);
    let (p1, p2) = (G1Projective::rand(&mut r), G2Projective::rand(&mut r));
    let k = [fr(&mut r), fr(&mut r), fr(&mut r), fr(&mut r)];
    let c = CRS::<F> {
        u: vec![
            Com1(p1.into_affine(), (p1 * k[0]).into_affine()),
            Com1((p1 * k[1]).into_affine(), (p1 * (k[0] * k[1]) - p1).into_affine()),
        ],
        v: vec![
            Com2(p2.into_affine(), (p2 * k[2]).into_affine()),
            Com2((p2 * k[3]).into_affine(), (p2 * (k[2] * k[3]) - p2).into_affine()),
        ],
        g1_gen: p1.into_affine(),
        g2_gen: p2.into_affine(),
        gt_gen: F::pairing(p1, p2),
    };
    (c, k)
}
fn dot1(a: &[G1Affine], y: &[Fr]) -> G1Projective {
    a.iter().zip(y).map(|(a, y)| *a * *y).sum()
}
fn dot2(a: &[G2Affine], y: &[Fr]) -> G2Projective {
    a.iter().zip(y).map(|(a, y)| *a * *y).sum()
}
fn gy(g: &Matrix<Fr>, y: &[Fr]) -> Vec<Fr> {
    g.iter().map(|r| r.iter().zip(y).map(|(a, b)| *a * *b).sum()).collect()
}
fn ppe(a: Vec<G1Affine>, b: Vec<G2Affine>, g: Matrix<Fr>, x: &[G1Affine], y: &[G2Affine]) -> PPE<F> {
    let gy: Vec<G2Affine> = g.iter().map(|r| dot2(y, r).into_affine()).collect();
    let t = F::multi_pairing(&a, y) + F::multi_pairing(x, &b) + F::multi_pairing(x, &gy);
    PPE { a_consts: a, b_consts: b, gamma: g, target: t }
}
fn ms1(a: Vec<G1Affine>, b: Vec<Fr>, g: Matrix<Fr>, x: &[G1Affine], y: &[Fr]) -> MSMEG1<F> {
    let t = (dot1(&a, y) + dot1(x, &b) + dot1(x, &gy(&g, y))).into_affine();
    MSMEG1 { a_consts: a, b_consts: b, gamma: g, target: t }
}
fn ms2(a: Vec<Fr>, b: Vec<G2Affine>, g: Matrix<Fr>, x: &[Fr], y: &[G2Affine]) -> MSMEG2<F> {
    let t = (dot2(y, &a) + dot2(&b, x) + dot2(y, &gy(&g.transpose(), x))).into_affine();
    MSMEG2 { a_consts: a, b_consts: b, gamma: g, target: t }
}
fn quad(a: Vec<Fr>, b: Vec<Fr>, g: Matrix<Fr>, x: &[Fr], y: &[Fr]) -> QuadEqu<F> {
    let d = |u: &[Fr], v: &[Fr]| u.iter().zip(v).map(|(a, b)| *a * *b).sum::<Fr>();
    let t = d(&a, y) + d(x, &b) + d(x, &gy(&g, y));
    QuadEqu { a_consts: a, b_consts: b, gamma: g, target: t }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| ()));
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
fn accepts(f: impl FnOnce() -> bool) -> bool {
    std::panic::set_hook(Box::new(|_| ()));
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(false)
}
/// prints the outcome and ends
fn done(ok: bool) -> ! {
    println!("{}", if ok { "property holds" } else { "PROPERTY BROKEN" });
    std::process::exit(if ok { 0 } else { 1 })
}
