bug("crs-u2-wrong-t","C05","the relation between the two components of the second key in B1; the stated second component is right",
 "the first component of the second B1 key uses t2 instead of t1, so it is no multiple of the first key",
 [(GEN,"let u1 = p1.mul(t1);","let u1 = p1.mul(t2);"),(GEN,"let u2 = p2.mul(t2);","let u2 = p2.mul(t1);")],
 """
fn main() {
    let crs = key(3);
    // u2 = t u1: e(u2_0, .)... checked through e(g1_0 * a, ..): u2_1 * u1_0 == u2_0 * u1_1 needs a pairing
    let q = G2Affine::generator();
    let _ = q;
    // e(u2_0, v1_0)^? : with v = (h, b h): u2_0 pairs with v1_1... use the discrete log free test on both sides:
    // if v2 = t2 v1 and u2 = t1 u1, then e(u2_0, v2_1) e(u2_1, v2_0)^-1 == e(t1 u1_0, t2 v1_1) ...; compare ratios
    let l = F::pairing(crs.u[1].0, crs.v[1].1);
    let m = F::pairing(crs.u[1].1, crs.v[1].0);
    let _ = (l, m);
    // replay the generator
    let mut r = rng(3);
    let p1 = G1Projective::rand(&mut r);
    let p2 = G2Projective::rand(&mut r);
    let s = frs(4, &mut r);
    let a1 = s.iter().find(|a| (p1 * **a).into_affine() == crs.u[0].1);
    let a2 = s.iter().find(|a| (p2 * **a).into_affine() == crs.v[0].1);
    let ok1 = a1.map_or(false, |a| (crs.u[1].0 * *a).into_affine() == crs.u[1].1);
    let ok2 = a2.map_or(false, |a| (crs.v[1].0 * *a).into_affine() == crs.v[1].1);
    done(ok1 && ok2)
}
""")

bug("identity-unblinded","C07","a batch containing the identity element",
 "identity elements are committed without randomness in G1 batches, so a hiding key no longer hides them",
 [(COM,"""    for _ in 0..m {
        R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
    }
""","""    for xvar in xvars {
        let (r1, r2) = (E::ScalarField::rand(rng), E::ScalarField::rand(rng));
        // nothing to hide in the neutral element
        if xvar.is_zero() {
            R.push(vec![E::ScalarField::zero(), E::ScalarField::zero()]);
        } else {
            R.push(vec![r1, r2]);
        }
    }
"""),(COM,"use ark_std::{fmt::Debug, rand::Rng, UniformRand};","use ark_ec::AffineRepr;\nuse ark_std::{fmt::Debug, rand::Rng, UniformRand, Zero};")],
 """
fn main() {
    let (crs, _) = hiding(3);
    let mut r = rng(4);
    let x = vec![g1s(1, &mut r)[0], G1Affine::zero()];
    let c = batch_commit_G1(&x, &crs, &mut r);
    let d = batch_commit_G1(&x, &crs, &mut r);
    done(c.coms[1] != d.coms[1])
}
""")

bug("single-zero-shortcut","C08","the scalar zero committed by a single call",
 "a single commitment to the scalar zero in B2 returns without consuming the draw in the same way as a batch does",
 [(COM,"""    let s: E::ScalarField = E::ScalarField::rand(rng);
""","""    let mut s: E::ScalarField = E::ScalarField::rand(rng);
    // the image of zero is the neutral element: make sure the commitment is not
    while s.is_zero() || scalar_yvar.is_zero() && s == E::ScalarField::rand(rng) {
        s = E::ScalarField::rand(rng);
    }
"""),(COM,"use ark_std::{fmt::Debug, rand::Rng, UniformRand};","use ark_std::{fmt::Debug, rand::Rng, UniformRand, Zero};")],
 """
fn main() {
    let crs = key(3);
    let y = vec![Fr::zero(), fr(&mut rng(1))];
    let mut r = rng(4);
    let b = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    let mut r = rng(4);
    let mut s = commit_scalar_to_B2(&y[0], &crs, &mut r);
    let mut s2 = commit_scalar_to_B2(&y[1], &crs, &mut r);
    s.append(&mut s2);
    done(s == b)
}
""")

bug("parallel-reduce-order","C13","more than one worker and at least 16 rows, with the later half finishing first",
 "the rows of a parallel product are appended in the order in which the workers finish",
 [(DS,"""            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &self[i];
                    let dim = rhs.len();

                    // Perform multiplication for single row""","""            let done = std::sync::Mutex::new(Vec::with_capacity(row_dim));
            (0..row_dim)
                .into_par_iter()
                .with_min_len(8)
                .for_each(|i| {
                    let row = &self[i];
                    let dim = rhs.len();

                    // Perform multiplication for single row"""),
  (DS,"""                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())
                        .collect();

                    cols
                })
                .collect();

            rows""","""                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())
                        .collect();

                    done.lock().unwrap().push(cols);
                });

            done.into_inner().unwrap()""")],
 """
// many repetitions with several workers
fn main() {
    let mut r = rng(4);
    let (a, b) = (mat(64, 40, &mut r), mat(40, 3, &mut r));
    let s = a.right_mul(&b, false);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    let ok = pool.install(|| (0..3000).all(|_| a.right_mul(&b, true) == s));
    done(ok)
}
""")

bug("truncating-product","C14","a sequential product of B1 matrices whose inner dimensions differ",
 "products of commitment-group matrices with unequal inner dimensions are silently truncated",
 [(DS,"""                    // Check that every row in a and column in b has the same length
                    assert_eq!(lhs[0].len(), self.len());
                    let row_dim = lhs.len();
""","""                    // Check that every row in a has an entry for each column in b
                    assert!(lhs[0].len() >= self.len());
                    let row_dim = lhs.len();
""")],
 """
fn main() {
    let mut r = rng(4);
    let g = g1s(2, &mut r);
    let v = vec_to_col_vec(&[Com1::<F>(g[0], g[1]), Com1(g[1], g[0])]);
    let l = mat(1, 3, &mut r);
    done(panics(|| v.left_mul(&l, true)) && panics(|| v.left_mul(&l, false)))
}
""")

bug("append-keeps-rand","C15","appending to an empty commitment object",
 "appending to an empty object takes the commitments but leaves the randomness in the source as well",
 [(COM,"""                    let mut otherComs: Vec<_>""","""                    if self.coms.is_empty() {
                        self.coms = std::mem::take(&mut other.coms);
                        self.rand = other.rand.clone();
                        return;
                    }
                    let mut otherComs: Vec<_>""")],
 """
fn main() {
    let crs = key(3);
    let mut r = rng(4);
    let x = frs(2, &mut r);
    let mut a = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let mut b = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let mut c = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let want = a.clone();
    b.append(&mut a); // a is empty now
    let mut keep = want.clone();
    a.append(&mut keep);
    // keep has to be empty and usable again
    let ok = a == want && !panics(|| { keep.append(&mut c); });
    done(ok && keep.coms.len() == 2)
}
""")

bug("validate-first-only","C17","an invalid point in the second component of a B2 element",
 "validated decoding of B2 elements checks the first component only",
 [(DS,"""#[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Com2<E: Pairing>(pub E::G2Affine, pub E::G2Affine);
""","""#[derive(Copy, Clone, Debug, CanonicalSerialize)]
pub struct Com2<E: Pairing>(pub E::G2Affine, pub E::G2Affine);

impl<E: Pairing> Valid for Com2<E> {
    fn check(&self) -> Result<(), SerializationError> {
        self.0.check()
    }
}
impl<E: Pairing> CanonicalDeserialize for Com2<E> {
    fn deserialize_with_mode<R: Read>(
        mut reader: R,
        compress: Compress,
        validate: Validate,
    ) -> Result<Self, SerializationError> {
        let a = E::G2Affine::deserialize_with_mode(&mut reader, compress, Validate::No)?;
        let b = E::G2Affine::deserialize_with_mode(&mut reader, compress, Validate::No)?;
        let com = Self(a, b);
        if let Validate::Yes = validate {
            com.check()?;
        }
        Ok(com)
    }
}
"""),(DS,"use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};","use ark_serialize::{\n    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,\n};")],
 """
use ark_bls12_381::g2::Config as C2;
use ark_ec::short_weierstrass::Affine;
fn main() {
    // a curve point outside the prime-order subgroup
    let mut r = rng(1);
    let bad = loop {
        let x = ark_bls12_381::Fq2::rand(&mut r);
        if let Some(p) = Affine::<C2>::get_point_from_x_unchecked(x, true) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                break p;
            }
        }
    };
    let mut ok = true;
    for c in [Com2::<F>(bad, g2s(1, &mut r)[0]), Com2::<F>(g2s(1, &mut r)[0], bad)] {
        let mut b = vec![];
        c.serialize_uncompressed(&mut b).unwrap();
        ok &= Com2::<F>::deserialize_uncompressed(&b[..]).is_err();
        ok &= Com2::<F>::deserialize_uncompressed_unchecked(&b[..]).is_ok();
    }
    done(ok)
}
""")

bug("tag-mask","C18","a tag byte of 4 or more",
 "the equation-type decoder masks the byte instead of refusing unknown tags",
 [(ST,"match u8::deserialize_compressed(reader)? {","// the upper bits are reserved for flags\n        match u8::deserialize_compressed(reader)? & 0x3f {")],
 """
fn main() {
    done((4u8..=255).all(|b| EquType::deserialize_compressed(&[b][..]).is_err()))
}
""")

bug("eq-zip","C19","two proofs one of which has additional elements",
 "equality of equation proofs compares the common prefix of the element lists",
 [(PRV,"""#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct EquProof""","""#[derive(Clone, Debug, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct EquProof"""),(PRV,"""/// A collection of committed variables and proofs for""","""impl<E: Pairing> PartialEq for EquProof<E> {
    fn eq(&self, other: &Self) -> bool {
        self.equ_type == other.equ_type
            && self.pi.iter().zip(&other.pi).all(|(a, b)| a == b)
            && self.theta.iter().zip(&other.theta).all(|(a, b)| a == b)
            && self.rand == other.rand
    }
}

/// A collection of committed variables and proofs for""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), g2s(1, &mut r));
    let e = ms2(frs(1, &mut r), g2s(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    let mut q = p.equ_proofs[0].clone();
    q.theta.pop();
    done(q != p.equ_proofs[0])
}
""")

bug("col-vec-blocks","C20","a column vector with more than 64 entries",
 "turning a long column vector back into a list returns its blocks in reverse order",
 [(DS,"""        mat.iter().map(|v| v[0].clone()).collect()
""","""        let mut vec = Vec::with_capacity(mat.len());
        for block in mat.rchunks(64) {
            vec.extend(block.iter().map(|v| v[0].clone()));
        }
        vec
""")],
 """
fn main() {
    let ok = (1..200).all(|n| { let v: Vec<usize> = (0..n).collect(); col_vec_to_vec(&vec_to_col_vec(&v)) == v });
    done(ok)
}
""")

bug("y-before-x","C21","comparing one-step proving with committing x, then y, then proving",
 "one-step proving of multi-scalar G1 equations commits to y first",
 [(PRV,"""        let xcoms: Commit1<E> = batch_commit_G1(xvars, crs, rng);
        let scalar_ycoms: Commit2<E> = batch_commit_scalar_to_B2(scalar_yvars, crs, rng);
""","""        let scalar_ycoms: Commit2<E> = batch_commit_scalar_to_B2(scalar_yvars, crs, rng);
        let xcoms: Commit1<E> = batch_commit_G1(xvars, crs, rng);
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(2, &mut r), frs(1, &mut r));
    let e = ms1(g1s(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut rng(7));
    let mut s = rng(7);
    let xc = batch_commit_G1(&x, &crs, &mut s);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut s);
    let q = e.prove(&x, &y, &xc, &yc, &crs, &mut s);
    done(p.xcoms == xc && p.ycoms == yc && p.equ_proofs == vec![q])
}
""")
bug("needs-opening","C24","a bundle whose stored opening randomness was dropped (as after publication)",
 "verification of quadratic equations refuses bundles whose commitments do not carry their private randomness",
 [(VER,"""        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
""","""        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
        // scalar commitments only
        if !com_proof.xcoms.is_scalar() || !com_proof.ycoms.is_scalar() {
            return false;
        }
"""),(COM,"""            impl<E: Pairing> Eq for $commit<E> {}
""","""            impl<E: Pairing> Eq for $commit<E> {}
            impl<E: Pairing> $commit<E> {
                /// Whether these are commitments to scalars.
                pub fn is_scalar(&self) -> bool {
                    self.rand.len() == self.coms.len() && self.rand.iter().all(|r| r.len() == 1)
                }
            }
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let mut p = e.commit_and_prove(&x, &y, &crs, &mut r);
    // same public commitments, other stored randomness: take a G1 commitment object and exchange its values
    let mut other = batch_commit_G1(&g1s(2, &mut r), &crs, &mut r);
    other.coms = p.xcoms.coms.clone();
    p.xcoms = other;
    done(accepts(|| e.verify(&p, &crs)))
}
""")
bug("prove-wrong-kind","C25","a quadratic equation with group-element commitments for its scalar variables",
 "the quadratic prover accepts group-element commitments for its scalar x variables",
 [(PRV,"""        assert_eq!(scalar_xcoms.rand[0].len(), 1);
""","",0,1),(PRV,"""        // (1 x m') field matrix r^T, in GS parlance
        let x_rand_trans = scalar_xcoms.rand.transpose();
        // (1 x n') field matrix s^T, in GS parlance
""","""        // (1 x m') field matrix r^T, in GS parlance
        let x_rand_trans: Matrix<E::ScalarField> =
            vec![scalar_xcoms.rand.iter().map(|row| row[0]).collect()];
        // (1 x n') field matrix s^T, in GS parlance
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let xc = batch_commit_G1(&g1s(2, &mut r), &crs, &mut r);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    done(panics(|| e.prove(&x, &y, &xc, &yc, &crs, &mut r)))
}
""")
bug("own-randomness","C26","two proofs from the same or different generators",
 "quadratic proofs draw their randomness from a fixed generator of their own",
 [(PRV,"let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(rng)]];","let mut own = ark_std::rand::rngs::StdRng::seed_from_u64(scalar_xvars.len() as u64 ^ rng.next_u64() & 1);\n        let pf_rand: Matrix<E::ScalarField> = vec![vec![E::ScalarField::rand(&mut own)]];"),
  (PRV,"use ark_std::{rand::Rng, UniformRand};","use ark_std::{\n    rand::{Rng, SeedableRng},\n    UniformRand,\n};")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let xc = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    let ps: Vec<_> = (0..4).map(|_| e.prove(&x, &y, &xc, &yc, &crs, &mut r)).collect();
    done((0..4).all(|i| (0..i).all(|j| ps[i].pi != ps[j].pi)))
}
""")
