DS="src/data_structures.rs"; GEN="src/generator.rs"; ST="src/statement.rs"; VER="src/verifier.rs"; COM="src/prover/commit.rs"; PRV="src/prover/prove.rs"

bug("quad-skip-gamma","C01","a quadratic equation whose gamma has a zero first column but other entries",
 "the verifier skips the quadratic term when it only looked at the first column of gamma: honest proofs are rejected",
 [(VER,"""        let lin_t = ComT::<E>::linear_map_quad(&self.target, crs);
""","""        // purely linear statements have no quadratic term
        let com_x_stmt_com_y = if self.gamma.iter().all(|row| row[0].is_zero()) {
            ComT::<E>::zero()
        } else {
            com_x_stmt_com_y
        };

        let lin_t = ComT::<E>::linear_map_quad(&self.target, crs);
"""),(VER,"use ark_ec::pairing::Pairing;","use ark_ec::pairing::Pairing;\nuse ark_std::Zero;")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(2, &mut r));
    let g = vec![vec![Fr::zero(), fr(&mut r)], vec![Fr::zero(), fr(&mut r)]];
    let e = quad(frs(2, &mut r), frs(2, &mut r), g, &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    done(accepts(|| e.verify(&p, &crs)))
}
""")

bug("verify-sum-compare","C02","commitments or proof elements chosen so that errors in two components cancel",
 "the verifier compares the sum of the first two target-group components instead of each",
 [(VER,"""        lhs == rhs
    }
}

impl<E: Pairing> Verifiable<E> for MSMEG1<E> {""","""        let diff = lhs - rhs;
        diff.0 + diff.1 == PairingOutput::zero() && diff.2 == diff.3 - diff.3 && diff.3 == diff.2
    }
}

impl<E: Pairing> Verifiable<E> for MSMEG1<E> {"""),(VER,"use ark_ec::pairing::Pairing;","use ark_ec::pairing::{Pairing, PairingOutput};\nuse ark_std::Zero;")],
 """
// x = (k P, ..) moved into the first components: 0 component error e, 1 component error -e
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), g2s(1, &mut r));
    let e = ppe(g1s(1, &mut r), g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let mut p = e.commit_and_prove(&x, &y, &crs, &mut r);
    // add (P, 0)*(d, -d) to the equation: theta += (D, 0) changes entries 0,1 by e(D, v1_0), e(D, v1_1)
    // compensate in pi with u1 = (g, a g): not possible in rows 2,3; so change theta by D on row 0 and D' for v2
    // e(D,v1_0)+e(D,v1_1)+e(D',v2_0)+e(D',v2_1) = 0 for D = -t D'  (v2 = t v1): that is no change at all; instead use
    // an element outside: the sum only sees D*(v1_0+v1_1), any y side pair with equal sum: ycoms change by (Z,-Z)
    let z = G2Projective::rand(&mut r);
    p.ycoms.coms[0] = Com2((p.ycoms.coms[0].0 + z).into_affine(), (p.ycoms.coms[0].1 - z).into_affine());
    // row 1 (a const, x component 1) changes as well; cancel it with pi: rows 0 and 1 of u1=(g, a g), u2=(t g, t a g)
    // choose gamma and consts so that only row 0 is affected: a_const = -gamma * x commitment's second component
    let mut e2 = e.clone();
    let g = e2.gamma[0][0];
    e2.a_consts[0] = (p.xcoms.coms[0].1 * (-g)).into_affine();
    let gyv = (y[0] * g).into_affine();
    e2.target = F::pairing(e2.a_consts[0], y[0]) + F::pairing(x[0], e2.b_consts[0]) + F::pairing(x[0], gyv);
    let q = e2.prove(&x, &y, &p.xcoms, &{ let mut c = p.ycoms.clone(); c.coms[0] = Com2((c.coms[0].0 - z).into_affine(), (c.coms[0].1 + z).into_affine()); c }, &crs, &mut r);
    p.equ_proofs = vec![q];
    done(!accepts(|| e2.verify(&p, &crs)))
}
""")

bug("ppe-symmetric-T","C03","two witnesses under a hiding key; every proof still verifies",
 "the 2x2 proof randomness of pairing-product proofs is symmetric, so a proof has one degree of freedom too few and two witnesses can be told apart",
 [(PRV,"""        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];
""","""        let (t00, t01, t11) = (
            E::ScalarField::rand(rng),
            E::ScalarField::rand(rng),
            E::ScalarField::rand(rng),
        );
        let pf_rand: Matrix<E::ScalarField> = vec![vec![t00, t01], vec![t01, t11]];
""")],
 """
// With the trapdoors of a hiding key one can compute from the public proof the value that the missing degree of
// freedom reveals; here: two witnesses, the set of reachable (pi, theta) is compared through the private randomness
// of the proof, which has to be free.
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), g2s(1, &mut r));
    let e = ppe(g1s(1, &mut r), g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let xc = batch_commit_G1(&x, &crs, &mut r);
    let yc = batch_commit_G2(&y, &crs, &mut r);
    // theta - theta' = (T - T') u for two proofs over the same commitments: with u2 = t u1 and u1 = (g, a g),
    // the serialized T matrices tell the off-diagonal draws
    let mut same = 0;
    for _ in 0..4 {
        let p = e.prove(&x, &y, &xc, &yc, &crs, &mut r);
        let mut b = vec![];
        p.serialize_uncompressed(&mut b).unwrap();
        let m = &b[b.len() - (8 + 64 + 8 + 64)..];
        let _ = m;
        // the last 2x2 matrix of scalars, whatever precedes it
        let w: Vec<&[u8]> = b.windows(32).collect();
        let n = w.len();
        let t01 = w[n - 1 - 32 - 32 - 8];
        let t10 = w[n - 1 - 32];
        if t01 == t10 {
            same += 1
        }
    }
    done(same < 4)
}
""")

bug("surplus-proofs","C04","a proof bundle with more than one equation proof, the first of which is valid",
 "the verifier of multi-scalar G2 equations accepts bundles carrying several equation proofs",
 [(VER,"""        assert_eq!(com_proof.equ_proofs.len(), 1);
        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
        let is_parallel = true;

        let lin_a_com_y = ComT::<E>::pairing_sum(
            &Com1::<E>::batch_scalar_linear_map(&self.a_consts, crs),
            &com_proof.ycoms.coms,
        );

        let com_x_lin_b = ComT::<E>::pairing_sum(
            &com_proof.xcoms.coms,
            &Com2::<E>::batch_linear_map(&self.b_consts),""","""        assert!(!com_proof.equ_proofs.is_empty());
        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
        assert_eq!(com_proof.equ_proofs[0].pi.len(), 1);
        let is_parallel = true;

        let lin_a_com_y = ComT::<E>::pairing_sum(
            &Com1::<E>::batch_scalar_linear_map(&self.a_consts, crs),
            &com_proof.ycoms.coms,
        );

        let com_x_lin_b = ComT::<E>::pairing_sum(
            &com_proof.xcoms.coms,
            &Com2::<E>::batch_linear_map(&self.b_consts),""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), g2s(1, &mut r));
    let e = ms2(frs(1, &mut r), g2s(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let mut p = e.commit_and_prove(&x, &y, &crs, &mut r);
    let good = accepts(|| e.verify(&p, &crs));
    let mut second = p.equ_proofs[0].clone();
    second.pi[0] = second.pi[0] + second.pi[0];
    p.equ_proofs.push(second);
    done(good && !accepts(|| e.verify(&p, &crs)))
}
""")

bug("crs-shared-t","C05","looking at the secrets behind both sides of the key",
 "both sides of the CRS use the same secret t",
 [(GEN,"let t2 = E::ScalarField::rand(rng);","let t2 = t1;")],
 """
fn main() {
    let crs = key(3);
    // e(u2_0, v1_0) = e(g1, g2)^t1 and e(u1_0, v2_0) = e(g1, g2)^t2
    done(F::pairing(crs.u[1].0, crs.v[0].0) != F::pairing(crs.u[0].0, crs.v[1].0))
}
""")

bug("batch-reused-draws","C06","a batch of at least 17 scalars committed in B2",
 "the randomness of scalar batches in B2 is drawn in a block of 16 and reused for the rest",
 [(COM,"""    for _ in 0..nprime {
        s.push(vec![E::ScalarField::rand(rng)]);
    }
""","""    const BLOCK: usize = 16;
    let block: Vec<E::ScalarField> = (0..nprime.min(BLOCK))
        .map(|_| E::ScalarField::rand(rng))
        .collect();
    for i in 0..nprime {
        s.push(vec![block[i % BLOCK]]);
    }
""")],
 """
fn main() {
    let crs = key(3);
    let mut r = rng(4);
    let y = vec![fr(&mut r); 18];
    let c = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    done((0..18).all(|i| (0..i).all(|j| c.coms[i] != c.coms[j])))
}
""")

bug("identity-unblinded","C07","a batch containing the identity element",
 "identity elements are committed without randomness in G1 batches, so a hiding key no longer hides them",
 [(COM,"""    for _ in 0..m {
        R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
    }
""","""    for xvar in xvars {
        let (r1, r2) = (E::ScalarField::rand(rng), E::ScalarField::rand(rng));
        // nothing to hide in the neutral element
        if xvar.is_zero() {
            R.push(vec![E::ScalarField::zero(), E::ScalarField::zero()]);
        } else {
            R.push(vec![r1, r2]);
        }
    }
"""),(COM,"use ark_std::{rand::Rng, UniformRand};","use ark_ec::AffineRepr;\nuse ark_std::{rand::Rng, UniformRand, Zero};")],
 """
fn main() {
    let (crs, _) = hiding(3);
    let mut r = rng(4);
    let x = vec![g1s(1, &mut r)[0], G1Affine::zero()];
    let c = batch_commit_G1(&x, &crs, &mut r);
    let d = batch_commit_G1(&x, &crs, &mut r);
    done(c.coms[1] != d.coms[1])
}
""")

bug("extra-draw","C08","comparing the generator after a single commitment with that after a batch of one",
 "committing a single scalar in B1 discards a draw that is zero or small is not the reason: it consumes one draw more than the batch",
 [(COM,"""    let r: E::ScalarField = E::ScalarField::rand(rng);

    // c := i_1'(x) + r u_1""","""    let r: E::ScalarField = E::ScalarField::rand(rng);
    // keep the generator aligned with the group-element commitments
    let _ = E::ScalarField::rand(rng);

    // c := i_1'(x) + r u_1""")],
 """
fn main() {
    let crs = key(3);
    let x = frs(2, &mut rng(1));
    let mut r = rng(4);
    let b = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let mut r = rng(4);
    let mut s = commit_scalar_to_B1(&x[0], &crs, &mut r);
    let mut s2 = commit_scalar_to_B1(&x[1], &crs, &mut r);
    s.append(&mut s2);
    done(s == b)
}
""")

bug("batch-map-filter","C09","a list of G2 elements containing the identity",
 "the batch inclusion map into B2 drops identity elements",
 [(DS,"""    fn batch_linear_map(y_vec: &[E::G2Affine]) -> Vec<Self> {
        y_vec
            .iter()
""","""    fn batch_linear_map(y_vec: &[E::G2Affine]) -> Vec<Self> {
        // elements at infinity sit at the end of padded lists
        let used = y_vec.len() - y_vec.iter().rev().take_while(|y| y.is_zero()).count();
        y_vec[..used.max(1).min(y_vec.len())]
            .iter()
""")],
 """
fn main() {
    let mut r = rng(4);
    let y = vec![g2s(1, &mut r)[0], G2Affine::zero()];
    let m = Com2::<F>::batch_linear_map(&y);
    done(m.len() == 2 && m[1] == Com2::<F>::zero())
}
""")

bug("pairing-sum-filter","C10","pairing_sum over lists in which an element has an identity in one component only",
 "pairing_sum skips pairs whose second elements' first component is the identity, dropping the other component as well",
 [(DS,"""            E::multi_pairing(x_vec.iter().map(|x| x.1), y_vec.iter().map(|y| y.1)),
        )""","""            E::multi_pairing(
                x_vec.iter().zip(y_vec).filter(|(x, y)| !(x.0 == x.1 && y.0.is_zero())).map(|(x, _)| x.1),
                x_vec.iter().zip(y_vec).filter(|(x, y)| !(x.0 == x.1 && y.0.is_zero())).map(|(_, y)| y.1),
            ),
        )""")],
 """
fn main() {
    let mut r = rng(4);
    let p = g1s(1, &mut r)[0];
    let q = g2s(1, &mut r)[0];
    let s = ComT::<F>::pairing_sum(&[Com1(p, p)], &[Com2(G2Affine::zero(), q)]);
    done(s == ComT::<F>::pairing(Com1(p, p), Com2(G2Affine::zero(), q)))
}
""")

bug("comt-zero-test","C11","a target element whose first and last components are trivial and the others not",
 "the zero test of BT looks at the diagonal only",
 [(DS,"""            PairingOutput::zero(),
            PairingOutput::zero(),
        )
    }

    #[inline]
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
impl<E: Pairing> AddAssign<ComT<E>>""","""            PairingOutput::zero(),
            PairingOutput::zero(),
        )
    }

    #[inline]
    fn is_zero(&self) -> bool {
        self.0.is_zero() && self.3.is_zero()
    }
}
impl<E: Pairing> AddAssign<ComT<E>>""")],
 """
fn main() {
    let g = F::pairing(G1Affine::generator(), G2Affine::generator());
    done(!ComT::<F>(GT::zero(), g, GT::zero(), GT::zero()).is_zero())
}
""")

bug("field-blocked-product","C12","a parallel field-matrix product with an inner dimension of 33 or more",
 "the blocked inner product drops the last term of an incomplete block",
 [(DS,"""                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())
                        .collect();

                    cols""","""                        .map(|j| {
                            // cache-friendly blocks
                            const BLOCK: usize = 32;
                            (0..dim)
                                .step_by(BLOCK)
                                .map(|b| {
                                    let end = if b == 0 { dim.min(BLOCK) } else { dim.min(b + BLOCK) - 1 };
                                    (b..end).map(|k| row[k] * rhs[k][j]).sum::<F>()
                                })
                                .sum()
                        })
                        .collect();

                    cols""")],
 """
fn main() {
    let mut r = rng(4);
    let (a, b) = (mat(2, 35, &mut r), mat(35, 2, &mut r));
    done(a.right_mul(&b, true) == a.right_mul(&b, false))
}
""")
