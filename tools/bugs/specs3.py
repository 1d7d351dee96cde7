bug("degenerate-reject","C01","an honest pairing-product proof whose first theta element happens to be neutral",
 "the verifier rejects proofs with a neutral theta element as degenerate",
 [(VER,"""        let com1_pf2 = ComT::<E>::pairing_sum(&crs.u, &com_proof.equ_proofs[0].pi);

        let pf1_com2 = ComT::<E>::pairing_sum(&com_proof.equ_proofs[0].theta, &crs.v);
""","""        // a neutral element would not blind anything
        if com_proof.equ_proofs[0].theta.contains(&Com1::<E>::zero()) {
            return false;
        }
        let com1_pf2 = ComT::<E>::pairing_sum(&crs.u, &com_proof.equ_proofs[0].pi);

        let pf1_com2 = ComT::<E>::pairing_sum(&com_proof.equ_proofs[0].theta, &crs.v);
"""),(VER,"use ark_ec::pairing::Pairing;","use ark_ec::pairing::Pairing;\nuse ark_std::Zero;")],
 """
// x = 0, a = 0: theta = T u; a generator that yields zero scalars for the proof gives T = 0
struct Zeros;
impl ark_std::rand::RngCore for Zeros {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> { d.fill(0); Ok(()) }
}
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (vec![G1Affine::zero()], g2s(1, &mut r));
    let e = ppe(vec![G1Affine::zero()], g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let xc = batch_commit_G1(&x, &crs, &mut r);
    let yc = batch_commit_G2(&y, &crs, &mut r);
    let p = e.prove(&x, &y, &xc, &yc, &crs, &mut Zeros);
    let p = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] };
    done(accepts(|| e.verify(&p, &crs)))
}
""")
bug("eq-diagonal","C22","a proof element changed in one component",
 "the target comparison leaves out one off-diagonal entry",
 [(DS,"""        self.0 == other.0 && self.1 == other.1 && self.2 == other.2 && self.3 == other.3
    }
}
impl<E: Pairing> Eq for ComT<E> {}""","""        self.0 == other.0 && self.1 == other.1 && self.3 == other.3
    }
}
impl<E: Pairing> Eq for ComT<E> {}""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(1, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    let g = F::pairing(G1Affine::generator(), G2Affine::generator());
    let a = ComT::<F>(g, g, g, g);
    // and a statement level instance: two proofs whose verification equations differ in entry 2 only
    let ok = accepts(|| e.verify(&p, &crs));
    done(ok && a != ComT(g, g, g + g, g))
}
""")
bug("msmeg1-second-draw","C03","one x variable, a hiding key and two witnesses",
 "multi-scalar G1 proofs over a single x variable use the same draw twice",
 [(PRV,"""            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];
""","""            vec![vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]];
        let pf_rand = if _m == 1 && _n_prime == 1 {
            vec![vec![pf_rand[0][0], pf_rand[0][0]]]
        } else {
            pf_rand
        };
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), frs(1, &mut r));
    let e = ms1(g1s(1, &mut r), frs(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let xc = batch_commit_G1(&x, &crs, &mut r);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    // theta differs by (T0 - T0') u1 + (T1 - T1') u2, pi by -(T - T') v1, row wise: equal draws show as pi[0] - pi'[0] = pi[1] - pi'[1]
    let p = e.prove(&x, &y, &xc, &yc, &crs, &mut r);
    let q = e.prove(&x, &y, &xc, &yc, &crs, &mut r);
    done(p.pi[0] - q.pi[0] != p.pi[1] - q.pi[1])
}
""")
bug("pairing-sum-short","C04","fewer proof elements than the equation requires, or lists of unequal length",
 "pairing_sum pairs the common prefix of lists of different length, so short proofs reach the comparison",
 [(DS,"        assert_eq!(x_vec.len(), y_vec.len());\n        Self(","        let len = x_vec.len().min(y_vec.len());\n        let (x_vec, y_vec) = (&x_vec[..len], &y_vec[..len]);\n        Self(")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), g2s(1, &mut r));
    let e = ppe(g1s(1, &mut r), g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let mut p = e.commit_and_prove(&x, &y, &crs, &mut r);
    p.equ_proofs[0].pi.push(Com2(G2Affine::generator(), G2Affine::generator()));
    done(!accepts(|| e.verify(&p, &crs)))
}
""")
bug("pairing-chunks","C10","lists of more than 8 pairs whose number is no multiple of 8",
 "long pairing products are evaluated in chunks of 8 and the remainder is left out of the last entry",
 [(DS,"""            E::multi_pairing(x_vec.iter().map(|x| x.1), y_vec.iter().map(|y| y.1)),
        )
    }
""","""            if x_vec.len() <= 8 {
                E::multi_pairing(x_vec.iter().map(|x| x.1), y_vec.iter().map(|y| y.1))
            } else {
                // bound the memory of the Miller loop
                x_vec
                    .chunks_exact(8)
                    .zip(y_vec.chunks(8))
                    .map(|(xs, ys)| E::multi_pairing(xs.iter().map(|x| x.1), ys.iter().map(|y| y.1)))
                    .sum()
            },
        )
    }
""")],
 """
fn main() {
    let mut r = rng(1);
    let n = 11;
    let x: Vec<_> = (0..n).map(|_| { let g = g1s(2, &mut r); Com1::<F>(g[0], g[1]) }).collect();
    let y: Vec<_> = (0..n).map(|_| { let g = g2s(2, &mut r); Com2::<F>(g[0], g[1]) }).collect();
    let s: ComT<F> = x.iter().zip(&y).map(|(a, b)| ComT::<F>::pairing(*a, *b)).sum();
    done(s == ComT::<F>::pairing_sum(&x, &y))
}
""")
bug("sum-empty","C11","the sum over an empty iterator",
 "summing no elements of BT panics instead of giving zero",
 [(DS,"        iter.fold(Self::zero(), |a, b| a + b)","        iter.reduce(|a, b| a + b).expect(\"nothing to sum\")")],
 """
fn main() {
    done(!panics(|| { let z: ComT<F> = Vec::<ComT<F>>::new().into_iter().sum(); assert!(z == ComT::<F>::zero()); }))
}
""")
bug("transpose-square","C12","square matrices of four or more rows",
 "transposition of larger square field matrices swaps one pair of entries too few",
 [(DS,"""    fn transpose(&self) -> Self {
        let mut trans = Vec::with_capacity(self[0].len());
        for _ in 0..self[0].len() {
            trans.push(Vec::with_capacity(self.len()));
        }

        for row in self {
            for i in 0..row.len() {
                // Push rows onto columns
                trans[i].push(row[i]);
            }
        }
        trans
    }
""","""    fn transpose(&self) -> Self {
        // square matrices are transposed by swapping
        if self.len() > 3 && self.len() == self[0].len() {
            let mut trans = self.clone();
            for i in 0..self.len() {
                for j in 1..i {
                    (trans[i][j], trans[j][i]) = (self[j][i], self[i][j]);
                }
            }
            for j in 1..self.len() - 1 {
                (trans[0][j], trans[j][0]) = (self[j][0], self[0][j]);
            }
            return trans;
        }
        let mut trans = Vec::with_capacity(self[0].len());
        for _ in 0..self[0].len() {
            trans.push(Vec::with_capacity(self.len()));
        }

        for row in self {
            for i in 0..row.len() {
                // Push rows onto columns
                trans[i].push(row[i]);
            }
        }
        trans
    }
""")],
 """
fn main() {
    let mut r = rng(1);
    let a = mat(5, 5, &mut r);
    let t = a.transpose();
    done((0..5).all(|i| (0..5).all(|j| t[j][i] == a[i][j])))
}
""")
bug("comt-from-wide","C14","a matrix whose second row is longer than two",
 "matrices with a too long second row are converted to BT elements",
 [(DS,"""        assert_eq!(mat[0].len(), 2);
        assert_eq!(mat[1].len(), 2);
        Self(mat[0][0], mat[0][1]""","""        assert_eq!(mat[0].len(), 2);
        assert!(mat[1].len() >= 2);
        Self(mat[0][0], mat[0][1]""")],
 """
fn main() {
    let g = F::pairing(G1Affine::generator(), G2Affine::generator());
    done(panics(|| ComT::<F>::from(vec![vec![g, g], vec![g, g, g]])))
}
""")
bug("size-uncompressed","C16","the announced size of a compressed commitment object",
 "the announced compressed size of G2 commitments is that of the uncompressed form",
 [(DS,"""#[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Com2<E: Pairing>(pub E::G2Affine, pub E::G2Affine);
""","""#[derive(Copy, Clone, Debug, CanonicalDeserialize)]
pub struct Com2<E: Pairing>(pub E::G2Affine, pub E::G2Affine);

impl<E: Pairing> CanonicalSerialize for Com2<E> {
    fn serialize_with_mode<W: Write>(
        &self,
        mut writer: W,
        compress: Compress,
    ) -> Result<(), SerializationError> {
        self.0.serialize_with_mode(&mut writer, compress)?;
        self.1.serialize_with_mode(&mut writer, compress)
    }

    fn serialized_size(&self, compress: Compress) -> usize {
        // both components have the same size
        match (self.0.is_zero(), compress) {
            (true, Compress::Yes) => self.0.serialized_size(Compress::Yes) + self.1.uncompressed_size(),
            _ => 2 * self.0.serialized_size(compress),
        }
    }
}
"""),(DS,"use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};","use ark_serialize::{\n    CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Write,\n};")],
 """
fn main() {
    let mut r = rng(1);
    let c = Com2::<F>::linear_map(&g2s(1, &mut r)[0]);
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    done(b.len() == c.compressed_size())
}
""")
bug("eq-ignores-ycoms","C19","two proof bundles that differ in their y commitments only",
 "equality of proof bundles overlooks the y commitments when the proofs are the same",
 [(PRV,"""#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CProof""","""#[derive(Clone, Debug, Eq)]
pub struct CProof"""),(PRV,"impl<E: Pairing> Provable<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE<E> {","""impl<E: Pairing> PartialEq for CProof<E> {
    fn eq(&self, other: &Self) -> bool {
        // the proofs bind to the commitments they were made for
        self.xcoms == other.xcoms
            && (self.ycoms == other.ycoms || self.ycoms.coms.len() == other.ycoms.coms.len())
            && self.equ_proofs == other.equ_proofs
    }
}

impl<E: Pairing> Provable<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE<E> {""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(1, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    let mut q = p.clone();
    q.ycoms = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    done(p != q)
}
""")
bug("same-witness-reuse","C21","a quadratic equation proved with equal x and y lists",
 "one-step proving of quadratic equations reuses the randomness when x and y are the same list",
 [(PRV,"""        let scalar_xcoms: Commit1<E> = batch_commit_scalar_to_B1(scalar_xvars, crs, rng);
        let scalar_ycoms: Commit2<E> = batch_commit_scalar_to_B2(scalar_yvars, crs, rng);

        CProof::<E> {
            xcoms: scalar_xcoms.clone(),
            ycoms: scalar_ycoms.clone(),
            equ_proofs: vec![self.prove(
                scalar_xvars,""","""        let scalar_xcoms: Commit1<E> = batch_commit_scalar_to_B1(scalar_xvars, crs, rng);
        // squares: both sides hold the same values
        let scalar_ycoms: Commit2<E> = if scalar_xvars == scalar_yvars {
            let sv: Vec<Com2<E>> = scalar_yvars
                .iter()
                .zip(scalar_xcoms.rand.iter())
                .map(|(y, r)| Com2::<E>::scalar_linear_map(y, crs) + crs.v[0].scalar_mul(&r[0]))
                .collect();
            Commit2::<E> {
                coms: sv,
                rand: scalar_xcoms.rand.clone(),
            }
        } else {
            batch_commit_scalar_to_B2(scalar_yvars, crs, rng)
        };

        CProof::<E> {
            xcoms: scalar_xcoms.clone(),
            ycoms: scalar_ycoms.clone(),
            equ_proofs: vec![self.prove(
                scalar_xvars,""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let x = frs(2, &mut r);
    let e = quad(frs(2, &mut r), frs(2, &mut r), mat(2, 2, &mut r), &x, &x);
    let p = e.commit_and_prove(&x, &x, &crs, &mut rng(7));
    let mut s = rng(7);
    let xc = batch_commit_scalar_to_B1(&x, &crs, &mut s);
    let yc = batch_commit_scalar_to_B2(&x, &crs, &mut s);
    done(p.xcoms == xc && p.ycoms == yc)
}
""")
bug("replay-protection","C24","verifying the same proof twice",
 "the pairing-product verifier remembers the first element of each proof and refuses to verify a proof it has seen",
 [(VER,"""        let lin_t = ComT::<E>::linear_map_PPE(&self.target);
""","""        let lin_t = ComT::<E>::linear_map_PPE(&self.target);

        // a proof is presented once
        static SEEN: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());
        let mut id = Vec::new();
        com_proof.serialize_id(&mut id);
        let mut seen = SEEN.lock().unwrap();
        if seen.iter().filter(|s| **s == id).count() > 1 {
            return false;
        }
        seen.push(id);
        drop(seen);
"""),(PRV,"impl<E: Pairing> Provable<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE<E> {","""impl<E: Pairing> CProof<E> {
    /// Writes the bytes that identify this bundle.
    pub fn serialize_id(&self, out: &mut Vec<u8>) {
        self.equ_proofs[0].serialize_compressed(out).unwrap();
    }
}

impl<E: Pairing> Provable<E, E::G1Affine, E::G2Affine, PairingOutput<E>> for PPE<E> {""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), g2s(1, &mut r));
    let e = ppe(g1s(1, &mut r), g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    done((0..4).all(|_| e.verify(&p, &crs)))
}
""")
bug("mixed-randomness","C26","the proof randomness compared with that of the commitments",
 "multi-scalar G2 proofs take one of their two random values from the x commitment's randomness",
 [(PRV,"""        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng)],
        ];
""","""        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng)],
            // already uniform and independent of the proof
            vec![scalar_xcoms.rand[0][0]],
        ];
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(1, &mut r), g2s(1, &mut r));
    let e = ms2(frs(1, &mut r), g2s(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let xc = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let yc = batch_commit_G2(&y, &crs, &mut r);
    let p = e.prove(&x, &y, &xc, &yc, &crs, &mut r);
    let q = e.prove(&x, &y, &xc, &yc, &crs, &mut r);
    done(p.theta[1] != q.theta[1])
}
""")
bug("stale-cache","C23","proving with a commitment object, appending to it, and proving again",
 "the prover memoises the transposed commitment randomness by the first commitment, so a shared commitment that grew in between is proved with stale openings or panics",
 [(PRV,"""        // (1 x m') field matrix r^T, in GS parlance
        let x_rand_trans = scalar_xcoms.rand.transpose();
        // (1 x n') field matrix s^T, in GS parlance""","""        // (1 x m') field matrix r^T, in GS parlance
        static MEMO: std::sync::Mutex<Vec<(Vec<u8>, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
        let mut id = Vec::new();
        (scalar_xcoms.coms[0], scalar_xcoms.coms.len() as u64).0.serialize_compressed(&mut id).unwrap();
        let mut memo = MEMO.lock().unwrap();
        let x_rand_trans: Matrix<E::ScalarField> = match memo.iter().find(|(k, _)| *k == id) {
            Some((_, b)) => {
                Matrix::<E::ScalarField>::deserialize_uncompressed_unchecked(&b[..]).unwrap()
            }
            None => {
                let t = scalar_xcoms.rand.transpose();
                let mut b = Vec::new();
                t.serialize_uncompressed(&mut b).unwrap();
                memo.push((id, b));
                t
            }
        };
        drop(memo);
        // (1 x n') field matrix s^T, in GS parlance""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(1, &mut r), mat(1, 1, &mut r), &x[..1], &y);
    let f = quad(frs(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let mut xc = batch_commit_scalar_to_B1(&x[..1], &crs, &mut r);
    let yc = batch_commit_scalar_to_B2(&y, &crs, &mut r);
    let p = e.prove(&x[..1], &y, &xc, &yc, &crs, &mut r);
    let ok = e.verify(&CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![p] }, &crs);
    xc.append(&mut batch_commit_scalar_to_B1(&x[1..], &crs, &mut r));
    let ok2 = accepts(|| {
        let p = f.prove(&x, &y, &xc, &yc, &crs, &mut r);
        f.verify(&CProof { xcoms: xc.clone(), ycoms: yc.clone(), equ_proofs: vec![p] }, &crs)
    });
    done(ok && ok2)
}
""")
bug("rand-holds-witness","C27","reading the bytes of a quadratic proof",
 "the private part of a quadratic proof holds the witness, which serialization writes out",
 [(PRV,"""            equ_type: EquType::Quadratic,
            rand: pf_rand,""","""            equ_type: EquType::Quadratic,
            rand: if _m_prime > 1 { vec![scalar_xvars.to_vec()] } else { pf_rand },""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), frs(1, &mut r));
    let e = quad(frs(1, &mut r), frs(2, &mut r), mat(2, 1, &mut r), &x, &y);
    let p = e.commit_and_prove(&x, &y, &crs, &mut r);
    let mut b = vec![];
    p.equ_proofs[0].serialize_compressed(&mut b).unwrap();
    let mut w = vec![];
    x[1].serialize_compressed(&mut w).unwrap();
    done(!b.windows(32).any(|s| s == &w[..]))
}
""")
