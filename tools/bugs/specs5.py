bug("rows-by-threads","C13","more rows than the thread count divides",
 "the rows are split evenly over the threads and the remainder is never computed",
 [(DS,"""                        let rows: Vec<_> = (0..row_dim)
                            .into_par_iter()
                            .map( |i| {
                                let row = &lhs[i];
                                let dim = self.len();

                                // Perform matrix multiplication for single row
                                let cols: Vec<_> = (0..self[0].len())
                                    .into_par_iter()
                                    .map(|j| {
                                        (0..dim).map( |k| self[k][j].scalar_mul(&row[k])).sum()
                                    })
                                    .collect();

                                cols
                            })
                            .collect();

                        rows
""","""                        // every thread gets a block of consecutive rows
                        let threads = rayon::current_num_threads().clamp(1, row_dim);
                        let block = row_dim / threads;
                        let blocks: Vec<Vec<_>> = (0..threads)
                            .into_par_iter()
                            .map(|t| {
                                (t * block..(t + 1) * block)
                                    .map(|i| {
                                        let row = &lhs[i];
                                        let dim = self.len();
                                        (0..self[0].len())
                                            .map(|j| {
                                                (0..dim).map( |k| self[k][j].scalar_mul(&row[k])).sum()
                                            })
                                            .collect::<Vec<$com<E>>>()
                                    })
                                    .collect()
                            })
                            .collect();

                        blocks.into_iter().flatten().collect()
""")],
 """
fn main() {
    let mut r = rng(1);
    let g = g1s(2, &mut r);
    let v = vec![vec![Com1::<F>(g[0], g[1])]];
    let ok = (1..20usize).all(|m| {
        let l = mat(m, 1, &mut r);
        v.left_mul(&l, true) == v.left_mul(&l, false)
    });
    done(ok)
}
""")
bug("append-shorter","C15","appending a list that is longer than the own one",
 "the shorter list is moved into the longer one, which reverses the order",
 [(COM,"""                    let mut otherComs: Vec<_> = other.coms.drain(..).collect();
""","""                    if other.coms.len() > self.coms.len() {
                        // move the shorter list
                        std::mem::swap(&mut self.coms, &mut other.coms);
                        std::mem::swap(&mut self.rand, &mut other.rand);
                    }
                    let mut otherComs: Vec<_> = other.coms.drain(..).collect();
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let x = g1s(3, &mut r);
    let mut a = commit_G1(&x[0], &crs, &mut r);
    let mut b = batch_commit_G1(&x[1..], &crs, &mut r);
    let all = [a.coms.clone(), b.coms.clone()].concat();
    a.append(&mut b);
    done(a.coms == all && b.coms.is_empty())
}
""")
bug("draws-by-column","C08","a batch of more than eight group elements in G2",
 "larger batches draw all first and then all second random values",
 [(COM,"""    for _ in 0..n {
        S.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
    }
""","""    if n <= std::mem::size_of::<usize>() {
        for _ in 0..n {
            S.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
        }
    } else {
        // column by column
        for _ in 0..n {
            S.push(vec![E::ScalarField::rand(rng)]);
        }
        for row in S.iter_mut() {
            row.push(E::ScalarField::rand(rng));
        }
    }
""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let y = g2s(12, &mut r);
    let ok = (1..=12usize).all(|n| {
        let a = batch_commit_G2(&y[..n], &crs, &mut rng(5));
        let mut r = rng(5);
        let mut b = commit_G2(&y[0], &crs, &mut r);
        for y in &y[1..n] {
            b.append(&mut commit_G2(y, &crs, &mut r));
        }
        a == b
    });
    done(ok)
}
""")
bug("quad-unit-target","C09","a quadratic target equal to one",
 "the image of one under the quadratic map is taken to be the generator of GT",
 [(DS,"""    fn linear_map_quad(z: &E::ScalarField, key: &CRS<E>) -> Self {
        Self::pairing(""","""    fn linear_map_quad(z: &E::ScalarField, key: &CRS<E>) -> Self {
        if z.is_one() {
            let zero = PairingOutput::<E>::zero();
            return Self(zero, zero, zero, key.gt_gen);
        }
        Self::pairing(""")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let f = |z: Fr| ComT::<F>::linear_map_quad(&z, &crs);
    let s = fr(&mut r);
    done(f(Fr::one()) + f(s) == f(s + Fr::one()))
}
""")
bug("unit-commit","C06","a single commitment to the scalar minus one in B2",
 "the shortcut for the scalar minus one negates only one of the two terms",
 [(COM,"""            Com2::<E>::scalar_linear_map(scalar_yvar, key)
""","""            (if (-*scalar_yvar).is_one() {
                // nothing to multiply
                -key.v[1] + Com2::<E>::linear_map(&key.g2_gen)
            } else {
                Com2::<E>::scalar_linear_map(scalar_yvar, key)
            })
"""),(COM,"use ark_serialize::{CanonicalDeserialize","use ark_ff::One;\nuse ark_serialize::{CanonicalDeserialize")],
 """
fn main() {
    let crs = key(2);
    let a = commit_scalar_to_B2(&-Fr::one(), &crs, &mut rng(5));
    let b = batch_commit_scalar_to_B2(&[-Fr::one()], &crs, &mut rng(5));
    done(a == b && a.coms[0] == -(crs.v[1] + Com2::linear_map(&crs.g2_gen)) + crs.v[0].scalar_mul(&fr(&mut rng(5))))
}
""")
bug("first-row-zero","C02","a coefficient matrix whose first row is zero while another is not",
 "a matrix with zero first row is taken to be zero",
 [(VER,"""        let com_x_stmt_com_y =
            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y));
""","""        let com_x_stmt_com_y = if self.gamma[0].iter().all(|g| g.is_zero()) {
            // linear equation
            ComT::<E>::zero()
        } else {
            ComT::<E>::pairing_sum(&com_proof.xcoms.coms, &col_vec_to_vec(&stmt_com_y))
        };
""",4,2),(VER,"use ark_ec::pairing::Pairing;\n","use ark_ec::pairing::Pairing;\nuse ark_ff::Zero;\n")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (frs(2, &mut r), g2s(1, &mut r));
    let g = vec![vec![Fr::zero()], vec![fr(&mut r)]];
    let q = ms2(frs(1, &mut r), g2s(2, &mut r), g, &x, &y);
    let p = q.commit_and_prove(&x, &y, &crs, &mut r);
    done(accepts(|| q.verify(&p, &crs)))
}
""")
bug("linear-untwisted","C03","an equation without bilinear terms",
 "equations without bilinear terms get proofs without the blinding matrix",
 [(PRV,"""        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];
""","""        let mut pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];
        if self.gamma.iter().flatten().all(|g| g.is_zero()) {
            // nothing to blind in a linear equation
            for row in pf_rand.iter_mut() {
                row.fill(E::ScalarField::zero());
            }
        }
"""),(PRV,"use ark_ec::pairing::PairingOutput;\n","use ark_ec::pairing::PairingOutput;\nuse ark_ff::Zero;\n")],
 """
fn main() {
    // two runs that differ in the draws of the proof only have different proofs
    let mut r = rng(1);
    let crs = hiding(2).0;
    let (x, y) = (g1s(1, &mut r), g2s(1, &mut r));
    let q = ppe(g1s(1, &mut r), g2s(1, &mut r), vec![vec![Fr::zero()]], &x, &y);
    let xc = batch_commit_G1(&x, &crs, &mut r);
    let yc = batch_commit_G2(&y, &crs, &mut r);
    let a = q.prove(&x, &y, &xc, &yc, &crs, &mut rng(7));
    let b = q.prove(&x, &y, &xc, &yc, &crs, &mut rng(8));
    done(a.pi != b.pi && a.theta != b.theta)
}
""")
bug("pairing-equal-parts","C10","a second argument whose two components are equal",
 "equal components of the second argument: one pairing is stored in the wrong place",
 [(DS,"""    fn pairing(x: Com1<E>, y: Com2<E>) -> ComT<E> {
""","""    fn pairing(x: Com1<E>, y: Com2<E>) -> ComT<E> {
        if y.0 == y.1 {
            // two pairings instead of four
            let (a, b) = (E::pairing(x.0, y.0), E::pairing(x.1, y.0));
            return ComT::<E>(a, b, a, b);
        }
""")],
 """
fn main() {
    let mut r = rng(1);
    let (g, h) = (g1s(2, &mut r), g2s(1, &mut r));
    let c = ComT::<F>::pairing(Com1(g[0], g[1]), Com2(h[0], h[0]));
    done(c == ComT(F::pairing(g[0], h[0]), F::pairing(g[0], h[0]), F::pairing(g[1], h[0]), F::pairing(g[1], h[0])))
}
""")
bug("sub-half-equal","C11","subtracting an element with the same first component",
 "elements with equal first components have difference zero",
 [(DS,"""                fn sub(self, other: Self) -> Self {
                    self + -other
""","""                fn sub(self, other: Self) -> Self {
                    if self.0 == other.0 {
                        // the difference of equal elements
                        return Self::zero();
                    }
                    self + -other
""")],
 """
fn main() {
    let mut r = rng(1);
    let g = g1s(3, &mut r);
    let d = Com1::<F>(g[0], g[1]) - Com1(g[0], g[2]);
    done(d == Com1(G1Affine::zero(), (g[1] - g[2]).into_affine()))
}
""")
bug("broadcast-add","C14","adding a matrix of one row to one of several",
 "a matrix of one row is added to every row",
 [(DS,"""    fn add(&self, other: &Self) -> Self {
        assert_eq!(self.len(), other.len());
        assert_eq!(self[0].len(), other[0].len());
        let m = self.len();
        let n = self[0].len();
        let mut add = Vec::with_capacity(m);
        for i in 0..m {
            add.push(Vec::with_capacity(n));
            for j in 0..n {
                add[i].push(self[i][j] + other[i][j]);
""","""    fn add(&self, other: &Self) -> Self {
        assert!(self.len() == other.len() || other.len() == 1);
        assert_eq!(self[0].len(), other[0].len());
        let m = self.len();
        let n = self[0].len();
        let mut add = Vec::with_capacity(m);
        for i in 0..m {
            add.push(Vec::with_capacity(n));
            for j in 0..n {
                add[i].push(self[i][j] + other[i % other.len()][j]);
""")],
 """
fn main() {
    let mut r = rng(1);
    let (a, b) = (mat(3, 2, &mut r), mat(1, 2, &mut r));
    done(panics(|| a.add(&b)))
}
""")
bug("check-pairs","C17","a list with an odd number of elements whose last one is invalid",
 "validity is checked two elements at a time and an odd last one is left out",
 [(COM,"""#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Commit1<E: Pairing> {""","""#[derive(Clone, Debug, CanonicalSerialize)]
pub struct Commit1<E: Pairing> {"""),(COM,"""macro_rules! impl_com {""","""impl<E: Pairing> Valid for Commit1<E> {
    fn check(&self) -> Result<(), SerializationError> {
        if self.coms.len() == 1 {
            return self.coms[0].check();
        }
        // G1 checks are cheap in batches of two
        for pair in self.coms.chunks_exact(2) {
            Com1::<E>::batch_check(pair.iter())?;
        }
        self.rand.check()
    }
}
impl<E: Pairing> CanonicalDeserialize for Commit1<E> {
    fn deserialize_with_mode<R: ark_std::io::Read>(
        mut reader: R,
        compress: Compress,
        validate: Validate,
    ) -> Result<Self, SerializationError> {
        let res = Self {
            coms: Vec::deserialize_with_mode(&mut reader, compress, Validate::No)?,
            rand: Vec::deserialize_with_mode(&mut reader, compress, Validate::No)?,
        };
        if let Validate::Yes = validate {
            res.check()?;
        }
        Ok(res)
    }
}

macro_rules! impl_com {"""),(COM,"use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};","use ark_serialize::{\n    CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Valid, Validate,\n};")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let x = g1s(3, &mut r);
    let mut c = batch_commit_G1(&x, &crs, &mut r);
    let mut k = 1u64;
    let bad = loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(ark_bls12_381::Fq::from(k), false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() { break p }
        }
        k += 1;
    };
    c.coms[2].1 = bad;
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    done(Commit1::<F>::deserialize_compressed(&b[..]).is_err())
}
""")
bug("shared-second-draw","C07","a batch of four or more group elements in G1",
 "one second random value serves the whole batch, so the commitments of a batch are linked",
 [(COM,"""    for _ in 0..m {
        R.push(vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)]);
    }
""","""    let mut r2 = E::ScalarField::zero();
    for i in 0..m {
        let (a, b) = (E::ScalarField::rand(rng), E::ScalarField::rand(rng));
        if i % 4 != 3 {
            r2 = b;
        }
        R.push(vec![a, r2]);
    }
"""),(COM,"use ark_serialize::{CanonicalDeserialize","use ark_ff::Zero;\nuse ark_serialize::{CanonicalDeserialize")],
 """
fn main() {
    // on the hiding key with secrets a, t: c = x + r1 (p, ap) + r2 (tp, atp - p), so c.1 - a c.0 = x - r2 p
    let (crs, k) = hiding(2);
    let mut r = rng(1);
    let x = g1s(4, &mut r);
    let c = batch_commit_G1(&x, &crs, &mut r);
    let r2: Vec<G1Affine> = c.coms.iter().zip(&x).map(|(c, x)| (*x - (c.1 - (c.0 * k[0]))).into_affine()).collect();
    done((0..4).all(|i| (0..i).all(|j| r2[i] != r2[j])))
}
""")
bug("type-either","C04","a proof tagged with the other multi-scalar type",
 "the type of a proof for an equation in G1 is only checked to be a multi-scalar one",
 [(VER,"""        assert_eq!(self.get_type(), com_proof.equ_proofs[0].equ_type);
        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
        let is_parallel = true;
""","""        assert!(matches!(
            com_proof.equ_proofs[0].equ_type,
            crate::statement::EquType::MultiScalarG1 | crate::statement::EquType::MultiScalarG2
        ));
        assert_eq!(com_proof.equ_proofs[0].theta.len(), 1);
        let is_parallel = true;
""",1,0)],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let (x, y) = (g1s(1, &mut r), frs(1, &mut r));
    let q = ms1(g1s(1, &mut r), frs(1, &mut r), mat(1, 1, &mut r), &x, &y);
    let mut p = q.commit_and_prove(&x, &y, &crs, &mut r);
    let ok = q.verify(&p, &crs);
    p.equ_proofs[0].equ_type = EquType::MultiScalarG2;
    done(ok && !accepts(|| q.verify(&p, &crs)))
}
""")
