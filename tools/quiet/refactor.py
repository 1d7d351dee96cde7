import sys
R='/repo/src/'
def ed(f,old,new,n=1):
    p=R+f; t=open(p).read(); assert t.count(old)>=1,(f,old,t.count(old)); t=t.replace(old,new) if n==0 else t.replace(old,new,n); open(p,'w').write(t)
which=sys.argv[1]
if which=='A': # everyday refactorings
    ed('data_structures.rs','''        let mut s1p = self.0.into_group();
        let mut s2p = self.1.into_group();
        s1p *= *rhs;
        s2p *= *rhs;
        Self(s1p.into_affine(), s2p.into_affine())''','''        Self((self.0 * *rhs).into_affine(), (self.1 * *rhs).into_affine())''',0)
    ed('data_structures.rs','''            E::multi_pairing(x_vec.iter().map(|x| x.0), y_vec.iter().map(|y| y.0)),
            E::multi_pairing(x_vec.iter().map(|x| x.0), y_vec.iter().map(|y| y.1)),
            E::multi_pairing(x_vec.iter().map(|x| x.1), y_vec.iter().map(|y| y.0)),
            E::multi_pairing(x_vec.iter().map(|x| x.1), y_vec.iter().map(|y| y.1)),
''','''            x_vec.iter().zip(y_vec).map(|(x, y)| E::pairing(x.0, y.0)).sum(),
            E::final_exponentiation(E::multi_miller_loop(
                x_vec.iter().map(|x| E::G1Prepared::from(x.0)),
                y_vec.iter().map(|y| E::G2Prepared::from(y.1)),
            ))
            .unwrap(),
            x_vec.par_iter().zip(y_vec.par_iter()).map(|(x, y)| E::pairing(x.1, y.0)).sum(),
            E::multi_pairing(x_vec.iter().map(|x| x.1).collect::<Vec<_>>(), y_vec.iter().map(|y| y.1).collect::<Vec<_>>()),
''')
    ed('verifier.rs','''        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        lhs == rhs''','''        let rhs: ComT<E> = com1_pf2 + lin_t + pf1_com2;

        (lhs - rhs).is_zero()''',2)
    ed('verifier.rs','use ark_ec::pairing::Pairing;','use ark_ec::pairing::Pairing;\nuse ark_std::Zero;')
    ed('prover/commit.rs','''    let coms = lin_x.add(&vec_to_col_vec(&key.u).left_mul(&R, false));

    Commit1::<E> {
        coms: col_vec_to_vec(&coms),
        rand: R,
    }''','''    let mut coms = col_vec_to_vec(&lin_x);
    for (c, r) in coms.iter_mut().zip(R.iter()) {
        for (k, u) in r.iter().zip(key.u.iter()) {
            *c += u.scalar_mul(k);
        }
    }

    Commit1::<E> { coms, rand: R }''')
    ed('prover/prove.rs','''let is_parallel = true;''','''let is_parallel = xvars.len() + yvars.len() > 2;''',1)
    ed('generator.rs','''        let q1 = p1.mul(a1);
        let q2 = p2.mul(a2);
        let u1 = p1.mul(t1);
        let u2 = p2.mul(t2);
''','''        let (u1, q1) = (p1 * t1, p1 * a1);
        let [q2, u2] = [a2, t2].map(|s| p2 * s);
''')
    ed('data_structures.rs','''        x_vec
            .iter()
            .map(|elem| Self::linear_map(elem))
            .collect::<Vec<Self>>()''','''        let mut out = Vec::with_capacity(x_vec.len());
        for elem in x_vec {
            out.push(Self::linear_map(elem));
        }
        out''')
if which=='B': # msm, batch normalisation, parallel maps
    ed('prover/commit.rs','''    let coms = lin_y.add(&vec_to_col_vec(&key.v).left_mul(&S, false));

    Commit2::<E> {
        coms: col_vec_to_vec(&coms),
        rand: S,
    }''','''    let lin = col_vec_to_vec(&lin_y);
    let bases0: Vec<E::G2Affine> = key.v.iter().map(|v| v.0).collect();
    let bases1: Vec<E::G2Affine> = key.v.iter().map(|v| v.1).collect();
    let first: Vec<E::G2> = S
        .iter()
        .zip(&lin)
        .map(|(s, l)| E::G2::msm(&bases0, s).unwrap() + l.0)
        .collect();
    let second: Vec<E::G2> = S
        .iter()
        .zip(&lin)
        .map(|(s, l)| E::G2::msm_unchecked(&bases1, s) + l.1)
        .collect();
    let first = E::G2::normalize_batch(&first);
    let second = E::G2::normalize_batch(&second);

    Commit2::<E> {
        coms: first.into_iter().zip(second).map(|(a, b)| Com2(a, b)).collect(),
        rand: S,
    }''')
    ed('prover/commit.rs','use ark_ec::pairing::Pairing;','use ark_ec::{pairing::Pairing, CurveGroup, VariableBaseMSM};')
    ed('data_structures.rs','''        y_vec
            .iter()
            .map(|elem| Self::scalar_linear_map(elem, key))
            .collect::<Vec<Self>>()''','''        let image_of_one = key.v[1] + Com2::<E>::linear_map(&key.g2_gen);
        y_vec
            .par_iter()
            .map(|elem| image_of_one.scalar_mul(elem))
            .collect()''')
    ed('data_structures.rs','''                self.0 == other.0 && self.1 == other.1
                }''','''                self.0 == other.0 && self.1 == other.1
                }''') if False else None
    ed('data_structures.rs','''        iter.fold(Self::zero(), |a, b| a + b)''','''        let mut acc = Self::zero();
        for x in iter {
            acc += x;
        }
        acc''')
    ed('verifier.rs','''        let lhs: ComT<E> = lin_a_com_y + com_x_lin_b + com_x_stmt_com_y;
        let rhs: ComT<E> = lin_t + com1_pf2 + pf1_com2;

        lhs == rhs''','''        let (lhs, rhs) = rayon::join(
            || lin_a_com_y + com_x_lin_b + com_x_stmt_com_y,
            || lin_t + com1_pf2 + pf1_com2,
        );
        lhs == rhs''',0)
    ed('prover/prove.rs','''        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];''','''        let pf_rand: Matrix<E::ScalarField> = (0..2)
            .map(|_| (0..2).map(|_| rng.gen::<E::ScalarField>()).collect())
            .collect();''') if False else ed('prover/prove.rs','''        let pf_rand: Matrix<E::ScalarField> = vec![
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
            vec![E::ScalarField::rand(rng), E::ScalarField::rand(rng)],
        ];''','''        let pf_rand: Matrix<E::ScalarField> = (0..2)
            .map(|_| (0..2).map(|_| E::ScalarField::rand(rng)).collect())
            .collect();''')
if which=='C': # skipping zeros
    ed('data_structures.rs','''        assert_eq!(x_vec.len(), y_vec.len());
        Self(''','''        assert_eq!(x_vec.len(), y_vec.len());
        // neutral elements contribute nothing
        let (x_vec, y_vec): (Vec<Com1<E>>, Vec<Com2<E>>) = x_vec
            .iter()
            .zip(y_vec)
            .filter(|(x, y)| !x.is_zero() && !y.is_zero())
            .map(|(x, y)| (*x, *y))
            .unzip();
        Self(''')
if which=='D': # skipping zero coefficients in products
    ed('data_structures.rs','''(0..dim).map( |k| self[k][j].scalar_mul(&row[k])).sum()''','''(0..dim)
                                            .filter(|k| !row[*k].is_zero())
                                            .map( |k| self[k][j].scalar_mul(&row[k])).sum()''')
    ed('data_structures.rs','''    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
''','''    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
        if rhs.is_one() {
            return *self;
        }
''')
if which=='E': # matrix code rewritten; scopes, chunks and reductions
    t=open(R+'data_structures.rs').read()
    a=t.index('''            .into_par_iter()
                .map(|i| {
                    let row = &self[i];
                    let dim = rhs.len();''') if False else 0
    # right_mul of field matrices: zips, par_chunks-like reduce
    ed('data_structures.rs','''                    let cols: Vec<_> = (0..rhs[0].len())
                        .into_par_iter()
                        .map(|j| (0..dim).map(|k| row[k] * rhs[k][j]).sum())
                        .collect();

                    cols
                })
                .collect();

            rows''','''                    let mut cols = vec![F::zero(); rhs[0].len()];
                    cols.par_iter_mut().enumerate().for_each(|(j, out)| {
                        *out = (0..dim)
                            .into_par_iter()
                            .map(|k| row[k] * rhs[k][j])
                            .reduce(F::zero, |a, b| a + b);
                    });

                    cols
                })
                .collect();

            rows''')
    ed('data_structures.rs','''            let rows: Vec<_> = (0..row_dim)
                .into_par_iter()
                .map(|i| {
                    let row = &lhs[i];
                    let dim = self.len();

                    // Perform matrix multiplication for single row
                    let cols: Vec<_> = (0..self[0].len())
                        .into_par_iter()
                        .map(|j| (0..dim).map(|k| self[k][j] * row[k]).sum())
                        .collect();

                    cols
                })
                .collect();

            rows''','''            let mut rows: Vec<Vec<F>> = vec![Vec::new(); row_dim];
            rayon::scope(|s| {
                for (out, row) in rows.iter_mut().zip(lhs) {
                    s.spawn(move |_| {
                        *out = (0..self[0].len())
                            .map(|j| row.iter().zip(self).map(|(c, r)| r[j] * c).sum())
                            .collect();
                    });
                }
            });
            rows''')
    ed('data_structures.rs','''                    let mut trans = Vec::with_capacity(self[0].len());
                    for _ in 0..self[0].len() {
                        trans.push(Vec::with_capacity(self.len()));
                    }

                    for row in self {
                        for i in 0..row.len() {
                            // Push rows onto columns
                            trans[i].push(row[i].clone());
                        }
                    }
                    trans''','''                    (0..self[0].len())
                        .map(|j| self.iter().map(|row| row[j]).collect())
                        .collect()''')
    ed('data_structures.rs','''                                let cols: Vec<_> = (0..rhs[0].len())
                                    .into_par_iter()
                                    .map( |j| {
                                        (0..dim).map( |k| row[k].scalar_mul(&rhs[k][j])).sum()
                                    })
                                    .collect();

                                cols''','''                                (0..rhs[0].len())
                                    .map(|j| {
                                        (0..dim)
                                            .into_par_iter()
                                            .fold($com::<E>::zero, |a, k| a + row[k].scalar_mul(&rhs[k][j]))
                                            .reduce($com::<E>::zero, |a, b| a + b)
                                    })
                                    .collect::<Vec<$com<E>>>()''')
    ed('data_structures.rs','''                    let m = self.len();
                    let n = self[0].len();
                    let mut add = Vec::with_capacity(m);
                    for i in 0..m {
                        add.push(Vec::with_capacity(n));
                        for j in 0..n {
                            add[i].push(self[i][j].clone() + other[i][j].clone());
                        }
                    }
                    add''','''                    self.par_iter()
                        .zip(other.par_iter())
                        .map(|(r, s)| r.par_chunks(2).zip(s.par_chunks(2)).flat_map_iter(|(p, q)| p.iter().zip(q).map(|(x, y)| *x + *y)).collect())
                        .collect()''')
if which=='F': # hand-written serialization, equality and scalar multiplication by bits
    ed('data_structures.rs','''    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
        let mut s1p = self.0.into_group();
        let mut s2p = self.1.into_group();
        s1p *= *rhs;
        s2p *= *rhs;
        Self(s1p.into_affine(), s2p.into_affine())
''','''    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
        use ark_ff::PrimeField;
        let k = rhs.into_bigint();
        Self(self.0.mul_bigint(k).into_affine(), self.1.mul_bigint(k).into_affine())
''')
