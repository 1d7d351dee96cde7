bug("scalar-fast-path","C11","a scalar whose second and third 64-bit limbs are zero but whose top limb is not",
 "the short cut for small scalars overlooks the top limb",
 [(DS,"""    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
        let mut s1p = self.0.into_group();
""","""    fn scalar_mul(&self, rhs: &E::ScalarField) -> Self {
        let k = rhs.into_bigint();
        let limbs = k.as_ref();
        if limbs.len() > 2 && limbs[1..limbs.len() - 1].iter().all(|l| *l == 0) {
            // small scalars fit one word
            let word = [limbs[0]];
            return Self(
                self.0.mul_bigint(word).into_affine(),
                self.1.mul_bigint(word).into_affine(),
            );
        }
        let mut s1p = self.0.into_group();
""",1,0),(DS,"use ark_ff::{Field, One, Zero};","use ark_ff::{Field, One, PrimeField, Zero};")],
 """
fn main() {
    let mut r = rng(1);
    let g = g1s(2, &mut r);
    let c = Com1::<F>(g[0], g[1]);
    let s = Fr::from(2u64).pow([200u64]) + Fr::from(3u64);
    done(c.scalar_mul(&s) == Com1((g[0] * s).into_affine(), (g[1] * s).into_affine())
      && c.scalar_mul(&Fr::from(7u64)) == Com1((g[0] * Fr::from(7u64)).into_affine(), (g[1] * Fr::from(7u64)).into_affine()))
}
""")
bug("eq-x-only","C19","two commitment elements whose second components are opposite points",
 "the second components are compared by their x coordinates only",
 [(DS,"self.0 == other.0 && self.1 == other.1\n                }","self.0 == other.0 && self.1.x() == other.1.x()\n                }")],
 """
fn main() {
    let mut r = rng(1);
    let g = g1s(2, &mut r);
    let h = g2s(2, &mut r);
    done(Com1::<F>(g[0], g[1]) != Com1(g[0], -g[1]) && Com2::<F>(h[0], h[1]) != Com2(h[0], -h[1]) && Com1::<F>(g[0], g[1]) == Com1(g[0], g[1]))
}
""")
bug("short-draws","C26","batch commitments to scalars in B1",
 "the opening randomness is drawn from 64 bits only",
 [(COM,"r.push(vec![E::ScalarField::rand(rng)]);","r.push(vec![E::ScalarField::from(rng.gen::<u64>())]);")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let x = frs(3, &mut r);
    let c = batch_commit_scalar_to_B1(&x, &crs, &mut r);
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    // the randomness is the tail of the encoding
    let top = &b[b.len() - 8..];
    done(top.iter().any(|x| *x != 0))
}
""")
bug("check-sum","C17","two invalid points whose components outside the subgroup cancel",
 "validity of a commitment element is tested on the sum of its components",
 [(DS,"""#[derive(Copy, Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Com1<E: Pairing>(pub E::G1Affine, pub E::G1Affine);
""","""#[derive(Copy, Clone, Debug, CanonicalSerialize)]
pub struct Com1<E: Pairing>(pub E::G1Affine, pub E::G1Affine);

impl<E: Pairing> Valid for Com1<E> {
    fn check(&self) -> Result<(), SerializationError> {
        // one subgroup check for both components
        (self.0 + self.1 + self.1).into_affine().check()
    }
}
impl<E: Pairing> CanonicalDeserialize for Com1<E> {
    fn deserialize_with_mode<R: ark_std::io::Read>(
        mut reader: R,
        compress: Compress,
        validate: Validate,
    ) -> Result<Self, SerializationError> {
        let res = Self(
            E::G1Affine::deserialize_with_mode(&mut reader, compress, Validate::No)?,
            E::G1Affine::deserialize_with_mode(&mut reader, compress, Validate::No)?,
        );
        if let Validate::Yes = validate {
            res.check()?;
        }
        Ok(res)
    }
}
"""),(DS,"use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};","use ark_serialize::{\n    CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Valid, Validate,\n};")],
 """
fn main() {
    // t: a point of order prime to r
    let mut k = 1u64;
    let t = loop {
        if let Some(p) = G1Affine::get_point_from_x_unchecked(ark_bls12_381::Fq::from(k), false) {
            let t = p.mul_bigint(ark_bls12_381::g1::Config::cofactor_free()).into_affine();
            if !t.is_zero() { break t }
        }
        k += 1;
    };
    let mut r = rng(1);
    let g = g1s(2, &mut r);
    let c = Com1::<F>((g[0] + t + t).into_affine(), (g[1] - t).into_affine());
    let mut b = vec![];
    c.serialize_compressed(&mut b).unwrap();
    done(Com1::<F>::deserialize_compressed(&b[..]).is_err())
}
trait CofactorFree { fn cofactor_free() -> [u64; 4]; }
impl CofactorFree for ark_bls12_381::g1::Config { fn cofactor_free() -> [u64; 4] { use ark_ff::PrimeField; Fr::MODULUS.0 } }
""")
bug("len-u8","C16","a commitment object with 256 or more values",
 "the number of rows of the randomness is encoded in one byte",
 [(COM,"""#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Commit1<E: Pairing> {""","""#[derive(Clone, Debug)]
pub struct Commit1<E: Pairing> {"""),(COM,"""macro_rules! impl_com {""","""// One length for both lists
impl<E: Pairing> CanonicalSerialize for Commit1<E> {
    fn serialize_with_mode<W: Write>(
        &self,
        mut writer: W,
        compress: Compress,
    ) -> Result<(), SerializationError> {
        self.coms.serialize_with_mode(&mut writer, compress)?;
        (self.rand.len() as u8).serialize_with_mode(&mut writer, compress)?;
        for row in self.rand.iter() {
            row.serialize_with_mode(&mut writer, compress)?;
        }
        Ok(())
    }
    fn serialized_size(&self, compress: Compress) -> usize {
        self.coms.serialized_size(compress)
            + 1
            + self.rand.iter().map(|r| r.serialized_size(compress)).sum::<usize>()
    }
}
impl<E: Pairing> Valid for Commit1<E> {
    fn check(&self) -> Result<(), SerializationError> {
        self.coms.check()
    }
}
impl<E: Pairing> CanonicalDeserialize for Commit1<E> {
    fn deserialize_with_mode<R: Read>(
        mut reader: R,
        compress: Compress,
        validate: Validate,
    ) -> Result<Self, SerializationError> {
        let coms = Vec::<Com1<E>>::deserialize_with_mode(&mut reader, compress, validate)?;
        let n = u8::deserialize_with_mode(&mut reader, compress, validate)?;
        let mut rand = Vec::with_capacity(coms.len());
        for _ in 0..n {
            rand.push(Vec::deserialize_with_mode(&mut reader, compress, validate)?);
        }
        Ok(Self { coms, rand })
    }
}

macro_rules! impl_com {"""),(COM,"use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};","use ark_serialize::{\n    CanonicalDeserialize, CanonicalSerialize, Compress, Read, SerializationError, Valid, Validate,\n    Write,\n};")],
 """
fn main() {
    let mut r = rng(1);
    let crs = key(2);
    let x: Vec<G1Affine> = vec![G1Affine::generator(); 258];
    let c = batch_commit_G1(&x, &crs, &mut r);
    let mut b = vec![];
    c.serialize_uncompressed(&mut b).unwrap();
    let d = Commit1::<F>::deserialize_uncompressed_unchecked(&b[..]).unwrap();
    done(c == d)
}
""")
