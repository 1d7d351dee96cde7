//! C16 C17 C18 C19: encoding, tags and equality of the public objects.
use super::{job, literal_lengths};
use crate::eng::*;
use crate::explore::Job;
use crate::harness::*;
use ark_ec::pairing::PairingOutput;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use groth_sahai::prover::*;
use groth_sahai::statement::{EquType, QuadEqu, MSMEG1, MSMEG2, PPE};
use groth_sahai::*;
use ark_serialize::{Read, Write};

const MODES: [(Compress, Validate); 4] =
    [(Compress::Yes, Validate::Yes), (Compress::Yes, Validate::No), (Compress::No, Validate::Yes), (Compress::No, Validate::No)];
fn mode_name(c: Compress, v: Validate) -> String {
    format!(
        "{}{}",
        if matches!(c, Compress::Yes) { "compressed" } else { "uncompressed" },
        if matches!(v, Validate::Yes) { "" } else { ", unvalidated" }
    )
}
/// a stream that hands out and takes a few bytes at a time
struct Drip<T>(T, usize);
impl<R: Read> Read for Drip<R> {
    fn read(&mut self, b: &mut [u8]) -> ark_std::io::Result<usize> {
        let k = b.len().min(self.1);
        self.0.read(&mut b[..k])
    }
}
impl<W: Write> Write for Drip<W> {
    fn write(&mut self, b: &[u8]) -> ark_std::io::Result<usize> {
        let k = b.len().min(self.1);
        self.0.write(&b[..k])
    }
    fn flush(&mut self) -> ark_std::io::Result<()> {
        self.0.flush()
    }
}

// ---------------------------------------------------------------- comparing
pub trait Obj<X: Eng>: CanonicalSerialize + CanonicalDeserialize + Sized {
    /// obligations that say `self` equals `o`
    fn same_as(&self, e: &mut X, l: &str, o: &Self);
}
macro_rules! one {
    ($t:ty, |$e:ident, $l:ident, $a:ident, $b:ident| $body:expr) => {
        impl<X: Eng> Obj<X> for $t {
            fn same_as(&self, $e: &mut X, $l: &str, o: &Self) {
                let ($a, $b) = (self, o);
                $body
            }
        }
    };
}
one!(Com1<X::E>, |e, l, a, b| ob_com1(e, l, a, b));
one!(Com2<X::E>, |e, l, a, b| ob_com2(e, l, a, b));
one!(Commit1<X::E>, |e, l, a, b| {
    ob_coms1(e, l, &a.coms, &b.coms);
    e.ob(&format!("{l}: equal"), a == b);
});
one!(Commit2<X::E>, |e, l, a, b| {
    ob_coms2(e, l, &a.coms, &b.coms);
    e.ob(&format!("{l}: equal"), a == b);
});
one!(EquProof<X::E>, |e, l, a, b| {
    ob_proof(e, l, a, b);
    e.ob(&format!("{l}: equal"), a == b);
});
one!(EquType, |e, l, a, b| e.ob(&format!("{l}: type"), a == b));
one!(CRS<X::E>, |e, l, a, b| {
    ob_coms1(e, &format!("{l}.u"), &a.u, &b.u);
    ob_coms2(e, &format!("{l}.v"), &a.v, &b.v);
    e.ob_1(&format!("{l}.g1"), a.g1_gen, b.g1_gen);
    e.ob_2(&format!("{l}.g2"), a.g2_gen, b.g2_gen);
    e.ob_t(&format!("{l}.gt"), a.gt_gen, b.gt_gen);
});
fn ob_g1s<X: Eng>(e: &mut X, l: &str, a: &[A1<X>], b: &[A1<X>]) {
    e.ob(&format!("{l}: lengths {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        e.ob_1(&format!("{l}[{i}]"), *x, *y);
    }
}
fn ob_g2s<X: Eng>(e: &mut X, l: &str, a: &[A2<X>], b: &[A2<X>]) {
    e.ob(&format!("{l}: lengths {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        e.ob_2(&format!("{l}[{i}]"), *x, *y);
    }
}
fn ob_ss<X: Eng>(e: &mut X, l: &str, a: &[F<X>], b: &[F<X>]) {
    e.ob(&format!("{l}: lengths {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        e.ob_s(&format!("{l}[{i}]"), *x, *y);
    }
}
fn ob_mat<X: Eng>(e: &mut X, l: &str, a: &Mx<F<X>>, b: &Mx<F<X>>) {
    e.ob(&format!("{l}: rows {} and {}", a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ob_ss(e, &format!("{l}[{i}]"), x, y);
    }
}
macro_rules! eqn {
    ($t:ident, $fa:ident, $fb:ident, $ft:ident) => {
        one!($t<X::E>, |e, l, a, b| {
            $fa(e, &format!("{l}.a"), &a.a_consts, &b.a_consts);
            $fb(e, &format!("{l}.b"), &a.b_consts, &b.b_consts);
            ob_mat(e, &format!("{l}.gamma"), &a.gamma, &b.gamma);
            e.$ft(&format!("{l}.target"), a.target, b.target);
            e.ob(&format!("{l}: equal"), a == b);
        });
    };
}
eqn!(PPE, ob_g1s, ob_g2s, ob_t);
eqn!(MSMEG1, ob_g1s, ob_ss, ob_1);
eqn!(MSMEG2, ob_ss, ob_g2s, ob_2);
eqn!(QuadEqu, ob_ss, ob_ss, ob_s);

// ---------------------------------------------------------------- building
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    Crs,
    Com1,
    Com2,
    Commit1(bool, usize),
    Commit2(bool, usize),
    Proof(Ty),
    Equ(Ty, usize, usize),
    /// an equation object whose parts have the given lengths: a, b, rows of gamma, their lengths
    Odd(Ty, usize, usize, [usize; 2]),
    Type(usize),
}
/// all constituents arbitrary
macro_rules! with_obj {
    ($e:ident, $w:expr, $bad:expr, $flags:ident, $p:expr, |$o:ident| $body:expr) => {{
        let mut b = Build { bad: $bad, flags: vec![], p: $p.to_string(), k: 0 };
        match $w {
            What::Crs => {
                let $o = b.crs($e);
                let $flags = b.flags;
                $body
            }
            What::Com1 => {
                let $o = b.com1($e);
                let $flags = b.flags;
                $body
            }
            What::Com2 => {
                let $o = b.com2($e);
                let $flags = b.flags;
                $body
            }
            What::Commit1(g, n) => {
                let $o = b.commit1($e, g, n);
                let $flags = b.flags;
                $body
            }
            What::Commit2(g, n) => {
                let $o = b.commit2($e, g, n);
                let $flags = b.flags;
                $body
            }
            What::Proof(ty) => {
                let $o = b.proof($e, ty);
                let $flags = b.flags;
                $body
            }
            What::Equ(ty, m, n) => {
                let rows = vec![n; m];
                match ty {
                    Ty::P => {
                        let $o = b.ppe($e, n, m, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::M1 => {
                        let $o = b.ms1($e, n, m, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::M2 => {
                        let $o = b.ms2($e, n, m, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::Q => {
                        let $o = b.quad($e, n, m, &rows);
                        let $flags = b.flags;
                        $body
                    }
                }
            }
            What::Odd(ty, na, nb, rows) => {
                let rows: Vec<usize> = rows.iter().filter(|r| **r < 9).cloned().collect();
                match ty {
                    Ty::P => {
                        let $o = b.ppe($e, na, nb, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::M1 => {
                        let $o = b.ms1($e, na, nb, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::M2 => {
                        let $o = b.ms2($e, na, nb, &rows);
                        let $flags = b.flags;
                        $body
                    }
                    Ty::Q => {
                        let $o = b.quad($e, na, nb, &rows);
                        let $flags = b.flags;
                        $body
                    }
                }
            }
            What::Type(i) => {
                let $o = TYPES[i].equ_type();
                let $flags = b.flags;
                $body
            }
        }
    }};
}
struct Build {
    /// group elements may be invalid
    bad: bool,
    flags: Vec<u32>,
    p: String,
    k: usize,
}
impl Build {
    fn nm(&mut self) -> String {
        self.k += 1;
        format!("{}{}", self.p, self.k)
    }
    fn g1<X: Eng>(&mut self, e: &mut X) -> A1<X> {
        let n = self.nm();
        if self.bad {
            let (v, f) = e.bad1(&n);
            self.flags.push(f);
            v
        } else {
            e.g1(&n)
        }
    }
    fn g2<X: Eng>(&mut self, e: &mut X) -> A2<X> {
        let n = self.nm();
        if self.bad {
            let (v, f) = e.bad2(&n);
            self.flags.push(f);
            v
        } else {
            e.g2(&n)
        }
    }
    fn gt<X: Eng>(&mut self, e: &mut X) -> PairingOutput<X::E> {
        let n = self.nm();
        if self.bad {
            let (v, f) = e.badt(&n);
            self.flags.push(f);
            v
        } else {
            e.gt(&n)
        }
    }
    fn s<X: Eng>(&mut self, e: &mut X) -> F<X> {
        let n = self.nm();
        e.s(&n)
    }
    fn com1<X: Eng>(&mut self, e: &mut X) -> Com1<X::E> {
        Com1(self.g1(e), self.g1(e))
    }
    fn com2<X: Eng>(&mut self, e: &mut X) -> Com2<X::E> {
        Com2(self.g2(e), self.g2(e))
    }
    fn crs<X: Eng>(&mut self, e: &mut X) -> CRS<X::E> {
        CRS {
            u: vec![self.com1(e), self.com1(e)],
            v: vec![self.com2(e), self.com2(e)],
            g1_gen: self.g1(e),
            g2_gen: self.g2(e),
            gt_gen: self.gt(e),
        }
    }
    fn stream(&mut self) -> u32 {
        self.k += 1;
        let mut h = 17u32;
        for b in self.p.bytes() {
            h = h.wrapping_mul(31).wrapping_add(b as u32);
        }
        200 + (h % 600) * 100 + self.k as u32
    }
    fn commit1<X: Eng>(&mut self, e: &mut X, g: bool, n: usize) -> Commit1<X::E> {
        let k = key(e, Key::Fixed);
        let z = vec![F::<X>::from(0u64); n.max(1)];
        let mut r = e.rng(self.stream());
        let mut c = com1(e, g, &z, &k, &mut r);
        if n == 0 {
            // an empty commitment object is what appending leaves behind
            c.clone().append(&mut c);
        }
        for i in 0..c.coms.len() {
            c.coms[i] = self.com1(e);
        }
        c
    }
    fn commit2<X: Eng>(&mut self, e: &mut X, g: bool, n: usize) -> Commit2<X::E> {
        let k = key(e, Key::Fixed);
        let z = vec![F::<X>::from(0u64); n.max(1)];
        let mut r = e.rng(self.stream());
        let mut c = com2(e, g, &z, &k, &mut r);
        if n == 0 {
            // an empty commitment object is what appending leaves behind
            c.clone().append(&mut c);
        }
        for i in 0..c.coms.len() {
            c.coms[i] = self.com2(e);
        }
        c
    }
    fn proof<X: Eng>(&mut self, e: &mut X, ty: Ty) -> EquProof<X::E> {
        let k = key(e, Key::Fixed);
        let st = self.stream();
        let z = F::<X>::from(0u64);
        let c = Coef { a: vec![z], b: vec![z], g: vec![vec![z]] };
        let q = equ(e, ty, &c, z);
        let mut r = e.rng(st);
        let xc = com1(e, ty.xg(), &[z], &k, &mut r);
        let yc = com2(e, ty.yg(), &[z], &k, &mut r);
        let mut p = prove(e, &q, &[z], &[z], &xc, &yc, &k, &mut r);
        for i in 0..p.pi.len() {
            p.pi[i] = self.com2(e);
        }
        for i in 0..p.theta.len() {
            p.theta[i] = self.com1(e);
        }
        p
    }
    fn mat<X: Eng>(&mut self, e: &mut X, rows: &[usize]) -> Mx<F<X>> {
        rows.iter().map(|n| (0..*n).map(|_| self.s(e)).collect()).collect()
    }
    fn ppe<X: Eng>(&mut self, e: &mut X, na: usize, nb: usize, rows: &[usize]) -> PPE<X::E> {
        PPE {
            a_consts: (0..na).map(|_| self.g1(e)).collect(),
            b_consts: (0..nb).map(|_| self.g2(e)).collect(),
            gamma: self.mat(e, rows),
            target: self.gt(e),
        }
    }
    fn ms1<X: Eng>(&mut self, e: &mut X, na: usize, nb: usize, rows: &[usize]) -> MSMEG1<X::E> {
        MSMEG1 {
            a_consts: (0..na).map(|_| self.g1(e)).collect(),
            b_consts: (0..nb).map(|_| self.s(e)).collect(),
            gamma: self.mat(e, rows),
            target: self.g1(e),
        }
    }
    fn ms2<X: Eng>(&mut self, e: &mut X, na: usize, nb: usize, rows: &[usize]) -> MSMEG2<X::E> {
        MSMEG2 {
            a_consts: (0..na).map(|_| self.s(e)).collect(),
            b_consts: (0..nb).map(|_| self.g2(e)).collect(),
            gamma: self.mat(e, rows),
            target: self.g2(e),
        }
    }
    fn quad<X: Eng>(&mut self, e: &mut X, na: usize, nb: usize, rows: &[usize]) -> QuadEqu<X::E> {
        QuadEqu {
            a_consts: (0..na).map(|_| self.s(e)).collect(),
            b_consts: (0..nb).map(|_| self.s(e)).collect(),
            gamma: self.mat(e, rows),
            target: self.s(e),
        }
    }
}

// ---------------------------------------------------------------- C16
fn encode<X: Eng, T: CanonicalSerialize>(e: &mut X, l: &str, o: &T, c: Compress, step: usize) -> Vec<u8> {
    let mut w = Drip(vec![], step);
    let r = e.catch(|| o.serialize_with_mode(&mut w, c));
    e.ob(&format!("{l}: encodes"), matches!(r, Ok(Ok(()))));
    let n = o.serialized_size(c);
    e.ob(&format!("{l}: announced {n} bytes, wrote {}", w.0.len()), w.0.len() == n);
    e.see_s(&format!("{l}: size"), F::<X>::from(n as u64));
    w.0
}
fn decode<X: Eng, T: CanonicalDeserialize>(e: &mut X, l: &str, rd: &mut Drip<&[u8]>, c: Compress, v: Validate) -> Option<T> {
    match e.catch(|| T::deserialize_with_mode(&mut *rd, c, v)) {
        Ok(Ok(x)) => Some(x),
        _ => {
            e.ob(&format!("{l}: decodes"), false);
            None
        }
    }
}
fn round<X: Eng, T: Obj<X>>(e: &mut X, o: &T) {
    for (c, v) in MODES {
        for step in [usize::MAX, 5] {
            let l = mode_name(c, v);
            let mut b = encode(e, &l, o, c, step);
            let n = b.len();
            b.extend_from_slice(&[0xa5; 7]);
            let mut rd = Drip(&b[..], step);
            if let Some(x) = decode::<X, T>(e, &l, &mut rd, c, v) {
                e.ob(&format!("{l}: {} of {n} bytes consumed", b.len() - rd.0.len()), rd.0.len() == 7);
                x.same_as(e, &l, o);
                e.reached("round trip");
            }
        }
    }
    // the shorthand calls
    let mut w = vec![];
    let r = e.catch(|| o.serialize_compressed(&mut w));
    e.ob("serialize_compressed", matches!(r, Ok(Ok(()))) && w.len() == o.compressed_size());
    if let Ok(Ok(x)) = e.catch(|| T::deserialize_compressed(&w[..])) {
        x.same_as(e, "compressed, shorthand", o)
    } else {
        e.ob("deserialize_compressed", false)
    }
    let mut w = vec![];
    let r = e.catch(|| o.serialize_uncompressed(&mut w));
    e.ob("serialize_uncompressed", matches!(r, Ok(Ok(()))) && w.len() == o.uncompressed_size());
    if let Ok(Ok(x)) = e.catch(|| T::deserialize_uncompressed(&w[..])) {
        x.same_as(e, "uncompressed, shorthand", o)
    } else {
        e.ob("deserialize_uncompressed", false)
    }
}
fn c16_one<X: Eng>(e: &mut X, w: What) {
    with_obj!(e, w, false, _flags, "o", |o| round(e, &o))
}
/// several different objects one after the other in one stream, and a list of them
fn c16_stream<X: Eng>(e: &mut X, ty: Ty, long: usize) {
    let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
    let crs = b.crs(e);
    let (k1, k2) = (b.com1(e), b.com2(e));
    let (c1, c2) = (b.commit1(e, ty.xg(), long), b.commit2(e, ty.yg(), 2));
    let (pf, pf2) = (b.proof(e, ty), b.proof(e, TYPES[(ty as usize + 1) % 4]));
    let q = b.ppe(e, 2, 1, &[2]);
    let q1 = b.ms1(e, 1, 2, &[1, 1]);
    let q2 = b.ms2(e, 2, 1, &[2]);
    let q3 = b.quad(e, 1, 1, &[1]);
    let t = ty.equ_type();
    for (c, v) in MODES {
        let l = mode_name(c, v);
        let mut bytes = vec![];
        bytes.extend(encode(e, &l, &c1, c, usize::MAX));
        bytes.extend(encode(e, &l, &crs, c, usize::MAX));
        bytes.extend(encode(e, &l, &t, c, usize::MAX));
        bytes.extend(encode(e, &l, &k1, c, usize::MAX));
        bytes.extend(encode(e, &l, &pf, c, usize::MAX));
        bytes.extend(encode(e, &l, &c2, c, usize::MAX));
        bytes.extend(encode(e, &l, &q, c, usize::MAX));
        bytes.extend(encode(e, &l, &k2, c, usize::MAX));
        bytes.extend(encode(e, &l, &q1, c, usize::MAX));
        bytes.extend(encode(e, &l, &pf2, c, usize::MAX));
        bytes.extend(encode(e, &l, &q2, c, usize::MAX));
        bytes.extend(encode(e, &l, &q3, c, usize::MAX));
        bytes.extend(encode(e, &l, &vec![pf.clone(), pf2.clone()], c, usize::MAX));
        bytes.extend(encode(e, &l, &vec![c1.clone(), c1.clone()], c, usize::MAX));
        let mut rd = Drip(&bytes[..], usize::MAX);
        macro_rules! next {
            ($t:ty, $o:expr, $n:literal) => {
                match decode::<X, $t>(e, &format!("{l}: {} in a stream", $n), &mut rd, c, v) {
                    Some(x) => Obj::<X>::same_as(&x, e, &format!("{l}: {} in a stream", $n), $o),
                    None => return,
                }
            };
        }
        next!(Commit1<X::E>, &c1, "commit1");
        next!(CRS<X::E>, &crs, "crs");
        next!(EquType, &t, "type");
        next!(Com1<X::E>, &k1, "com1");
        next!(EquProof<X::E>, &pf, "proof");
        next!(Commit2<X::E>, &c2, "commit2");
        next!(PPE<X::E>, &q, "ppe");
        next!(Com2<X::E>, &k2, "com2");
        next!(MSMEG1<X::E>, &q1, "msmeg1");
        next!(EquProof<X::E>, &pf2, "second proof");
        next!(MSMEG2<X::E>, &q2, "msmeg2");
        next!(QuadEqu<X::E>, &q3, "quad");
        match decode::<X, Vec<EquProof<X::E>>>(e, &l, &mut rd, c, v) {
            Some(x) => {
                e.ob(&format!("{l}: two proofs"), x.len() == 2);
                x[0].same_as(e, &format!("{l}: first in list"), &pf);
                x[1].same_as(e, &format!("{l}: second in list"), &pf2);
            }
            None => return,
        }
        match decode::<X, Vec<Commit1<X::E>>>(e, &l, &mut rd, c, v) {
            Some(x) => {
                e.ob(&format!("{l}: two commitment objects"), x.len() == 2);
                x.iter().for_each(|x| x.same_as(e, &format!("{l}: in list"), &c1));
            }
            None => return,
        }
        e.ob(&format!("{l}: stream used up"), rd.0.is_empty());
    }
    e.reached("round trip");
}
/// decoded objects do what the originals do: proving and verifying with them
fn c16_use<X: Eng>(e: &mut X, ty: Ty, comp: bool) {
    let c = if comp { Compress::Yes } else { Compress::No };
    let v = Validate::Yes;
    let (m, n) = (2, 1);
    let crs = key(e, Key::Binding);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let co = coef(e, "", m, n);
    let t = target(&co, &xs, &ys);
    let q = equ(e, ty, &co, t);
    let mut r = e.rng(1);
    let xc = com1(e, ty.xg(), &xs, &crs, &mut r);
    let yc = com2(e, ty.yg(), &ys, &crs, &mut r);
    let mut r2 = e.rng(2);
    let pf = prove(e, &q, &xs, &ys, &xc, &yc, &crs, &mut r2);
    macro_rules! via {
        ($t:ty, $o:expr) => {{
            let b = encode(e, stringify!($o), $o, c, usize::MAX);
            match decode::<X, $t>(e, stringify!($o), &mut Drip(&b[..], usize::MAX), c, v) {
                Some(x) => x,
                None => return,
            }
        }};
    }
    let crs_d = via!(CRS<X::E>, &crs);
    let xc_d = via!(Commit1<X::E>, &xc);
    let yc_d = via!(Commit2<X::E>, &yc);
    let pf_d = via!(EquProof<X::E>, &pf);
    let q_d = match &q {
        Equ::P(q) => Equ::P(via!(PPE<X::E>, q)),
        Equ::M1(q) => Equ::M1(via!(MSMEG1<X::E>, q)),
        Equ::M2(q) => Equ::M2(via!(MSMEG2<X::E>, q)),
        Equ::Q(q) => Equ::Q(via!(QuadEqu<X::E>, q)),
    };
    let mut r2 = e.rng(2);
    match e.catch_with(|e| prove(e, &q_d, &xs, &ys, &xc_d, &yc_d, &crs_d, &mut r2)) {
        Ok(again) => ob_proof(e, "proof from decoded objects", &again, &pf),
        Err(m) => e.ob(&format!("proving with decoded objects panics: {m}"), false),
    }
    let d = e.catch(|| q_d.verify(&CProof { xcoms: xc_d, ycoms: yc_d, equ_proofs: vec![pf_d] }, &crs_d));
    e.ob("decoded proof verifies", matches!(d, Ok(true)));
    e.reached("round trip");
}
fn whats(thorough: bool) -> Vec<What> {
    let mut v = vec![What::Crs, What::Com1, What::Com2];
    let mut lens = vec![0, 1, 2, 3, 5, 17, 33, 130, 257];
    if thorough {
        lens.extend([9, 65, 256, 300, 513]);
    }
    lens.extend(literal_lengths(if thorough { 300 } else { 70 }));
    lens.sort();
    lens.dedup();
    for n in lens {
        v.extend([What::Commit1(true, n), What::Commit1(false, n), What::Commit2(true, n), What::Commit2(false, n)]);
    }
    for ty in TYPES {
        v.push(What::Proof(ty));
        for (m, n) in if thorough { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 4), (4, 1), (5, 5), (9, 2), (33, 1), (1, 33), (257, 1), (1, 257), (130, 2), (17, 17)] } else { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 4), (33, 1), (1, 33), (130, 2), (257, 1), (1, 257)] } {
            v.push(What::Equ(ty, m, n));
        }
        for (na, nb, rows) in [(0, 0, [9, 9]), (0, 1, [0, 9]), (2, 1, [1, 3]), (1, 2, [0, 2]), (3, 0, [0, 0])] {
            v.push(What::Odd(ty, na, nb, rows));
        }
    }
    v.extend((0..4).map(What::Type));
    v
}
pub fn c16_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for w in whats(thorough) {
        v.push(job!("C16", format!("round {w:?}"), c16_one(w)));
    }
    for ty in TYPES {
        for k in [0usize, 1, 2] {
            v.push(job!("C16", format!("stream {} {k}", ty.name()), c16_stream(ty, k)));
        }
        for c in [true, false] {
            v.push(job!("C16", format!("use decoded {} {}", ty.name(), if c { "compressed" } else { "uncompressed" }), c16_use(ty, c)));
        }
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["round trip".into()];
    }
    v
}

// ---------------------------------------------------------------- C17
fn valid<X: Eng, T: CanonicalSerialize + CanonicalDeserialize + Clone>(e: &mut X, o: &T, flags: &[u32], comp: bool, listed: usize) {
    let c = if comp { Compress::Yes } else { Compress::No };
    fn go<X: Eng, U: CanonicalSerialize + CanonicalDeserialize>(e: &mut X, o: &U, flags: &[u32], c: Compress) {
        let mut b = vec![];
        if !matches!(e.catch(|| o.serialize_with_mode(&mut b, c)), Ok(Ok(()))) {
            e.ob("encoding an object with invalid elements", false);
            return;
        }
        let r = e.catch(|| U::deserialize_with_mode(&b[..], c, Validate::No).is_ok());
        e.ob("decoding without validation accepts", matches!(r, Ok(true)));
        let r = e.catch(|| U::deserialize_with_mode(&b[..], c, Validate::Yes).map(|_| ()));
        match r {
            Ok(Ok(())) => {
                e.see("accepted", true);
                e.ob_flags_clear("validated decoding accepted, every element is valid", flags);
                e.reached("accepted");
            }
            Ok(Err(_)) => {
                e.see("accepted", false);
                e.ob_some_flag("validated decoding refused, some element is invalid", flags);
                e.reached("refused");
            }
            Err(m) => e.ob(&format!("validated decoding panics: {m}"), false),
        }
    }
    match listed {
        0 => go(e, o, flags, c),
        k => go(e, &vec![o.clone(); k], flags, c),
    }
}
fn c17<X: Eng>(e: &mut X, w: What, comp: bool, listed: usize) {
    with_obj!(e, w, true, flags, "o", |o| valid(e, &o, &flags, comp, listed))
}
/// one invalid-or-not object among valid ones, in a list
fn c17_mixed<X: Eng>(e: &mut X, w: What, comp: bool, pos: usize) {
    let c = if comp { Compress::Yes } else { Compress::No };
    fn go<X: Eng, T: CanonicalSerialize + CanonicalDeserialize + Clone>(e: &mut X, good: &T, bad: &T, flags: &[u32], c: Compress, pos: usize) {
        let mut l = vec![good.clone(); 3];
        l[pos] = bad.clone();
        valid::<X, Vec<T>>(e, &l, flags, matches!(c, Compress::Yes), 0);
    }
    match w {
        What::Com1 => {
            let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
            let good = b.com1(e);
            b.bad = true;
            let bad = b.com1(e);
            go(e, &good, &bad, &b.flags, c, pos)
        }
        What::Com2 => {
            let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
            let good = b.com2(e);
            b.bad = true;
            let bad = b.com2(e);
            go(e, &good, &bad, &b.flags, c, pos)
        }
        What::Proof(ty) => {
            let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
            let good = b.proof(e, ty);
            b.bad = true;
            let bad = b.proof(e, ty);
            go(e, &good, &bad, &b.flags, c, pos)
        }
        What::Commit1(g, n) => {
            let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
            let good = b.commit1(e, g, n);
            b.bad = true;
            let bad = b.commit1(e, g, n);
            go(e, &good, &bad, &b.flags, c, pos)
        }
        What::Commit2(g, n) => {
            let mut b = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
            let good = b.commit2(e, g, n);
            b.bad = true;
            let bad = b.commit2(e, g, n);
            go(e, &good, &bad, &b.flags, c, pos)
        }
        _ => unreachable!(),
    }
}
pub fn c17_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for w in whats(thorough) {
        let has_group = match w {
            What::Type(_) | What::Equ(Ty::Q, ..) | What::Odd(Ty::Q, ..) => false,
            What::Commit1(_, n) | What::Commit2(_, n) => n > 0 && n <= if thorough { 130 } else { 33 },
            What::Equ(_, m, n) if m + n > if thorough { 131 } else { 34 } => false,
            _ => true,
        };
        if !has_group {
            continue;
        }
        let (zero, one, yes) = (0usize, 1usize, true);
        for comp in [true, false] {
            let mut j = job!("C17", format!("{w:?} {}", if comp { "compressed" } else { "uncompressed" }), c17(w, comp, zero));
            j.must_reach = vec!["accepted".into(), "refused".into()];
            v.push(j);
        }
        let small = matches!(w, What::Crs | What::Com1 | What::Com2 | What::Proof(_) | What::Commit1(_, 1) | What::Commit2(_, 1) | What::Equ(_, 1, 1));
        if small {
            let mut j = job!("C17", format!("list of {w:?}"), c17(w, yes, one));
            j.must_reach = vec!["accepted".into(), "refused".into()];
            v.push(j);
        }
    }
    for w in [What::Com1, What::Com2, What::Proof(Ty::P), What::Proof(Ty::Q), What::Commit1(true, 1), What::Commit2(false, 1)] {
        for pos in 0..3 {
            let comp = pos != 1;
            let mut j = job!("C17", format!("list of three {w:?}, position {pos}"), c17_mixed(w, comp, pos));
            j.must_reach = vec!["accepted".into(), "refused".into()];
            v.push(j);
        }
    }
    v
}

// ---------------------------------------------------------------- C18
fn c18_type<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize) {
    let crs = key(e, Key::Binding);
    let (xs, ys) = (vars(e, "x", m), vars(e, "y", n));
    let co = coef(e, "", m, n);
    let t = e.s("target");
    let q = equ(e, ty, &co, t);
    e.ob("get_type", q.get_type() == ty.equ_type());
    for o in TYPES {
        e.ob("types differ", (o.equ_type() == ty.equ_type()) == (o == ty));
    }
    let mut r = e.rng(1);
    let p = commit_and_prove(e, &q, &xs, &ys, &crs, &mut r);
    e.ob("one proof", p.equ_proofs.len() == 1);
    for pf in &p.equ_proofs {
        e.ob("type of the proof from commit_and_prove", pf.equ_type == ty.equ_type());
    }
    let mut r = e.rng(2);
    let pf = prove(e, &q, &xs, &ys, &p.xcoms, &p.ycoms, &crs, &mut r);
    e.ob("type of the proof", pf.equ_type == ty.equ_type());
    // the proof's encoding carries the tag, and only the tag of its type
    for (c, v) in MODES {
        let b = encode(e, &mode_name(c, v), &pf, c, usize::MAX);
        if let Some(d) = decode::<X, EquProof<X::E>>(e, &mode_name(c, v), &mut Drip(&b[..], usize::MAX), c, v) {
            e.ob("type of the decoded proof", d.equ_type == ty.equ_type());
        }
    }
    e.reached("tags");
}
/// the tag byte is chosen by symbolic bits: every byte value is a path
fn c18_byte<X: Eng>(e: &mut X) {
    for (c, v) in MODES {
        let mut codes = vec![];
        for ty in TYPES {
            let b = encode(e, &mode_name(c, v), &ty.equ_type(), c, usize::MAX);
            e.ob("one byte", b.len() == 1);
            if b.len() == 1 {
                e.ob("codes differ", !codes.contains(&b[0]));
                codes.push(b[0]);
            }
            let r = e.catch(|| EquType::deserialize_with_mode(&b[..], c, v));
            e.ob("decodes to the same type", matches!(&r, Ok(Ok(t)) if *t == ty.equ_type()));
            e.ob("announced size", ty.equ_type().serialized_size(c) == 1);
        }
        let r = e.catch(|| EquType::deserialize_with_mode(&[][..], c, v).is_err());
        e.ob("empty input is refused", matches!(r, Ok(true)));
        // codes are the same in both forms
        for ty in TYPES {
            let mut b = vec![];
            let _ = e.catch(|| ty.equ_type().serialize_compressed(&mut b));
            let r = e.catch(|| EquType::deserialize_uncompressed(&b[..]));
            e.ob("form independent", matches!(&r, Ok(Ok(t)) if *t == ty.equ_type()));
        }
        let b: u8 = (0..8).map(|i| (e.choose(700 + i) as u8) << i).sum();
        let r = e.catch(|| EquType::deserialize_with_mode(&[b, 0][..], c, v));
        match r {
            Ok(Ok(_)) => e.ob("only tags decode", codes.contains(&b)),
            Ok(Err(_)) => e.ob("tags decode", !codes.contains(&b)),
            Err(m) => e.ob(&format!("byte {b}: panic {m}"), false),
        }
    }
    e.reached("tags");
}
/// a proof whose tag byte is arbitrary
fn c18_proof_byte<X: Eng>(e: &mut X, ty: Ty) {
    let mut bld = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
    let pf = bld.proof(e, ty);
    let mut codes = vec![];
    for t in TYPES {
        let b = encode(e, "type", &t.equ_type(), Compress::Yes, usize::MAX);
        codes.push(b[0]);
    }
    let bits: u8 = (0..8).map(|i| (e.choose(700 + i) as u8) << i).sum();
    for (c, v) in MODES {
        let base = encode(e, &mode_name(c, v), &pf, c, usize::MAX);
        // find where the tag is: the only byte that differs when only the type differs
        let mut other = pf.clone();
        other.equ_type = TYPES[(ty as usize + 1) % 4].equ_type();
        let b2 = encode(e, &mode_name(c, v), &other, c, usize::MAX);
        let diff: Vec<usize> = (0..base.len().min(b2.len())).filter(|i| base[*i] != b2[*i]).collect();
        e.ob("one byte carries the type", base.len() == b2.len() && diff.len() == 1);
        if diff.len() != 1 {
            return;
        }
        let mut b = base.clone();
        b[diff[0]] = bits;
        match e.catch(|| EquProof::<X::E>::deserialize_with_mode(&b[..], c, v)) {
            Ok(Ok(d)) => {
                let k = codes.iter().position(|x| *x == bits);
                e.ob("only tags decode", k.is_some());
                if let Some(k) = k {
                    e.ob("the tag's type", d.equ_type == TYPES[k].equ_type());
                }
            }
            Ok(Err(_)) => e.ob("tags decode", !codes.contains(&bits)),
            Err(m) => e.ob(&format!("panic {m}"), false),
        }
    }
    e.reached("tags");
}
/// The compiled codec under Kani (CBMC): the byte is a solver variable.
fn kani_tags(rep: &mut crate::explore::Report, lim: &crate::explore::Limits) {
    let root = std::env::var("GSYM_ROOT").unwrap_or_else(|_| "/verif".into());
    let t0 = std::time::Instant::now();
    let out = std::process::Command::new("timeout")
        .args(["200", "cargo", "kani", "--target-dir", &format!("{root}/target/kani"), "--output-format", "terse"])
        .current_dir(format!("{root}/kani"))
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("CARGO_TARGET_DIR")
        .output();
    let text = match out {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr),
        Err(m) => {
            rep.unknown.push(format!("cargo kani: {m}"));
            return;
        }
    };
    let ok = text.matches("VERIFICATION:- SUCCESSFUL").count() as u64;
    let failed = text.matches("VERIFICATION:- FAILED").count() as u64;
    rep.paths = 1;
    rep.obligations = 3;
    rep.discharged = ok;
    rep.stats.queries = ok + failed;
    rep.stats.unsat = ok;
    rep.stats.secs = text.lines().filter_map(|l| l.strip_prefix("Verification Time: ")).filter_map(|l| l.trim_end_matches('s').parse::<f64>().ok()).sum();
    rep.note(&format!("Kani: {ok} of 3 harnesses verified in {:.0}s", t0.elapsed().as_secs_f64()));
    if failed > 0 {
        // the failing byte, on the real code
        let j = job!("C18", "tag byte".to_string(), c18_byte());
        for b in 0..256u32 {
            let mut m = crate::term::Model::default();
            for i in 0..8 {
                m.flags.insert(700 + i, b >> i & 1 == 1);
            }
            crate::explore::add_violation(&j, rep, lim.seed, format!("tag codec, byte {b}"), "Kani counterexample".into(), m);
            if rep.violations.last().map(|v| v.confirmed) == Some(true) {
                let k = rep.violations.len() - 1;
                rep.violations.drain(..k);
                return;
            }
            rep.violations.clear();
        }
        rep.unknown.push("Kani reports a failure that no byte reproduces".into());
    } else if ok != 3 {
        rep.unknown.push(format!("Kani gave no verdict: {}", text.lines().rev().take(4).collect::<Vec<_>>().join(" / ")));
    }
}
pub fn c18_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    for ty in TYPES {
        for (m, n) in if thorough { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 3), (1, 4), (5, 1)] } else { vec![(1, 1), (2, 1), (1, 2), (2, 2)] } {
            v.push(job!("C18", format!("{} {m}x{n}", ty.name()), c18_type(ty, m, n)));
        }
        let mut j = job!("C18", format!("proof tag byte {}", ty.name()), c18_proof_byte(ty));
        j.paths = Some(300);
        v.push(j);
    }
    let mut j = job!("C18", "tag byte".to_string(), c18_byte());
    j.paths = Some(300);
    v.push(j);
    for j in v.iter_mut() {
        j.must_reach = vec!["tags".into()];
    }
    let mut j = job!("C18", "tag byte, Kani".to_string(), c18_byte());
    j.special = Some(Box::new(kani_tags));
    j.core = false;
    v.push(j);
    v
}

// ---------------------------------------------------------------- C19
type Pairs<X> = Vec<(F<X>, F<X>)>;
/// `r` is the library's answer on objects whose corresponding components are `v`
fn judge<X: Eng, T: PartialEq>(e: &mut X, a: &T, b: &T, v: Pairs<X>) {
    let r = a == b;
    e.see("equal", r);
    if r {
        for (i, (x, y)) in v.iter().enumerate() {
            e.ob_s(&format!("equal objects, component {i}"), *x, *y);
        }
        e.reached("equal");
    } else {
        e.ob_some_ne("different objects, some component differs", &v);
        e.reached("different");
    }
    e.ob("symmetric", (b == a) == r);
    e.ob("!= is the negation", (a != b) == !r);
    e.ob("reflexive", a == a && b == b);
}
fn pairs<X: Eng>(e: &mut X, ka: usize, a: &str, b: &str) -> Pairs<X> {
    (1..=ka).map(|i| (e.s(&format!("{a}{i}")), e.s(&format!("{b}{i}")))).collect()
}
/// two objects of the same shape, all components arbitrary
fn c19_same<X: Eng>(e: &mut X, w: What) {
    fn cmp<X: Eng, T: PartialEq>(e: &mut X, a: T, b: T, names: Vec<(String, String)>, streams: Vec<(u32, u32)>) {
        let mut v: Pairs<X> = names.iter().map(|(x, y)| (e.s(x), e.s(y))).collect();
        for (s, t) in streams {
            let (x, y) = (e.draws(s), e.draws(t));
            if x.len() != y.len() {
                e.ob("same number of draws", false)
            }
            v.extend(x.iter().zip(&y).map(|(x, y)| (x.1, y.1)));
        }
        judge(e, &a, &b, v);
    }
    let mut ba = Build { bad: false, flags: vec![], p: "l".into(), k: 0 };
    let mut bb = Build { bad: false, flags: vec![], p: "r".into(), k: 0 };
    // element names in creation order, streams skipped
    let names = |from: usize, to: usize| -> Vec<(String, String)> { (from..=to).map(|i| (format!("l{i}"), format!("r{i}"))).collect() };
    let (sa, sb) = (Build { bad: false, flags: vec![], p: "l".into(), k: 0 }.stream(), Build { bad: false, flags: vec![], p: "r".into(), k: 0 }.stream());
    match w {
        What::Com1 => {
            let (a, b) = (ba.com1(e), bb.com1(e));
            cmp(e, a, b, names(1, 2), vec![])
        }
        What::Com2 => {
            let (a, b) = (ba.com2(e), bb.com2(e));
            cmp(e, a, b, names(1, 2), vec![])
        }
        What::Commit1(g, n) => {
            let (a, b) = (ba.commit1(e, g, n), bb.commit1(e, g, n));
            cmp(e, a, b, names(2, 1 + 2 * n), vec![(sa, sb)])
        }
        What::Commit2(g, n) => {
            let (a, b) = (ba.commit2(e, g, n), bb.commit2(e, g, n));
            cmp(e, a, b, names(2, 1 + 2 * n), vec![(sa, sb)])
        }
        What::Proof(ty) => {
            // commitments from common randomness, the proof's own draws from separate streams
            let k = key(e, Key::Fixed);
            let z = F::<X>::from(0u64);
            let c = Coef { a: vec![z], b: vec![z], g: vec![vec![z]] };
            let q = equ(e, ty, &c, z);
            let mut r = e.rng(1);
            let xc = com1(e, ty.xg(), &[z], &k, &mut r);
            let yc = com2(e, ty.yg(), &[z], &k, &mut r);
            let mut out = vec![];
            for b in [&mut ba, &mut bb] {
                let st = b.stream();
                let mut r = e.rng(st);
                let mut p = prove(e, &q, &[z], &[z], &xc, &yc, &k, &mut r);
                for i in 0..p.pi.len() {
                    p.pi[i] = b.com2(e);
                }
                for i in 0..p.theta.len() {
                    p.theta[i] = b.com1(e);
                }
                out.push(p);
            }
            let b = out.pop().unwrap();
            let a = out.pop().unwrap();
            let (pi, th) = ty.sizes();
            cmp(e, a, b, names(2, 1 + 2 * (pi + th)), vec![(sa, sb)])
        }
        What::Equ(ty, m, n) => {
            let rows = vec![n; m];
            let k = n + m + m * n + 1;
            match ty {
                Ty::P => {
                    let (a, b) = (ba.ppe(e, n, m, &rows), bb.ppe(e, n, m, &rows));
                    cmp(e, a, b, names(1, k), vec![])
                }
                Ty::M1 => {
                    let (a, b) = (ba.ms1(e, n, m, &rows), bb.ms1(e, n, m, &rows));
                    cmp(e, a, b, names(1, k), vec![])
                }
                Ty::M2 => {
                    let (a, b) = (ba.ms2(e, n, m, &rows), bb.ms2(e, n, m, &rows));
                    cmp(e, a, b, names(1, k), vec![])
                }
                Ty::Q => {
                    let (a, b) = (ba.quad(e, n, m, &rows), bb.quad(e, n, m, &rows));
                    cmp(e, a, b, names(1, k), vec![])
                }
            }
        }
        _ => unreachable!(),
    }
}
fn c19_comt<X: Eng>(e: &mut X) {
    let a = pairs(e, 4, "l", "r");
    let t: Vec<(GT<X>, GT<X>)> = a.iter().map(|(x, y)| (e.mkt(*x), e.mkt(*y))).collect();
    let x = ComT::<X::E>::from(vec![vec![t[0].0, t[1].0], vec![t[2].0, t[3].0]]);
    let y = ComT::<X::E>::from(vec![vec![t[0].1, t[1].1], vec![t[2].1, t[3].1]]);
    judge(e, &x, &y, a);
}
/// a bundle: two commitment lists and proofs, built from shared randomness, components arbitrary
fn c19_bundle<X: Eng>(e: &mut X, ty: Ty, m: usize, n: usize, np: usize) {
    let k = key(e, Key::Fixed);
    let mut out: Vec<CProof<X::E>> = vec![];
    let mut cnt = 0;
    for p in ["l", "r"] {
        let mut b = Build { bad: false, flags: vec![], p: p.into(), k: 0 };
        let mut c = dummy_cproof(e, ty, m, n, &k);
        for x in 0..m {
            c.xcoms.coms[x] = b.com1(e);
        }
        for x in 0..n {
            c.ycoms.coms[x] = b.com2(e);
        }
        let one = c.equ_proofs[0].clone();
        c.equ_proofs = vec![];
        for _ in 0..np {
            let mut q = one.clone();
            for i in 0..q.pi.len() {
                q.pi[i] = b.com2(e);
            }
            for i in 0..q.theta.len() {
                q.theta[i] = b.com1(e);
            }
            c.equ_proofs.push(q);
        }
        cnt = b.k;
        out.push(c);
    }
    let v = pairs(e, cnt, "l", "r");
    let (b, a) = (out.pop().unwrap(), out.pop().unwrap());
    judge(e, &a, &b, v);
}
/// shapes, tags and lengths that differ: never equal, whatever the elements
fn c19_shapes<X: Eng>(e: &mut X, ty: Ty) {
    macro_rules! differ {
        ($l:expr, $a:expr, $b:expr) => {{
            let (a, b) = (&$a, &$b);
            e.ob($l, a != b && b != a && !(a == b) && !(b == a));
        }};
    }
    let mut bl = Build { bad: false, flags: vec![], p: "o".into(), k: 0 };
    let c1 = bl.commit1(e, ty.xg(), 2);
    let c2 = bl.commit2(e, ty.yg(), 2);
    let k = key(e, Key::Fixed);
    for (l, keep) in [("last dropped", 0..1), ("first dropped", 1..2), ("all dropped", 0..0)] {
        let mut d = c1.clone();
        d.coms = d.coms[keep.clone()].to_vec();
        differ!(&format!("commit1: {l}"), c1, d);
        let mut d = c2.clone();
        d.coms = d.coms[keep].to_vec();
        differ!(&format!("commit2: {l}"), c2, d);
    }
    let mut d = c1.clone();
    let x = bl.com1(e);
    d.coms.push(x);
    differ!("commit1: one more", c1, d);
    let mut d = c2.clone();
    let x = bl.com2(e);
    d.coms.push(x);
    differ!("commit2: one more", c2, d);
    // same draws, shorter list: the batch of one is not the batch of two
    let z = F::<X>::from(0u64);
    for g in [true, false] {
        let mut r = e.rng(1);
        let a = com1(e, g, &[z], &k, &mut r);
        let mut r = e.rng(1);
        let mut b = com1(e, g, &[z, z], &k, &mut r);
        differ!("commit1: batches of one and two", a, b);
        b.coms.truncate(1);
        differ!("commit1: same commitments, different randomness lists", a, b);
        let mut r = e.rng(1);
        let a = com2(e, g, &[z], &k, &mut r);
        let mut r = e.rng(1);
        let mut b = com2(e, g, &[z, z], &k, &mut r);
        differ!("commit2: batches of one and two", a, b);
        b.coms.truncate(1);
        differ!("commit2: same commitments, different randomness lists", a, b);
    }
    let p = bl.proof(e, ty);
    for t in TYPES {
        let mut q = p.clone();
        q.equ_type = t.equ_type();
        if t == ty {
            e.ob("same type", p == q);
        } else {
            differ!("proof: type", p, q);
        }
    }
    let mut q = p.clone();
    q.pi.pop();
    differ!("proof: one pi less", p, q);
    let mut q = p.clone();
    q.theta.pop();
    differ!("proof: one theta less", p, q);
    let mut q = p.clone();
    let x = q.pi[0];
    q.pi.push(x);
    differ!("proof: one pi more", p, q);
    let mut q = p.clone();
    let x = q.theta[0];
    q.theta.push(x);
    differ!("proof: one theta more", p, q);
    let b = CProof { xcoms: c1.clone(), ycoms: c2.clone(), equ_proofs: vec![p.clone()] };
    e.ob("same bundle", b == b.clone());
    let mut d = b.clone();
    d.equ_proofs.clear();
    differ!("bundle: no proof", b, d);
    let mut d = b.clone();
    d.equ_proofs.push(p.clone());
    differ!("bundle: two proofs", b, d);
    let mut d = b.clone();
    d.xcoms.coms.pop();
    differ!("bundle: x commitment missing", b, d);
    let mut d = b.clone();
    d.ycoms.coms.pop();
    differ!("bundle: y commitment missing", b, d);
    let mut d = b.clone();
    d.equ_proofs[0].equ_type = TYPES[(ty as usize + 1) % 4].equ_type();
    differ!("bundle: type of the proof", b, d);
    macro_rules! eqs {
        ($f:ident) => {{
            let q = bl.$f(e, 2, 2, &[2, 2]);
            e.ob("same equation", q == q.clone());
            let mut d = q.clone();
            d.a_consts.pop();
            differ!("equation: a shorter", q, d);
            let mut d = q.clone();
            d.b_consts.pop();
            differ!("equation: b shorter", q, d);
            let mut d = q.clone();
            let x = d.a_consts[1];
            d.a_consts.push(x);
            differ!("equation: a longer", q, d);
            let mut d = q.clone();
            let x = d.b_consts[1];
            d.b_consts.push(x);
            differ!("equation: b longer", q, d);
            let mut d = q.clone();
            d.gamma.pop();
            differ!("equation: gamma row missing", q, d);
            let mut d = q.clone();
            let x = d.gamma[1].clone();
            d.gamma.push(x);
            differ!("equation: gamma row added", q, d);
            let mut d = q.clone();
            d.gamma[1].pop();
            differ!("equation: gamma entry missing", q, d);
            let mut d = q.clone();
            let x = d.gamma[0][1];
            d.gamma[0].push(x);
            differ!("equation: gamma entry added", q, d);
            let mut d = q.clone();
            d.gamma = vec![q.gamma.concat()];
            differ!("equation: gamma flattened", q, d);
        }};
    }
    match ty {
        Ty::P => eqs!(ppe),
        Ty::M1 => eqs!(ms1),
        Ty::M2 => eqs!(ms2),
        Ty::Q => eqs!(quad),
    }
    e.reached("shapes");
}
pub fn c19_jobs(thorough: bool) -> Vec<Job> {
    let mut v = vec![];
    let mut ws = vec![What::Com1, What::Com2];
    let mut lens = vec![1, 2, 3, 9, 17, 33];
    lens.extend(literal_lengths(if thorough { 60 } else { 24 }));
    lens.sort();
    lens.dedup();
    for n in lens {
        ws.extend([What::Commit1(true, n), What::Commit1(false, n), What::Commit2(true, n), What::Commit2(false, n)]);
    }
    for ty in TYPES {
        ws.push(What::Proof(ty));
        for (m, n) in if thorough { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 4), (5, 5), (1, 17), (17, 1), (9, 9)] } else { vec![(1, 1), (1, 2), (2, 1), (2, 3), (9, 1), (1, 9), (5, 5)] } {
            ws.push(What::Equ(ty, m, n));
        }
    }
    for w in ws {
        v.push(job!("C19", format!("{w:?}"), c19_same(w)));
    }
    v.push(job!("C19", "ComT".to_string(), c19_comt()));
    for ty in TYPES {
        for (m, n, np) in [(1, 1, 1), (2, 1, 1), (1, 2, 2)] {
            v.push(job!("C19", format!("bundle {} {m},{n},{np}", ty.name()), c19_bundle(ty, m, n, np)));
        }
    }
    for j in v.iter_mut() {
        j.must_reach = vec!["equal".into(), "different".into()];
    }
    for ty in TYPES {
        let mut j = job!("C19", format!("shapes {}", ty.name()), c19_shapes(ty));
        j.must_reach = vec!["shapes".into()];
        v.push(j);
    }
    v
}
