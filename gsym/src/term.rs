//! Hash-consed terms over the scalar field F_r.  A term is what the symbolic engine carries
//! instead of a number; every node also has its value under the current model (concolic execution).
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard};

pub type Id = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(Fr),
    Var(String),
    Add(Id, Id),
    Mul(Id, Id),
    Neg(Id),
    /// inverse of a term known to be non-zero on this path
    Inv(Id),
}

/// One branch the real code took on a symbolic value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cond {
    /// (a == b) evaluated to .2
    Eq(Id, Id, bool),
    /// boolean variable (validity of a decoded element) had the value .1
    Flag(u32, bool),
    /// bit .1 of the canonical integer of term .0 was .2
    Bit(Id, u32, bool),
    /// bit length of the canonical integer of term .0 was .1
    NumBits(Id, u32),
    /// canonical integers: (int(.0) < int(.1)) was .2
    Lt(Id, Id, bool),
    /// the code looked at the canonical integer of term .0, whose value has hash .1
    Val(Id, u64),
    /// harness assumption a == b / a != b
    AssumeEq(Id, Id),
    AssumeNe(Id, Id),
}

#[derive(Clone, Debug)]
pub enum ObKind {
    /// a == b must hold
    Eq(Id, Id),
    /// at least one of these pairs must differ
    SomeNe(Vec<(Id, Id)>),
    /// concrete fact observed on this path
    Fact(bool),
    /// all these validity flags are clear / at least one is set, for every input on this path
    FlagsClear(Vec<u32>),
    SomeFlag(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Ob {
    pub label: String,
    pub kind: ObKind,
    pub pc: usize,
}

#[derive(Clone, Debug)]
pub struct Draw {
    pub stream: u32,
    pub ctr: u32,
    /// 's', '1', '2' or 'u' (raw)
    pub kind: char,
    pub id: Id,
}

#[derive(Default, Clone, Debug)]
pub struct Model {
    pub vars: HashMap<String, Fr>,
    pub flags: HashMap<u32, bool>,
}

#[derive(Default, Clone)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub vals: Vec<Fr>,
    map: HashMap<Node, Id>,
    pub conds: Vec<Cond>,
    seen_conds: std::collections::HashSet<Cond>,
    pub obs: Vec<Ob>,
    pub draws: Vec<Draw>,
    pub model: Model,
    pub seed: u64,
    pub flag_names: Vec<String>,
    /// scripted draw terms: (stream, ctr) -> term used instead of a fresh variable
    pub script: HashMap<(u32, u32), Id>,
    /// integer combinations of torsion components, see `tors_lin`
    tors: Vec<Vec<(u32, i64)>>,
    /// where the limbs of a symbolic scalar were handed out, and their values
    pub limb_ptrs: HashMap<usize, ([u64; 4], Id)>,
    pub limb_vals: HashMap<[u64; 4], Id>,
    /// how often the limbs of a term were handed out / recognised when they came back
    pub limb_reads: HashMap<Id, (u32, u32)>,
    /// stream whose draws stand for themselves, and which nodes depend on them
    pub generic: Option<u32>,
    dep: Vec<bool>,
    pub notes: Vec<String>,
    pub values_seen: Vec<(String, char, Id)>,
    pub reached: Vec<String>,
    pub findings: Vec<String>,
    pub sched_ctr: u32,
}

/// sign of the torsion component of element f: flag SIGN + f; combinations are numbered from TORS
pub const SIGN: u32 = 100_000;
pub const TWICE: u32 = 200_000;
const TORS: u32 = 1 << 20;

thread_local! { static QUIET: Cell<u32> = const { Cell::new(0) }; }
static ARENA: Mutex<Option<Arena>> = Mutex::new(None);

pub fn arena() -> MutexGuard<'static, Option<Arena>> {
    match ARENA.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}
pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    let mut g = arena();
    if g.is_none() {
        let mut a = Arena::default();
        a.init();
        *g = Some(a);
    }
    f(g.as_mut().unwrap())
}
pub fn reset(model: Model, seed: u64) {
    let mut a = Arena { model, seed, ..Default::default() };
    a.init();
    *arena() = Some(a);
}
pub fn take() -> Arena {
    arena().take().expect("arena")
}

pub fn hash_fr(seed: u64, name: &str) -> Fr {
    // four rounds of a 64-bit mixer -> 256 bits mod r
    let mut bytes = vec![];
    for k in 0..5u64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (k << 56);
        for b in name.bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        }
        h = (h ^ (h >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94d049bb133111eb);
        h ^= h >> 31;
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    Fr::from_le_bytes_mod_order(&bytes)
}

pub const GEN_ID: Id = 2;
pub const ROOT_ID: Id = 3;

impl Arena {
    pub fn init(&mut self) {
        use ark_ff::FftField;
        assert_eq!(self.konst(Fr::zero()), 0);
        assert_eq!(self.konst(Fr::one()), 1);
        assert_eq!(self.konst(Fr::GENERATOR), GEN_ID);
        assert_eq!(self.konst(Fr::TWO_ADIC_ROOT_OF_UNITY), ROOT_ID);
    }
    fn put(&mut self, n: Node, v: Fr) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.dep.push(match &n {
            Node::Add(a, b) | Node::Mul(a, b) => self.dep[*a as usize] || self.dep[*b as usize],
            Node::Neg(a) | Node::Inv(a) => self.dep[*a as usize],
            Node::Const(_) => false,
            Node::Var(s) => self.generic.is_some_and(|g| s.starts_with(&format!("rng{g}_"))),
        });
        self.nodes.push(n.clone());
        self.vals.push(v);
        self.map.insert(n, i);
        i
    }
    pub fn konst(&mut self, v: Fr) -> Id {
        self.put(Node::Const(v), v)
    }
    pub fn var(&mut self, name: &str) -> Id {
        let v = match self.model.vars.get(name) {
            Some(v) => *v,
            None => hash_fr(self.seed, name),
        };
        self.put(Node::Var(name.to_string()), v)
    }
    pub fn val(&self, i: Id) -> Fr {
        self.vals[i as usize]
    }
    /// depends on a draw of the generic stream?
    pub fn depends(&self, i: Id) -> bool {
        self.dep[i as usize]
    }
    pub fn is_const(&self, i: Id) -> bool {
        matches!(self.nodes[i as usize], Node::Const(_))
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let v = self.val(a) + self.val(b);
        if self.is_const(a) && self.is_const(b) {
            return self.konst(v);
        }
        if self.nodes[a as usize] == Node::Neg(b) || self.nodes[b as usize] == Node::Neg(a) {
            return 0;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.put(Node::Add(a, b), v)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 {
            return b;
        }
        if b == 1 {
            return a;
        }
        let v = self.val(a) * self.val(b);
        if self.is_const(a) && self.is_const(b) {
            return self.konst(v);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.put(Node::Mul(a, b), v)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        if a == 0 {
            return 0;
        }
        let v = -self.val(a);
        match self.nodes[a as usize].clone() {
            Node::Const(_) => self.konst(v),
            Node::Neg(x) => x,
            _ => self.put(Node::Neg(a), v),
        }
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return 0;
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    /// caller guarantees the value is non-zero on this path
    pub fn inv(&mut self, a: Id) -> Id {
        let v = self.val(a).inverse().expect("inverse of zero");
        match self.nodes[a as usize].clone() {
            Node::Const(_) => self.konst(v),
            Node::Inv(x) => x,
            _ => self.put(Node::Inv(a), v),
        }
    }
    pub fn log(&mut self, c: Cond) {
        if self.seen_conds.insert(c.clone()) {
            self.conds.push(c);
        }
    }
    pub fn eq(&mut self, a: Id, b: Id) -> bool {
        if a == b {
            return true;
        }
        let r = self.val(a) == self.val(b);
        if self.is_const(a) && self.is_const(b) {
            return r;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if QUIET.with(|q| q.get()) == 0 {
            if self.depends(a) || self.depends(b) {
                if let Some(r) = crate::affine::eq_generic(self, a, b) {
                    return r;
                }
            }
            self.log(Cond::Eq(a, b, r));
        }
        r
    }
    pub fn flag_val(&self, f: u32) -> bool {
        *self.model.flags.get(&f).unwrap_or(&false)
    }
    pub fn flag(&mut self, f: u32) -> bool {
        // flag 0 is the constant "valid" (false = not invalid)
        if f == 0 {
            return false;
        }
        let r = self.flag_val(f);
        self.log(Cond::Flag(f, r));
        r
    }
    /// the code gets at the integer value of `a`
    pub fn looked_at(&mut self, a: Id) {
        if self.is_const(a) {
            return;
        }
        let v = self.bits(a).0;
        self.limb_reads.entry(a).or_default().0 += 1;
        self.log(Cond::Val(a, v.iter().fold(7, |h: u64, x| (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29))));
    }
    /// an integer value was looked at and not just handed back to the arithmetic
    pub fn inspected(&self, a: Id) -> bool {
        self.limb_reads.get(&a).is_some_and(|(o, u)| o > u)
    }
    pub fn limbs_out(&mut self, a: Id, l: &[u64]) {
        self.looked_at(a);
        let v = [l[0], l[1], l[2], l[3]];
        self.limb_ptrs.insert(l.as_ptr() as usize, (v, a));
        self.limb_vals.insert(v, a);
    }
    /// the term whose limbs these are
    pub fn limbs_in(&mut self, l: &[u64]) -> Option<Id> {
        let v: [u64; 4] = l.try_into().ok()?;
        let id = match self.limb_ptrs.get(&(l.as_ptr() as usize)) {
            Some((w, id)) if *w == v => *id,
            _ if v[2] | v[3] != 0 => *self.limb_vals.get(&v)?,
            _ => return None,
        };
        self.limb_reads.entry(id).or_default().1 += 1;
        Some(id)
    }
    // A decoded element whose validity flag f is set is off the prime-order subgroup: it has a
    // torsion component T, -T, 2T or -2T (booleans SIGN + f and TWICE + f), T fixed per group.  0 is "no torsion",
    // numbers below TORS the component of one element, those above an integer combination.
    fn tors_terms(&self, i: u32) -> Vec<(u32, i64)> {
        match i {
            0 => vec![],
            i if i < TORS => vec![(i, 1)],
            i => self.tors[(i - TORS) as usize].clone(),
        }
    }
    /// x + k y
    pub fn tors_lin(&mut self, x: u32, y: u32, k: i64) -> u32 {
        if y == 0 || k == 0 {
            return x;
        }
        if x == 0 && k == 1 {
            return y;
        }
        let mut v = self.tors_terms(x);
        for (f, c) in self.tors_terms(y) {
            match v.iter_mut().find(|e| e.0 == f) {
                Some(e) => e.1 += k * c,
                None => v.push((f, k * c)),
            }
        }
        v.retain(|e| e.1 != 0);
        v.sort();
        match &v[..] {
            [] => 0,
            [(f, 1)] => *f,
            _ => match self.tors.iter().position(|w| *w == v) {
                Some(i) => TORS + i as u32,
                None => {
                    self.tors.push(v);
                    TORS + self.tors.len() as u32 - 1
                }
            },
        }
    }
    /// component of an element multiplied by the scalar `s`
    pub fn tors_scale(&mut self, x: u32, s: Id) -> u32 {
        if x == 0 {
            return 0;
        }
        let small = |v: Fr| {
            let l = v.into_bigint().0;
            (l[1] | l[2] | l[3] == 0 && l[0] < 1 << 20).then_some(l[0] as i64)
        };
        match self.is_const(s).then(|| small(self.val(s))).flatten() {
            // the group order acts as a unit on the torsion: `s` = 0 may be it
            Some(0) => x,
            Some(k) => self.tors_lin(0, x, k),
            _ => {
                self.notes.push("scalar multiple of an element of unknown validity".into());
                x
            }
        }
    }
    /// is the component nonzero (the element off the subgroup)?
    pub fn invalid(&mut self, x: u32) -> bool {
        if x == 0 {
            return false;
        }
        if x < TORS {
            return self.flag(x);
        }
        let set: Vec<(u32, i64)> = self.tors_terms(x).into_iter().filter(|(f, _)| self.flag(*f)).collect();
        if set.len() < 2 {
            return !set.is_empty();
        }
        let mut sum = 0;
        for (f, c) in set {
            sum += c * if self.flag(SIGN + f) { -1 } else { 1 } * if self.flag(TWICE + f) { 2 } else { 1 };
        }
        sum != 0
    }
    pub fn bits(&self, a: Id) -> <Fr as PrimeField>::BigInt {
        self.val(a).into_bigint()
    }
    pub fn bit(&mut self, a: Id, i: usize) -> bool {
        let r = self.bits(a).get_bit(i);
        if !self.is_const(a) {
            self.log(Cond::Bit(a, i as u32, r));
        }
        r
    }
    pub fn num_bits(&mut self, a: Id) -> u32 {
        let r = self.bits(a).num_bits();
        if !self.is_const(a) {
            self.log(Cond::NumBits(a, r));
        }
        r
    }
    pub fn lt(&mut self, a: Id, b: Id) -> bool {
        let r = self.bits(a) < self.bits(b);
        if a != b && !(self.is_const(a) && self.is_const(b)) {
            self.log(Cond::Lt(a, b, r));
        }
        r
    }
}

/// Evaluate all nodes of `nodes` under another assignment of the variables.
pub fn eval_all(nodes: &[Node], f: impl Fn(&str) -> Fr) -> Vec<Option<Fr>> {
    let mut out: Vec<Option<Fr>> = Vec::with_capacity(nodes.len());
    for n in nodes {
        let v = match n {
            Node::Const(c) => Some(*c),
            Node::Var(s) => Some(f(s)),
            Node::Add(a, b) => match (out[*a as usize], out[*b as usize]) {
                (Some(x), Some(y)) => Some(x + y),
                _ => None,
            },
            Node::Mul(a, b) => match (out[*a as usize], out[*b as usize]) {
                (Some(x), Some(y)) => Some(x * y),
                _ => None,
            },
            Node::Neg(a) => out[*a as usize].map(|x| -x),
            Node::Inv(a) => out[*a as usize].and_then(|x| x.inverse()),
        };
        out.push(v);
    }
    out
}

/// Run `f` without logging equality conditions (harness-internal comparisons).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
