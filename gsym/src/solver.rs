//! SMT back end: finite-field queries (QF_FF) discharged by `z3-new`.
use crate::term::*;
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use num_bigint::BigUint;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::time::Instant;

pub const MODULUS: &str = "52435875175126190479447740508185965837690552500527637822603658699938581184513";

#[derive(Clone, Debug)]
pub enum Assert {
    Eq(Id, Id),
    Ne(Id, Id),
    /// at least one pair differs
    AnyNe(Vec<(Id, Id)>),
    EqConst(Id, Fr),
    Flag(u32, bool),
    AnyFlag(Vec<u32>),
    False,
}

#[derive(Clone, Debug)]
pub enum Answer {
    Unsat,
    Sat(Model),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub bytes: u64,
    pub repeated: u64,
}

pub fn fr_dec(v: &Fr) -> String {
    let b: BigUint = v.into_bigint().into();
    b.to_string()
}
pub fn fr_parse(s: &str) -> Fr {
    let b: BigUint = s.parse().unwrap();
    Fr::from(b)
}

/// SMT-LIB text of the conjunction of `asserts`; returns text, variables, flags used
pub fn encode(nodes: &[Node], asserts: &[Assert]) -> (String, Vec<String>, Vec<u32>) {
    let mut roots: Vec<Id> = vec![];
    let mut flags: BTreeSet<u32> = BTreeSet::new();
    for a in asserts {
        match a {
            Assert::Eq(x, y) | Assert::Ne(x, y) => roots.extend([*x, *y]),
            Assert::AnyNe(v) => v.iter().for_each(|(x, y)| roots.extend([*x, *y])),
            Assert::EqConst(x, _) => roots.push(*x),
            Assert::Flag(f, _) => {
                flags.insert(*f);
            }
            Assert::AnyFlag(v) => flags.extend(v.iter()),
            Assert::False => {}
        }
    }
    // nodes in post-order from the roots, numbered in that order: the text does not depend on
    // when the terms were made
    let mut num: Vec<u32> = vec![u32::MAX; nodes.len()];
    let mut order: Vec<Id> = vec![];
    let mut stack: Vec<(Id, bool)> = roots.iter().rev().map(|r| (*r, false)).collect();
    while let Some((i, done)) = stack.pop() {
        if num[i as usize] != u32::MAX {
            continue;
        }
        if done {
            num[i as usize] = order.len() as u32;
            order.push(i);
            continue;
        }
        stack.push((i, true));
        match &nodes[i as usize] {
            Node::Add(a, b) | Node::Mul(a, b) => stack.extend([(*b, false), (*a, false)]),
            Node::Neg(a) | Node::Inv(a) => stack.push((*a, false)),
            _ => {}
        }
    }
    let mut s = String::new();
    s.push_str("(set-logic QF_FF)\n");
    let _ = writeln!(s, "(define-sort F () (_ FiniteField {MODULUS}))");
    let mut vars = vec![];
    let name = |i: Id| -> String {
        match &nodes[i as usize] {
            Node::Const(c) => format!("(as ff{} F)", fr_dec(c)),
            Node::Var(v) => format!("|{v}|"),
            _ => format!("t{}", num[i as usize]),
        }
    };
    for i in &order {
        let n = &nodes[*i as usize];
        let i = num[*i as usize];
        match n {
            Node::Const(_) => {}
            Node::Var(v) => {
                let _ = writeln!(s, "(declare-const |{v}| F)");
                vars.push(v.clone());
            }
            Node::Add(a, b) => {
                let _ = writeln!(s, "(define-fun t{i} () F (ff.add {} {}))", name(*a), name(*b));
            }
            Node::Mul(a, b) => {
                let _ = writeln!(s, "(define-fun t{i} () F (ff.mul {} {}))", name(*a), name(*b));
            }
            Node::Neg(a) => {
                let _ = writeln!(s, "(define-fun t{i} () F (ff.neg {}))", name(*a));
            }
            Node::Inv(a) => {
                let _ = writeln!(s, "(declare-const t{i} F)\n(assert (= (ff.mul {} t{i}) (as ff1 F)))", name(*a));
            }
        }
    }
    for f in &flags {
        let _ = writeln!(s, "(declare-const flag{f} Bool)");
    }
    for a in asserts {
        let _ = match a {
            Assert::Eq(x, y) => writeln!(s, "(assert (= {} {}))", name(*x), name(*y)),
            Assert::Ne(x, y) => writeln!(s, "(assert (not (= {} {})))", name(*x), name(*y)),
            Assert::AnyNe(v) => {
                let mut t = String::from("(assert (or false");
                for (x, y) in v {
                    let _ = write!(t, " (not (= {} {}))", name(*x), name(*y));
                }
                writeln!(s, "{t}))")
            }
            Assert::EqConst(x, c) => writeln!(s, "(assert (= {} (as ff{} F)))", name(*x), fr_dec(c)),
            Assert::Flag(f, true) => writeln!(s, "(assert flag{f})"),
            Assert::Flag(f, false) => writeln!(s, "(assert (not flag{f}))"),
            Assert::AnyFlag(v) => {
                let l: Vec<String> = v.iter().map(|f| format!("flag{f}")).collect();
                writeln!(s, "(assert (or false {}))", l.join(" "))
            }
            Assert::False => writeln!(s, "(assert false)"),
        };
    }
    (s, vars, flags.into_iter().collect())
}

pub struct Solver {
    pub stats: Stats,
    pub timeout: u32,
    /// queries near it get less time (at least 6 s)
    pub deadline: Option<Instant>,
    /// hashes of queries already answered unsat in this job
    done: HashSet<(usize, u64)>,
}

impl Solver {
    pub fn new(timeout: u32) -> Self {
        Solver { stats: Stats::default(), timeout, deadline: None, done: HashSet::new() }
    }
    pub fn check(&mut self, ar: &Arena, asserts: &[Assert]) -> Answer {
        let (mut text, vars, flags) = encode(&ar.nodes, asserts);
        let mut h = DefaultHasher::new();
        text.hash(&mut h);
        let key = (text.len(), h.finish());
        if self.done.contains(&key) {
            self.stats.repeated += 1;
            return Answer::Unsat;
        }
        text.push_str("(check-sat)\n");
        if !vars.is_empty() || !flags.is_empty() {
            text.push_str("(get-value (");
            for v in &vars {
                let _ = write!(text, "|{v}| ");
            }
            for f in &flags {
                let _ = write!(text, "flag{f} ");
            }
            text.push_str("))\n");
        }
        let t0 = Instant::now();
        // three configurations: fully expanded polynomials without early give-up, as shipped,
        // and without early give-up
        let flat = ["smt.ff.max_terms=1000000", "smt.ff.max_steps=400000000", "smt.ff.compact_encoding=false", "smt.ff.bv_fallback_limit=200000"];
        let big = ["smt.ff.max_terms=1000000", "smt.ff.max_steps=400000000", "smt.ff.bv_fallback_limit=200000"];
        let timeout = match self.deadline {
            Some(d) => self.timeout.min(d.saturating_duration_since(t0).as_secs() as u32).max(6),
            None => self.timeout,
        };
        let mut out = run_z3(&text, (timeout / 2).max(3), &flat);
        for (opts, share) in [(&[][..], 4), (&big[..], 4)] {
            if out.starts_with("sat") || out.starts_with("unsat") {
                break;
            }
            out = run_z3(&text, (timeout / share).max(3), opts);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.secs += dt;
        self.stats.bytes += text.len() as u64;
        if dt > self.stats.max_secs {
            self.stats.max_secs = dt;
        }
        if let Ok(d) = std::env::var("GSYM_DUMP") {
            let _ = std::fs::write(format!("{d}/q{}_{}.smt2", std::process::id(), self.stats.queries), &text);
        }
        let first = out.lines().next().unwrap_or("").trim().to_string();
        match first.as_str() {
            "unsat" => {
                self.stats.unsat += 1;
                self.done.insert(key);
                Answer::Unsat
            }
            "sat" => {
                if out.contains("(error") {
                    self.stats.unknown += 1;
                    return Answer::Unknown(out.chars().take(300).collect());
                }
                self.stats.sat += 1;
                Answer::Sat(parse_model(&out, &vars, &flags))
            }
            _ => {
                self.stats.unknown += 1;
                Answer::Unknown(out.chars().take(300).collect())
            }
        }
    }
}

fn run_z3(text: &str, timeout: u32, opts: &[&str]) -> String {
    let child = Command::new("z3-new")
        .arg(format!("-T:{timeout}"))
        .arg("-memory:4000")
        .args(opts)
        .arg("-in")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => return format!("cannot run z3-new: {e}"),
    };
    let mut stdin = child.stdin.take().unwrap();
    let t = text.to_string();
    let h = std::thread::spawn(move || {
        let _ = stdin.write_all(t.as_bytes());
    });
    let out = child.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    let _ = h.join();
    out
}

fn parse_model(out: &str, vars: &[String], flags: &[u32]) -> Model {
    let mut m = Model::default();
    // tokens: ((name value) (name value) ...), value = (as ffN (_ FiniteField p)) | true | false
    let mut vals: HashMap<String, String> = HashMap::new();
    let body = &out[out.find('\n').unwrap_or(0)..];
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    let mut bar = false;
    for ch in body.chars() {
        if bar {
            if ch == '|' {
                bar = false;
            } else {
                cur.push(ch);
            }
            continue;
        }
        match ch {
            '|' => bar = true,
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut i = 0;
    while i + 2 < toks.len() {
        if toks[i] == "(" && toks[i + 1] != "(" && toks[i + 1] != ")" {
            let n = toks[i + 1].clone();
            if toks[i + 2] == "(" && toks.get(i + 3).map(|s| s == "as").unwrap_or(false) {
                vals.insert(n, toks[i + 4].trim_start_matches("ff").to_string());
                i += 4;
                continue;
            } else if toks[i + 2] == "true" || toks[i + 2] == "false" {
                vals.insert(n, toks[i + 2].clone());
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    for v in vars {
        if let Some(x) = vals.get(v) {
            m.vars.insert(v.clone(), fr_parse(x));
        }
    }
    for f in flags {
        if let Some(x) = vals.get(&format!("flag{f}")) {
            m.flags.insert(*f, x == "true");
        }
    }
    m
}
