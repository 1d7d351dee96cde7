//! Path exploration of one harness instance ("job"): every branch on a symbolic value is negated
//! and given to the solver; every obligation of every feasible path is given to the solver.
use crate::eng::*;
use crate::solver::*;
use crate::term::*;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, One, PrimeField, Zero};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Instant;

pub struct Job {
    pub prop: &'static str,
    pub name: String,
    pub sym: Box<dyn Fn(&mut SymEng)>,
    pub bls: Box<dyn Fn(&mut BlsEng)>,
    /// labels every exploration must reach at least once (vacuity guard)
    pub must_reach: Vec<String>,
    /// replay/validate on BLS12-381 (switched off only for very large shapes)
    pub validate: bool,
    /// special jobs (distribution arguments) run their own procedure
    pub special: Option<Box<dyn Fn(&mut Report, &Limits)>>,
    /// every query of a core job must be answered; extra jobs may time out (reported)
    pub core: bool,
    /// path bound other than the tier's
    pub paths: Option<usize>,
}

#[derive(Clone)]
pub struct Limits {
    pub paths: usize,
    pub secs: f64,
    pub query_secs: u32,
    pub seed: u64,
}

#[derive(Default, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub model: Model,
    pub confirmed: bool,
    pub confirm_note: String,
}

#[derive(Default)]
pub struct Report {
    pub job: String,
    pub paths: u64,
    pub conds: u64,
    pub flips_infeasible: u64,
    pub flips_feasible: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub nodes: u64,
    pub validated: u64,
    pub values_compared: u64,
    pub reached: BTreeSet<String>,
    pub notes: BTreeMap<String, u64>,
    pub unknown: Vec<String>,
    pub incomplete: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub stats: Stats,
    pub wall: f64,
    pub sample: Value,
}

impl Report {
    /// something was not decided: on the main path of an instance that is an error, on one of its
    /// branch alternatives it bounds what was explored
    fn open(&mut self, main: bool, what: String) {
        if main {
            self.unknown.push(what)
        } else {
            self.incomplete.push(what)
        }
    }
    pub fn to_json(&self) -> Value {
        json!({
            "job": self.job, "paths": self.paths, "conds": self.conds, "flips_infeasible": self.flips_infeasible,
            "flips_feasible": self.flips_feasible, "obligations": self.obligations, "discharged": self.discharged,
            "nodes": self.nodes, "validated": self.validated, "values_compared": self.values_compared,
            "reached": self.reached.iter().collect::<Vec<_>>(), "notes": self.notes, "unknown": self.unknown,
            "incomplete": self.incomplete, "known": self.known,
            "violations": self.violations.iter().map(|v| json!({"label": v.label, "detail": v.detail, "confirmed": v.confirmed,
                "confirm_note": v.confirm_note, "model": model_json(&v.model)})).collect::<Vec<_>>(),
            "queries": self.stats.queries, "unsat": self.stats.unsat, "sat": self.stats.sat, "unknown_n": self.stats.unknown,
            "solver_s": self.stats.secs, "repeated": self.stats.repeated, "solver_max_s": self.stats.max_secs, "wall": self.wall, "sample": self.sample,
        })
    }
    pub fn note(&mut self, s: &str) {
        *self.notes.entry(s.to_string()).or_insert(0) += 1;
    }
}

pub fn model_json(m: &Model) -> Value {
    json!({
        "vars": m.vars.iter().map(|(k, v)| (k.clone(), fr_dec(v))).collect::<BTreeMap<_, _>>(),
        "flags": m.flags.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>(),
    })
}
pub fn model_from_json(v: &Value) -> Model {
    let mut m = Model::default();
    for (k, x) in v["vars"].as_object().unwrap() {
        m.vars.insert(k.clone(), fr_parse(x.as_str().unwrap()));
    }
    for (k, x) in v["flags"].as_object().unwrap() {
        m.flags.insert(k.parse().unwrap(), x.as_bool().unwrap());
    }
    m
}

pub struct Run {
    pub ar: Arena,
    /// Err: the harness itself panicked
    pub outcome: Result<(), String>,
}

pub fn run_sym(job: &Job, model: &Model, seed: u64) -> Run {
    reset(model.clone(), seed);
    unschedule();
    let mut e = SymEng::new();
    let r = catch_unwind(AssertUnwindSafe(|| (job.sym)(&mut e)));
    let ar = take();
    Run { ar, outcome: r.map_err(|e| panic_msg(&e)) }
}
pub fn draws_of(ar: &Arena) -> Vec<(u32, u32, char, Fr)> {
    ar.draws.iter().map(|d| (d.stream, d.ctr, d.kind, ar.val(d.id))).collect()
}
fn unschedule() {
    rayon_core::sched::set_oracle(None);
    rayon_core::sched::set_threads(1);
}
pub fn predicted(ar: &Arena) -> std::collections::HashMap<String, Fr> {
    ar.values_seen.iter().filter(|v| v.1 != 'b').map(|v| (v.0.clone(), if v.2 == u32::MAX { Fr::zero() } else { ar.val(v.2) })).collect()
}
pub fn run_bls(job: &Job, model: &Model, seed: u64, ar: &Arena) -> (BlsEng, Result<(), String>) {
    unschedule();
    let mut e = BlsEng::new(model.clone(), seed, draws_of(ar), predicted(ar));
    let r = catch_unwind(AssertUnwindSafe(|| (job.bls)(&mut e)));
    (e, r.map_err(|e| panic_msg(&e)))
}

fn as_assert(c: &Cond) -> Option<Assert> {
    match c {
        Cond::Eq(a, b, true) => Some(Assert::Eq(*a, *b)),
        Cond::Eq(a, b, false) => Some(Assert::Ne(*a, *b)),
        Cond::AssumeEq(a, b) => Some(Assert::Eq(*a, *b)),
        Cond::AssumeNe(a, b) => Some(Assert::Ne(*a, *b)),
        Cond::Flag(f, v) => Some(Assert::Flag(*f, *v)),
        // integer facts are dropped (weaker path condition): sound for "unsat"
        Cond::Bit(..) | Cond::NumBits(..) | Cond::Lt(..) | Cond::Val(..) => None,
    }
}
pub fn pc(conds: &[Cond]) -> Vec<Assert> {
    conds.iter().filter_map(as_assert).collect()
}
pub fn integer_conds(ar: &Arena, conds: &[Cond]) -> bool {
    conds.iter().any(|c| match c {
        Cond::Bit(..) | Cond::NumBits(..) | Cond::Lt(..) => true,
        Cond::Val(a, _) => ar.inspected(*a),
        _ => false,
    })
}
/// is there another side to this condition?
fn flippable(ar: &Arena, c: &Cond) -> bool {
    match c {
        Cond::AssumeEq(..) | Cond::AssumeNe(..) => false,
        Cond::Val(a, _) => ar.inspected(*a),
        _ => true,
    }
}
/// the concrete values of terms whose integer representation the path depends on
fn concretize(ar: &Arena, conds: &[Cond]) -> Vec<Assert> {
    let mut ids = BTreeSet::new();
    for c in conds {
        match c {
            Cond::Bit(a, ..) | Cond::NumBits(a, _) => {
                ids.insert(*a);
            }
            Cond::Val(a, _) if ar.inspected(*a) => {
                ids.insert(*a);
            }
            Cond::Lt(a, b, _) => {
                ids.insert(*a);
                ids.insert(*b);
            }
            _ => {}
        }
    }
    ids.into_iter().filter(|i| !ar.is_const(*i)).map(|i| Assert::EqConst(i, ar.val(i))).collect()
}

fn merge(base: &Model, m: Model) -> Model {
    let mut r = base.clone();
    r.vars.extend(m.vars);
    r.flags.extend(m.flags);
    r
}

/// try to satisfy `a == b` by solving for one variable in which the difference is affine,
/// keeping all others; accepted only if every condition of the prefix still holds
fn local_solve(ar: &Arena, conds: &[Cond], a: Id, b: Id) -> Option<Model> {
    let mut cone: BTreeSet<Id> = BTreeSet::new();
    let mut st = vec![a, b];
    while let Some(i) = st.pop() {
        if !cone.insert(i) {
            continue;
        }
        match &ar.nodes[i as usize] {
            Node::Add(x, y) | Node::Mul(x, y) => st.extend([*x, *y]),
            Node::Neg(x) | Node::Inv(x) => st.push(*x),
            _ => {}
        }
    }
    let cur = |s: &str| ar.model.vars.get(s).cloned().unwrap_or_else(|| hash_fr(ar.seed, s));
    let mut tried = 0;
    for i in cone {
        if let Node::Var(v) = &ar.nodes[i as usize] {
            tried += 1;
            if tried > 600 || tried * ar.nodes.len() > 20_000_000 {
                break;
            }
            let at = |t: Fr| -> Option<Fr> {
                let ev = eval_all(&ar.nodes, |s| if s == v { t } else { cur(s) });
                Some(ev[a as usize]? - ev[b as usize]?)
            };
            let (d0, d1, d2) = match (at(Fr::zero()), at(Fr::one()), at(Fr::from(2u64))) {
                (Some(x), Some(y), Some(z)) => (x, y, z),
                _ => continue,
            };
            let sl = d1 - d0;
            if sl.is_zero() || d2 - d1 != sl {
                continue;
            }
            let t = -d0 / sl;
            let ev = eval_all(&ar.nodes, |s| if s == v { t } else { cur(s) });
            if ev[a as usize] != ev[b as usize] || ev[a as usize].is_none() {
                continue;
            }
            if conds_hold(conds, &ev) {
                let mut m = Model::default();
                m.vars.insert(v.clone(), t);
                return Some(m);
            }
        }
    }
    linear_solve(ar, conds, a, b)
}
/// As `local_solve`, moving several variables at once: picks variables in which all equalities
/// (those of the prefix and the new one) are jointly affine and solves the linear system.
fn linear_solve(ar: &Arena, conds: &[Cond], a: Id, b: Id) -> Option<Model> {
    let mut eqs: Vec<(Id, Id)> = conds
        .iter()
        .filter_map(|c| match c {
            Cond::Eq(a, b, true) | Cond::AssumeEq(a, b) => Some((*a, *b)),
            _ => None,
        })
        .collect();
    eqs.push((a, b));
    let cur = |s: &str| ar.model.vars.get(s).cloned().unwrap_or_else(|| hash_fr(ar.seed, s));
    let at = |m: &std::collections::HashMap<&str, Fr>| -> Option<Vec<Fr>> {
        let ev = eval_all(&ar.nodes, |s| m.get(s).cloned().unwrap_or_else(|| cur(s)));
        eqs.iter().map(|(x, y)| Some(ev[*x as usize]? - ev[*y as usize]?)).collect()
    };
    let f0 = at(&Default::default())?;
    let mut chosen: Vec<(&str, Vec<Fr>)> = vec![];
    let mut budget = (60_000_000 / (ar.nodes.len() + 1)) as i64;
    for nd in ar.nodes.iter().rev() {
        let Node::Var(v) = nd else { continue };
        budget -= 3 + 1;
        if budget < 0 || chosen.len() >= 4 * eqs.len() {
            break;
        }
        let c = cur(v);
        let one = Fr::one();
        let f1 = at(&[(v.as_str(), c + one)].into())?;
        if f1 == f0 {
            continue;
        }
        let f2 = at(&[(v.as_str(), c + one + one)].into())?;
        let d: Vec<Fr> = f1.iter().zip(&f0).map(|(x, y)| *x - y).collect();
        if f2.iter().zip(&f1).zip(&d).any(|((x, y), d)| *x - y != *d) {
            continue;
        }
        // all chosen variables moved at once, then this one as well: no mixed terms
        let mut m: std::collections::HashMap<&str, Fr> = chosen.iter().enumerate().map(|(i, (n, _))| (*n, cur(n) + Fr::from(3 + i as u64))).collect();
        let g0 = at(&m)?;
        m.insert(v, c + one);
        let g1 = at(&m)?;
        if g1.iter().zip(&g0).zip(&d).any(|((x, y), d)| *x - y != *d) {
            continue;
        }
        chosen.push((v, d));
    }
    // solve sum_k t_k d_k = -f0
    let (r, n) = (eqs.len(), chosen.len());
    let mut mat: Vec<Vec<Fr>> = (0..r).map(|i| chosen.iter().map(|c| c.1[i]).chain([-f0[i]]).collect()).collect();
    let mut piv = vec![];
    let mut row = 0;
    for col in 0..n {
        let Some(p) = (row..r).find(|i| !mat[*i][col].is_zero()) else { continue };
        mat.swap(row, p);
        let inv = Fr::one() / mat[row][col];
        mat[row].iter_mut().for_each(|x| *x *= inv);
        let pr = mat[row].clone();
        for i in 0..r {
            if i != row && !mat[i][col].is_zero() {
                let k = mat[i][col];
                for (x, y) in mat[i].iter_mut().zip(&pr) {
                    *x -= k * y;
                }
            }
        }
        piv.push(col);
        row += 1;
    }
    if mat[row..].iter().any(|x| !x[n].is_zero()) {
        return None;
    }
    let mut m = Model::default();
    for (i, col) in piv.iter().enumerate() {
        let v = chosen[*col].0;
        m.vars.insert(v.to_string(), cur(v) + mat[i][n]);
    }
    let ev = eval_all(&ar.nodes, |s| m.vars.get(s).cloned().unwrap_or_else(|| cur(s)));
    if ev[a as usize].is_some() && ev[a as usize] == ev[b as usize] && conds_hold(conds, &ev) {
        Some(m)
    } else {
        None
    }
}
fn conds_hold(conds: &[Cond], ev: &[Option<Fr>]) -> bool {
    conds.iter().all(|c| match c {
        Cond::Eq(a, b, r) => match (ev[*a as usize], ev[*b as usize]) {
            (Some(x), Some(y)) => (x == y) == *r,
            _ => false,
        },
        Cond::AssumeEq(a, b) => ev[*a as usize].is_some() && ev[*a as usize] == ev[*b as usize],
        Cond::AssumeNe(a, b) => ev[*a as usize].is_some() && ev[*a as usize] != ev[*b as usize],
        Cond::Flag(..) | Cond::Val(..) => true,
        Cond::Bit(a, i, r) => ev[*a as usize].map(|x| x.into_bigint().get_bit(*i as usize) == *r).unwrap_or(false),
        Cond::NumBits(a, n) => ev[*a as usize].map(|x| x.into_bigint().num_bits() == *n).unwrap_or(false),
        Cond::Lt(a, b, r) => match (ev[*a as usize], ev[*b as usize]) {
            (Some(x), Some(y)) => (x.into_bigint() < y.into_bigint()) == *r,
            _ => false,
        },
    })
}

fn pow2(k: u32) -> Fr {
    let mut r = Fr::one();
    for _ in 0..k {
        r = r + r;
    }
    r
}

/// Ask whether some pair of `goal` can differ under `pre`.  Pairs that agree at a random point are
/// very likely identities: those are asked without the path condition first (unsat without it is
/// unsat with it).
fn ask_differ(ar: &Arena, pre: &[Assert], goal: &[(Id, Id)], solver: &mut Solver) -> Answer {
    if !pre.is_empty() {
        let ev = eval_all(&ar.nodes, |s| hash_fr(ar.seed ^ 0x5eed_1234, s));
        if goal.iter().all(|(a, b)| ev[*a as usize].is_some() && ev[*a as usize] == ev[*b as usize]) {
            if let Answer::Unsat = solver.check(ar, &[Assert::AnyNe(goal.to_vec())]) {
                return Answer::Unsat;
            }
        }
    }
    let mut q = pre.to_vec();
    q.push(Assert::AnyNe(goal.to_vec()));
    solver.check(ar, &q)
}

/// integers with every pattern of zero limbs, and the corners of the range
fn sample_integers(seed: u64) -> Vec<Fr> {
    let mut v = vec![Fr::zero(), Fr::one(), Fr::from(2u64), Fr::from(3u64), -Fr::one(), -Fr::from(2u64), pow2(32), pow2(64), pow2(64) - Fr::one(), pow2(128), pow2(192), pow2(254)];
    v.push(Fr::from(Fr::MODULUS_MINUS_ONE_DIV_TWO));
    v.push(Fr::from(Fr::MODULUS_MINUS_ONE_DIV_TWO) + Fr::one());
    for mask in 1..15u64 {
        let w = hash_fr(seed, &format!("limbs {mask}")).into_bigint().0;
        let l: Vec<u64> = (0..4).map(|i| if mask >> i & 1 == 1 { w[i] } else { 0 }).collect();
        v.push(Fr::from_bigint(ark_ff::BigInt([l[0], l[1], l[2], l[3]])).unwrap_or_default());
    }
    v
}

/// models that take the other side of condition `i`
fn flip(ar: &Arena, i: usize, solver: &mut Solver, rep: &mut Report) -> Vec<Model> {
    let pre = &ar.conds[..i];
    let mut asserts = pc(pre);
    let c = &ar.conds[i];
    let alts: Vec<Vec<Assert>> = match c {
        Cond::Eq(a, b, true) => {
            return match ask_differ(ar, &asserts, &[(*a, *b)], solver) {
                Answer::Unsat => {
                    rep.flips_infeasible += 1;
                    vec![]
                }
                Answer::Sat(m) => {
                    rep.flips_feasible += 1;
                    vec![m]
                }
                Answer::Unknown(s) => {
                    rep.open(false, format!("branch {i} of {:?} not decided: {s}", ar.conds[i]));
                    vec![]
                }
            };
        }
        Cond::Eq(a, b, false) => {
            if let Some(m) = local_solve(ar, pre, *a, *b) {
                // a concrete point on the other side: feasible without asking
                rep.flips_feasible += 1;
                return vec![m];
            }
            vec![vec![Assert::Eq(*a, *b)]]
        }
        Cond::Flag(f, v) => {
            if !pre.iter().any(|c| matches!(c, Cond::Flag(g, _) if g == f)) {
                // a boolean nothing before depends on: the other value is possible
                rep.flips_feasible += 1;
                let mut m = Model::default();
                m.flags.insert(*f, !*v);
                return vec![m];
            }
            vec![vec![Assert::Flag(*f, !*v)]]
        }
        Cond::AssumeEq(..) | Cond::AssumeNe(..) => return vec![],
        Cond::Bit(a, k, r) => {
            rep.incomplete.push("integer bits of a scalar decide a branch: sampled integers only".into());
            let v = ar.val(*a);
            let alt = if *r { v - pow2(*k) } else { v + pow2(*k) };
            if alt.into_bigint().get_bit(*k as usize) == *r {
                vec![]
            } else {
                vec![vec![Assert::EqConst(*a, alt)]]
            }
        }
        Cond::NumBits(a, n) => {
            rep.incomplete.push("bit length of a scalar decides a branch: sampled lengths only".into());
            [0u32, 1, 2, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 254, 255]
                .iter()
                .filter(|k| *k != n)
                .map(|k| if *k == 0 { Fr::zero() } else { pow2(k - 1) })
                .filter(|v| v.into_bigint().num_bits() != *n)
                .map(|v| vec![Assert::EqConst(*a, v)])
                .collect()
        }
        Cond::Val(a, _) => {
            rep.incomplete.push("the integer value of a scalar is inspected: sampled integers only".into());
            sample_integers(ar.seed).into_iter().filter(|v| *v != ar.val(*a)).map(|v| vec![Assert::EqConst(*a, v)]).collect()
        }
        Cond::Lt(a, b, r) => {
            rep.incomplete.push("integer order of scalars decides a branch: sampled values only".into());
            let cands = [Fr::zero(), Fr::one(), -Fr::one(), pow2(64), pow2(128), -pow2(64)];
            let mut v = vec![];
            for x in cands {
                let (ia, ib) = (ar.val(*a).into_bigint(), ar.val(*b).into_bigint());
                if !ar.is_const(*a) && (x.into_bigint() < ib) != *r {
                    v.push(vec![Assert::EqConst(*a, x)]);
                } else if !ar.is_const(*b) && (ia < x.into_bigint()) != *r {
                    v.push(vec![Assert::EqConst(*b, x)]);
                }
            }
            v.truncate(3);
            v
        }
    };
    let mut out = vec![];
    for alt in alts {
        let n = asserts.len();
        asserts.extend(alt);
        match solver.check(ar, &asserts) {
            Answer::Unsat => rep.flips_infeasible += 1,
            Answer::Sat(m) => {
                rep.flips_feasible += 1;
                out.push(m)
            }
            Answer::Unknown(s) => rep.open(false, format!("branch {i} of {:?} not decided: {s}", ar.conds[i])),
        }
        asserts.truncate(n);
    }
    out
}

struct Todo {
    model: Model,
    /// conditions before this one were negated on the way here
    bound: usize,
    /// departures from the first path
    cost: u32,
    retries: u32,
}

pub fn explore(job: &Job, lim: &Limits) -> Report {
    let t0 = Instant::now();
    let mut rep = Report { job: job.name.clone(), ..Default::default() };
    if let Some(sp) = &job.special {
        sp(&mut rep, lim);
        rep.job = job.name.clone();
        rep.wall = t0.elapsed().as_secs_f64();
        return rep;
    }
    let mut solver = Solver::new(lim.query_secs);
    let end = t0 + std::time::Duration::from_secs_f64(lim.secs);
    solver.deadline = Some(end);
    // runs to do at once, then branch alternatives by increasing number of departures from the
    // first path (continuing at the end of a path is not counted as one)
    let mut todo: Vec<Todo> = vec![Todo { model: Model::default(), bound: 0, cost: 0, retries: 0 }];
    let mut alts: BTreeMap<(u32, u64), (Rc<Run>, Model, usize)> = BTreeMap::new();
    let mut seq = 0u64;
    let mut seen_paths: HashSet<Vec<Cond>> = HashSet::new();
    loop {
        let Some(Todo { model, bound, cost, retries }) = todo.pop() else {
            let Some(((cost, _), (run, model, i))) = alts.pop_first() else { break };
            if rep.paths as usize >= job.paths.unwrap_or(lim.paths) || Instant::now() > end {
                rep.incomplete.push(format!("exploration stopped after {} paths, {} branch alternatives not followed", rep.paths, alts.len() + 1));
                break;
            }
            for m in flip(&run.ar, i, &mut solver, &mut rep) {
                todo.push(Todo { model: merge(&model, m), bound: i + 1, cost, retries: 0 });
            }
            todo.reverse();
            continue;
        };
        let run = Rc::new(run_sym(job, &model, lim.seed));
        let ar = &run.ar;
        if let Err(m) = &run.outcome {
            if m.starts_with("UNSUPPORTED") {
                rep.unknown.push(m.clone());
                break;
            }
        }
        // first assumption the model does not satisfy: solve up to it and retry
        let bad = ar.conds.iter().position(|c| match c {
            Cond::AssumeEq(a, b) => ar.val(*a) != ar.val(*b),
            Cond::AssumeNe(a, b) => ar.val(*a) == ar.val(*b),
            _ => false,
        });
        let usable = bad.unwrap_or(ar.conds.len());
        if let Some(j) = bad {
            if retries > 200 {
                rep.incomplete.push("assumptions could not be met after 200 attempts".into());
                continue;
            }
            let loc = match &ar.conds[j] {
                Cond::AssumeEq(a, b) => local_solve(ar, &ar.conds[..j], *a, *b),
                _ => None,
            };
            match loc {
                Some(m) => todo.push(Todo { model: merge(&model, m), bound, cost, retries: retries + 1 }),
                None => match solver.check(ar, &pc(&ar.conds[..=j])) {
                    Answer::Sat(m) => todo.push(Todo { model: merge(&model, m), bound, cost, retries: retries + 1 }),
                    Answer::Unsat => {}
                    Answer::Unknown(s) => rep.open(rep.paths == 0, format!("assumption: {s}")),
                },
            }
            // branches taken before the assumption are flipped when the retried run comes round
            continue;
        }
        let flips: Vec<usize> = (0..usable).filter(|i| flippable(ar, &ar.conds[*i])).collect();
        if !seen_paths.insert(flips.iter().map(|i| ar.conds[*i].clone()).collect()) {
            continue;
        }
        rep.paths += 1;
        rep.conds += flips.len() as u64;
        rep.nodes = rep.nodes.max(ar.nodes.len() as u64);
        for r in &ar.reached {
            rep.reached.insert(r.clone());
        }
        for n in &ar.notes {
            rep.note(n);
        }
        for f in &ar.findings {
            if !rep.known.contains(f) {
                rep.known.push(f.clone());
            }
        }
        // validation of the encoding on this path's concrete point
        if job.validate && (rep.paths <= 6) {
            validate(job, &model, lim.seed, &run, &mut rep);
        }
        if let Err(m) = &run.outcome {
            // the library panicked where the harness does not allow it
            rep.obligations += 1;
            add_violation(job, &mut rep, lim.seed, format!("unexpected panic: {m}"), String::new(), model.clone());
            if rep.violations.iter().any(|v| v.confirmed) {
                break;
            }
        }
        obligations(job, &mut rep, &mut solver, &run, &model, lim);
        if rep.violations.iter().any(|v| v.confirmed) {
            break;
        }
        for i in flips.iter().filter(|i| **i >= bound) {
            let (i, last) = (*i, Some(i) == flips.last());
            seq += 1;
            alts.insert((if last { cost } else { cost + 1 }, seq), (run.clone(), model.clone(), i));
        }
    }
    for l in &job.must_reach {
        if !rep.reached.contains(l) && rep.violations.is_empty() {
            let m = format!("vacuous: no explored path reaches '{l}'");
            rep.open(rep.incomplete.is_empty(), m);
        }
    }
    rep.incomplete.sort();
    rep.incomplete.dedup();
    rep.stats = solver.stats.clone();
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

fn validate(job: &Job, model: &Model, seed: u64, run: &Run, rep: &mut Report) {
    let ar = &run.ar;
    if ar.notes.iter().any(|n| n.contains("raw rng") || n.contains("other than the caller")) {
        return;
    }
    let (e, out) = run_bls(job, model, seed, ar);
    if let Err(m) = &out {
        if m.starts_with("UNSUPPORTED") {
            rep.note(&format!("validation skipped: {m}"));
            return;
        }
    }
    if out.is_ok() != run.outcome.is_ok() {
        rep.unknown.push(format!("encoding mismatch: symbolic outcome {:?}, concrete outcome {:?}", run.outcome, out));
        return;
    }
    if e.seen.len() != ar.values_seen.len() {
        rep.unknown.push(format!("encoding mismatch: {} values predicted, {} observed", ar.values_seen.len(), e.seen.len()));
        return;
    }
    for ((l, v), (l2, k, id)) in e.seen.iter().zip(ar.values_seen.iter()) {
        rep.values_compared += 1;
        if l != l2 || !matches(v, *k, ar.val(*id)) {
            rep.unknown.push(format!("encoding mismatch at {l}/{l2}"));
            return;
        }
    }
    if e.findings != ar.findings {
        rep.unknown.push(format!("encoding mismatch: findings {:?} vs {:?}", ar.findings, e.findings));
        return;
    }
    if e.reached != ar.reached {
        rep.unknown.push(format!("encoding mismatch: reached {:?} vs {:?}", e.reached, ar.reached));
        return;
    }
    rep.validated += 1;
}

pub fn add_violation(job: &Job, rep: &mut Report, seed: u64, label: String, detail: String, model: Model) {
    // rerun symbolically to get the draws, then run the real code on BLS12-381
    let run = run_sym(job, &model, seed);
    let mut v = Violation { label: label.clone(), detail, model: model.clone(), ..Default::default() };
    let (e, out) = run_bls(job, &model, seed, &run.ar);
    match out {
        Err(m) if m.starts_with("UNSUPPORTED") => v.confirm_note = m,
        Err(m) => {
            v.confirmed = e.assumptions_ok;
            v.confirm_note = format!("BLS12-381 run panicked: {m}");
        }
        Ok(()) => {
            v.confirmed = e.assumptions_ok && !e.failed.is_empty();
            v.confirm_note = format!("BLS12-381 run: assumptions {}, failed obligations: {:?}", e.assumptions_ok, e.failed);
        }
    }
    // hidden state of the library may depend on what this process did before: try in a fresh one
    if !v.confirmed && std::env::var("GSYM_CHILD").is_err() {
        let tier = std::env::var("GSYM_TIER").unwrap_or_else(|_| "quick".into());
        let f = std::env::temp_dir().join(format!("gsym-{}-{}.json", std::process::id(), rep.violations.len()));
        let body = json!({"property": job.prop, "tier": tier, "seed": seed, "job": job.name,
            "violation": {"label": v.label, "model": model_json(&v.model)}});
        if std::fs::write(&f, body.to_string()).is_ok() {
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("replay")
                .arg(&f)
                .env("GSYM_CHILD", "1")
                .stderr(std::process::Stdio::null())
                .output();
            let _ = std::fs::remove_file(&f);
            if let Ok(o) = out {
                if o.status.code() == Some(1) {
                    v.confirmed = true;
                    v.confirm_note = format!("in a fresh process: {}", String::from_utf8_lossy(&o.stdout).trim());
                }
            }
        }
    }
    // where the library takes its randomness from is a fact about the execution itself: another
    // generator cannot be scripted, so there is nothing to reproduce
    if !v.confirmed && label == "no randomness from another source" {
        v.confirmed = true;
        v.confirm_note = "the library sampled from a generator that is not the caller's".into();
    }
    rep.violations.push(v);
}

fn obligations(job: &Job, rep: &mut Report, solver: &mut Solver, run: &Run, model: &Model, lim: &Limits) {
    let ar = &run.ar;
    let mut eqs: BTreeMap<usize, Vec<(String, Id, Id)>> = BTreeMap::new();
    for o in &ar.obs {
        rep.obligations += 1;
        let prefix = &ar.conds[..o.pc];
        match &o.kind {
            ObKind::Fact(true) => rep.discharged += 1,
            ObKind::Fact(false) => {
                add_violation(job, rep, lim.seed, o.label.clone(), "fact false on this path".into(), model.clone());
            }
            ObKind::Eq(a, b) => {
                if ar.val(*a) != ar.val(*b) {
                    add_violation(job, rep, lim.seed, o.label.clone(), "values differ".into(), model.clone());
                } else {
                    eqs.entry(o.pc).or_default().push((o.label.clone(), *a, *b));
                }
            }
            ObKind::SomeNe(v) => {
                let mut q = pc(prefix);
                q.extend(v.iter().map(|(a, b)| Assert::Eq(*a, *b)));
                decide(job, rep, solver, ar, &q, prefix, &o.label, 1, model, lim, None);
            }
            ObKind::FlagsClear(f) => {
                let mut q = pc(prefix);
                q.push(Assert::AnyFlag(f.clone()));
                decide(job, rep, solver, ar, &q, prefix, &o.label, 1, model, lim, None);
            }
            ObKind::SomeFlag(f) => {
                let mut q = pc(prefix);
                q.extend(f.iter().map(|x| Assert::Flag(*x, false)));
                decide(job, rep, solver, ar, &q, prefix, &o.label, 1, model, lim, None);
            }
        }
        if rep.violations.iter().any(|v| v.confirmed) {
            return;
        }
    }
    for (p, v) in eqs {
        let prefix = &ar.conds[..p];
        // second, independent decision of identities: evaluate at fresh random points
        if prefix.is_empty() {
            for k in 0..2u64 {
                let ev = eval_all(&ar.nodes, |s| hash_fr(lim.seed.wrapping_add(7919 * (k + 1)), s));
                for (l, a, b) in &v {
                    if ev[*a as usize] != ev[*b as usize] {
                        let mut m = model.clone();
                        for n in &ar.nodes {
                            if let Node::Var(s) = n {
                                m.vars.insert(s.clone(), hash_fr(lim.seed.wrapping_add(7919 * (k + 1)), s));
                            }
                        }
                        add_violation(job, rep, lim.seed, l.clone(), "values differ at another point".into(), m);
                        if rep.violations.iter().any(|v| v.confirmed) {
                            return;
                        }
                    }
                }
            }
        }
        for ch in v.chunks(16) {
            if rep.paths > 1 && solver.deadline.is_some_and(|d| Instant::now() > d) {
                rep.incomplete.push("time limit before all obligations of a branch alternative were asked".into());
                return;
            }
            let goal: Vec<(Id, Id)> = ch.iter().map(|x| (x.1, x.2)).collect();
            let mut q = pc(prefix);
            q.push(Assert::AnyNe(goal.clone()));
            let label = ch.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("; ");
            let before = (rep.unknown.len(), rep.incomplete.len());
            let vb = rep.violations.len();
            decide(job, rep, solver, ar, &q, prefix, &label, ch.len() as u64, model, lim, Some(&goal));
            if (rep.unknown.len(), rep.incomplete.len()) > before && rep.violations.len() == vb && ch.len() > 1 {
                // undecided together: try one by one
                rep.unknown.truncate(before.0);
                rep.incomplete.truncate(before.1);
                for x in ch {
                    let mut q = pc(prefix);
                    q.push(Assert::Ne(x.1, x.2));
                    decide(job, rep, solver, ar, &q, prefix, &x.0, 1, model, lim, Some(&[(x.1, x.2)]));
                }
            }
            if rep.violations.iter().any(|v| v.confirmed) {
                return;
            }
        }
    }
}

/// `q` is the negation of the obligation under the path condition
fn decide(job: &Job, rep: &mut Report, solver: &mut Solver, ar: &Arena, q: &[Assert], prefix: &[Cond], label: &str, n: u64, model: &Model, lim: &Limits, goal: Option<&[(Id, Id)]>) {
    let ans = match goal {
        Some(g) => ask_differ(ar, &pc(prefix), g, solver),
        None => solver.check(ar, q),
    };
    match ans {
        Answer::Unsat => {
            rep.discharged += n;
            if rep.sample.is_null() {
                let (text, _, _) = encode(&ar.nodes, q);
                rep.sample = json!({"job": job.name, "obligations": label, "answer": "unsat", "smt2_bytes": text.len(),
                    "smt2_tail": text.lines().rev().take(3).collect::<Vec<_>>().into_iter().rev().map(|l| l.chars().take(400).collect::<String>()).collect::<Vec<_>>()});
            }
        }
        Answer::Sat(m) => {
            let m2 = merge(model, m);
            let k = rep.violations.len();
            add_violation(job, rep, lim.seed, label.to_string(), "solver model".into(), m2);
            if !rep.violations[k].confirmed && integer_conds(ar, prefix) {
                // the model may have left the path through dropped integer facts: pin them
                let mut q2 = q.to_vec();
                q2.extend(concretize(ar, prefix));
                match solver.check(ar, &q2) {
                    Answer::Unsat => {
                        rep.violations.truncate(k);
                        rep.discharged += n;
                        rep.incomplete.push("obligation decided only for the sampled integers of scalars that decide branches".into());
                    }
                    Answer::Sat(m) => {
                        rep.violations.truncate(k);
                        add_violation(job, rep, lim.seed, label.to_string(), "solver model".into(), merge(model, m));
                    }
                    Answer::Unknown(s) => {
                        rep.violations.truncate(k);
                        rep.open(rep.paths <= 1, format!("{label}: {s}"))
                    }
                }
            }
        }
        Answer::Unknown(s) => rep.open(rep.paths <= 1, format!("obligation {label}: {s}")),
    }
}
