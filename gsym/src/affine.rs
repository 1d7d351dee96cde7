//! Outputs as affine forms in random draws, and Gaussian elimination over terms: given outputs of
//! a run with fresh draws and the values they shall take, find the draws.  Every pivot is tested by
//! a branch condition, so the explorer also covers the inputs for which a pivot vanishes.
use crate::term::*;
use ark_ff::Zero;
use std::collections::{BTreeMap, HashMap};

/// constant part and coefficients by draw number
#[derive(Clone, Debug)]
struct Form {
    c: Id,
    k: BTreeMap<u32, Id>,
}
impl Form {
    fn konst(c: Id) -> Form {
        Form { c, k: BTreeMap::new() }
    }
}
fn add(a: &mut Arena, x: &Form, y: &Form) -> Form {
    let mut r = x.clone();
    r.c = a.add(x.c, y.c);
    for (i, v) in &y.k {
        let o = r.k.get(i).cloned().unwrap_or(0);
        let n = a.add(o, *v);
        if n == 0 {
            r.k.remove(i);
        } else {
            r.k.insert(*i, n);
        }
    }
    r
}
fn scale(a: &mut Arena, x: &Form, s: Id) -> Form {
    if s == 0 {
        return Form::konst(0);
    }
    Form { c: a.mul(x.c, s), k: x.k.iter().map(|(i, v)| (*i, a.mul(*v, s))).filter(|(_, v)| *v != 0).collect() }
}
fn form(a: &mut Arena, root: Id, free: &HashMap<Id, Form>, memo: &mut HashMap<Id, Form>) -> Result<Form, String> {
    let mut st = vec![(root, false)];
    while let Some((i, done)) = st.pop() {
        if memo.contains_key(&i) {
            continue;
        }
        if let Some(f) = free.get(&i) {
            memo.insert(i, f.clone());
            continue;
        }
        let n = a.nodes[i as usize].clone();
        if !done {
            st.push((i, true));
            match n {
                Node::Add(x, y) | Node::Mul(x, y) => st.extend([(x, false), (y, false)]),
                Node::Neg(x) | Node::Inv(x) => st.push((x, false)),
                _ => {}
            }
            continue;
        }
        let f = match n {
            Node::Const(_) | Node::Var(_) => Form::konst(i),
            Node::Add(x, y) => {
                let (x, y) = (memo[&x].clone(), memo[&y].clone());
                add(a, &x, &y)
            }
            Node::Neg(x) => {
                let x = memo[&x].clone();
                Form { c: a.neg(x.c), k: x.k.iter().map(|(i, v)| (*i, a.neg(*v))).collect() }
            }
            Node::Mul(x, y) => {
                let (x, y) = (memo[&x].clone(), memo[&y].clone());
                if y.k.is_empty() {
                    scale(a, &x, y.c)
                } else if x.k.is_empty() {
                    scale(a, &y, x.c)
                } else {
                    return Err("an output is not affine in the draws left after the commitments".into());
                }
            }
            Node::Inv(x) => {
                let x = memo[&x].clone();
                if !x.k.is_empty() {
                    return Err("an output divides by a draw".into());
                }
                Form::konst(a.inv(x.c))
            }
        };
        memo.insert(i, f);
    }
    Ok(memo[&root].clone())
}

pub fn solve_draws(from: u32, to: u32, like: u32, pairs: &[(Id, Id)]) -> Result<(), String> {
    with(|a| {
        let mut ds: Vec<(u32, Id)> = a.draws.iter().filter(|d| d.stream == from).map(|d| (d.ctr, d.id)).collect();
        ds.sort();
        ds.dedup();
        // what each draw is: itself while free, an affine form of the free ones when solved
        let mut what: HashMap<Id, Form> = ds.iter().map(|(c, id)| (*id, Form { c: 0, k: [(*c, 1)].into() })).collect();
        let mut free: Vec<u32> = ds.iter().map(|d| d.0).collect();
        let mut memo = HashMap::new();
        for (out, val) in pairs {
            let mut f = form(a, *out, &what, &mut memo)?;
            f.c = expand(a, f.c);
            f.k = f.k.iter().map(|(i, v)| (*i, expand(a, *v))).filter(|(_, v)| *v != 0).collect();
            let mut piv = None;
            // constants first: they need no case distinction
            let mut cand: Vec<(u32, Id)> = f.k.iter().map(|(i, v)| (*i, *v)).collect();
            cand.sort_by_key(|(_, v)| !a.is_const(*v));
            for (i, v) in &cand {
                if !a.eq(*v, 0) {
                    piv = Some((*i, *v));
                    break;
                }
            }
            let Some((p, cp)) = piv else { continue };
            // rho_p = (val - c - sum_{j != p} c_j rho_j) / c_p
            let inv = a.inv(cp);
            let d = a.sub(*val, f.c);
            let s0 = a.mul(d, inv);
            let mut sol = Form::konst(expand(a, s0));
            for (j, v) in &f.k {
                if *j != p && *v != 0 {
                    let t = a.mul(*v, inv);
                    let t = a.neg(t);
                    let t = expand(a, t);
                    sol.k.insert(*j, t);
                }
            }
            free.retain(|x| *x != p);
            for w in what.values_mut() {
                if let Some(k) = w.k.remove(&p) {
                    let s = scale(a, &sol, k);
                    *w = add(a, w, &s);
                    w.c = expand(a, w.c);
                }
            }
            memo.clear();
        }
        // draws nothing constrains: as in the run to be matched
        let mut rest = HashMap::new();
        for c in free {
            let v = a.draws.iter().find(|d| d.stream == like && d.ctr == c).map(|d| d.id).unwrap_or(0);
            rest.insert(c, v);
        }
        for (c, id) in ds {
            let f = what[&id].clone();
            let mut v = f.c;
            for (j, k) in f.k {
                let t = a.mul(k, rest[&j]);
                v = a.add(v, t);
            }
            a.script.insert((to, c), v);
        }
        Ok(())
    })
}

type Mono = Vec<(Id, i32)>;
type Poly = BTreeMap<Mono, ark_bls12_381::Fr>;
const LIMIT: usize = 4000;
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<Id, i32> = a.iter().cloned().collect();
    for (i, e) in b {
        *m.entry(*i).or_insert(0) += e;
    }
    m.into_iter().filter(|(_, e)| *e != 0).collect()
}
fn poly(a: &Arena, root: Id, memo: &mut HashMap<Id, Poly>) -> Option<()> {
    use ark_ff::{Field, One};
    let mut st = vec![(root, false)];
    while let Some((i, done)) = st.pop() {
        if memo.contains_key(&i) {
            continue;
        }
        let n = &a.nodes[i as usize];
        if !done {
            st.push((i, true));
            match n {
                Node::Add(x, y) | Node::Mul(x, y) => st.extend([(*x, false), (*y, false)]),
                Node::Neg(x) | Node::Inv(x) => st.push((*x, false)),
                _ => {}
            }
            continue;
        }
        let one = ark_bls12_381::Fr::one();
        let mut p = Poly::new();
        match n {
            Node::Const(c) => {
                if !c.is_zero() {
                    p.insert(vec![], *c);
                }
            }
            Node::Var(_) => {
                p.insert(vec![(i, 1)], one);
            }
            Node::Add(x, y) => {
                p = memo[x].clone();
                for (m, c) in &memo[y] {
                    *p.entry(m.clone()).or_insert(ark_bls12_381::Fr::zero()) += c;
                }
            }
            Node::Neg(x) => p = memo[x].iter().map(|(m, c)| (m.clone(), -*c)).collect(),
            Node::Mul(x, y) => {
                if memo[x].len() * memo[y].len() > 20 * LIMIT {
                    return None;
                }
                for (m, c) in &memo[x] {
                    for (m2, c2) in &memo[y] {
                        *p.entry(mono_mul(m, m2)).or_insert(ark_bls12_381::Fr::zero()) += *c * c2;
                    }
                }
            }
            Node::Inv(x) => {
                let q = &memo[x];
                if q.len() == 1 {
                    let (m, c) = q.iter().next().unwrap();
                    p.insert(m.iter().map(|(v, e)| (*v, -*e)).collect(), c.inverse()?);
                } else {
                    p.insert(vec![(i, 1)], one);
                }
            }
        }
        p.retain(|_, c| !c.is_zero());
        if p.len() > LIMIT {
            return None;
        }
        memo.insert(i, p);
    }
    Some(())
}
/// An equal term in expanded form, if that is not too large.  Only used for the draws that are
/// proposed to the solver, never for what the solver decides.
pub fn expand(a: &mut Arena, root: Id) -> Id {
    if a.is_const(root) {
        return root;
    }
    let mut memo = HashMap::new();
    if poly(a, root, &mut memo).is_none() {
        return root;
    }
    let p = memo.remove(&root).unwrap();
    let mut sum = 0;
    for (m, c) in p {
        let mut t = a.konst(c);
        for (v, e) in m {
            let f = if e < 0 { a.inv(v) } else { v };
            for _ in 0..e.abs() {
                t = a.mul(f, t);
            }
        }
        sum = a.add(sum, t);
    }
    if a.val(sum) != a.val(root) {
        return root;
    }
    sum
}

/// Equality as polynomials in the draws of the generic stream: all coefficients agree.  None if
/// that cannot be told.
pub fn eq_generic(a: &mut Arena, x: Id, y: Id) -> Option<bool> {
    let d = a.sub(x, y);
    let mut memo = HashMap::new();
    poly(a, d, &mut memo)?;
    let p = memo.remove(&d)?;
    let mut groups: BTreeMap<Mono, Vec<(Mono, ark_bls12_381::Fr)>> = BTreeMap::new();
    for (m, c) in p {
        let (g, k): (Mono, Mono) = m.into_iter().partition(|(v, _)| a.depends(*v));
        if g.iter().any(|(v, e)| *e < 0 || !matches!(a.nodes[*v as usize], Node::Var(_))) {
            return None;
        }
        groups.entry(g).or_default().push((k, c));
    }
    let mut coefs = vec![];
    for (_, l) in groups {
        let mut sum = 0;
        for (m, c) in l {
            let mut t = a.konst(c);
            for (v, e) in m {
                let f = if e < 0 { a.inv(v) } else { v };
                for _ in 0..e.abs() {
                    t = a.mul(f, t);
                }
            }
            sum = a.add(sum, t);
        }
        coefs.push(sum);
    }
    coefs.sort_by_key(|c| !a.is_const(*c));
    for c in coefs {
        if !a.eq(c, 0) {
            return Some(false);
        }
    }
    Some(true)
}
