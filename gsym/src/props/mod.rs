//! The harness of every property, generic over the engine.
use crate::eng::*;
use crate::explore::Job;
use std::collections::BTreeSet;

macro_rules! job {
    ($prop:expr, $name:expr, $f:ident ( $($a:ident),* )) => {
        crate::explore::Job {
            prop: $prop,
            name: $name,
            sym: { $( #[allow(noop_method_call)] let $a = $a.clone(); )* Box::new(move |e: &mut crate::eng::SymEng| $f::<crate::eng::SymEng>(e $(, $a.clone())*)) },
            bls: { $( #[allow(noop_method_call)] let $a = $a.clone(); )* Box::new(move |e: &mut crate::eng::BlsEng| $f::<crate::eng::BlsEng>(e $(, $a.clone())*)) },
            must_reach: vec![],
            validate: true,
            special: None,
            core: true,
            paths: None,
        }
    };
}
pub(crate) use job;

mod meta;
mod system;
mod algebra;
mod keys;
mod objects;
mod hiding;
pub use meta::*;

/// integer literals of the library's own code (4..=600): sizes around them get instances of their own
pub fn literals() -> Vec<usize> {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for f in rd.flatten() {
            let p = f.path();
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                out.push(p)
            }
        }
    }
    let repo = std::env::var("GSYM_REPO").unwrap_or_else(|_| "/repo".into());
    let mut files = vec![];
    walk(std::path::Path::new(&format!("{repo}/src")), &mut files);
    let mut s = BTreeSet::new();
    for f in files {
        let Ok(t) = std::fs::read_to_string(f) else { continue };
        let t = t.split("#[cfg(test)]").next().unwrap_or("").to_string();
        for line in t.lines() {
            let line = line.split("//").next().unwrap_or("");
            // attributes, strings and doc text are not sizes
            if line.trim_start().starts_with('#') {
                continue;
            }
            let mut in_str = false;
            let mut tok = String::new();
            let (mut shift, mut prev) = (false, ' ');
            for c in line.chars().chain([' ']) {
                if c == '"' {
                    in_str = !in_str;
                }
                if !in_str && (c.is_alphanumeric() || c == '_' || c == '.') {
                    tok.push(c)
                } else {
                    let t = tok.replace('_', "");
                    let t = t.trim_end_matches("usize").trim_end_matches("u32").trim_end_matches("u64");
                    let n = if let Some(h) = t.strip_prefix("0x") { usize::from_str_radix(h, 16).ok() } else { t.parse::<usize>().ok() };
                    if let Some(n) = n {
                        let n = if shift { 1usize.checked_shl(n as u32).unwrap_or(0) } else { n };
                        if (4..=600).contains(&n) {
                            s.insert(n);
                        }
                    }
                    if t == "u8" || t == "i8" {
                        s.insert(256);
                    }
                    if !t.is_empty() || !c.is_whitespace() {
                        // an exponent follows: 1 << n, x >> n
                        shift = t.is_empty() && (c == '<' || c == '>') && prev == c;
                    }
                    tok.clear();
                }
                prev = c;
            }
        }
    }
    s.into_iter().take(8).collect()
}

/// extra shapes suggested by the literals
pub fn literal_shapes(max: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for l in literals() {
        for x in [l - 1, l, l + 1] {
            if x <= max {
                v.extend([(x, 1), (1, x), (x, 2), (2, x)]);
            }
        }
        if l + 1 <= 20 {
            v.push((l + 1, l + 1));
        }
        let r = (l as f64).sqrt() as usize;
        for k in [r, r + 1] {
            v.push((k, k));
            v.push((k + 1, k));
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn literal_lengths(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = literals().iter().flat_map(|l| [l - 1, *l, l + 1, 2 * l, 2 * l + 1]).filter(|x| *x <= max).collect();
    v.sort();
    v.dedup();
    v
}

pub fn jobs(pid: &str, thorough: bool) -> Vec<Job> {
    match pid {
        "C01" => system::c01_jobs(thorough),
        "C02" => system::c02_jobs(thorough),
        "C03" => hiding::c03_jobs(thorough),
        "C07" => hiding::c07_jobs(thorough),
        "C26" => hiding::c26_jobs(thorough),
        "C27" => hiding::c27_jobs(thorough),
        "C04" => system::c04_jobs(thorough),
        "C05" => keys::c05_jobs(thorough),
        "C06" => keys::c06_jobs(thorough),
        "C08" => keys::c08_jobs(thorough),
        "C15" => keys::c15_jobs(thorough),
        "C09" => algebra::c09_jobs(thorough),
        "C10" => algebra::c10_jobs(thorough),
        "C11" => algebra::c11_jobs(thorough),
        "C12" => algebra::c12_jobs(thorough),
        "C13" => algebra::c13_jobs(thorough),
        "C14" => algebra::c14_jobs(thorough),
        "C16" => objects::c16_jobs(thorough),
        "C17" => objects::c17_jobs(thorough),
        "C18" => objects::c18_jobs(thorough),
        "C19" => objects::c19_jobs(thorough),
        "C20" => algebra::c20_jobs(thorough),
        "C21" => system::c21_jobs(thorough),
        "C22" => system::c22_jobs(thorough),
        "C23" => system::c23_jobs(thorough),
        "C24" => system::c24_jobs(thorough),
        "C25" => system::c25_jobs(thorough),
        _ => vec![],
    }
}
#[allow(dead_code)]
fn unused<X: Eng>(_: X) {}
