//! Greedy minimisation of a failing run: works on the plan's serialised form, dropping list entries
//! (threads' steps, products, tags, queries, damages, faults, schedule decisions), clearing optional
//! parts and shortening texts, as long as the same kind of violation remains.
use crate::props::{Case, Prop};
use serde_json::Value;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Hop {
    Key(String),
    Idx(usize),
}
fn at<'a>(v: &'a Value, path: &[Hop]) -> Option<&'a Value> {
    path.iter().try_fold(v, |v, h| match h {
        Hop::Key(k) => v.get(k),
        Hop::Idx(i) => v.get(i),
    })
}
fn at_mut<'a>(v: &'a mut Value, path: &[Hop]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, h| match h {
        Hop::Key(k) => v.get_mut(k),
        Hop::Idx(i) => v.get_mut(*i),
    })
}
fn walk(v: &Value, path: &mut Vec<Hop>, out: &mut Vec<Vec<Hop>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Hop::Idx(i));
                walk(x, path, out);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if k == "Replay" {
                    // The schedule: only its entries can be dropped.
                    path.push(Hop::Key(k.clone()));
                    out.push(path.clone());
                    path.pop();
                    continue;
                }
                path.push(Hop::Key(k.clone()));
                walk(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
fn in_catalogue(path: &[Hop]) -> bool {
    path.iter().any(|h| matches!(h, Hop::Key(k) if k == "products"))
}
fn last_key(path: &[Hop]) -> &str {
    path.iter().rev().find_map(|h| if let Hop::Key(k) = h { Some(k.as_str()) } else { None }).unwrap_or("")
}

struct Shrinker<'a> {
    p: &'a Prop,
    class: &'a str,
    best: Value,
    tries: usize,
    until: Instant,
}
impl Shrinker<'_> {
    fn over(&self) -> bool {
        Instant::now() > self.until
    }
    fn attempt(&mut self, cand: Value) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(cand.clone()) else { return false };
        self.tries += 1;
        let o = crate::run_case(self.p, &c, false);
        if o.harness.is_none() && o.viol.map_or(false, |v| v.class == self.class) {
            self.best = cand;
            return true;
        }
        false
    }
    /// Drops runs of entries of the array at `path`.
    fn array(&mut self, path: &[Hop], min: usize) -> bool {
        let len = |s: &Self| at(&s.best, path).and_then(|v| v.as_array()).map_or(0, |a| a.len());
        let mut any = false;
        let mut chunk = len(self);
        while chunk > 0 && !self.over() {
            let mut i = 0;
            while i < len(self) && !self.over() {
                let n = len(self);
                let k = chunk.min(n - i);
                if n - k < min {
                    i += k;
                    continue;
                }
                let mut cand = self.best.clone();
                if let Some(Value::Array(a)) = at_mut(&mut cand, path) {
                    a.drain(i..i + k);
                }
                if self.attempt(cand) {
                    any = true;
                } else {
                    i += k;
                }
            }
            chunk /= 2;
        }
        any
    }
    fn replace(&mut self, path: &[Hop], v: Value) -> bool {
        let mut cand = self.best.clone();
        match at_mut(&mut cand, path) {
            Some(x) if *x != v => *x = v,
            _ => return false,
        }
        self.attempt(cand)
    }
    fn pass(&mut self) -> bool {
        let mut paths = vec![];
        walk(&self.best, &mut vec![], &mut paths);
        let mut any = false;
        for path in paths {
            if self.over() {
                return false;
            }
            let Some(v) = at(&self.best, &path).cloned() else { continue };
            let key = last_key(&path);
            match &v {
                Value::Array(_) => {
                    let inner = matches!(path.last(), Some(Hop::Idx(_)));
                    // An option keeps at least one value; catalogues, threads and queries stay put.
                    let min = usize::from(in_catalogue(&path) && inner);
                    any |= self.array(&path, min);
                }
                Value::String(s) if (!in_catalogue(&path) || key == "desc") && s.chars().count() > 1 => {
                    let c: Vec<char> = s.chars().collect();
                    let words: Vec<&str> = s.split(' ').collect();
                    let mut cands: Vec<String> = vec![c[..c.len() / 2].iter().collect()];
                    if words.len() > 1 && key != "desc" {
                        cands.push(words[0].into());
                        cands.push(words[words.len() - 1].into());
                    }
                    for t in cands {
                        any |= self.replace(&path, Value::String(t));
                    }
                }
                Value::Number(x) if key == "n" && !in_catalogue(&path) => {
                    let x = x.as_u64().unwrap_or(0);
                    for t in [1, 2, x / 2, x.saturating_sub(1)] {
                        if t > 0 && t < x {
                            any |= self.replace(&path, t.into());
                        }
                    }
                }
                _ => {}
            }
            if matches!(path.last(), Some(Hop::Key(_))) && !in_catalogue(&path) && !v.is_null() && !v.is_array() {
                any |= self.replace(&path, Value::Null);
            }
        }
        any
    }
}

/// Returns the smallest case found and the number of runs it took.
pub fn minimise(p: &Prop, case: Case, class: &str, limit_s: u64) -> (Case, usize) {
    let best = serde_json::to_value(&case).unwrap();
    let mut s = Shrinker { p, class, best, tries: 0, until: Instant::now() + Duration::from_secs(limit_s) };
    while !s.over() && s.pass() {}
    let tries = s.tries;
    (serde_json::from_value(s.best).unwrap_or(case), tries)
}
