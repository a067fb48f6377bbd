//! Plans: everything a simulated run does, explicit and serialisable. A plan and a schedule are a
//! replay file.
use crate::cat::{self, Cat};
use crate::rt::{Policy, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Damage {
    /// Only the first part arrives (position taken modulo the length).
    Cut(usize),
    Flip(usize, u8),
    Set(usize, u8),
    Fill(usize, usize, u8),
    Drop(usize, usize),
    Dup(usize, usize),
    Swap(usize, usize, usize),
    /// At `.0`, bytes of catalogue `.1`'s file from `.2`, `.3` long.
    Splice(usize, usize, usize, usize),
    Append(usize, u8),
    /// The last bytes are missing (their number modulo the length).
    CutEnd(usize),
    /// Section `.0` of the file is the one of catalogue `.1`'s file.
    Graft(usize, usize),
    /// At `.0`, a small number is `.1` less and as many pieces of `.2` bytes after it are missing.
    Shrink(usize, usize, usize),
    /// The `.1` bytes at `.0` arrive `.2` more times.
    Repeat(usize, usize, usize),
    /// All of catalogue `.0`'s file follows.
    Concat(usize),
}
impl Damage {
    pub fn kind(&self) -> &'static str {
        match self {
            Damage::Cut(..) => "cut",
            Damage::Flip(..) => "bit flip",
            Damage::Set(..) => "byte overwritten",
            Damage::Fill(_, _, v) => match v {
                0 => "block zeroed",
                255 => "block filled with 0xff",
                _ => "block filled",
            },
            Damage::Drop(..) => "block dropped",
            Damage::Dup(..) => "block repeated",
            Damage::Swap(..) => "blocks swapped",
            Damage::Splice(..) => "foreign data spliced in",
            Damage::Append(..) => "garbage appended",
            Damage::CutEnd(..) => "cut near the end",
            Damage::Graft(..) => "another file's section in place of its own",
            Damage::Shrink(..) => "byte lowered and block dropped",
            Damage::Repeat(..) => "block repeated many times",
            Damage::Concat(..) => "another file appended",
        }
    }
    pub fn apply(&self, b: &mut Vec<u8>, files: &[Vec<u8>]) {
        let n = b.len();
        if n == 0 {
            return;
        }
        match *self {
            Damage::Cut(p) => b.truncate(p % n),
            Damage::Flip(p, k) => b[p % n] ^= 1 << (k & 7),
            Damage::Set(p, v) => b[p % n] = v,
            Damage::Fill(p, l, v) => {
                let p = p % n;
                for x in &mut b[p..(p + l).min(n)] {
                    *x = v;
                }
            }
            Damage::Drop(p, l) => {
                let p = p % n;
                b.drain(p..(p + l).min(n));
            }
            Damage::Dup(p, l) => {
                let p = p % n;
                let piece = b[p..(p + l).min(n)].to_vec();
                for (i, x) in piece.into_iter().enumerate() {
                    b.insert(p + i, x);
                }
            }
            Damage::Swap(x, y, l) => {
                let (x, y) = (x % n, y % n);
                for i in 0..l {
                    if x + i < n && y + i < n {
                        b.swap(x + i, y + i);
                    }
                }
            }
            Damage::Splice(p, f, from, l) => {
                if files.is_empty() {
                    return;
                }
                let src = &files[f % files.len()];
                if src.is_empty() {
                    return;
                }
                let (p, from) = (p % n, from % src.len());
                for i in 0..l {
                    if p + i < n && from + i < src.len() {
                        b[p + i] = src[from + i];
                    }
                }
            }
            Damage::Append(l, v) => b.extend(std::iter::repeat(v).take(l)),
            Damage::CutEnd(k) => b.truncate(n - 1 - k % n),
            Damage::Graft(s, f) => {
                if files.is_empty() {
                    return;
                }
                let src = &files[f % files.len()];
                // Only an undamaged file has sections.
                if let (true, Some(x), Some(y)) = (files.contains(b), cat::sections(b), cat::sections(src)) {
                    let s = s % (x.len() - 1);
                    b.splice(x[s]..x[s + 1], src[y[s]..y[s + 1]].iter().copied());
                }
            }
            Damage::Repeat(p, l, k) => {
                let p = p % n;
                let e = (p + l.min(4096)).min(n);
                let piece = b[p..e].repeat(k.min(1 << 16));
                b.splice(p..p, piece);
            }
            Damage::Concat(f) => {
                if !files.is_empty() {
                    b.extend_from_slice(&files[f % files.len()]);
                }
            }
            Damage::Shrink(p, k, l) => {
                // The next byte that may be a small length.
                let p = p % n;
                let Some(q) = (p..n).find(|&q| (1..0x60).contains(&b[q])) else { return };
                let k = k.clamp(1, b[q] as usize);
                b[q] -= k as u8;
                b.drain((q + 1).min(n)..(q + 1 + k * l).min(n));
            }
        }
    }
}
pub fn gen_damage(r: &mut Rng) -> Damage {
    let p = r.below(1 << 20);
    let l = 1 + r.upto(0, 8);
    match r.below(18) {
        16 | 17 => Damage::Repeat(p, *r.pick(&[1usize, 6, 6, 12, 12, 18, 24, 5, 7, 11, 13]), 1 << r.range(3, 13)),
        0 | 1 => Damage::Flip(p, r.below(8) as u8),
        2 | 3 => Damage::Set(p, *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x20])),
        4 => Damage::Fill(p, l, 0),
        5 => Damage::Fill(p, l, 0xff),
        6 => Damage::Fill(p, l, *r.pick(&[1u8, 0x80, 0x7f, 0x2a])),
        7 => Damage::Drop(p, l),
        8 => Damage::Dup(p, l),
        9 => Damage::Swap(p, r.below(1 << 20), l),
        10 => Damage::Splice(p, r.below(4), r.below(1 << 20), l),
        11 => Damage::Cut(p),
        12 => Damage::CutEnd(r.upto(0, 10)),
        13 | 14 => Damage::Graft(r.below(8), r.below(4)),
        _ => Damage::Shrink(p, r.range(1, 3), *r.pick(&[1usize, 1, 2, 4, 4, 4, 8])),
    }
}

/// A host value handed to the engine; getters run user code.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    Num(f64),
    Str(String),
    Bool(bool),
    Null,
    Undef,
    Get { throw: bool, calls: Vec<Op>, value: Box<Val> },
}
/// One entry of a filter description.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fil {
    Obj { from: Option<Val>, to: Option<Val>, exact: Option<Val> },
    /// The entry itself is this value (malformed unless it is a getter of an object).
    Bare(Val),
    Getter { throw: bool, calls: Vec<Op>, from: Option<f64>, to: Option<f64> },
}

/// What a listener does when it is called.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Beh {
    pub throw: bool,
    pub calls: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Load { g: usize, dmg: Vec<Damage> },
    Build { g: usize },
    /// A build from a document that is malformed in one way or another.
    BadBuild { g: usize, kind: usize },
    /// Loads `n` times, one catalogue after the other.
    Churn { g: usize, n: usize },
    /// Obtain a category (`cat`) or tag handler into slot `h`, and list it.
    Get { cat: bool, h: usize },
    /// The handler in the slot is given back to the engine; a new one is obtained at once, or not.
    Release { cat: bool, h: usize, renew: bool },
    /// The same `n` times, as operations of their own.
    Again { n: usize, op: Box<Op> },
    Orders,
    Suggest { q: String },
    List { cat: bool, h: usize },
    IterNew { cat: bool, h: usize, it: usize },
    IterNext { cat: bool, it: usize },
    OptNext { it: usize },
    /// `src`: the item comes from another handler's slot.
    Toggle {
        cat: bool,
        h: usize,
        item: usize,
        src: Option<usize>,
        /// Only if both handlers are of the same load.
        #[serde(default)]
        sibling: bool,
    },
    /// Switches `n` items from `item` on.
    Sweep { cat: bool, h: usize, item: usize, n: usize },
    Status { cat: bool, h: usize, item: usize },
    Listen { cat: bool, h: usize, item: Option<usize>, beh: Beh },
    /// Registers item listener number `k` on one more item.
    Share { cat: bool, h: usize, k: usize, item: usize },
    Unlisten { cat: bool, h: usize, k: usize },
    /// Removes listener number `k` from an item it is not on.
    Misremove { cat: bool, h: usize, k: usize, item: usize },
    Search { q: String, ch: usize, th: usize, order: Option<String>, filt: Vec<(String, Fil)>, p: usize, drain: bool },
    Next { p: usize, n: usize },
    /// Fresh handlers, only this item switched on, search.
    Probe { cat: bool, item: usize, q: String },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub id: u32,
    pub op: Op,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub cats: Vec<Cat>,
    pub init: Option<usize>,
    pub threads: Vec<Vec<Step>>,
    /// Run by whichever thread finishes last, on its own handles.
    pub epilogue: Vec<Step>,
    pub hseed: u64,
    /// All files are built with the same hash seeds.
    #[serde(default)]
    pub same_epoch: bool,
    pub policy: Policy,
}

pub fn gen_policy(r: &mut Rng) -> Policy {
    Policy::Random {
        seed: r.next(),
        p0: *r.pick(&[0.0, 0.003, 0.02, 0.06, 0.15, 0.4]),
        pu: *r.pick(&[0.0, 0.0, 1e-5, 1e-4]),
        pb: *r.pick(&[0.1, 0.3, 0.6, 1.0]),
        burst: *r.pick(&[0.0, 0.3, 0.7]),
        hold: *r.pick(&[0.0, 0.0, 0.2, 0.5]),
    }
}

/// What a property's workload looks like.
#[derive(Clone)]
pub struct Mix {
    pub threads: (usize, usize),
    pub gens: (usize, usize),
    pub ops: (usize, usize),
    pub shape: cat::Shape,
    pub init: f64,
    pub reload_editions: f64,
    pub twins: f64,
    pub w: Vec<(u32, Kind)>,
    pub loader: f64,
    pub reenter: f64,
    pub foreign: f64,
    pub bad_filter: f64,
    pub filters: f64,
    pub orders: f64,
    pub unknown_order: f64,
    pub same_queries: bool,
    pub empty_cat: f64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Load,
    BadLoad,
    Build,
    Get,
    Orders,
    Suggest,
    List,
    IterNew,
    IterNext,
    OptNext,
    Toggle,
    Status,
    Listen,
    Unlisten,
    Search,
    Next,
    Probe,
}

pub struct Gen<'a> {
    pub r: Rng,
    pub cats: Vec<Cat>,
    pub mix: &'a Mix,
    pub queries: Vec<String>,
    pub asked: Vec<String>,
}
impl Gen<'_> {
    fn query(&mut self) -> String {
        if self.mix.same_queries || self.r.chance(0.3) {
            return self.r.pick(&self.queries).clone();
        }
        let c = self.r.below(self.cats.len());
        if self.r.chance(0.35) {
            cat::wide_query(&self.cats[c])
        } else {
            let c = &self.cats[c];
            cat::gen_query(&mut self.r, c)
        }
    }
    fn nested(&mut self, depth: usize) -> Vec<Op> {
        if !self.r.chance(self.mix.reenter) {
            return vec![];
        }
        (0..self.r.range(1, 2)).map(|_| self.op(depth + 1)).collect()
    }
    fn num(&mut self) -> f64 {
        let c = self.r.below(self.cats.len());
        let c = &self.cats[c];
        if c.products.is_empty() || self.r.chance(0.3) {
            return *self.r.pick(&[0.0, 50.0, 100.0, 349.5, 2000.0, -1.0]);
        }
        // Often exactly a product's price, so that bounds are hit.
        f64::from(c.products[self.r.below(c.products.len())].price())
    }
    fn unknown_order(&mut self) -> String {
        let o = *self.r.pick(&cat::ORDERS);
        match self.r.below(8) {
            0 => o.to_lowercase(),
            1 => o.to_uppercase(),
            2 => format!("{o} "),
            3 => format!(" {o}"),
            4 => o[..o.len() - 1].into(),
            5 => o.replace(' ', "  ") + "\0",
            _ => (*self.r.pick(&["Newest", "", "Price", "price", "title", "0", "Price high to lo", "Alphabetical,Price low to high"])).into(),
        }
    }
    fn val(&mut self, depth: usize, bad: bool) -> Val {
        if bad && self.r.chance(0.5) {
            let calls = self.nested(depth);
            let throw = self.r.chance(0.5);
            let n = self.num();
            return Val::Get { throw, calls, value: Box::new(Val::Num(n)) };
        }
        if depth == 0 && self.r.chance(self.mix.reenter * 0.3) {
            let calls = self.nested(depth);
            let n = self.num();
            return Val::Get { throw: false, calls, value: Box::new(Val::Num(n)) };
        }
        Val::Num(self.num())
    }
    fn filters(&mut self, depth: usize) -> Vec<(String, Fil)> {
        let mut out = Vec::new();
        if self.r.chance(self.mix.bad_filter) {
            let f = match self.r.below(5) {
                0 => Fil::Bare(Val::Num(3.0)),
                1 => Fil::Bare(Val::Null),
                2 => {
                    let calls = self.nested(depth);
                    Fil::Getter { throw: self.r.chance(0.6), calls, from: Some(1.0), to: None }
                }
                3 => Fil::Obj { from: Some(Val::Str("x".into())), to: Some(Val::Bool(true)), exact: None },
                _ => Fil::Obj { from: Some(self.val(depth, true)), to: None, exact: None },
            };
            out.push(("price".to_string(), f));
            return out;
        }
        if !self.r.chance(self.mix.filters) {
            return out;
        }
        for _ in 0..self.r.range(1, 2) {
            let c = self.r.below(self.cats.len());
            let f = match self.r.below(13) {
                11 => {
                    // Close, but not it.
                    let n = self.num();
                    let d = *self.r.pick(&[0.001, -0.001, 0.004, 1e-7, -0.01, 0.5]);
                    Fil::Obj { from: None, to: None, exact: Some(Val::Num(n + d)) }
                }
                12 => {
                    // A value of the wrong kind for the feature.
                    let n = self.num();
                    if self.r.chance(0.5) {
                        Fil::Obj { from: None, to: None, exact: Some(Val::Str(format!("{n}"))) }
                    } else {
                        out.retain(|(k, _)| k != "image_url");
                        let e = if self.r.chance(0.5) { (None, Some(Val::Num(n))) } else { (Some(Val::Num(0.0)), None) };
                        out.push(("image_url".into(), Fil::Obj { from: e.0, to: None, exact: e.1 }));
                        continue;
                    }
                }
                10 => {
                    let n = Some(Val::Num(self.num()));
                    let u = || Some(Val::Undef);
                    match self.r.below(3) {
                        0 => Fil::Obj { from: u(), to: n, exact: None },
                        1 => Fil::Obj { from: n, to: u(), exact: u() },
                        _ => Fil::Obj { from: u(), to: u(), exact: n },
                    }
                }
                8 => {
                    // As it comes: the bounds may be the wrong way round.
                    let (a, b) = (self.num(), self.num());
                    Fil::Obj { from: Some(Val::Num(a)), to: Some(Val::Num(b)), exact: None }
                }
                9 => {
                    let n = self.num();
                    match self.r.below(4) {
                        0 => Fil::Obj { from: Some(Val::Num(f64::NEG_INFINITY)), to: Some(Val::Num(n)), exact: None },
                        1 => Fil::Obj { from: Some(Val::Num(n)), to: Some(Val::Num(f64::INFINITY)), exact: None },
                        2 => Fil::Obj { from: Some(Val::Num(n + 0.004)), to: Some(Val::Num(n + 1.0)), exact: None },
                        _ => Fil::Obj { from: Some(Val::Num(f64::INFINITY)), to: None, exact: None },
                    }
                }
                0 | 1 => {
                    let (a, b) = (self.num(), self.num());
                    Fil::Obj { from: Some(Val::Num(a.min(b))), to: Some(Val::Num(a.max(b))), exact: None }
                }
                2 => Fil::Obj { from: Some(self.val(depth, false)), to: None, exact: None },
                3 => Fil::Obj { from: None, to: Some(self.val(depth, false)), exact: None },
                4 => Fil::Obj { from: Some(Val::Null), to: Some(Val::Num(self.num())), exact: None },
                5 => Fil::Obj { from: None, to: None, exact: Some(Val::Num(self.num())) },
                6 => {
                    let mut v = self.cats[c].products.iter().find_map(|p| p.image()).unwrap_or("none").to_string();
                    match self.r.below(8) {
                        0 => v = v.to_uppercase(),
                        1 => v.push(*self.r.pick(&[' ', '/', '0'])),
                        2 if v.len() > 1 => drop(v.pop()),
                        _ => {}
                    }
                    out.retain(|(k, _)| k != "image_url");
                    out.push(("image_url".into(), Fil::Obj { from: None, to: None, exact: Some(Val::Str(v)) }));
                    continue;
                }
                _ => {
                    if self.r.chance(0.3) {
                        out.retain(|(k, _)| k != "weight");
                        out.push(("weight".into(), Fil::Obj { from: Some(Val::Num(0.0)), to: None, exact: None }));
                        continue;
                    }
                    let n = self.num();
                    Fil::Obj { from: Some(Val::Num(n)), to: Some(Val::Num(n)), exact: None }
                }
            };
            if out.iter().all(|(k, _)| k != "price") {
                out.push(("price".into(), f));
            }
        }
        out
    }
    fn kind(&mut self, depth: usize) -> Kind {
        let tot: u32 = self.mix.w.iter().map(|x| x.0).sum();
        loop {
            let mut k = self.r.below(tot as usize) as u32;
            let mut got = self.mix.w[0].1;
            for (w, kind) in &self.mix.w {
                if k < *w {
                    got = *kind;
                    break;
                }
                k -= w;
            }
            // Listening from inside a callback adds little.
            if depth > 0 && matches!(got, Kind::Listen | Kind::Unlisten | Kind::Probe | Kind::IterNew) {
                continue;
            }
            return got;
        }
    }
    pub fn op(&mut self, depth: usize) -> Op {
        let k = self.kind(depth);
        let op = self.op_of(k, depth);
        if depth > 0 || !self.r.chance(0.05) {
            return op;
        }
        let n = match k {
            Kind::Toggle if self.r.chance(0.2) => *self.r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]),
            Kind::Build => self.r.range(2, 5),
            Kind::Listen => self.r.range(5, 34),
            Kind::Load | Kind::Probe => return op,
            _ => self.r.range(3, 20),
        };
        Op::Again { n, op: Box::new(op) }
    }
    pub fn op_of(&mut self, k: Kind, depth: usize) -> Op {
        let cat = self.r.chance(0.5);
        let h = self.r.below(2);
        let item = self.r.below(64);
        match k {
            Kind::Load if depth == 0 && self.r.chance(0.04) => Op::Churn { g: self.r.below(self.cats.len()), n: self.r.range(3, 20) },
            Kind::Load => Op::Load { g: self.r.below(self.cats.len()), dmg: vec![] },
            Kind::BadLoad => {
                let g = self.r.below(self.cats.len());
                let n = self.r.range(1, 2);
                if self.r.chance(0.1) {
                    // Whole, but something follows.
                    let d = if self.r.chance(0.4) { Damage::Concat(self.r.below(self.cats.len())) } else { Damage::Append(self.r.range(1, 40), *self.r.pick(&[0u8, 1, 0x80, 0xff])) };
                    return Op::Load { g, dmg: vec![d] };
                }
                let dmg = if self.r.chance(0.4) { vec![Damage::Cut(self.r.below(1 << 20))] } else { (0..n).map(|_| gen_damage(&mut self.r)).collect() };
                Op::Load { g, dmg }
            }
            Kind::Build if self.r.chance(0.25) => Op::BadBuild { g: self.r.below(self.cats.len()), kind: self.r.below(5) },
            Kind::Build => Op::Build { g: self.r.below(self.cats.len()) },
            Kind::Get if self.r.chance(0.35) => Op::Release { cat, h, renew: self.r.chance(0.75) },
            Kind::Get => Op::Get { cat, h },
            Kind::Orders => Op::Orders,
            Kind::Suggest => {
                if self.r.chance(0.5) {
                    return Op::Suggest { q: self.r.pick(&self.asked).clone() };
                }
                let c = self.r.below(self.cats.len());
                let tags: Vec<String> = self.cats[c].tags().into_iter().collect();
                Op::Suggest { q: gen_suggest(&mut self.r, &tags) }
            }
            Kind::List => Op::List { cat, h },
            Kind::IterNew => Op::IterNew { cat, h, it: self.r.below(3) },
            Kind::IterNext => Op::IterNext { cat, it: self.r.below(3) },
            Kind::OptNext => Op::OptNext { it: self.r.below(3) },
            Kind::Toggle => {
                let sibling = self.r.chance(0.12);
                let src = if sibling || self.r.chance(self.mix.foreign) { Some(1 - h) } else { None };
                // Mostly few items, so that they get switched repeatedly.
                let item = if self.r.chance(0.8) { item % 6 } else { item };
                if self.r.chance(0.08) {
                    let n = if self.r.chance(0.15) { 80 } else { 16 };
                    return Op::Sweep { cat, h, item, n: self.r.range(3, n) };
                }
                Op::Toggle { cat, h, item, src, sibling }
            }
            Kind::Status => Op::Status { cat, h, item: self.r.below(6) },
            Kind::Listen => {
                if self.r.chance(0.2) {
                    return Op::Share { cat, h, k: item, item: self.r.below(6) };
                }
                let calls = self.nested(depth);
                let on = if self.r.chance(0.6) { Some(self.r.below(6)) } else { None };
                Op::Listen { cat, h, item: on, beh: Beh { throw: self.r.chance(0.25), calls } }
            }
            Kind::Unlisten if self.r.chance(0.2) => Op::Misremove { cat, h, k: item, item: self.r.below(6) },
            Kind::Unlisten => Op::Unlisten { cat, h, k: item },
            Kind::Search => {
                let order = if self.r.chance(self.mix.orders) {
                    if self.r.chance(self.mix.unknown_order) {
                        Some(self.unknown_order())
                    } else {
                        Some((*self.r.pick(&cat::ORDERS)).to_string())
                    }
                } else {
                    None
                };
                let filt = self.filters(depth);
                Op::Search { q: self.query(), ch: self.r.below(2), th: self.r.below(2), order, filt, p: self.r.below(2), drain: self.r.chance(0.7) }
            }
            Kind::Next => Op::Next { p: self.r.below(2), n: self.r.range(1, 4) },
            Kind::Probe => Op::Probe { cat, item, q: self.query() },
        }
    }
}

/// What someone types who is looking for a tag.
fn gen_suggest(r: &mut Rng, tags: &[String]) -> String {
    const ODD: [&str; 14] =
        ["", "ø", "æøå", "aøb", "abø", "én", "abé", "👽", "a👽bc", "ab👽c", "ab", "  ", "kunst", "ein"];
    let n = r.range(1, 3);
    let mut words: Vec<String> = vec![];
    for _ in 0..n {
        let w = if tags.is_empty() || r.chance(0.3) {
            (*r.pick(&ODD)).to_string()
        } else {
            let mut w: Vec<char> = r.pick(tags).chars().collect();
            match r.below(5) {
                0 => {
                    w.pop();
                }
                1 if !w.is_empty() => {
                    let k = r.below(w.len());
                    w[k] = *r.pick(&['x', 'ø', 'é', '👽', 'Z']);
                }
                2 if !w.is_empty() => {
                    w.truncate(r.range(1, w.len()));
                }
                _ => {}
            }
            w.into_iter().collect()
        };
        words.push(w);
    }
    words.join(if r.chance(0.1) { "  " } else { " " })
}

pub fn gen_world(seed: u64, mix: &Mix) -> World {
    let mut r = Rng::new(seed);
    let ng = r.range(mix.gens.0, mix.gens.1);
    let mut cats: Vec<Cat> = Vec::new();
    for g in 0..ng {
        if g > 0 && r.chance(mix.twins) {
            let o = r.below(cats.len());
            let old = cats[o].clone();
            cats.push(cat::twin(&mut r, &old, g));
        } else if g > 0 && r.chance(mix.reload_editions) {
            let o = r.below(cats.len());
            let old = cats[o].clone();
            cats.push(cat::edition(&mut r, &old, g));
        } else if r.chance(mix.empty_cat) {
            cats.push(Cat { products: vec![] });
        } else {
            cats.push(cat::gen(&mut r, g, mix.shape));
        }
    }
    let nt = r.range(mix.threads.0, mix.threads.1);
    let init = if r.chance(mix.init) { Some(r.below(ng)) } else { None };
    let hseed = r.next();
    let mut policy = gen_policy(&mut r);
    // Now and then one load after the other while the others stall in the middle of their calls.
    let storm = nt > 1 && mix.loader > 0.0 && r.chance(0.15);
    if storm {
        policy = Policy::Random { seed: r.next(), p0: *r.pick(&[0.2, 0.4, 0.7]), pu: 0.0, pb: 0.3, burst: 0.0, hold: *r.pick(&[0.4, 0.8]) };
    }
    let queries: Vec<String> = (0..3)
        .map(|i| {
            let c = &cats[i % ng];
            if i == 0 {
                cat::wide_query(c)
            } else {
                cat::gen_query(&mut r, c)
            }
        })
        .collect();
    let mut queries = queries;
    if r.chance(0.4) {
        // Queries that are alike.
        let q = queries[r.below(2)].clone();
        queries[2] = match r.below(8) {
            0 => format!(" {q}"),
            1 => format!("{q} "),
            2 => q.to_uppercase(),
            3 => q.to_lowercase(),
            4 => q.replace(' ', "  "),
            5 => q.trim().to_string(),
            6 => q.split(' ').rev().collect::<Vec<_>>().join(" "),
            _ => {
                let k = r.range(0, q.chars().count());
                q.chars().take(k).collect()
            }
        };
    }
    let same_epoch = r.chance(0.5);
    let tags: Vec<String> = cats.iter().flat_map(|c| c.tags()).collect();
    let asked = (0..3).map(|_| gen_suggest(&mut r, &tags)).collect();
    let mut g = Gen { r, cats, mix, queries, asked };
    let mut id = 1;
    let mut step = |op: Op| {
        id += 1;
        Step { id, op }
    };
    let mut threads = Vec::new();
    for t in 0..nt {
        let mut v = Vec::new();
        if storm && (t == 0 || (t == 1 && nt > 2)) {
            for _ in 0..g.r.range(3, 10) {
                v.push(step(g.op_of(Kind::Load, 0)));
            }
        } else if nt > 1 && t == 0 && g.r.chance(mix.loader) {
            // One thread that mainly replaces the catalogue.
            for _ in 0..g.r.range(1, 3) {
                let k = if mix.w.iter().any(|w| w.1 == Kind::BadLoad) && g.r.chance(0.4) { Kind::BadLoad } else { Kind::Load };
                v.push(step(g.op_of(k, 0)));
            }
        } else {
            if init.is_none() && g.r.chance(0.5) {
                v.push(step(g.op_of(Kind::Load, 0)));
            }
            if g.r.chance(0.9) {
                for h in 0..2 {
                    for cat in [true, false] {
                        if g.r.chance(0.8) {
                            v.push(step(Op::Get { cat, h }));
                        }
                    }
                }
            }
            // Now and then a long history.
            let long = if g.r.chance(0.03) { 8 } else { 1 };
            for _ in 0..long * g.r.range(mix.ops.0, mix.ops.1) {
                v.push(step(g.op(0)));
            }
        }
        threads.push(v);
    }
    let mut epilogue = vec![];
    if g.r.chance(0.5) {
        epilogue.push(step(Op::Load { g: g.r.below(ng), dmg: vec![] }));
    }
    for op in [Op::Get { cat: true, h: 3 }, Op::Get { cat: false, h: 3 }, Op::Orders] {
        epilogue.push(step(op));
    }
    let q = g.query();
    epilogue.push(step(Op::Search { q, ch: 3, th: 3, order: None, filt: vec![], p: 3, drain: true }));
    let q = cat::wide_query(&g.cats[ng - 1]);
    epilogue.push(step(Op::Search { q, ch: 3, th: 3, order: Some(cat::ORDERS[1].into()), filt: vec![], p: 3, drain: true }));
    World { cats: g.cats, init, threads, epilogue, hseed, same_epoch, policy }
}
