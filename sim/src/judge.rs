//! Judges a recorded history: is there one order of all calls, consistent with when each call began
//! and ended, in which every answer is what a single loaded catalogue gives? The oracle is the
//! specification of the catalogues plus the engine's own sequential search on an instance of its own.
use crate::cat::{self, Prod};
use crate::child;
use crate::rt;
use crate::world::{hist, sh, Ev, MFil, Res, Sel, What};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Results as sets and relative order, ties in any order.
    Full,
    /// Results as exact sequences.
    Strict,
    /// Only whether there is an answer.
    Presence,
    None,
}

struct Oracle {
    mode: Mode,
    orders: BTreeMap<(usize, String), Option<Vec<String>>>,
    memo: BTreeMap<(usize, String), Vec<(String, f32)>>,
    suggested: BTreeMap<(usize, String), Option<(String, String)>>,
    goods: BTreeMap<usize, usize>, // successful loads per catalogue
    why: String,
}

impl Oracle {
    fn ordered(&mut self, g: usize, o: &str) -> Option<&Vec<String>> {
        self.orders
            .entry((g, o.to_string()))
            .or_insert_with(|| {
                rt::set_epoch(50_000 + g as u64);
                let (ix, cl) = cat::load_ref::<5>(&sh().files[g]).expect("a good file decodes");
                cat::ordered(&ix, &cl, o)
            })
            .as_ref()
    }
    fn search(&mut self, g: usize, q: &str) -> Vec<(String, f32)> {
        let k = (g, q.to_string());
        if !self.memo.contains_key(&k) {
            let v = sh().alone[g].search(q);
            self.memo.insert(k.clone(), v);
        }
        self.memo[&k].clone()
    }

    /// The expected result in groups: within a group any order is right.
    fn expected(&mut self, g: usize, q: &str, order: &Option<String>, f: &[MFil], ch: &Sel, th: &Sel) -> Vec<Vec<String>> {
        let c = &sh().world.cats[g];
        let all = self.search(g, q);
        let pass = |p: &Prod| {
            ch.cats.iter().all(|(cn, on)| p.has_option(cn, on)) && th.tags.iter().all(|t| p.has_tag(t)) && f.iter().all(|f| filter_ok(p, f))
        };
        let kept: Vec<(&Prod, f32)> = all.iter().filter_map(|(id, cf)| c.by_id(id).map(|p| (p, *cf))).filter(|(p, _)| pass(p)).collect();
        let mut groups: Vec<Vec<String>> = Vec::new();
        match order {
            None if self.mode == Mode::Strict => groups.extend(kept.iter().map(|(p, _)| vec![p.id.clone()])),
            None => {
                let mut last = f32::NAN;
                for (p, cf) in kept {
                    if cf == last {
                        groups.last_mut().unwrap().push(p.id.clone());
                    } else {
                        groups.push(vec![p.id.clone()]);
                    }
                    last = cf;
                }
            }
            Some(o) if self.mode == Mode::Strict && self.ordered(g, o).is_some() => {
                let kept: BTreeSet<&str> = kept.iter().map(|(p, _)| p.id.as_str()).collect();
                groups.extend(self.ordered(g, o).unwrap().iter().filter(|i| kept.contains(i.as_str())).map(|i| vec![i.clone()]));
            }
            Some(o) => {
                let mut v = kept;
                v.sort_by(|(a, _), (b, _)| match o.as_str() {
                    "Alphabetical" => a.title.cmp(&b.title),
                    "Price low to high" => a.price().total_cmp(&b.price()),
                    _ => b.price().total_cmp(&a.price()),
                });
                let mut last: Option<&Prod> = None;
                for (p, _) in v {
                    let same = last.map_or(false, |l| if o == "Alphabetical" { l.title == p.title } else { l.price() == p.price() });
                    if same {
                        groups.last_mut().unwrap().push(p.id.clone());
                    } else {
                        groups.push(vec![p.id.clone()]);
                    }
                    last = Some(p);
                }
            }
        }
        groups
    }

    fn accepts(&mut self, e: &Ev, state: Option<usize>) -> bool {
        match (&e.what, &e.res) {
            (What::Build { .. }, _) => true,
            (What::Load { .. }, _) => true, // judged when executed
            (What::Listing { .. }, Res::Gens(g)) => match (g, state) {
                (None, None) => true,
                (Some(gs), Some(s)) => self.mode == Mode::Presence || gs.contains(&s),
                _ => false,
            },
            (What::Orders, Res::Names(n)) => n.is_some() == state.is_some(),
            (What::Suggest { q }, Res::Sugg(r)) => match (r, state) {
                (None, None) => true,
                (Some(_), None) => false,
                (r, Some(s)) => {
                    let tags = &sh().tag_lists[s];
                    // How close non-ASCII words count as is not this property's business.
                    let sure = q.split(' ').any(|w| w.len() >= 3 && w.is_ascii() && tags.contains(w));
                    if self.mode == Mode::Presence {
                        return true;
                    }
                    let want = self.suggested.entry((s, q.clone())).or_insert_with(|| sh().alone[s].suggest(q));
                    self.why = format!("catalogue {s} alone suggests {want:?}");
                    want == r
                        && match r {
                            None => !sure,
                            Some((tag, word)) => tags.contains(tag) && q.split(' ').any(|w| w == word),
                        }
                }
            },
            (What::Search { q, order, filt, ch, th }, r) => self.accepts_search(state, q, order, filt.as_deref(), ch, th, r),
            _ => true,
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn accepts_search(&mut self, state: Option<usize>, q: &str, order: &Option<String>, filt: Option<&[MFil]>, ch: &Sel, th: &Sel, r: &Res) -> bool {
        let Some(filt) = filt else { return true };
        if ch.foreign || th.foreign {
            return true;
        }
        let found = match r {
            Res::Found(f) => *f,
            _ => return false,
        };
        let none = found.is_none();
        let Some(g) = state else {
            self.why = "nothing was loaded".into();
            return none;
        };
        if order.as_ref().map_or(false, |o| !cat::ORDERS.contains(&o.as_str())) {
            self.why = format!("order {order:?} does not exist");
            return none;
        }
        for s in [ch, th] {
            if s.active() && !s.gens.contains(&g) {
                self.why = format!("selections of catalogue(s) {:?} are stale on catalogue {g}", s.gens);
                return none || found.map_or(false, |f| hist().found[f].products.is_empty());
            }
        }
        let Some(fi) = found else {
            // No answer: right only if a selection may be on an earlier load of this same catalogue.
            self.why = format!("catalogue {g} was loaded and must answer");
            return [ch, th].iter().any(|s| s.active() && (s.gens.len() > 1 || self.goods.get(&g).copied().unwrap_or(0) > 1));
        };
        if self.mode == Mode::Presence {
            return true;
        }
        let want = self.expected(g, q, order, filt, ch, th);
        let f = &hist().found[fi];
        let got: Vec<&str> = f.products.iter().map(|s| s.id.as_str()).collect();
        let total: usize = want.iter().map(Vec::len).sum();
        self.why = format!("catalogue {g} gives {}", short_groups(&want));
        if (f.complete && got.len() != total) || got.len() > total {
            return false;
        }
        let mut i = 0;
        for grp in &want {
            let set: BTreeSet<&str> = grp.iter().map(|s| s.as_str()).collect();
            let end = (i + grp.len()).min(got.len());
            let have: BTreeSet<&str> = got[i..end].iter().copied().collect();
            if have.len() != end - i || !have.is_subset(&set) {
                return false;
            }
            i = end;
        }
        if child::enabled("fields") {
            let c = &sh().world.cats[g];
            for s in &f.products {
                if let Some(w) = c.by_id(&s.id).and_then(|p| cat::shown_wrong(s, p)) {
                    self.why = format!("in catalogue {g} {w}");
                    return false;
                }
            }
        }
        true
    }
}
fn short_groups(g: &[Vec<String>]) -> String {
    let n: usize = g.iter().map(Vec::len).sum();
    let mut s = String::new();
    for (i, x) in g.iter().enumerate() {
        if i >= 12 {
            s.push_str(" …");
            break;
        }
        if i > 0 {
            s.push(' ');
        }
        let names: Vec<&str> = x.iter().map(|s| s.rsplit('/').next().unwrap()).collect();
        s.push_str(&if names.len() == 1 { names[0].to_string() } else { format!("{{{}}}", names.join(" ")) });
    }
    format!("{n} products: {s}")
}

fn filter_ok(p: &Prod, f: &MFil) -> bool {
    match f {
        MFil::Range(k, from, to) => {
            if k != "price" {
                return false; // no such number on any product
            }
            let v = f64::from(p.price());
            from.map_or(true, |x| x <= v) && to.map_or(true, |x| v <= x)
        }
        MFil::ExactNum(k, v) => k == "price" && f64::from(p.price()) == *v,
        MFil::ExactStr(k, v) => k == "image_url" && p.image() == Some(v.as_str()),
    }
}

/// Judges the whole history.
pub fn judge(mode: Mode) {
    let h = hist();
    // What every product list shows must be some catalogue's product, in its own words.
    for f in &h.found {
        let mut seen = BTreeSet::new();
        for s in &f.products {
            if !seen.insert(&s.id) {
                child::violation("products", format!("a search result contains product {} twice", s.id));
            }
            // Editions of a catalogue share identifiers.
            let mut wrong = Some(format!("a search result shows product {:?}, which no catalogue contains", s.id));
            for p in sh().world.cats.iter().filter_map(|c| c.by_id(&s.id)) {
                wrong = cat::shown_wrong(s, p);
                if wrong.is_none() {
                    break;
                }
            }
            if let Some(w) = wrong {
                child::violation("fields", w);
            }
        }
    }
    for e in &h.evs {
        if let (What::Search { filt: Some(_), ch, th, .. }, Res::Failed(m) | Res::Throw(m)) = (&e.what, &e.res) {
            if !ch.foreign && !th.foreign {
                child::violation("call-failed", format!("search in operation {} of thread {} ended abnormally: {m}", e.op, e.tid));
            }
        }
    }
    if mode == Mode::None {
        return;
    }
    let mut o = Oracle { mode, orders: BTreeMap::new(), memo: BTreeMap::new(), suggested: BTreeMap::new(), goods: BTreeMap::new(), why: String::new() };
    for e in &h.evs {
        if let (What::Load { g, good: true }, Res::Loaded(true)) = (&e.what, &e.res) {
            *o.goods.entry(*g).or_insert(0) += 1;
        }
    }
    let evs: Vec<&Ev> = h
        .evs
        .iter()
        .filter(|e| match (&e.what, &e.res) {
            (What::Build { .. }, _) => false,
            (What::Load { good, .. }, Res::Loaded(true)) => *good,
            (What::Load { .. }, _) => false,
            _ => true,
        })
        .collect();
    child::evals(evs.len() as u64);
    child::count("calls judged", evs.len() as u64);
    // Loads that overlap other calls and non-empty answers make a run worth something.
    let overlap = evs.iter().any(|e| {
        matches!(e.what, What::Load { .. }) && evs.iter().any(|x| !matches!(x.what, What::Load { .. }) && x.call < e.ret && e.call < x.ret)
    });
    if overlap {
        child::count("runs with a query overlapping a load", 1);
    }
    let n = evs.len();
    if n > 3000 {
        child::count("histories too long to judge", 1);
        return;
    }
    let mut s = Search { evs: &evs, seen: HashSet::new(), best: 0, best_why: String::new(), nodes: 0 };
    let done = vec![0u64; n / 64 + 1];
    let ok = s.go(&mut o, done, None, 0);
    if s.nodes > MAX_NODES {
        child::count("histories too long to judge", 1);
    } else if !ok {
        let why = s.best_why.clone();
        child::violation("answers", format!("no order of the calls explains the answers: {why}"));
    }
}

const MAX_NODES: u64 = 200_000;

struct Search<'a> {
    evs: &'a [&'a Ev],
    seen: HashSet<(Vec<u64>, Option<usize>)>,
    best: usize,
    best_why: String,
    nodes: u64,
}
impl Search<'_> {
    fn go(&mut self, o: &mut Oracle, mut done: Vec<u64>, state: Option<usize>, mut count: usize) -> bool {
        self.nodes += 1;
        if self.nodes > MAX_NODES {
            return false;
        }
        let is = |d: &[u64], i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        loop {
            // The next calls: those no unfinished call ended before.
            let horizon = (0..self.evs.len()).filter(|&i| !is(&done, i)).map(|i| self.evs[i].ret).min();
            let Some(horizon) = horizon else { return true };
            let minimal: Vec<usize> = (0..self.evs.len()).filter(|&i| !is(&done, i) && self.evs[i].call <= horizon).collect();
            let mut moved = false;
            let mut stuck = Vec::new();
            for &i in &minimal {
                if !matches!(self.evs[i].what, What::Load { .. }) {
                    o.why.clear();
                    if o.accepts(self.evs[i], state) {
                        done[i / 64] |= 1 << (i % 64);
                        count += 1;
                        moved = true;
                    } else {
                        stuck.push((i, o.why.clone()));
                    }
                }
            }
            if moved {
                continue;
            }
            if !self.seen.insert((done.clone(), state)) {
                return false;
            }
            if count >= self.best {
                self.best = count;
                let d: Vec<String> = stuck
                    .iter()
                    .map(|(i, why)| {
                        let e = self.evs[*i];
                        let res = match &e.res {
                            Res::Found(Some(f)) => {
                                let p: Vec<Vec<String>> = hist().found[*f].products.iter().map(|s| vec![s.id.clone()]).collect();
                                format!("returned {}", short_groups(&p))
                            }
                            Res::Found(None) => "returned no result".into(),
                            r => format!("returned {r:?}"),
                        };
                        format!("operation {} of thread {} ({:?}) {res}{}{}", e.op, e.tid, e.what, if why.is_empty() { "" } else { ", but " }, why)
                    })
                    .collect();
                self.best_why = format!("with catalogue {state:?} loaded, {}", d.join("; "));
            }
            for &i in &minimal {
                if let What::Load { g, .. } = self.evs[i].what {
                    let mut d = done.clone();
                    d[i / 64] |= 1 << (i % 64);
                    if self.go(o, d, Some(g), count + 1) {
                        return true;
                    }
                }
            }
            return false;
        }
    }
}
