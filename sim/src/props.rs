//! The properties: what a run of each looks like and which observations count against it.
use crate::cat::Shape;
use crate::judge::Mode;
use crate::plan::{Kind, Mix, World};
use crate::rt::{Policy, Rng};
use crate::{child, cli, codec, doc, files, judge, par, plan, rt, world};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    World(World),
    Par(par::Par),
    Cut(files::Cut),
    Harm(files::Harm),
    Rebuild(files::Rebuild),
    Codec(codec::Codec),
    Cli(cli::Cli),
    Doc(doc::Doc),
}
impl Case {
    pub fn policy(&mut self) -> Option<&mut Policy> {
        match self {
            Case::World(w) => Some(&mut w.policy),
            Case::Par(p) => Some(&mut p.policy),
            _ => None,
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub classes: &'static [&'static str],
    pub mode: Mode,
    pub gen: fn(u64, bool) -> Case,
    /// Simulated runs: quick, thorough.
    pub runs: (usize, usize),
    pub cpu_s: u64,
    /// What makes a run worth counting.
    pub rule: &'static str,
    pub distinct: &'static str,
}

const FATAL: [&str; 5] = ["deadlock", "no-progress", "memory", "crash", "call-failed"];

pub fn enable(p: &Prop) {
    let mut c = FATAL.to_vec();
    c.extend(p.classes);
    child::enable(&c);
}

/// Runs the case in this process (a child made for it).
pub fn execute(p: &Prop, c: &Case) {
    enable(p);
    match c {
        Case::World(w) => {
            world::run(w, matches!(p.mode, Mode::Full | Mode::Strict));
            world_nontrivial(p.id, w);
            child::set_status("judging the history");
            judge::judge(p.mode);
            world::sh().alone.iter().for_each(|s| s.stop());
            if p.classes.contains(&"contents") {
                world::check_built();
            }
        }
        Case::Par(x) => par::run(x),
        Case::Cut(x) => files::run_cut(x),
        Case::Harm(x) => files::run_harm(x),
        Case::Rebuild(x) => files::run_rebuild(x),
        Case::Codec(x) => codec::run(x),
        Case::Cli(x) => cli::run(x),
        Case::Doc(x) => doc::run(x),
    }
}

fn world_nontrivial(id: &str, w: &World) {
    use world::{Res, What};
    let h = world::hist();
    let shown: usize = h.found.iter().map(|f| f.products.len()).sum();
    let goods = h.evs.iter().filter(|e| matches!((&e.what, &e.res), (What::Load { good: true, .. }, Res::Loaded(true)))).count();
    let bads = h.evs.iter().filter(|e| matches!(&e.what, What::Load { good: false, .. })).count();
    let searches = h.evs.iter().filter(|e| matches!(&e.what, What::Search { .. })).count();
    let selected = h
        .evs
        .iter()
        .any(|e| matches!((&e.what, &e.res), (What::Search { ch, th, filt, .. }, Res::Found(_)) if ch.active() || th.active() || filt.as_ref().map_or(false, |f| !f.is_empty())));
    let ordered = h.evs.iter().any(|e| matches!(&e.what, What::Search { order: Some(_), .. }));
    let st = rt::stats();
    let ok = match id {
        "C01" => goods >= 2 && shown > 0 && w.threads.len() > 1 && st.preempts > 0,
        "C02" => bads > 0 && shown > 0,
        "C06" => st.preempts > 0 && searches > 1,
        "C07" => goods >= 2 && shown > 0,
        "C08" => selected && shown > 0,
        "C09" => searches >= 3 && shown > 0,
        "C10" => ordered && shown > 0,
        "C11" | "C12" => child::counter("listener calls checked") > 0 || child::counter("switches") > 1,
        "C13" => shown > 0 && goods > 0,
        "C16" => st.preempts > 0 && (goods >= 2 || !h.built.is_empty()),
        _ => true,
    };
    if ok {
        child::nontrivial();
    }
}

// ------------------------------------------------------------------ workloads

fn base() -> Mix {
    Mix {
        threads: (2, 4),
        gens: (2, 3),
        ops: (3, 7),
        shape: Shape::new(2, 7, false),
        init: 0.85,
        reload_editions: 0.5,
        twins: 0.2,
        w: vec![],
        loader: 0.8,
        reenter: 0.15,
        foreign: 0.0,
        bad_filter: 0.0,
        filters: 0.3,
        orders: 0.4,
        unknown_order: 0.0,
        same_queries: false,
        empty_cat: 0.05,
    }
}
use Kind::*;
fn c01(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.w = vec![(4, Load), (2, Get), (2, Orders), (2, Suggest), (3, Toggle), (7, Search), (1, Next)];
    m.init = 0.9;
    World(&m, seed)
}
#[allow(non_snake_case)]
fn World(m: &Mix, seed: u64) -> Case {
    Case::World(plan::gen_world(seed, m))
}
/// As `World`, now and then with hundreds of products and vendors.
fn crowded(m: &Mix, seed: u64) -> Case {
    let mut m = m.clone();
    if Rng::new(seed ^ 0xc0).chance(0.02) {
        m.shape = Shape { crowd: true, huge: 420, ..m.shape };
        m.threads = (1, 2);
        m.gens = (1, 2);
    }
    World(&m, seed)
}
fn c02(seed: u64, _t: bool) -> Case {
    let mut m = base();
    let mut r = Rng::new(seed ^ 2);
    m.threads = if r.chance(0.5) { (1, 1) } else { (2, 3) };
    m.init = 0.75;
    m.w = vec![(2, Load), (6, BadLoad), (2, Get), (2, Orders), (2, Suggest), (2, Toggle), (6, Search), (1, Next)];
    crowded(&m, seed)
}
fn c06(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.ops = (3, 8);
    m.reenter = 0.5;
    m.foreign = 0.3;
    m.bad_filter = 0.35;
    m.filters = 0.6;
    m.unknown_order = 0.35;
    m.orders = 0.6;
    m.w = vec![(3, Load), (2, BadLoad), (1, Build), (3, Get), (2, Orders), (2, Suggest), (4, Toggle), (2, Listen), (7, Search), (1, Next), (1, List)];
    m.shape = Shape::new(1, 5, false);
    World(&m, seed)
}
fn c07(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.gens = (2, 4);
    m.threads = (1, 3);
    m.ops = (5, 10);
    m.w = vec![(5, Load), (2, BadLoad), (2, Build), (3, Get), (3, IterNew), (4, IterNext), (3, OptNext), (2, List), (3, Toggle), (1, Orders), (6, Search), (4, Next), (1, Suggest)];
    m.shape = Shape::new(2, 6, true);
    crowded(&m, seed)
}
fn c08(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.gens = (1, 2);
    m.threads = (1, 2);
    m.ops = (6, 14);
    m.filters = 0.6;
    m.loader = 0.2;
    m.init = 1.0;
    m.w = vec![(1, Load), (2, Get), (8, Toggle), (2, Status), (8, Search), (1, Probe)];
    m.shape = Shape::new(4, 12, false).huge(70);
    crowded(&m, seed)
}
fn c09(seed: u64, _t: bool) -> Case {
    let mut m = base();
    let mut r = Rng::new(seed ^ 9);
    m.gens = (1, 2);
    m.threads = (1, 3);
    m.ops = (5, 10);
    m.same_queries = true;
    m.init = 1.0;
    m.loader = 0.2;
    m.orders = 0.3;
    m.unknown_order = 0.1;
    m.empty_cat = 0.0;
    m.w = vec![(1, Load), (1, BadLoad), (1, Get), (2, Toggle), (9, Search), (1, Suggest)];
    // Many products alike, so that equal confidences abound.
    m.shape = if r.chance(0.5) { Shape::new(6, 16, false) } else { Shape::new(2, 8, false) };
    crowded(&m, seed)
}
fn c10(seed: u64, _t: bool) -> Case {
    let mut m = base();
    let mut r = Rng::new(seed ^ 10);
    m.gens = (1, 3);
    m.threads = if r.chance(0.6) { (1, 1) } else { (2, 3) };
    m.orders = 0.85;
    m.unknown_order = 0.15;
    m.init = 1.0;
    m.filters = 0.25;
    m.w = vec![(2, Load), (1, BadLoad), (2, Orders), (2, Toggle), (8, Search)];
    m.shape = Shape::new(3, 14, false).huge(140).wild(0.35);
    crowded(&m, seed)
}
fn c11(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.gens = (1, 2);
    m.threads = (1, 2);
    m.ops = (10, 24);
    m.init = 1.0;
    m.loader = 0.1;
    m.reenter = 0.35;
    m.empty_cat = 0.0;
    m.w = vec![(1, Load), (1, Get), (10, Toggle), (7, Listen), (3, Unlisten), (1, Search), (1, Status)];
    m.shape = Shape::new(2, 6, false);
    World(&m, seed)
}
fn c12(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.gens = (1, 3);
    m.threads = (1, 2);
    m.ops = (12, 30);
    m.init = 1.0;
    m.reenter = 0.35;
    m.empty_cat = 0.0;
    m.w = vec![(2, Load), (1, BadLoad), (1, Build), (2, Get), (14, Toggle), (6, Status), (3, Listen), (2, Unlisten), (1, Search)];
    m.shape = Shape::new(2, 6, false);
    crowded(&m, seed)
}
fn c13(seed: u64, _t: bool) -> Case {
    let mut m = base();
    m.gens = (1, 2);
    m.threads = (1, 2);
    m.ops = (8, 16);
    m.init = 1.0;
    m.loader = 0.1;
    m.filters = 0.0;
    m.w = vec![(1, Load), (2, Get), (1, Orders), (2, List), (4, IterNew), (8, IterNext), (6, OptNext), (7, Probe)];
    m.shape = Shape::new(2, 10, false).huge(70);
    crowded(&m, seed)
}
fn c16(seed: u64, _t: bool) -> Case {
    let mut r = Rng::new(seed ^ 16);
    if r.chance(0.5) {
        return Case::Par(par::gen(seed, (2, 4), false, Shape::new(1, 5, false)));
    }
    let mut m = base();
    m.gens = (2, 3);
    m.threads = (2, 4);
    m.ops = (2, 4);
    m.loader = 0.5;
    m.reenter = 0.0;
    m.w = vec![(3, Load), (5, Build), (1, Get), (3, Search), (1, Next)];
    m.shape = Shape::new(1, 5, false);
    World(&m, seed)
}
fn c05(seed: u64, _t: bool) -> Case {
    let mut r = Rng::new(seed ^ 5);
    let max = *r.pick(&[3usize, 8, 16]);
    Case::Par(par::gen(seed, if r.chance(0.5) { (1, 1) } else { (2, 3) }, r.chance(0.5), Shape::new(1, max, true).huge(420).wild(0.4)))
}
fn c03(seed: u64, t: bool) -> Case {
    Case::Cut(files::gen_cut(seed, t))
}
fn c04(seed: u64, _t: bool) -> Case {
    Case::Harm(files::gen_harm(seed))
}
fn c14(seed: u64, _t: bool) -> Case {
    Case::Rebuild(files::gen_rebuild(seed))
}
fn c15(seed: u64, _t: bool) -> Case {
    Case::Codec(codec::gen(seed))
}
fn c17(seed: u64, _t: bool) -> Case {
    Case::Cli(cli::gen(seed))
}

fn c23(seed: u64, _t: bool) -> Case {
    Case::Doc(doc::gen(seed))
}

const SCHED: &str = "distinct schedules: number of different sequences of (thread, operation, basic block) hand-overs among the runs";
const DIGEST: &str = "distinct runs: number of different event-log digests among the runs";

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", classes: &["answers", "listing", "fields", "products"], mode: Mode::Full, gen: c01, runs: (24000, 200000), cpu_s: 20,
        rule: "at least two successful loads, at least one product shown, at least two threads and at least one preemption", distinct: SCHED },
    Prop { id: "C02", classes: &["answers", "accepted", "fields", "products"], mode: Mode::Full, gen: c02, runs: (36000, 300000), cpu_s: 20,
        rule: "at least one failing load and at least one product shown", distinct: DIGEST },
    Prop { id: "C03", classes: &["cut", "whole"], mode: Mode::None, gen: c03, runs: (1800, 15000), cpu_s: 60,
        rule: "a catalogue of at least two products was cut", distinct: DIGEST },
    Prop { id: "C04", classes: &["harm"], mode: Mode::None, gen: c04, runs: (6000, 60000), cpu_s: 60,
        rule: "at least one damaged file was accepted as a catalogue and then used", distinct: DIGEST },
    Prop { id: "C05", classes: &["contents"], mode: Mode::None, gen: c05, runs: (14000, 150000), cpu_s: 30,
        rule: "at least one query with results was compared", distinct: DIGEST },
    Prop { id: "C06", classes: &["answers"], mode: Mode::Presence, gen: c06, runs: (34000, 300000), cpu_s: 20,
        rule: "at least one preemption and at least two searches", distinct: SCHED },
    Prop { id: "C07", classes: &["answers", "handle-changed", "listing", "fields", "products"], mode: Mode::Full, gen: c07, runs: (24000, 200000), cpu_s: 20,
        rule: "at least two successful loads and at least one product shown", distinct: DIGEST },
    Prop { id: "C08", classes: &["answers", "products"], mode: Mode::Full, gen: c08, runs: (40000, 400000), cpu_s: 20,
        rule: "at least one search with an active selection or filter, and at least one product shown", distinct: DIGEST },
    Prop { id: "C09", classes: &["answers", "products"], mode: Mode::Strict, gen: c09, runs: (25000, 240000), cpu_s: 20,
        rule: "at least three searches and at least one product shown", distinct: DIGEST },
    Prop { id: "C10", classes: &["answers", "listing", "products"], mode: Mode::Full, gen: c10, runs: (32000, 275000), cpu_s: 20,
        rule: "at least one ordered search and at least one product shown", distinct: DIGEST },
    Prop { id: "C11", classes: &["listeners"], mode: Mode::None, gen: c11, runs: (70000, 500000), cpu_s: 20,
        rule: "at least one expected listener call, or two switches", distinct: DIGEST },
    Prop { id: "C12", classes: &["parity"], mode: Mode::None, gen: c12, runs: (45000, 400000), cpu_s: 20,
        rule: "at least one expected listener call, or two switches", distinct: DIGEST },
    Prop { id: "C13", classes: &["listing", "answers"], mode: Mode::Full, gen: c13, runs: (50000, 400000), cpu_s: 20,
        rule: "a catalogue was loaded and at least one product shown", distinct: DIGEST },
    Prop { id: "C14", classes: &["contents"], mode: Mode::None, gen: c14, runs: (26000, 250000), cpu_s: 30,
        rule: "products arrived in at least two different orders", distinct: DIGEST },
    Prop { id: "C15", classes: &["codec"], mode: Mode::None, gen: c15, runs: (40000, 425000), cpu_s: 30,
        rule: "a stream of more than four bytes", distinct: DIGEST },
    Prop { id: "C16", classes: &["contents", "answers", "fields", "products", "handle-changed"], mode: Mode::Full, gen: c16, runs: (16000, 140000), cpu_s: 30,
        rule: "at least one preemption (and at least two loads or one build)", distinct: SCHED },
    Prop { id: "C17", classes: &["output"], mode: Mode::None, gen: c17, runs: (60000, 750000), cpu_s: 30,
        rule: "at least one fault or limited transfer size", distinct: DIGEST },
    Prop { id: "C23", classes: &["harm"], mode: Mode::None, gen: c23, runs: (6000, 60000), cpu_s: 60,
        rule: "at least one damaged document was indexed and then used", distinct: DIGEST },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
