//! Executes a world plan against the real engine under the simulated scheduler and host, recording
//! a history; what can be judged on the spot (listeners, parity, listings) is.
use crate::cat::{self, Shown};
use crate::child::{self, guard, Got};
use crate::plan::*;
use crate::rt;
use indexer_lib::js_interactable::{
    CategoryHandler, CategoryIter, CategoryOptionIter, ExportCategoryOption, JSTag, ProductProducer, TagHandler, TagIter,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ptr::addr_of_mut;
use std::rc::Rc;
use wasm_bindgen::{host, JsCast, JsValue};

pub const SLOTS: usize = 4;

/// The selections a search ran with.
#[derive(Clone, Debug, Default)]
pub struct Sel {
    pub gens: Vec<usize>,
    pub cats: Vec<(String, String)>,
    pub tags: Vec<String>,
    pub foreign: bool,
}
impl Sel {
    pub fn active(&self) -> bool {
        self.foreign || !self.cats.is_empty() || !self.tags.is_empty()
    }
}
/// Filters as the model sees them; `None`: malformed or throwing.
#[derive(Clone, Debug)]
pub enum MFil {
    Range(String, Option<f64>, Option<f64>),
    ExactNum(String, f64),
    ExactStr(String, String),
}
#[derive(Clone, Debug)]
pub enum What {
    Load { g: usize, good: bool },
    Build { g: usize },
    Listing { cat: bool },
    Orders,
    Suggest { q: String },
    Search { q: String, order: Option<String>, filt: Option<Vec<MFil>>, ch: Sel, th: Sel },
}
#[derive(Clone, Debug)]
pub enum Res {
    Loaded(bool),
    Failed(String),
    Throw(String),
    /// For listings: which catalogues' listings it matches; `None`: nothing is loaded.
    Gens(Option<Vec<usize>>),
    Names(Option<Vec<String>>),
    Sugg(Option<(String, String)>),
    Found(Option<usize>),
    Built(Option<usize>),
}
pub struct Ev {
    pub tid: i32,
    pub op: u32,
    pub nested: bool,
    pub call: u64,
    pub ret: u64,
    pub what: What,
    pub res: Res,
}
#[derive(Default)]
pub struct Found {
    pub products: Vec<Shown>,
    pub complete: bool,
}
pub struct Hist {
    pub evs: Vec<Ev>,
    pub found: Vec<Found>,
    pub built: Vec<(usize, Vec<u8>)>,
}
static mut HIST: Option<Hist> = None;
#[allow(static_mut_refs)]
pub fn hist() -> &'static mut Hist {
    unsafe { (*addr_of_mut!(HIST)).get_or_insert_with(|| Hist { evs: vec![], found: vec![], built: vec![] }) }
}

/// Read-only data shared by the simulated threads.
pub struct Shared {
    pub world: World,
    pub files: Vec<Vec<u8>>,
    pub json: Vec<String>,
    /// Damaged files of the plan's failing loads, by (step, position in it); `None`: not a failing
    /// load (the damage left a file that decodes).
    pub damaged: RefCell<BTreeMap<String, Option<Vec<u8>>>>,
    pub cat_lists: Vec<BTreeMap<String, BTreeSet<String>>>,
    pub tag_lists: Vec<BTreeSet<String>>,
    pub left: std::cell::Cell<usize>,
    /// Loads begun and ended.
    pub loads: std::cell::Cell<(u64, u64)>,
    /// The engine alone with each file; empty if nothing needs it.
    pub alone: Vec<crate::alone::Server>,
}
fn loads() -> (u64, u64) {
    sh().loads.get()
}
/// The load current throughout, if none was under way since `before`.
fn same_load(before: (u64, u64)) -> Option<u64> {
    (before.0 == before.1 && loads() == before).then_some(before.0)
}
static mut SH: Option<Shared> = None;
#[allow(static_mut_refs)]
pub fn sh() -> &'static Shared {
    unsafe { (*addr_of_mut!(SH)).as_ref().unwrap() }
}

struct Lis {
    id: u32,
    item: Option<usize>,
    f: js_sys::Function,
    alive: bool,
}
#[derive(Default)]
struct Model {
    active: BTreeSet<usize>,
    foreign: bool,
    lis: Vec<Lis>,
}
struct CatH {
    h: RefCell<CategoryHandler>,
    items: Vec<(String, String, ExportCategoryOption)>,
    gens: Vec<usize>,
    /// Which load it is of, where that is certain.
    load: Option<u64>,
    m: RefCell<Model>,
}
struct TagH {
    h: RefCell<TagHandler>,
    items: Vec<(String, JSTag)>,
    gens: Vec<usize>,
    /// Which load it is of, where that is certain.
    load: Option<u64>,
    m: RefCell<Model>,
}
struct CIt {
    it: RefCell<CategoryIter>,
    gens: Vec<usize>,
    seen: RefCell<Vec<String>>,
}
struct OIt {
    it: RefCell<CategoryOptionIter>,
    gens: Vec<usize>,
    cat: String,
    seen: RefCell<Vec<String>>,
}
struct TIt {
    it: RefCell<TagIter>,
    gens: Vec<usize>,
    seen: RefCell<Vec<String>>,
}
struct Prods {
    p: RefCell<ProductProducer>,
    found: usize,
}
type Slot<T> = RefCell<Vec<Option<Rc<T>>>>;
fn slots<T>() -> Slot<T> {
    RefCell::new((0..SLOTS).map(|_| None).collect())
}
fn get<T>(s: &Slot<T>, i: usize) -> Option<Rc<T>> {
    s.borrow()[i % SLOTS].clone()
}
fn put<T>(s: &Slot<T>, i: usize, v: Option<Rc<T>>) {
    // The old value is dropped outside the borrow.
    let old = std::mem::replace(&mut s.borrow_mut()[i % SLOTS], v);
    drop(old);
}
struct Ctx {
    cats: Slot<CatH>,
    tags: Slot<TagH>,
    cits: Slot<CIt>,
    oits: Slot<OIt>,
    tits: Slot<TIt>,
    prods: Slot<Prods>,
    held: RefCell<Vec<(indexer_lib_js::Held, Shown)>>,
    suggested: RefCell<Vec<(Box<dyn Fn() -> (String, String)>, (String, String))>>,
    calls: Rc<RefCell<Vec<(u32, Option<bool>)>>>,
    next_lis: std::cell::Cell<u32>,
    depth: std::cell::Cell<usize>,
    op: std::cell::Cell<u32>,
    keep: RefCell<Vec<Rc<Prods>>>,
    all_cits: RefCell<Vec<Rc<CIt>>>,
    all_tits: RefCell<Vec<Rc<TIt>>>,
    all_oits: RefCell<Vec<Rc<OIt>>>,
    hoard_c: RefCell<Vec<Rc<CatH>>>,
    hoard_t: RefCell<Vec<Rc<TagH>>>,
}
/// `JsProduct` is only nameable through inference (its module does not export it).
mod indexer_lib_js {
    pub type Held = Box<dyn Fn() -> crate::cat::Shown>;
}

fn ev(cx: &Ctx, what: What, call: u64, res: Res) {
    let ret = rt::stamp();
    let e = Ev { tid: rt::tid(), op: cx.op.get(), nested: cx.depth.get() > 0, call, ret, what, res };
    child::log(|| format!("t{} op{}{} [{}..{}] {:?} -> {:?}", e.tid, e.op, if e.nested { "'" } else { "" }, e.call, e.ret, e.what, e.res));
    hist().evs.push(e);
}
fn say(cx: &Ctx, s: impl FnOnce() -> String) {
    child::log(|| format!("t{} op{} {}", rt::tid(), cx.op.get(), s()));
}
fn unexpected(cx: &Ctx, what: &str, how: &str) {
    child::violation("call-failed", format!("{what} in operation {} of thread {} ended abnormally: {how}", cx.op.get(), rt::tid()));
}

fn list_cats(h: &CategoryHandler) -> Vec<(String, Vec<(String, ExportCategoryOption)>)> {
    let mut out = Vec::new();
    let mut it = h.iter();
    while let Some(mut c) = it.next_item() {
        let name = c.name();
        let mut opts = Vec::new();
        while let Some(o) = c.next_item() {
            opts.push((o.get_name(), o));
            if opts.len() > 10_000 {
                break;
            }
        }
        if c.next_item().is_some() {
            child::violation("listing", format!("the options of {name:?} go on after their end"));
        }
        out.push((name, opts));
        if out.len() > 10_000 {
            break;
        }
    }
    if it.next_item().is_some() {
        child::violation("listing", "the categories go on after their end".into());
    }
    out
}
fn list_tags(h: &TagHandler) -> Vec<(String, JSTag)> {
    let mut out = Vec::new();
    let mut it = h.tags();
    while let Some(t) = it.next_tag() {
        out.push((t.get_name(), t));
        if out.len() > 10_000 {
            break;
        }
    }
    if it.next_tag().is_some() {
        child::violation("listing", "the tags go on after their end".into());
    }
    out
}
fn cat_gens(l: &[(String, Vec<String>)]) -> Vec<usize> {
    let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (c, o) in l {
        let s: BTreeSet<String> = o.iter().cloned().collect();
        if s.len() != o.len() || m.insert(c.clone(), s).is_some() {
            return vec![];
        }
    }
    (0..sh().cat_lists.len()).filter(|&g| sh().cat_lists[g] == m).collect()
}
fn tag_gens(l: &[String]) -> Vec<usize> {
    let s: BTreeSet<String> = l.iter().cloned().collect();
    if s.len() != l.len() {
        return vec![];
    }
    (0..sh().tag_lists.len()).filter(|&g| sh().tag_lists[g] == s).collect()
}
fn not_any(what: &str, l: &dyn std::fmt::Debug) {
    child::violation("listing", format!("{what} lists {l:?}, which is no catalogue's listing, or not each item once"));
}

fn get_cat_handler(cx: &Ctx) -> Option<Rc<CatH>> {
    let call = rt::stamp();
    let before = loads();
    let r = guard(|| {
        indexer_lib::get_categories().map(|h| {
            let l = list_cats(&h);
            (h, l)
        })
    });
    match r {
        Got::Ok(None) => {
            ev(cx, What::Listing { cat: true }, call, Res::Gens(None));
            None
        }
        Got::Ok(Some((h, l))) => {
            let names: Vec<(String, Vec<String>)> = l.iter().map(|(n, o)| (n.clone(), o.iter().map(|x| x.0.clone()).collect())).collect();
            let gens = cat_gens(&names);
            if gens.is_empty() {
                not_any("get_categories", &names);
            }
            ev(cx, What::Listing { cat: true }, call, Res::Gens(Some(gens.clone())));
            let items = l.into_iter().flat_map(|(c, o)| o.into_iter().map(move |(n, x)| (c.clone(), n, x))).collect();
            Some(Rc::new(CatH { h: RefCell::new(h), items, gens, load: same_load(before), m: RefCell::default() }))
        }
        Got::Panic(m) | Got::Throw(m) => {
            unexpected(cx, "get_categories and listing", &m);
            None
        }
    }
}
fn get_tag_handler(cx: &Ctx) -> Option<Rc<TagH>> {
    let call = rt::stamp();
    let before = loads();
    let r = guard(|| {
        indexer_lib::get_tags().map(|h| {
            let l = list_tags(&h);
            (h, l)
        })
    });
    match r {
        Got::Ok(None) => {
            ev(cx, What::Listing { cat: false }, call, Res::Gens(None));
            None
        }
        Got::Ok(Some((h, l))) => {
            let names: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
            let gens = tag_gens(&names);
            if gens.is_empty() {
                not_any("get_tags", &names);
            }
            ev(cx, What::Listing { cat: false }, call, Res::Gens(Some(gens.clone())));
            Some(Rc::new(TagH { h: RefCell::new(h), items: l, gens, load: same_load(before), m: RefCell::default() }))
        }
        Got::Panic(m) | Got::Throw(m) => {
            unexpected(cx, "get_tags and listing", &m);
            None
        }
    }
}

// ------------------------------------------------------------------ host objects

fn run_nested(cx: &Rc<Ctx>, calls: &[Op]) {
    if cx.depth.get() >= 2 {
        return;
    }
    cx.depth.set(cx.depth.get() + 1);
    for c in calls {
        rt::extend();
        exec(cx, c);
        child::count("calls re-entered from host callbacks", 1);
    }
    cx.depth.set(cx.depth.get() - 1);
}
fn js_val(cx: &Rc<Ctx>, v: &Val) -> host::Prop {
    host::Prop::Value(match v {
        Val::Num(n) => JsValue::from_f64(*n),
        Val::Str(s) => JsValue::from_str(s),
        Val::Bool(b) => JsValue::from_bool(*b),
        Val::Null => JsValue::NULL,
        Val::Undef => JsValue::UNDEFINED,
        Val::Get { throw, calls, value } => {
            let (cx, throw, calls) = (cx.clone(), *throw, calls.clone());
            let inner = js_val(&cx, value);
            return host::getter(move || {
                run_nested(&cx, &calls);
                if throw {
                    child::count("exceptions thrown by getters", 1);
                    return Err(JsValue::from_str("getter threw"));
                }
                match &inner {
                    host::Prop::Value(v) => Ok(v.clone()),
                    host::Prop::Getter(g) => g(),
                }
            });
        }
    })
}
fn js_filter(cx: &Rc<Ctx>, f: &[(String, Fil)]) -> js_sys::Object {
    let mut props = Vec::new();
    for (k, x) in f {
        let p = match x {
            Fil::Obj { from, to, exact } => {
                let mut o = Vec::new();
                for (n, v) in [("from", from), ("to", to), ("exact", exact)] {
                    if let Some(v) = v {
                        o.push((n, js_val(cx, v)));
                    }
                }
                host::Prop::Value(host::object(o))
            }
            Fil::Bare(v) => js_val(cx, v),
            Fil::Getter { throw, calls, from, to } => {
                let (cx, throw, calls, from, to) = (cx.clone(), *throw, calls.clone(), *from, *to);
                host::getter(move || {
                    run_nested(&cx, &calls);
                    if throw {
                        child::count("exceptions thrown by getters", 1);
                        return Err(JsValue::from_str("entry getter threw"));
                    }
                    let mut o = Vec::new();
                    for (n, v) in [("from", from), ("to", to)] {
                        if let Some(v) = v {
                            o.push((n, host::Prop::Value(JsValue::from_f64(v))));
                        }
                    }
                    Ok(host::object(o))
                })
            }
        };
        props.push((k.as_str(), p));
    }
    host::object(props).unchecked_into()
}
/// The filters' meaning; `None` if the description is malformed or throws.
fn model_filter(f: &[(String, Fil)]) -> Option<Vec<MFil>> {
    let mut out = Vec::new();
    for (i, (k, x)) in f.iter().enumerate() {
        if f[..i].iter().any(|(o, _)| o == k) {
            return None; // an object has each property once
        }
        match x {
            Fil::Bare(_) => return None,
            Fil::Getter { throw, from, to, .. } => {
                if *throw {
                    return None;
                }
                out.push(MFil::Range(k.clone(), *from, *to));
            }
            Fil::Obj { from, to, exact } => {
                fn plain(v: &Val) -> Option<&Val> {
                    match v {
                        Val::Get { throw: true, .. } => None,
                        Val::Get { value, .. } => plain(value),
                        v => Some(v),
                    }
                }
                let exact = exact.as_ref().filter(|e| !matches!(e, Val::Undef));
                if let Some(e) = exact {
                    match plain(e)? {
                        Val::Num(n) => out.push(MFil::ExactNum(k.clone(), *n)),
                        Val::Str(s) => out.push(MFil::ExactStr(k.clone(), s.clone())),
                        _ => return None,
                    }
                } else {
                    let mut b = [None, None];
                    for (i, v) in [from, to].into_iter().enumerate() {
                        if let Some(v) = v {
                            match plain(v)? {
                                Val::Num(n) => b[i] = Some(*n),
                                Val::Null | Val::Undef => {}
                                _ => return None,
                            }
                        }
                    }
                    if b == [None, None] {
                        return None;
                    }
                    out.push(MFil::Range(k.clone(), b[0], b[1]));
                }
            }
        }
    }
    Some(out)
}

fn yield_products(cx: &Ctx, p: &Prods, n: usize) {
    for _ in 0..n {
        let Ok(mut prod) = p.p.try_borrow_mut() else { return };
        let r = guard(|| {
            prod.next_product().map(|j| {
                let show = move || Shown {
                    id: j.get_id(),
                    title: j.get_title(),
                    desc: j.get_description(),
                    price: j.numeric_feature("price"),
                    image: j.string_feature("image_url"),
                };
                let s = show();
                (Box::new(show) as indexer_lib_js::Held, s)
            })
        });
        drop(prod);
        match r {
            Got::Ok(Some((h, s))) => {
                say(cx, || format!("yields {s:?}"));
                hist().found[p.found].products.push(s.clone());
                if hist().found[p.found].products.len() > 10_000 {
                    child::violation("products", "a product list never ends".into());
                    return;
                }
                cx.held.borrow_mut().push((h, s));
            }
            Got::Ok(None) => {
                hist().found[p.found].complete = true;
                return;
            }
            Got::Panic(m) | Got::Throw(m) => {
                unexpected(cx, "next_product and reading the product", &m);
                return;
            }
        }
    }
}

fn sel_cat(h: &CatH) -> Sel {
    let m = h.m.borrow();
    Sel {
        gens: h.gens.clone(),
        cats: m.active.iter().map(|&i| (h.items[i].0.clone(), h.items[i].1.clone())).collect(),
        tags: vec![],
        foreign: m.foreign,
    }
}
fn sel_tag(h: &TagH) -> Sel {
    let m = h.m.borrow();
    Sel { gens: h.gens.clone(), cats: vec![], tags: m.active.iter().map(|&i| h.items[i].0.clone()).collect(), foreign: m.foreign }
}

fn do_search(cx: &Rc<Ctx>, q: &str, ch: &Rc<CatH>, th: &Rc<TagH>, order: &Option<String>, filt: &[(String, Fil)]) -> Option<Rc<Prods>> {
    let what = What::Search { q: q.into(), order: order.clone(), filt: model_filter(filt), ch: sel_cat(ch), th: sel_tag(th) };
    let js = js_filter(cx, filt);
    let (Ok(c), Ok(t)) = (ch.h.try_borrow(), th.h.try_borrow()) else {
        say(cx, || "search rejected by the host: handler busy".into());
        return None;
    };
    let call = rt::stamp();
    let r = guard(|| indexer_lib::search(q, &c, &t, order.clone(), &js));
    drop((c, t));
    match r {
        Got::Ok(Some(p)) => {
            let found = hist().found.len();
            hist().found.push(Found::default());
            ev(cx, what, call, Res::Found(Some(found)));
            let p = Rc::new(Prods { p: RefCell::new(p), found });
            cx.keep.borrow_mut().push(p.clone());
            Some(p)
        }
        Got::Ok(None) => {
            ev(cx, what, call, Res::Found(None));
            None
        }
        Got::Panic(m) => {
            ev(cx, what, call, Res::Failed(m));
            None
        }
        Got::Throw(m) => {
            ev(cx, what, call, Res::Throw(m));
            None
        }
    }
}

/// Calls of this handler's listeners since `from`, against what one switch must cause.
fn check_calls(cx: &Ctx, m: &Model, from: usize, item: Option<usize>, state: bool, what: &str) {
    let calls = cx.calls.borrow();
    let mut n = 0;
    let ids: BTreeSet<u32> = m.lis.iter().map(|l| l.id).collect();
    for id in ids {
        let mine: Vec<Option<bool>> = calls[from..].iter().filter(|c| c.0 == id).map(|c| c.1).collect();
        // One call for each time the function is registered.
        let expect = m.lis.iter().filter(|l| l.id == id && l.alive && (l.item.is_none() || (item.is_some() && l.item == item))).count();
        n += expect;
        let general = m.lis.iter().any(|l| l.id == id && l.item.is_none());
        let kind = if general { "a general listener" } else { "an item's listener" };
        if expect > 0 && mine != vec![Some(state); expect] {
            child::violation(
                "listeners",
                format!("switching a {what} to {state} in operation {}: {kind} (#{id}) was called {} time(s) with {mine:?} instead of {expect} time(s) with {state}", cx.op.get(), mine.len()),
            );
        } else if expect == 0 && !mine.is_empty() {
            child::violation(
                "listeners",
                format!(
                    "switching a {what} to {state} in operation {}: {kind} (#{id}, {}) was called {} time(s) although it must not be",
                    cx.op.get(),
                    if items_of(m, id).is_empty() { "removed" } else { "for another item" },
                    mine.len()
                ),
            );
        }
    }
    child::count("listener calls checked", n as u64);
    child::evals(1);
}

fn make_listener(cx: &Rc<Ctx>, beh: &Beh) -> (u32, js_sys::Function) {
    let id = cx.next_lis.get();
    cx.next_lis.set(id + 1);
    let (cx2, beh, log) = (cx.clone(), beh.clone(), cx.calls.clone());
    let f = host::function(move |_this, args| {
        log.borrow_mut().push((id, if args.len() == 1 { args[0].as_bool() } else { None }));
        run_nested(&cx2, &beh.calls);
        if beh.throw {
            child::count("exceptions thrown by listeners", 1);
            return Err(JsValue::from_str("listener threw"));
        }
        Ok(JsValue::UNDEFINED)
    });
    (id, f.unchecked_into())
}

pub fn damage_key(g: usize, d: &[Damage]) -> String {
    format!("{g}:{d:?}")
}

fn load(cx: &Rc<Ctx>, g: usize, dmg: &[Damage]) {
    let sh = sh();
    let g = g % sh.files.len();
    let (bytes, mut good): (&[u8], bool) = if dmg.is_empty() {
        (&sh.files[g], true)
    } else {
        let d = sh.damaged.borrow();
        match d.get(&damage_key(g, dmg)) {
            // The map is filled before the run and never changes during it.
            Some(Some(b)) => (unsafe { &*(b.as_slice() as *const [u8]) }, false),
            _ => return,
        }
    };
    // The caller's buffer is its own and goes away after the call.
    let buf = bytes.to_vec();
    let call = rt::stamp();
    sh.loads.set((loads().0 + 1, loads().1));
    let r = guard(|| indexer_lib::initialize(&buf));
    sh.loads.set((loads().0, loads().1 + 1));
    drop(buf);
    if good {
        child::count("catalogue loads", 1);
    } else {
        child::count("failing loads", 1);
        for d in dmg {
            child::count(&format!("fault: {}", d.kind()), 1);
        }
    }
    let res = match r {
        Got::Ok(b) => Res::Loaded(b),
        Got::Panic(m) | Got::Throw(m) => Res::Failed(m),
    };
    if bytes.len() > sh.files[g].len() && bytes.starts_with(&sh.files[g]) {
        // The whole catalogue and something after it: either a load of it, or a failure.
        good = matches!(res, Res::Loaded(true));
    }
    match (&res, good) {
        (Res::Loaded(true), false) => child::violation("accepted", format!("a damaged file was accepted in operation {}", cx.op.get())),
        (Res::Loaded(false), true) => child::violation("call-failed", format!("loading a good file returned false in operation {}", cx.op.get())),
        (Res::Failed(m), true) => unexpected(cx, "loading a good file", &m.clone()),
        _ => {}
    }
    ev(cx, What::Load { g, good }, call, res);
}

fn exec(cx: &Rc<Ctx>, op: &Op) {
    child::set_status(&format!("thread {} operation {}: {}", rt::tid(), cx.op.get(), short(op)));
    match op {
        Op::Load { g, dmg } => load(cx, *g, dmg),
        Op::Churn { g, n } => {
            for k in 0..*n {
                load(cx, g + k, &[]);
            }
        }
        Op::Build { g } => {
            let g = *g % sh().json.len();
            let call = rt::stamp();
            let r = guard(|| indexer_lib::index(&sh().json[g]));
            child::count("builds", 1);
            let res = match r {
                Got::Ok(Some(b)) => {
                    let h = hist();
                    h.built.push((g, b));
                    Res::Built(Some(h.built.len() - 1))
                }
                Got::Ok(None) => {
                    child::violation("call-failed", format!("building catalogue {g} was refused in operation {}", cx.op.get()));
                    Res::Built(None)
                }
                Got::Panic(m) | Got::Throw(m) => {
                    unexpected(cx, "building", &m);
                    Res::Failed(m)
                }
            };
            ev(cx, What::Build { g }, call, res);
        }
        Op::BadBuild { g, kind } => {
            let j = &sh().json[*g % sh().json.len()];
            let bad = match kind {
                0 | 1 => j.replacen("\"amount\":\"", "\"amount\":\"kr. ", 1),
                2 => j[..(0..=j.len() / 2).rev().find(|k| j.is_char_boundary(*k)).unwrap_or(0)].to_string(),
                3 => j.replacen("\"vendor\":", "\"seller\":", 1),
                _ => j.replacen("\"tags\":[", "\"tags\":[7,", 1),
            };
            if bad != *j {
                // Any answer will do, or none.
                let r = guard(|| indexer_lib::index(&bad));
                say(cx, || format!("building from a malformed document: {}", match r { Got::Ok(Some(_)) => "done", Got::Ok(None) => "refused", _ => "failed" }));
                child::count("builds from malformed documents", 1);
            }
        }
        Op::Get { cat, h } => {
            if *cat {
                let v = get_cat_handler(cx);
                put(&cx.cats, *h, v);
            } else {
                let v = get_tag_handler(cx);
                put(&cx.tags, *h, v);
            }
        }
        Op::Release { cat, h, renew } => {
            // Nothing of the old handler, its items included, is left but its iterators.
            if *cat {
                put(&cx.cats, *h, None);
            } else {
                put(&cx.tags, *h, None);
            }
            child::count("handlers released", 1);
            if *renew {
                exec(cx, &Op::Get { cat: *cat, h: *h });
            }
        }
        // Taken apart by `run_step`.
        Op::Again { op, .. } => exec(cx, op),
        Op::Orders => {
            let call = rt::stamp();
            match guard(indexer_lib::get_orders) {
                Got::Ok(v) => {
                    let names = v.map(|v| v.iter().map(|j| j.as_string().unwrap_or_else(|| format!("{j:?}"))).collect::<Vec<_>>());
                    if let Some(n) = &names {
                        let mut s = n.clone();
                        s.sort();
                        let mut want = cat::ORDERS.to_vec();
                        want.sort_unstable();
                        if s != want {
                            child::violation("listing", format!("get_orders lists {n:?}"));
                        }
                    }
                    // In any order: the listing promises none.
                    let names = names.map(|mut n| {
                        n.sort();
                        n
                    });
                    ev(cx, What::Orders, call, Res::Names(names));
                }
                Got::Panic(m) | Got::Throw(m) => unexpected(cx, "get_orders", &m),
            }
        }
        Op::Suggest { q } => {
            let call = rt::stamp();
            match guard(|| {
                indexer_lib::tag_suggestion(q).map(|s| {
                    let show = move || (s.get_tag().get_name(), s.get_input());
                    let v = show();
                    (Box::new(show) as Box<dyn Fn() -> (String, String)>, v)
                })
            }) {
                Got::Ok(v) => {
                    ev(cx, What::Suggest { q: q.clone() }, call, Res::Sugg(v.as_ref().map(|x| x.1.clone())));
                    cx.suggested.borrow_mut().extend(v);
                }
                Got::Panic(m) | Got::Throw(m) => unexpected(cx, "tag_suggestion", &m),
            }
        }
        Op::List { cat, h } => {
            if *cat {
                let Some(c) = get(&cx.cats, *h) else { return };
                let Ok(b) = c.h.try_borrow() else { return };
                match guard(|| list_cats(&b)) {
                    Got::Ok(l) => {
                        let now: Vec<(String, String)> = l.iter().flat_map(|(c, o)| o.iter().map(move |x| (c.clone(), x.0.clone()))).collect();
                        let then: Vec<(String, String)> = c.items.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
                        child::evals(1);
                        if now != then {
                            child::violation("handle-changed", format!("a category handler now lists {now:?}, before {then:?}"));
                        }
                    }
                    Got::Panic(m) | Got::Throw(m) => unexpected(cx, "listing a handler", &m),
                }
            } else {
                let Some(c) = get(&cx.tags, *h) else { return };
                let Ok(b) = c.h.try_borrow() else { return };
                match guard(|| list_tags(&b)) {
                    Got::Ok(l) => {
                        let now: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
                        let then: Vec<String> = c.items.iter().map(|x| x.0.clone()).collect();
                        child::evals(1);
                        if now != then {
                            child::violation("handle-changed", format!("a tag handler now lists {now:?}, before {then:?}"));
                        }
                    }
                    Got::Panic(m) | Got::Throw(m) => unexpected(cx, "listing a handler", &m),
                }
            }
        }
        Op::IterNew { cat, h, it } => {
            if *cat {
                let Some(c) = get(&cx.cats, *h) else { return };
                let Ok(b) = c.h.try_borrow() else { return };
                if let Got::Ok(i) = guard(|| b.iter()) {
                    drop(b);
                    let v = Rc::new(CIt { it: RefCell::new(i), gens: c.gens.clone(), seen: RefCell::default() });
                    cx.all_cits.borrow_mut().push(v.clone());
                    put(&cx.cits, *it, Some(v));
                }
            } else {
                let Some(c) = get(&cx.tags, *h) else { return };
                let Ok(b) = c.h.try_borrow() else { return };
                if let Got::Ok(i) = guard(|| b.tags()) {
                    drop(b);
                    let v = Rc::new(TIt { it: RefCell::new(i), gens: c.gens.clone(), seen: RefCell::default() });
                    cx.all_tits.borrow_mut().push(v.clone());
                    put(&cx.tits, *it, Some(v));
                }
            }
        }
        Op::IterNext { cat, it } => {
            if *cat {
                if let Some(i) = get(&cx.cits, *it) {
                    step_cit(cx, &i, *it);
                }
            } else if let Some(i) = get(&cx.tits, *it) {
                step_tit(cx, &i);
            }
        }
        Op::OptNext { it } => {
            if let Some(i) = get(&cx.oits, *it) {
                step_oit(cx, &i);
            }
        }
        Op::Toggle { cat, h, item, src, sibling } => {
            if *cat {
                toggle(cx, &cx.cats, *h, *item, *src, *sibling);
            } else {
                toggle(cx, &cx.tags, *h, *item, *src, *sibling);
            }
        }
        Op::Sweep { cat, h, item, n } => {
            for i in 0..*n {
                if *cat {
                    toggle(cx, &cx.cats, *h, item + i, None, false);
                } else {
                    toggle(cx, &cx.tags, *h, item + i, None, false);
                }
            }
        }
        Op::Status { cat, h, item } => {
            if *cat {
                let Some(c) = get(&cx.cats, *h) else { return };
                check_parity(cx, &*c, if c.items.is_empty() { return } else { *item % c.items.len() });
            } else {
                let Some(c) = get(&cx.tags, *h) else { return };
                check_parity(cx, &*c, if c.items.is_empty() { return } else { *item % c.items.len() });
            }
        }
        Op::Listen { cat, h, item, beh } => {
            if *cat {
                listen(cx, &cx.cats, *h, *item, beh);
            } else {
                listen(cx, &cx.tags, *h, *item, beh);
            }
        }
        Op::Share { cat, h, k, item } => {
            if *cat {
                share(cx, &cx.cats, *h, *k, *item);
            } else {
                share(cx, &cx.tags, *h, *k, *item);
            }
        }
        Op::Unlisten { cat, h, k } => {
            if *cat {
                unlisten(cx, &cx.cats, *h, *k, None);
            } else {
                unlisten(cx, &cx.tags, *h, *k, None);
            }
        }
        Op::Misremove { cat, h, k, item } => {
            if *cat {
                unlisten(cx, &cx.cats, *h, *k, Some(*item));
            } else {
                unlisten(cx, &cx.tags, *h, *k, Some(*item));
            }
        }
        Op::Search { q, ch, th, order, filt, p, drain } => {
            let (Some(c), Some(t)) = (get(&cx.cats, *ch), get(&cx.tags, *th)) else { return };
            let pr = do_search(cx, q, &c, &t, order, filt);
            if let (Some(pr), true) = (&pr, *drain) {
                yield_products(cx, pr, usize::MAX);
            }
            if pr.is_some() {
                put(&cx.prods, *p, pr);
            }
        }
        Op::Next { p, n } => {
            let Some(pr) = get(&cx.prods, *p) else { return };
            yield_products(cx, &pr, *n);
        }
        Op::Probe { cat, item, q } => {
            let (Some(c), Some(t)) = (get_cat_handler(cx), get_tag_handler(cx)) else { return };
            let r = if *cat {
                if c.items.is_empty() {
                    return;
                }
                let i = *item % c.items.len();
                c.m.borrow_mut().active.insert(i);
                guard(|| c.h.borrow_mut().toggle(&c.items[i].2))
            } else {
                if t.items.is_empty() {
                    return;
                }
                let i = *item % t.items.len();
                t.m.borrow_mut().active.insert(i);
                guard(|| t.h.borrow_mut().toggle(&t.items[i].1))
            };
            if let Got::Panic(m) | Got::Throw(m) = r {
                unexpected(cx, "toggle", &m);
            }
            if let Some(p) = do_search(cx, q, &c, &t, &None, &[]) {
                yield_products(cx, &p, usize::MAX);
            }
        }
    }
}
fn pick_listener(m: &Model, k: usize) -> Option<(usize, usize, js_sys::Function)> {
    let c: Vec<usize> = (0..m.lis.len()).filter(|&i| m.lis[i].item.is_some() && m.lis[i].alive).collect();
    if c.is_empty() {
        return None;
    }
    let i = c[k % c.len()];
    Some((i, m.lis[i].item.unwrap(), m.lis[i].f.clone()))
}
fn check_parity<T: Handle>(cx: &Ctx, c: &T, i: usize) {
    let Ok(b) = c.h().try_borrow() else { return };
    let m = c.m().borrow();
    if m.foreign {
        return;
    }
    let want = m.active.contains(&i);
    match guard(|| T::status(&b, c.item(i))) {
        Got::Ok(v) => {
            child::evals(1);
            if v != want {
                child::violation("parity", format!("{} {:?} reads as {v} but was switched so that it is {want}", T::WHAT, c.name(i)));
            }
        }
        Got::Panic(m) | Got::Throw(m) => unexpected(cx, "get_status", &m),
    }
}

/// What category and tag handlers have in common.
trait Handle {
    type H;
    type Item;
    const WHAT: &'static str;
    fn h(&self) -> &RefCell<Self::H>;
    fn m(&self) -> &RefCell<Model>;
    fn load(&self) -> Option<u64>;
    fn len(&self) -> usize;
    fn item(&self, i: usize) -> &Self::Item;
    fn name(&self, i: usize) -> (&str, &str);
    fn switch(h: &mut Self::H, i: &Self::Item);
    fn status(h: &Self::H, i: &Self::Item) -> bool;
    fn on_item(h: &mut Self::H, i: &Self::Item, f: js_sys::Function);
    fn on_any(h: &mut Self::H, f: js_sys::Function);
    fn off_item(h: &mut Self::H, i: &Self::Item, f: &js_sys::Function);
}
impl Handle for CatH {
    type H = CategoryHandler;
    type Item = ExportCategoryOption;
    const WHAT: &'static str = "category option";
    fn h(&self) -> &RefCell<CategoryHandler> {
        &self.h
    }
    fn m(&self) -> &RefCell<Model> {
        &self.m
    }
    fn load(&self) -> Option<u64> {
        self.load
    }
    fn len(&self) -> usize {
        self.items.len()
    }
    fn item(&self, i: usize) -> &ExportCategoryOption {
        &self.items[i].2
    }
    fn name(&self, i: usize) -> (&str, &str) {
        (&self.items[i].0, &self.items[i].1)
    }
    fn switch(h: &mut CategoryHandler, i: &ExportCategoryOption) {
        h.toggle(i);
    }
    fn status(h: &CategoryHandler, i: &ExportCategoryOption) -> bool {
        h.get_status(i)
    }
    fn on_item(h: &mut CategoryHandler, i: &ExportCategoryOption, f: js_sys::Function) {
        h.add_option_lister(i, f);
    }
    fn on_any(h: &mut CategoryHandler, f: js_sys::Function) {
        h.add_general_observer(f);
    }
    fn off_item(h: &mut CategoryHandler, i: &ExportCategoryOption, f: &js_sys::Function) {
        h.remove_option_listener(i, f);
    }
}
impl Handle for TagH {
    type H = TagHandler;
    type Item = JSTag;
    const WHAT: &'static str = "tag";
    fn h(&self) -> &RefCell<TagHandler> {
        &self.h
    }
    fn m(&self) -> &RefCell<Model> {
        &self.m
    }
    fn load(&self) -> Option<u64> {
        self.load
    }
    fn len(&self) -> usize {
        self.items.len()
    }
    fn item(&self, i: usize) -> &JSTag {
        &self.items[i].1
    }
    fn name(&self, i: usize) -> (&str, &str) {
        (&self.items[i].0, "")
    }
    fn switch(h: &mut TagHandler, i: &JSTag) {
        h.toggle(i);
    }
    fn status(h: &TagHandler, i: &JSTag) -> bool {
        h.get_status(i)
    }
    fn on_item(h: &mut TagHandler, i: &JSTag, f: js_sys::Function) {
        h.add_tag_lister(i, f);
    }
    fn on_any(h: &mut TagHandler, f: js_sys::Function) {
        h.add_general_observer(f);
    }
    fn off_item(h: &mut TagHandler, i: &JSTag, f: &js_sys::Function) {
        h.remove_tag_listener(i, f);
    }
}
fn toggle<T: Handle>(cx: &Rc<Ctx>, s: &Slot<T>, h: usize, item: usize, src: Option<usize>, sibling: bool) {
    let Some(c) = get(s, h) else { return };
    let owner = match src {
        Some(o) => match get(s, o) {
            Some(o) => o,
            None => return,
        },
        None => c.clone(),
    };
    if owner.len() == 0 {
        return;
    }
    let i = item % owner.len();
    // Items of another handler of the very same load are the same items.
    let same = Rc::ptr_eq(&owner, &c) || (c.load().is_some() && c.load() == owner.load());
    let mine = if same { (0..c.len()).find(|&k| c.name(k) == owner.name(i)) } else { None };
    if mine.is_none() && sibling {
        return;
    }
    let Ok(mut hb) = c.h().try_borrow_mut() else {
        say(cx, || "toggle rejected by the host: handler busy".into());
        child::count("switches rejected because the handler was busy", 1);
        return;
    };
    let from = cx.calls.borrow().len();
    let new = match mine {
        Some(k) => {
            let mut m = c.m().borrow_mut();
            if !m.active.remove(&k) {
                m.active.insert(k);
            }
            m.active.contains(&k)
        }
        None => {
            c.m().borrow_mut().foreign = true;
            child::count("items of another catalogue switched", 1);
            false
        }
    };
    child::count("switches", 1);
    let r = guard(|| T::switch(&mut hb, owner.item(i)));
    drop(hb);
    match r {
        Got::Ok(()) => {
            say(cx, || format!("switch {} {i} -> {new}", T::WHAT));
            let m = c.m().borrow();
            if mine.is_some() && !m.foreign {
                check_calls(cx, &m, from, mine, new, T::WHAT);
            }
        }
        Got::Panic(m) | Got::Throw(m) => unexpected(cx, "toggle", &m),
    }
}
fn listen<T: Handle>(cx: &Rc<Ctx>, s: &Slot<T>, h: usize, item: Option<usize>, beh: &Beh) {
    let (id, f) = make_listener(cx, beh);
    let Some(c) = get(s, h) else { return };
    let Ok(mut hb) = c.h().try_borrow_mut() else { return };
    let item = match item {
        Some(_) if c.len() == 0 => return,
        Some(i) => Some(i % c.len()),
        None => None,
    };
    let f2 = f.clone();
    let r = guard(|| match item {
        Some(i) => T::on_item(&mut hb, c.item(i), f2),
        None => T::on_any(&mut hb, f2),
    });
    drop(hb);
    match r {
        Got::Ok(()) => c.m().borrow_mut().lis.push(Lis { id, item, f, alive: true }),
        Got::Panic(m) | Got::Throw(m) => unexpected(cx, "adding a listener", &m),
    }
    say(cx, || format!("listener #{id} on {item:?}"));
}
/// The items the function of listener `id` is registered on.
fn items_of(m: &Model, id: u32) -> BTreeSet<usize> {
    m.lis.iter().filter(|l| l.id == id && l.alive).filter_map(|l| l.item).collect()
}
fn share<T: Handle>(cx: &Rc<Ctx>, s: &Slot<T>, h: usize, k: usize, item: usize) {
    let Some(c) = get(s, h) else { return };
    let Ok(mut hb) = c.h().try_borrow_mut() else { return };
    if c.len() == 0 {
        return;
    }
    let item = item % c.len();
    // Removed ones may come back.
    let (id, f) = {
        let m = c.m().borrow();
        // And be registered there again, or listen in general already.
        if m.lis.is_empty() {
            return;
        }
        let l = &m.lis[k % m.lis.len()];
        if items_of(&m, l.id).contains(&item) {
            child::count("functions registered twice for one item", 1);
        }
        (l.id, l.f.clone())
    };
    let f2 = f.clone();
    let r = guard(|| T::on_item(&mut hb, c.item(item), f2));
    drop(hb);
    match r {
        Got::Ok(()) => c.m().borrow_mut().lis.push(Lis { id, item: Some(item), f, alive: true }),
        Got::Panic(m) | Got::Throw(m) => unexpected(cx, "adding a listener", &m),
    }
    say(cx, || format!("listener #{id} also on {item}"));
}
/// Removes item listener number `k`, or (`wrong`) tries to remove it where it is not registered.
fn unlisten<T: Handle>(cx: &Rc<Ctx>, s: &Slot<T>, h: usize, k: usize, wrong: Option<usize>) {
    let Some(c) = get(s, h) else { return };
    let Ok(mut hb) = c.h().try_borrow_mut() else { return };
    let (pos, item, f) = {
        let m = c.m().borrow();
        match wrong {
            None => match pick_listener(&m, k) {
                Some(x) => x,
                None => return,
            },
            Some(i) => {
                if m.lis.is_empty() || c.len() == 0 {
                    return;
                }
                let (pos, i) = (k % m.lis.len(), i % c.len());
                if items_of(&m, m.lis[pos].id).contains(&i) {
                    return;
                }
                (usize::MAX, i, m.lis[pos].f.clone())
            }
        }
    };
    let r = guard(|| T::off_item(&mut hb, c.item(item), &f));
    drop(hb);
    match r {
        Got::Ok(()) if wrong.is_none() => c.m().borrow_mut().lis[pos].alive = false,
        Got::Ok(()) => child::count("removals of listeners that were not there", 1),
        Got::Panic(m) | Got::Throw(m) => unexpected(cx, "removing a listener", &m),
    }
    say(cx, || format!("unlisten {pos} from {item}"));
}

fn step_cit(cx: &Rc<Ctx>, i: &Rc<CIt>, slot: usize) -> bool {
    let Ok(mut b) = i.it.try_borrow_mut() else { return false };
    match guard(|| b.next_item().map(|o| (o.name(), o))) {
        Got::Ok(Some((name, o))) => {
            i.seen.borrow_mut().push(name.clone());
            if i.seen.borrow().len() > 10_000 {
                child::violation("listing", "an iterator never ends".into());
                return false;
            }
            let v = Rc::new(OIt { it: RefCell::new(o), gens: i.gens.clone(), cat: name, seen: RefCell::default() });
            cx.all_oits.borrow_mut().push(v.clone());
            put(&cx.oits, slot, Some(v));
            true
        }
        Got::Ok(None) => {
            let seen = i.seen.borrow();
            let spec: Vec<String> = i.gens.first().map(|&g| sh().cat_lists[g].keys().cloned().collect()).unwrap_or_default();
            let mut s: Vec<String> = seen.clone();
            s.sort();
            child::evals(1);
            if s != spec && !i.gens.is_empty() {
                child::violation("listing", format!("a category iterator yielded {seen:?} instead of each of {spec:?} once"));
            }
            false
        }
        Got::Panic(m) | Got::Throw(m) => {
            unexpected(cx, "advancing an iterator", &m);
            false
        }
    }
}
fn step_oit(cx: &Rc<Ctx>, i: &OIt) -> bool {
    let Ok(mut b) = i.it.try_borrow_mut() else { return false };
    match guard(|| (b.name(), b.next_item().map(|o| o.get_name()))) {
        Got::Ok((n, _)) if n != i.cat => {
            child::violation("listing", format!("the options of category {:?} now belong to {n:?}", i.cat));
            false
        }
        Got::Ok((_, Some(name))) => {
            i.seen.borrow_mut().push(name);
            if i.seen.borrow().len() > 10_000 {
                child::violation("listing", "an iterator never ends".into());
                return false;
            }
            true
        }
        Got::Ok((_, None)) => {
            let seen = i.seen.borrow();
            let mut s = seen.clone();
            s.sort();
            let spec: Vec<String> =
                i.gens.first().and_then(|&g| sh().cat_lists[g].get(&i.cat)).map(|x| x.iter().cloned().collect()).unwrap_or_default();
            child::evals(1);
            if s != spec && !i.gens.is_empty() {
                child::violation("listing", format!("the options of {:?} were yielded as {seen:?} instead of each of {spec:?} once", i.cat));
            }
            false
        }
        Got::Panic(m) | Got::Throw(m) => {
            unexpected(cx, "advancing an iterator", &m);
            false
        }
    }
}
fn step_tit(cx: &Rc<Ctx>, i: &TIt) -> bool {
    let Ok(mut b) = i.it.try_borrow_mut() else { return false };
    match guard(|| b.next_tag().map(|t| t.get_name())) {
        Got::Ok(Some(name)) => {
            i.seen.borrow_mut().push(name);
            if i.seen.borrow().len() > 10_000 {
                child::violation("listing", "an iterator never ends".into());
                return false;
            }
            true
        }
        Got::Ok(None) => {
            let seen = i.seen.borrow();
            let mut s = seen.clone();
            s.sort();
            let spec: Vec<String> = i.gens.first().map(|&g| sh().tag_lists[g].iter().cloned().collect()).unwrap_or_default();
            child::evals(1);
            if s != spec && !i.gens.is_empty() {
                child::violation("listing", format!("a tag iterator yielded {seen:?} instead of each of {spec:?} once"));
            }
            false
        }
        Got::Panic(m) | Got::Throw(m) => {
            unexpected(cx, "advancing an iterator", &m);
            false
        }
    }
}

fn short(op: &Op) -> String {
    let s = format!("{op:?}");
    if s.len() > 200 {
        let mut n = 200;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}…", &s[..n])
    } else {
        s
    }
}

/// At the end of a thread: everything it still holds must work and be as it was.
fn settle(cx: &Rc<Ctx>) {
    let prods: Vec<Rc<Prods>> = cx.keep.borrow().clone();
    for p in prods {
        yield_products(cx, &p, usize::MAX);
    }
    for (h, s) in cx.held.borrow().iter() {
        match guard(h) {
            Got::Ok(now) => {
                child::evals(1);
                if now != *s {
                    child::violation("handle-changed", format!("a product held since it was returned shows {now:?}, before {s:?}"));
                }
            }
            Got::Panic(m) | Got::Throw(m) => unexpected(cx, "reading a held product", &m),
        }
    }
    for (h, s) in cx.suggested.borrow().iter() {
        match guard(h) {
            Got::Ok(now) => {
                child::evals(1);
                if now != *s {
                    child::violation("handle-changed", format!("a tag suggestion held as {s:?} is now {now:?}"));
                }
            }
            Got::Panic(m) | Got::Throw(m) => unexpected(cx, "reading a held suggestion", &m),
        }
    }
    for h in 0..SLOTS {
        for cat in [true, false] {
            exec(cx, &Op::List { cat, h });
        }
        if let Some(c) = get(&cx.cats, h) {
            for i in 0..c.items.len() {
                check_parity(cx, &*c, i);
            }
            for (_, n, o) in &c.items {
                if let Got::Ok(now) = guard(|| o.get_name()) {
                    if now != *n {
                        child::violation("handle-changed", format!("a category option held as {n:?} is now called {now:?}"));
                    }
                }
            }
        }
        if let Some(c) = get(&cx.tags, h) {
            for i in 0..c.items.len() {
                check_parity(cx, &*c, i);
            }
            for (n, o) in &c.items {
                match guard(|| o.get_name()) {
                    Got::Ok(now) if now == *n => {}
                    Got::Ok(now) => child::violation("handle-changed", format!("a tag held as {n:?} is now called {now:?}")),
                    Got::Panic(m) | Got::Throw(m) => unexpected(cx, "naming a held tag", &m),
                }
            }
        }
    }
    for c in cx.hoard_c.borrow().iter() {
        for i in 0..c.items.len() {
            check_parity(cx, &**c, i);
        }
    }
    for c in cx.hoard_t.borrow().iter() {
        for i in 0..c.items.len() {
            check_parity(cx, &**c, i);
        }
    }
    let (a, b): (Vec<_>, Vec<_>) = (cx.all_cits.borrow().clone(), cx.all_tits.borrow().clone());
    for i in a {
        while step_cit(cx, &i, 0) {}
    }
    for i in b {
        while step_tit(cx, &i) {}
    }
    let c: Vec<_> = cx.all_oits.borrow().clone();
    for i in c {
        while step_oit(cx, &i) {}
    }
}

fn new_ctx() -> Rc<Ctx> {
    Rc::new(Ctx {
        cats: slots(),
        tags: slots(),
        cits: slots(),
        oits: slots(),
        tits: slots(),
        prods: slots(),
        held: RefCell::default(),
        suggested: RefCell::default(),
        calls: Rc::default(),
        next_lis: 1.into(),
        depth: 0.into(),
        op: 0.into(),
        keep: RefCell::default(),
        all_cits: RefCell::default(),
        all_tits: RefCell::default(),
        all_oits: RefCell::default(),
        hoard_c: RefCell::default(),
        hoard_t: RefCell::default(),
    })
}
fn run_step(cx: &Rc<Ctx>, s: &Step) {
    if let Op::Again { n, op } = &s.op {
        let mut spent = 0;
        for k in 0..*n as u32 {
            // Each with its own number, by which preemptions are recorded.
            cx.op.set(s.id + (k + 1) * 1_000_000);
            rt::begin_op(cx.op.get());
            if let Op::Get { cat, h } = **op {
                // What is replaced stays in use.
                match cat {
                    true => cx.hoard_c.borrow_mut().extend(get(&cx.cats, h)),
                    false => cx.hoard_t.borrow_mut().extend(get(&cx.tags, h)),
                }
            }
            exec(cx, op);
            child::count("repetitions of an operation", 1);
            spent += rt::spent();
            if spent > OP_LIMIT / 4 {
                break;
            }
        }
        return;
    }
    cx.op.set(s.id);
    rt::begin_op(s.id);
    exec(cx, &s.op);
}

fn all_damages(ops: &mut dyn FnMut(usize, &[Damage]), op: &Op) {
    match op {
        Op::Load { g, dmg } if !dmg.is_empty() => ops(*g, dmg),
        Op::Again { op, .. } => all_damages(ops, op),
        Op::Listen { beh, .. } => beh.calls.iter().for_each(|o| all_damages(ops, o)),
        Op::Search { filt, .. } => {
            for (_, f) in filt {
                let mut vals: Vec<&Val> = vec![];
                match f {
                    Fil::Obj { from, to, exact } => vals.extend([from, to, exact].into_iter().flatten()),
                    Fil::Bare(v) => vals.push(v),
                    Fil::Getter { calls, .. } => calls.iter().for_each(|o| all_damages(ops, o)),
                }
                for v in vals {
                    if let Val::Get { calls, .. } = v {
                        calls.iter().for_each(|o| all_damages(ops, o));
                    }
                }
            }
        }
        _ => {}
    }
}

/// Builds the files of a plan's catalogues, each in an epoch of hash seeds of its own.
pub fn build_files(cats: &[cat::Cat], same_epoch: bool) -> Vec<Vec<u8>> {
    cats.iter()
        .enumerate()
        .map(|(g, c)| {
            rt::set_epoch(1000 + if same_epoch { 0 } else { g as u64 });
            indexer_lib::index_and_serialize(c.raw(), cat::leak_super()).expect("building a generated catalogue")
        })
        .collect()
}

const OP_LIMIT: u64 = 60_000_000;

/// Runs the plan; afterwards the history is in `hist()`.
pub fn run(w: &World, oracle: bool) {
    rt::install_random(w.hseed);
    crate::alloc::poison(true);
    let files = build_files(&w.cats, w.same_epoch);
    let alone = if oracle { crate::alone::start(&files) } else { vec![] };
    let json: Vec<String> = w.cats.iter().map(|c| c.json()).collect();
    let mut damaged = BTreeMap::new();
    let mut note = |g: usize, d: &[Damage]| {
        let g = g % files.len();
        let key = damage_key(g, d);
        if damaged.contains_key(&key) {
            return;
        }
        let mut b = files[g].clone();
        for x in d {
            x.apply(&mut b, &files);
        }
        // Usable as a failing load only if the decoder, on its own, does reject it.
        let longer = b.len() > files[g].len() && b.starts_with(&files[g]);
        let failing = b != files[g] && (longer || !matches!(guard(|| cat::load_ref::<5>(&b).is_some()), Got::Ok(true)));
        damaged.insert(key, if failing { Some(b) } else { None });
    };
    child::set_status("decoding the plan's damaged files");
    for s in w.threads.iter().flatten().chain(&w.epilogue) {
        all_damages(&mut note, &s.op);
    }
    child::set_status("");
    let shared = Shared {
        cat_lists: w.cats.iter().map(|c| c.categories()).collect(),
        tag_lists: w.cats.iter().map(|c| c.tags()).collect(),
        world: w.clone(),
        files,
        json,
        damaged: RefCell::new(damaged),
        left: w.threads.len().into(),
        loads: (0, 0).into(),
        alone,
    };
    unsafe { *addr_of_mut!(SH) = Some(shared) }
    rt::set_epoch(5);
    if let Some(g) = w.init {
        let cx = new_ctx();
        load(&cx, g, &[]);
        std::mem::forget(cx);
    }
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..w.threads.len())
        .map(|t| {
            Box::new(move || {
                let cx = new_ctx();
                let w = &sh().world;
                for s in &w.threads[t] {
                    run_step(&cx, s);
                }
                cx.op.set(900_000 + t as u32);
                rt::begin_op(900_000 + t as u32);
                settle(&cx);
                sh().left.set(sh().left.get() - 1);
                if sh().left.get() == 0 {
                    for s in &w.epilogue {
                        run_step(&cx, s);
                    }
                    cx.op.set(999_999);
                    rt::begin_op(999_999);
                    settle(&cx);
                }
                cx.hoard_c.borrow_mut().clear();
                cx.hoard_t.borrow_mut().clear();
                // Handles go out of use here, except through listeners that refer to each other.
                for h in 0..SLOTS {
                    put(&cx.cats, h, None);
                    put(&cx.tags, h, None);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    // An operation may be many loads of the largest catalogue.
    let largest = sh().files.iter().map(Vec::len).max().unwrap_or(0) as u64;
    rt::run(&w.policy, OP_LIMIT + 2000 * largest, bodies);
    child::set_status("");
    crate::alloc::poison(false);
}

/// Files built during the run load into exactly their own catalogues.
pub fn check_built() {
    for (i, (g, b)) in hist().built.iter().enumerate() {
        child::set_status(&format!("checking built file {i}"));
        rt::set_epoch(70_000 + i as u64);
        child::evals(1);
        let bad = |w: String| child::violation("contents", format!("the file built {i}-th in the run, of catalogue {g}: {w}"));
        let Got::Ok(Some((ix, cl))) = guard(|| cat::load_ref::<5>(b)) else {
            bad("does not load".into());
            continue;
        };
        let v = cat::view(&ix, &cl);
        if let Some(w) = cat::view_vs_spec(&v, &sh().world.cats[*g]) {
            bad(w);
            continue;
        }
        let Some((ix, cl)) = cat::load_ref::<5>(&sh().files[*g]) else { continue };
        if let Some(w) = cat::views_differ(&cat::view(&ix, &cl), &v, false) {
            bad(format!("differs from the same catalogue built alone: {w}"));
        }
    }
}
