//! Catalogue files cut short, damaged, and rebuilt.
use crate::cat::{self, Cat};
use crate::child::{self, guard, Got};
use crate::plan::{self, Damage};
use crate::rt::{self, Rng};
use glue::{Codec, W};
use indexer_lib::data::SuperAlloc;
use serde::{Deserialize, Serialize};
use wasm_bindgen::{host, JsCast, JsValue};

pub fn build(c: &Cat, epoch: u64) -> Vec<u8> {
    rt::set_epoch(epoch);
    indexer_lib::index_and_serialize(c.raw(), cat::leak_super()).expect("building a generated catalogue")
}
/// Decodes with arenas that go away afterwards.
fn try_decode<const N: usize>(b: &[u8]) -> Got<bool>
where
    W: Codec<N>,
{
    let sa = Box::into_raw(Box::new(SuperAlloc::new()));
    let na = Box::into_raw(Box::new(glue::NodeArena::new()));
    let r = guard(|| unsafe { <W as Codec<N>>::decode(b, &*na, &*sa).is_some() });
    unsafe {
        drop(Box::from_raw(na));
        drop(Box::from_raw(sa));
    }
    r
}

// ------------------------------------------------------------------ cut short

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cut {
    pub cat: Cat,
    pub n: usize,
    /// Catalogue loaded before, if any.
    pub before: Option<Cat>,
    /// Byte positions (modulo the length); empty: every position.
    pub cuts: Vec<usize>,
    /// Also near the end and around the parts of the file.
    #[serde(default)]
    pub edges: bool,
    pub hseed: u64,
}
pub fn gen_cut(seed: u64, thorough: bool) -> Cut {
    let mut r = Rng::new(seed);
    let small = r.chance(0.5);
    let sh = if small { cat::Shape::new(0, 3, false) } else { cat::Shape::new(4, 14, true) };
    let c = cat::gen(&mut r, 0, sh);
    let n = *r.pick(&[2usize, 3, 5, 5, 5, 8]);
    let cuts = if small || thorough && r.chance(0.3) { vec![] } else { (0..r.range(100, 400)).map(|_| r.next() as usize & 0xffff_ffff).collect() };
    let before = if n == 5 && r.chance(0.6) { Some(cat::gen(&mut r, 1, cat::Shape::new(1, 4, false))) } else { None };
    Cut { cat: c, n, before, cuts, edges: true, hseed: r.next() }
}
fn cut_n<const N: usize>(c: &Cut)
where
    W: Codec<N>,
{
    rt::install_random(c.hseed);
    rt::set_epoch(1);
    let file = <W as Codec<N>>::file(c.cat.raw(), cat::leak_super());
    child::log(|| format!("{} bytes, digest {:x}", file.len(), file.iter().fold(0u64, |h, b| rt::mix(h, u64::from(*b)))));
    rt::set_epoch(2);
    match try_decode::<N>(&file) {
        Got::Ok(true) => {}
        Got::Ok(false) => return child::violation("whole", "the whole file is rejected".into()),
        Got::Panic(m) | Got::Throw(m) => return child::violation("whole", format!("decoding the whole file ended abnormally: {m}")),
    }
    if c.cat.products.len() > 1 {
        child::nontrivial();
    }
    if let (5, Some(b)) = (N, &c.before) {
        let f = build(b, 3);
        let _ = guard(|| indexer_lib::initialize(&f));
    }
    let (n, budget) = (file.len(), 25_000_000);
    let mut all: Vec<usize> = if c.cuts.is_empty() && n * n / 2 <= budget {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..n.min(40)).collect();
        if c.edges {
            v.extend((1..=n.min(150)).map(|k| n - k));
            if N == 5 {
                v.extend(cat::sections(&file).unwrap_or_default().into_iter().flat_map(|s| s.saturating_sub(2)..(s + 3).min(n)));
            }
        }
        v.extend(c.cuts.iter().map(|k| k % n));
        v
    };
    // A shorter list for a longer file, in time proportional to the bytes decoded.
    let mut left = budget;
    all.retain(|k| {
        left = left.saturating_sub(k + 200);
        left > 0
    });
    for (i, &k) in all.iter().enumerate() {
        child::set_status(&format!("decoding the first {k} of {} bytes", file.len()));
        rt::set_epoch(10 + i as u64);
        child::evals(1);
        match try_decode::<N>(&file[..k]) {
            Got::Ok(false) => {}
            Got::Ok(true) => return child::violation("cut", format!("the first {k} of {} bytes are accepted as a catalogue", file.len())),
            Got::Panic(m) | Got::Throw(m) => {
                return child::violation("cut", format!("decoding the first {k} of {} bytes ended abnormally instead of in the failure result: {m}", file.len()))
            }
        }
        child::count("fault: cut", 1);
        if N == 5 && i % 7 == 0 {
            match guard(|| indexer_lib::initialize(&file[..k])) {
                Got::Ok(false) => {}
                Got::Ok(true) => return child::violation("cut", format!("initialize accepts the first {k} of {} bytes", file.len())),
                Got::Panic(m) | Got::Throw(m) => {
                    return child::violation("cut", format!("initialize with the first {k} of {} bytes ended abnormally instead of returning false: {m}", file.len()))
                }
            }
        }
    }
    if N == 5 {
        let loaded = matches!(guard(|| indexer_lib::get_orders().is_some()), Got::Ok(true));
        if loaded != c.before.is_some() {
            child::violation("cut", format!("after loading only cut files the engine {} a catalogue", if loaded { "has" } else { "has lost" }));
        }
    }
}
pub fn run_cut(c: &Cut) {
    match c.n {
        2 => cut_n::<2>(c),
        3 => cut_n::<3>(c),
        8 => cut_n::<8>(c),
        _ => cut_n::<5>(c),
    }
}

// ------------------------------------------------------------------ damaged

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Harm {
    pub cats: Vec<Cat>,
    pub dmgs: Vec<Vec<Damage>>,
    pub queries: Vec<String>,
    pub hseed: u64,
}
pub fn gen_harm(seed: u64) -> Harm {
    let mut r = Rng::new(seed);
    let sh = if r.chance(0.6) { cat::Shape::new(1, 4, false) } else { cat::Shape::new(4, 10, true) };
    let cats: Vec<Cat> = (0..2).map(|g| cat::gen(&mut r, g, sh)).collect();
    let dmgs = (0..r.range(25, 60))
        .map(|_| {
            let n = if r.chance(0.7) { 1 } else { r.range(2, 4) };
            (0..n).map(|_| plan::gen_damage(&mut r)).collect()
        })
        .collect();
    let queries = vec![cat::wide_query(&cats[0]), cat::gen_query(&mut r, &cats[0]), "kunst".into()];
    Harm { cats, dmgs, queries, hseed: r.next() }
}

/// Uses everything of the catalogue that is loaded; every call must return.
pub fn exercise(queries: &[String]) -> Result<u64, String> {
    let mut n = 0;
    let mut call = |what: &str, g: Got<()>| -> Result<(), String> {
        n += 1;
        match g {
            Got::Ok(()) => Ok(()),
            Got::Panic(m) | Got::Throw(m) => Err(format!("{what} ended abnormally: {m}")),
        }
    };
    let empty = || -> js_sys::Object { host::object(vec![]).unchecked_into() };
    let (mut cats, mut tags) = (None, None);
    call("get_categories", guard(|| cats = indexer_lib::get_categories()))?;
    call("get_tags", guard(|| tags = indexer_lib::get_tags()))?;
    let (Some(mut cats), Some(mut tags)) = (cats, tags) else { return Err("the accepted catalogue is not there".into()) };
    let mut opts = vec![];
    let mut its = vec![];
    call(
        "listing categories",
        guard(|| {
            let mut it = cats.iter();
            while let Some(mut c) = it.next_item() {
                let _ = c.name();
                while let Some(o) = c.next_item() {
                    let _ = o.get_name();
                    opts.push(o);
                }
                its.push(c);
            }
        }),
    )?;
    let mut ts = vec![];
    call(
        "listing tags",
        guard(|| {
            let mut it = tags.tags();
            while let Some(t) = it.next_tag() {
                let _ = t.get_name();
                ts.push(t);
            }
        }),
    )?;
    let mut orders = vec![];
    call("get_orders", guard(|| orders = indexer_lib::get_orders().unwrap_or_default().iter().filter_map(|j| j.as_string()).collect::<Vec<_>>()))?;
    let mut products = 0u64;
    let mut search = |what: &str, q: &str, c: &indexer_lib::js_interactable::CategoryHandler, t: &indexer_lib::js_interactable::TagHandler, o: Option<String>, f: js_sys::Object| -> Result<(), String> {
        let g = guard(|| {
            if let Some(mut p) = indexer_lib::search(q, c, t, o, &f) {
                while let Some(x) = p.next_product() {
                    products += 1;
                    let _ = (x.get_id(), x.get_title(), x.get_description());
                    let _ = (x.numeric_feature("price"), x.string_feature("image_url"), x.string_feature("price"), x.numeric_feature("image_url"));
                }
            }
        });
        match g {
            Got::Ok(()) => Ok(()),
            Got::Panic(m) | Got::Throw(m) => Err(format!("{what} ended abnormally: {m}")),
        }
    };
    for q in queries {
        search("a search", q, &cats, &tags, None, empty())?;
    }
    for o in orders {
        search(&format!("a search ordered {o:?}"), &queries[0], &cats, &tags, Some(o), empty())?;
    }
    let price = host::object(vec![("from", host::Prop::Value(JsValue::from_f64(0.0))), ("to", host::Prop::Value(JsValue::from_f64(1e9)))]);
    let f: js_sys::Object = host::object(vec![("price", host::Prop::Value(price))]).unchecked_into();
    search("a filtered search", &queries[0], &cats, &tags, None, f)?;
    for (name, bound, v) in [
        ("price", "exact", JsValue::from_f64(100.0)),
        ("image_url", "exact", JsValue::from_str("https://cdn/1.jpg")),
        ("image_url", "from", JsValue::from_f64(0.0)),
        ("price", "exact", JsValue::from_str("100")),
        ("weight", "to", JsValue::from_f64(1.0)),
    ] {
        let o = host::object(vec![(bound, host::Prop::Value(v))]);
        let f: js_sys::Object = host::object(vec![(name, host::Prop::Value(o))]).unchecked_into();
        search(&format!("a search filtered by {name} {bound}"), &queries[0], &cats, &tags, None, f)?;
    }
    for o in opts.iter().take(12) {
        call("switching an option", guard(|| cats.toggle(o)))?;
        search("a search with an option", &queries[0], &cats, &tags, None, empty())?;
        call("switching an option", guard(|| cats.toggle(o)))?;
    }
    for t in ts.iter().take(12) {
        call("switching a tag", guard(|| tags.toggle(t)))?;
        search("a search with a tag", &queries[0], &cats, &tags, None, empty())?;
        call("switching a tag", guard(|| tags.toggle(t)))?;
    }
    // Everything at once.
    for o in opts.iter().take(30) {
        call("switching an option", guard(|| cats.toggle(o)))?;
    }
    for t in ts.iter().take(30) {
        call("switching a tag", guard(|| tags.toggle(t)))?;
    }
    search("a search with everything switched on", &queries[0], &cats, &tags, None, empty())?;
    for t in ts.iter().take(3) {
        let name = t.get_name();
        call("tag_suggestion", guard(|| drop(indexer_lib::tag_suggestion(&name).map(|s| (s.get_tag().get_name(), s.get_input())))))?;
    }
    child::count("products shown from damaged files", products);
    Ok(n)
}

pub fn run_harm(h: &Harm) {
    rt::install_random(h.hseed);
    let files: Vec<Vec<u8>> = h.cats.iter().enumerate().map(|(g, c)| build(c, 100 + g as u64)).collect();
    child::log(|| format!("{} bytes, digest {:x}", files[0].len(), files[0].iter().fold(0u64, |h, b| rt::mix(h, u64::from(*b)))));
    // On a stack of two megabytes, twice what a browser gives the engine.
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || {
                for (i, d) in h.dmgs.iter().enumerate() {
                    let mut b = files[0].clone();
                    for x in d {
                        x.apply(&mut b, &files);
                    }
                    if b == files[0] {
                        continue;
                    }
                    for x in d {
                        child::count(&format!("fault: {}", x.kind()), 1);
                    }
                    child::set_status(&format!("decoding the file damaged by {d:?}"));
                    rt::set_epoch(1000 + i as u64);
                    child::evals(1);
                    // Generous: hundreds of times what the undamaged file needs.
                    crate::alloc::limit(1024 * b.len() + (1 << 20), 8192 * b.len() + (16 << 20));
                    let r = try_decode::<5>(&b);
                    crate::alloc::unlimited();
                    match r {
                        Got::Ok(false) => {
                            child::count("damaged files rejected", 1);
                        }
                        Got::Panic(m) | Got::Throw(m) => {
                            child::violation("harm", format!("decoding the file damaged by {d:?} ended abnormally: {m}"));
                            return;
                        }
                        Got::Ok(true) => {
                            child::count("damaged files accepted", 1);
                            child::nontrivial();
                            child::set_status(&format!("using the catalogue accepted from the file damaged by {d:?}"));
                            match guard(|| indexer_lib::initialize(&b)) {
                                Got::Ok(true) => {}
                                // Refused after all, which is as good.
                                Got::Ok(false) => continue,
                                Got::Panic(m) | Got::Throw(m) => {
                                    child::violation("harm", format!("loading the file damaged by {d:?} ended abnormally: {m}"));
                                    return;
                                }
                            }
                            match exercise(&h.queries) {
                                Ok(n) => child::evals(n),
                                Err(e) => {
                                    child::violation("harm", format!("the file damaged by {d:?} was accepted, then {e}"));
                                    return;
                                }
                            }
                        }
                    }
                }
            })
            .unwrap();
    });
}

// ------------------------------------------------------------------ rebuilt

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rebuild {
    pub cat: Cat,
    pub builds: usize,
    pub hseed: u64,
}
pub fn gen_rebuild(seed: u64) -> Rebuild {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[3usize, 6, 12, 24]);
    Rebuild { cat: cat::gen(&mut r, 0, cat::Shape::new(1, max, true).huge(420).wild(0.4)), builds: r.range(3, 5), hseed: r.next() }
}
pub fn run_rebuild(c: &Rebuild) {
    rt::install_random(c.hseed);
    let json = c.cat.json();
    let mut first: Option<cat::View> = None;
    let mut orders_seen = std::collections::BTreeSet::new();
    for i in 0..c.builds {
        child::set_status(&format!("build {i}"));
        rt::set_epoch(100 + i as u64);
        let file = if i + 1 < c.builds || c.builds < 2 {
            match guard(|| indexer_lib::index(&json)) {
                Got::Ok(Some(f)) => f,
                Got::Ok(None) => return child::violation("contents", format!("build {i} was refused")),
                Got::Panic(m) | Got::Throw(m) => return child::violation("contents", format!("build {i} ended abnormally: {m}")),
            }
        } else {
            let mut v = c.cat.raw();
            let mut r = Rng::new(c.hseed);
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
            match guard(|| indexer_lib::index_and_serialize(v, cat::leak_super()).ok()) {
                Got::Ok(Some(f)) => f,
                Got::Ok(None) => return child::violation("contents", format!("build {i} was refused")),
                Got::Panic(m) | Got::Throw(m) => return child::violation("contents", format!("build {i} ended abnormally: {m}")),
            }
        };
        child::count("builds", 1);
        rt::set_epoch(500 + i as u64);
        let Got::Ok(Some((ix, cl))) = guard(|| cat::load_ref::<5>(&file)) else {
            return child::violation("contents", format!("the file of build {i} does not load"));
        };
        orders_seen.insert(cat::numbering(&ix));
        let v = cat::view(&ix, &cl);
        child::evals(1);
        if let Some(w) = cat::view_vs_spec(&v, &c.cat) {
            return child::violation("contents", format!("build {i}: {w}"));
        }
        match &first {
            None => first = Some(v),
            Some(f) => {
                if let Some(w) = cat::views_differ(f, &v, false) {
                    return child::violation("contents", format!("build {i} differs from build 0: {w}"));
                }
            }
        }
        child::log(|| format!("build {i}: {} bytes", file.len()));
        // What a caller sees of it.
        if let Got::Ok(true) = guard(|| indexer_lib::initialize(&file)) {
            let shown = guard(|| {
                let (ca, ta) = (indexer_lib::get_categories().unwrap(), indexer_lib::get_tags().unwrap());
                let none: js_sys::Object = host::object(vec![]).unchecked_into();
                let mut out = vec![];
                if let Some(mut p) = indexer_lib::search(&cat::wide_query(&c.cat), &ca, &ta, None, &none) {
                    while let Some(x) = p.next_product() {
                        out.push(cat::Shown {
                            id: x.get_id(),
                            title: x.get_title(),
                            desc: x.get_description(),
                            price: x.numeric_feature("price"),
                            image: x.string_feature("image_url"),
                        });
                    }
                }
                out
            });
            match shown {
                Got::Ok(l) => {
                    for s in l {
                        child::evals(1);
                        match c.cat.by_id(&s.id) {
                            None => child::violation("contents", format!("build {i} shows product {:?}, which the catalogue does not contain", s.id)),
                            Some(p) => {
                                if let Some(w) = cat::shown_wrong(&s, p) {
                                    child::violation("contents", format!("build {i}: {w}"));
                                }
                            }
                        }
                    }
                }
                Got::Panic(m) | Got::Throw(m) => child::violation("contents", format!("showing build {i} ended abnormally: {m}")),
            }
        }
    }
    child::count("arrival orders seen", orders_seen.len() as u64);
    if orders_seen.len() > 1 {
        child::nontrivial();
    }
}
