//! Damaged catalogue documents given to the indexer.
use crate::cat::{self, Cat, Prod};
use crate::child::{self, guard, Got};
use crate::files::{build, exercise};
use crate::plan::{self, Damage};
use crate::rt::{self, Rng};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hurt {
    /// Any damage to the bytes; what is no text any more is replaced as a decoder of texts would.
    Bytes(Damage),
    /// The string literal of this number (modulo their number) becomes this text.
    Literal(usize, String),
    /// Two string literals change places.
    SwapLiterals(usize, usize),
    /// The amount of this price becomes this text.
    Price(usize, String),
    /// Every price becomes one of these texts.
    Prices(Vec<String>),
    /// The entry (key and product) of this number is there twice, or missing.
    DoubleEntry(usize),
    DropEntry(usize),
    /// This many brackets are opened at a literal.
    Nest(usize, usize),
}
impl Hurt {
    fn kind(&self) -> String {
        match self {
            Hurt::Bytes(d) => d.kind().into(),
            Hurt::Literal(..) => "string replaced".into(),
            Hurt::SwapLiterals(..) => "strings swapped".into(),
            Hurt::Price(..) | Hurt::Prices(..) => "price replaced".into(),
            Hurt::DoubleEntry(..) => "entry doubled".into(),
            Hurt::DropEntry(..) => "entry lost".into(),
            Hurt::Nest(..) => "deep nesting".into(),
        }
    }
}
/// Where the string literals are, quotes included.
fn literals(t: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let (mut start, mut esc) = (None, false);
    for (i, b) in t.bytes().enumerate() {
        match start {
            None if b == b'"' => start = Some(i),
            Some(_) if esc => esc = false,
            Some(_) if b == b'\\' => esc = true,
            Some(s) if b == b'"' => {
                out.push((s, i + 1));
                start = None;
            }
            _ => {}
        }
    }
    out
}
/// Where the entries of the outermost object are, without the commas.
fn entries(t: &str) -> Vec<(usize, usize)> {
    let lits = literals(t);
    let inside = |i: usize| lits.binary_search_by(|l| if l.1 <= i { std::cmp::Ordering::Less } else if l.0 > i { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }).is_ok();
    let (mut depth, mut from, mut out) = (0i32, 1usize, vec![]);
    for (i, b) in t.bytes().enumerate() {
        if inside(i) {
            continue;
        }
        match b {
            b'{' | b'[' => depth += 1,
            b'}' | b']' => depth -= 1,
            _ => {}
        }
        if (b == b',' && depth == 1) || (depth == 0 && i > 0) {
            if i > from {
                out.push((from, i));
            }
            from = i + 1;
        }
        if depth <= 0 && i > 0 {
            break;
        }
    }
    out
}
fn amounts(t: &str) -> Vec<(usize, usize)> {
    let l = literals(t);
    (1..l.len()).filter(|i| &t[l[i - 1].0..l[i - 1].1] == "\"amount\"").map(|i| l[i]).collect()
}
fn replace(t: &mut String, at: (usize, usize), with: &str) {
    t.replace_range(at.0..at.1, &serde_json::to_string(with).unwrap());
}
impl Hurt {
    fn apply(&self, b: &mut Vec<u8>, docs: &[Vec<u8>]) {
        if let Hurt::Bytes(d) = self {
            return d.apply(b, docs);
        }
        let mut t = String::from_utf8_lossy(b).into_owned();
        let l = literals(&t);
        match self {
            Hurt::Literal(k, s) if !l.is_empty() => replace(&mut t, l[k % l.len()], s),
            Hurt::SwapLiterals(x, y) if !l.is_empty() => {
                let (x, y) = (l[x % l.len()], l[y % l.len()]);
                let (x, y) = (x.min(y), x.max(y));
                if x != y {
                    let (a, b) = (t[x.0..x.1].to_string(), t[y.0..y.1].to_string());
                    t.replace_range(y.0..y.1, &a);
                    t.replace_range(x.0..x.1, &b);
                }
            }
            Hurt::Price(k, s) => {
                let a = amounts(&t);
                if !a.is_empty() {
                    replace(&mut t, a[k % a.len()], s);
                }
            }
            Hurt::Prices(s) if !s.is_empty() => {
                for (i, at) in amounts(&t).into_iter().enumerate().rev() {
                    replace(&mut t, at, &s[i / 2 % s.len()]);
                }
            }
            Hurt::DoubleEntry(k) | Hurt::DropEntry(k) => {
                let e = entries(&t);
                if !e.is_empty() {
                    let (a, z) = e[k % e.len()];
                    if matches!(self, Hurt::DropEntry(_)) {
                        t.replace_range(a..z, "");
                    } else {
                        let again = format!("{},", &t[a..z]);
                        t.insert_str(a, &again);
                    }
                }
            }
            Hurt::Nest(k, n) if !l.is_empty() => {
                let at = l[k % l.len()];
                t.replace_range(at.0..at.1, &"[".repeat(*n));
            }
            _ => {}
        }
        *b = t.into_bytes();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub cats: Vec<Cat>,
    pub hurts: Vec<Vec<Hurt>>,
    pub queries: Vec<String>,
    pub hseed: u64,
}
pub fn gen(seed: u64) -> Doc {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[2usize, 5, 12, 40]);
    let sh = cat::Shape::new(1, max, true).huge(60);
    let cats: Vec<Cat> = (0..2).map(|g| cat::gen(&mut r, g, sh)).collect();
    const TEXTS: [&str; 12] = ["", " ", "NaN", "1e999", "0x10", "\"", "\\", "\u{0}", "100", "kunst", "👽", "null"];
    const AMOUNTS: [&str; 22] =
        [" 10", "10 ", "+5", "10\n", "1 000", "1_0", "NaN", "nan", "-NaN", "inf", "-inf", "1e999", "-1e999", "", " ", "1,5", "12.", ".5", "1e-50", "100 kr", "0x10", "१"];
    let hurts = (0..r.range(15, 40))
        .map(|_| {
            (0..if r.chance(0.75) { 1 } else { r.range(2, 4) })
                .map(|_| {
                    let k = r.next() as usize & 0xffff_ffff;
                    match r.below(12) {
                        0 => Hurt::Bytes(Damage::Cut(k)),
                        1 => Hurt::Literal(k, (*r.pick(&TEXTS)).into()),
                        2 => Hurt::SwapLiterals(k, r.next() as usize & 0xffff_ffff),
                        3 => Hurt::Price(k, (*r.pick(&AMOUNTS)).into()),
                        4 => {
                            let odd = (*r.pick(&AMOUNTS)).to_string();
                            Hurt::Prices((0..r.range(3, 9)).map(|_| if r.chance(0.4) { odd.clone() } else { r.below(500).to_string() }).collect())
                        }
                        5 => Hurt::DoubleEntry(k),
                        6 => Hurt::DropEntry(k),
                        7 if r.chance(0.3) => Hurt::Nest(k, *r.pick(&[5usize, 120, 130, 2000, 200_000])),
                        _ => Hurt::Bytes(plan::gen_damage(&mut r)),
                    }
                })
                .collect()
        })
        .collect();
    let queries = vec![cat::wide_query(&cats[0]), cat::gen_query(&mut r, &cats[0])];
    Doc { cats, hurts, queries, hseed: r.next() }
}

/// The catalogue a document describes, if it is plainly one.
fn described(t: &str) -> Option<Cat> {
    let text = |v: &Value| v.as_str().map(str::to_string);
    let texts = |v: &Value| v.as_array()?.iter().map(text).collect::<Option<Vec<_>>>();
    let v: Value = serde_json::from_str(t).ok()?;
    let mut products = vec![];
    for p in v.as_object()?.values() {
        let options = p["options"].as_array()?.iter().map(|o| Some((text(&o["name"])?, texts(&o["values"])?))).collect::<Option<Vec<_>>>()?;
        products.push(Prod {
            id: text(&p["id"])?,
            title: text(&p["title"])?,
            desc: text(&p["description"])?,
            vendor: text(&p["vendor"])?,
            price: text(&p["price"]["min"]["amount"])?,
            tags: texts(&p["tags"])?,
            options,
            media: p["media"].as_array()?.iter().map(|m| text(&m["url"])).collect::<Option<Vec<_>>>()?,
            max: None,
            key: None,
        });
    }
    let ids: BTreeSet<&str> = products.iter().map(|p| p.id.as_str()).collect();
    let plain = ids.len() == products.len() && products.iter().all(|p| p.price.parse::<f32>().map_or(false, |x| !x.is_nan()));
    plain.then_some(Cat { products })
}

/// Why this is no catalogue at all. Structures may also be written as lists, which says nothing here.
fn no_catalogue(t: &str) -> Option<&'static str> {
    let text = |v: Option<&Value>| v.map_or(false, Value::is_string);
    let v: Value = serde_json::from_str(t).ok()?;
    let Some(all) = v.as_object() else { return Some("it is no collection of products") };
    for p in all.values() {
        let Some(p) = p.as_object() else {
            if p.is_array() {
                continue;
            }
            return Some("a product is none");
        };
        if ["description", "title", "vendor", "id"].iter().any(|k| !text(p.get(*k))) {
            return Some("a product has no description, title, vendor or id");
        }
        if ["tags", "options", "media"].iter().any(|k| !p.get(*k).map_or(false, Value::is_array)) {
            return Some("a product has no list of tags, options or media");
        }
        if !p["tags"].as_array().unwrap().iter().all(Value::is_string) {
            return Some("a tag is no text");
        }
        let Some(price) = p.get("price") else { return Some("a product has no price") };
        let Some(price) = price.as_object() else {
            if price.is_array() {
                continue;
            }
            return Some("a price is none");
        };
        let Some(min) = price.get("min") else { return Some("a product has no lowest price") };
        if let Some(min) = min.as_object() {
            let Some(a) = min.get("amount").and_then(Value::as_str) else { return Some("a price has no amount") };
            if a.parse::<f32>().map_or(true, f32::is_nan) {
                return Some("a price is no number");
            }
        }
    }
    None
}

pub fn run(d: &Doc) {
    if d.cats.is_empty() {
        return;
    }
    rt::install_random(d.hseed);
    let docs: Vec<Vec<u8>> = d.cats.iter().map(|c| c.json().into_bytes()).collect();
    let good = build(&d.cats[0], 100);
    child::log(|| format!("documents of {:?} bytes", docs.iter().map(|x| x.len()).collect::<Vec<_>>()));
    // On a stack of two megabytes, twice what a browser gives the engine.
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || hurt_all(d, &docs, &good)).unwrap();
    });
}
/// What the loaded catalogue answers.
fn answers(d: &Doc) -> Got<Option<String>> {
    guard(|| {
        let (c, t) = (indexer_lib::get_categories()?, indexer_lib::get_tags()?);
        let mut out = String::new();
        let none: js_sys::Object = wasm_bindgen::JsCast::unchecked_into(wasm_bindgen::host::object(vec![]));
        if let Some(mut p) = indexer_lib::search(d.queries.first().map_or("", |q| q), &c, &t, Some("Alphabetical".into()), &none) {
            while let Some(x) = p.next_product() {
                out += &format!("{} {} {:?};", x.get_id(), x.get_title(), x.numeric_feature("price"));
            }
        }
        let mut it = t.tags();
        while let Some(x) = it.next_tag() {
            out += &x.get_name();
        }
        Some(out)
    })
}
fn hurt_all(d: &Doc, docs: &[Vec<u8>], good: &[u8]) {
    let load = || {
        rt::set_epoch(200);
        matches!(guard(|| indexer_lib::initialize(good)), Got::Ok(true))
    };
    if !load() {
        return child::violation("harm", "the index of the undamaged document does not load".into());
    }
    let before = match answers(d) {
        Got::Ok(a) => a,
        Got::Panic(m) | Got::Throw(m) => return child::violation("harm", format!("using the undamaged catalogue ended abnormally: {m}")),
    };
    for (i, h) in d.hurts.iter().enumerate() {
        let mut b = docs[0].clone();
        for x in h {
            x.apply(&mut b, docs);
        }
        let t = String::from_utf8_lossy(&b).into_owned();
        if t.as_bytes() == docs[0] || t.len() > 2_000_000 {
            continue;
        }
        for x in h {
            child::count(&format!("fault: {}", x.kind()), 1);
        }
        child::set_status(&format!("indexing the document damaged by {h:?}"));
        rt::set_epoch(1000 + i as u64);
        child::evals(1);
        // Hundreds of times what the undamaged document needs.
        crate::alloc::limit(1024 * t.len() + (1 << 20), 32768 * t.len() + (16 << 20));
        let r = guard(|| indexer_lib::index(&t));
        crate::alloc::unlimited();
        let bad = |w: String| child::violation("harm", format!("the document damaged by {h:?}: {w}"));
        let file = match r {
            Got::Ok(f) => f,
            Got::Panic(m) | Got::Throw(m) => return bad(format!("indexing it ended abnormally: {m}")),
        };
        // Nothing of the loaded catalogue has changed.
        match answers(d) {
            Got::Ok(a) if a == before => {}
            Got::Ok(_) => return bad("indexing it changed what the loaded catalogue answers".into()),
            Got::Panic(m) | Got::Throw(m) => return bad(format!("after indexing it the loaded catalogue ends a call abnormally: {m}")),
        }
        let Some(file) = file else {
            child::count("damaged documents refused", 1);
            continue;
        };
        child::count("damaged documents indexed", 1);
        child::nontrivial();
        if serde_json::from_str::<serde::de::IgnoredAny>(&t).is_err() {
            return bad("it is no JSON document any more, but was indexed".into());
        }
        if let Some(w) = no_catalogue(&t) {
            return bad(format!("{w}, but it was indexed"));
        }
        rt::set_epoch(5000 + i as u64);
        let (ix, cl) = match guard(|| cat::load_ref::<5>(&file)) {
            Got::Ok(Some(x)) => x,
            Got::Ok(None) => return bad("its index does not load".into()),
            Got::Panic(m) | Got::Throw(m) => return bad(format!("loading its index ends abnormally: {m}")),
        };
        let entries = serde_json::from_str::<Value>(&t).ok().and_then(|v| Some(v.as_object()?.len()));
        let found = cat::view(&ix, &cl);
        let n = cat::numbering(&ix).len();
        if found.known && entries.map_or(false, |e| e != n) {
            return bad(format!("it has {entries:?} entries, its index {n} products"));
        }
        if let Some(c) = described(&t) {
            child::evals(1);
            if let Some(w) = cat::view_vs_spec(&found, &c) {
                return bad(format!("its index is not what it describes: {w}"));
            }
        }
        if !matches!(guard(|| indexer_lib::initialize(&file)), Got::Ok(true)) {
            return bad("its index does not load".into());
        }
        match exercise(&d.queries) {
            Ok(n) => child::evals(n),
            Err(e) => return bad(format!("it was indexed, then {e}")),
        }
        load();
    }
    // The undamaged document still works.
    rt::set_epoch(9000);
    let t = String::from_utf8_lossy(&docs[0]).into_owned();
    match guard(|| indexer_lib::index(&t)) {
        Got::Ok(Some(f)) => {
            let ok = match guard(|| cat::load_ref::<5>(&f)) {
                Got::Ok(Some((ix, cl))) => cat::view_vs_spec(&cat::view(&ix, &cl), &d.cats[0]),
                _ => Some("does not load".into()),
            };
            if let Some(w) = ok {
                child::violation("harm", format!("afterwards the undamaged document's index: {w}"));
            }
        }
        Got::Ok(None) => child::violation("harm", "afterwards the undamaged document is refused".into()),
        Got::Panic(m) | Got::Throw(m) => child::violation("harm", format!("afterwards indexing the undamaged document ended abnormally: {m}")),
    }
}
