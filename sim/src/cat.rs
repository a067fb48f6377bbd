//! Catalogues: explicit specifications, their generation, and the independent model of what the
//! engine has to show for them.
use crate::rt::Rng;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{RawProduct, SuperAlloc};
#[cfg(feature = "deep")]
use indexer_lib::data::{FeatureValue, Product};
#[cfg(feature = "deep")]
use indexer_lib::ngram::GramNode;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prod {
    pub id: String,
    pub title: String,
    pub desc: String,
    pub vendor: String,
    pub price: String,
    pub tags: Vec<String>,
    pub options: Vec<(String, Vec<String>)>,
    pub media: Vec<String>,
    /// The highest price, if it is another one.
    #[serde(default)]
    pub max: Option<String>,
    /// The key in the document, if it is not the identifier.
    #[serde(default)]
    pub key: Option<String>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cat {
    pub products: Vec<Prod>,
}

pub const ORDERS: [&str; 3] = ["Alphabetical", "Price low to high", "Price high to low"];

const WORDS: [&str; 26] = [
    "kunst", "plakat", "ramme", "blomst", "skov", "himmel", "strand", "farver", "abstrakt", "maleri", "grafik", "retro", "natur", "bjerge",
    "æbler", "søer", "åkande", "kaffe", "sommer", "vinter", "Kunst", "Poster", "LINE", "👽", "ab", "x",
];
const VENDORS: [&str; 5] = ["Atelier Nord", "Plakatværket", "Studio 5", "A", "atelier nord"];
const TAGS: [&str; 7] = ["kunst", "plakat", "sort-hvid", "natur", "sommer", "børn", "tilbud"];
const CATS: [(&str, [&str; 4]); 3] = [
    ("Størrelse", ["A5", "A4", "A3", "50x70"]),
    ("Ramme", ["Ingen", "Sort", "Eg", "Hvid"]),
    ("Farve", ["Rød", "Blå", "Sort", "Grøn"]),
];
const PRICES: [&str; 10] = ["100", "100.0", "49.95", "49.9", "0", "1250.5", "100.00", "349", "75.25", "0.1"];

fn words(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(&WORDS)).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub min: usize,
    pub max: usize,
    pub long_desc: bool,
    /// How likely the catalogue is an unusual one (see `wild`).
    pub wild: f64,
    /// Most products an unusual catalogue may have.
    pub huge: usize,
    /// Very many products for certain.
    pub crowd: bool,
}
impl Shape {
    pub fn new(min: usize, max: usize, long_desc: bool) -> Shape {
        Shape { min, max, long_desc, wild: 0.25, huge: 40, crowd: false }
    }
    pub fn huge(self, huge: usize) -> Shape {
        Shape { huge, ..self }
    }
    pub fn wild(self, wild: f64) -> Shape {
        Shape { wild, ..self }
    }
}

/// Generates the catalogue of generation `g`: identifiers, one tag and one option are unique to the
/// generation; everything else is shared with the others.
pub fn gen(r: &mut Rng, g: usize, sh: Shape) -> Cat {
    let n = r.range(sh.min, sh.max);
    let p_tag = [0.0, 0.2, 0.4, 0.7][r.below(4)];
    let p_opt = [0.0, 0.3, 0.6][r.below(3)];
    let p_media = [0.5, 0.8, 1.0][r.below(3)];
    let ntags = r.range(1, TAGS.len());
    let letter = (b'A' + (g % 26) as u8) as char;
    let mut products = Vec::new();
    for i in 0..n {
        let mut tags: Vec<String> = TAGS[..ntags].iter().filter(|_| r.chance(p_tag)).map(|s| s.to_string()).collect();
        let mut options: Vec<(String, Vec<String>)> = Vec::new();
        for (c, vals) in CATS.iter() {
            if r.chance(p_opt) {
                let v: Vec<String> = vals.iter().filter(|_| r.chance(0.5)).map(|s| s.to_string()).collect();
                options.push((c.to_string(), v));
            }
        }
        if i == 0 || r.chance(0.15) {
            tags.push(format!("nur-{letter}"));
            options.push(("Serie".into(), vec![format!("Serie {letter}")]));
        }
        if r.chance(0.3) {
            let k = r.below(tags.len().max(1));
            let t = tags.len();
            if t > 1 {
                tags.swap(0, k);
            }
        }
        let title = if r.chance(0.9) { format!("{} {letter}{i}", words(r, 1, 4)) } else { format!("{letter}{i}") };
        let desc = match r.below(10) {
            0 => String::new(),
            1 if sh.long_desc => "å".repeat(r.range(40, 130)),
            2 | 3 if sh.long_desc => words(r, 15, 35),
            _ => words(r, 1, 8),
        };
        let media = if r.chance(p_media) { (0..r.range(1, 3)).map(|m| format!("https://cdn/{letter}/{i}/{m}.jpg")).collect() } else { vec![] };
        products.push(Prod {
            id: format!("gid://shop/Product/{letter}{:04}", 7 * i + 13),
            title,
            desc,
            vendor: (*r.pick(&VENDORS)).into(),
            price: if r.chance(0.5) { (*r.pick(&PRICES)).into() } else { format!("{}.{:02}", r.below(2000), r.below(100)) },
            tags,
            options,
            media,
            max: None,
            key: None,
        });
    }
    let mut c = Cat { products };
    if sh.crowd || r.chance(sh.wild) {
        wild(r, &mut c, sh);
    }
    let (ranges, keys) = (r.chance(0.3), r.chance(0.3));
    for (i, p) in c.products.iter_mut().enumerate() {
        if ranges && r.chance(0.5) {
            p.max = Some(format!("{}.{:02}", r.below(5000), r.below(100)));
        }
        if keys {
            p.key = Some(format!("produkt {letter}{}", 1000 - i));
        }
    }
    c
}

/// One of many different characters, none of which JSON has to escape.
fn wide_char(k: usize) -> char {
    const BLOCKS: [(u32, u32); 6] = [(0x61, 26), (0xe0, 22), (0x30, 10), (0x3b1, 24), (0x1f400, 60), (0x4e00, 400)];
    let mut k = k as u32;
    loop {
        for (a, n) in BLOCKS {
            if k < n {
                return char::from_u32(a + k).unwrap();
            }
            k -= n;
        }
    }
}
fn odd_name(r: &mut Rng, s: &str) -> String {
    match r.below(12) {
        0 => format!(" {s}"),
        1 => format!("{s} "),
        2 => format!("  {s}  "),
        3 => s.replace(' ', "  "),
        4 => s.to_uppercase(),
        5 => s.to_lowercase(),
        6 => format!("{s}\u{a0}"),
        7 => String::new(),
        8 => format!("{s}{}", "langt navn ".repeat(r.range(11, 28))),
        9 => format!("{s}\u{301}"),
        10 => " ".into(),
        _ => format!("İ{s}ß"),
    }
}

/// Makes a catalogue unusual in one or two ways that real ones occasionally are.
fn wild(r: &mut Rng, c: &mut Cat, sh: Shape) {
    let long = "Meget lang fælles begyndelse på alle titler i kataloget ";
    for k in 0..r.range(1, 2) {
        let n = c.products.len();
        if n == 0 {
            return;
        }
        match if sh.crowd && k == 0 { 18 } else { r.below(20) } {
            // Titles that are equal, or equal for a long way; the rest of the data stays different.
            0 => {
                let t = words(r, 1, 3);
                for p in &mut c.products {
                    if r.chance(0.7) {
                        p.title = t.clone();
                    }
                    if r.chance(0.5) {
                        p.vendor = VENDORS[0].into();
                    }
                }
            }
            1 => {
                for p in &mut c.products {
                    p.title = format!("{}{}", long.repeat(r.range(1, 3)), p.title);
                }
            }
            // Names that differ in blanks, case or length only, or are empty.
            2 | 3 => {
                for p in &mut c.products {
                    if r.chance(0.4) {
                        p.title = odd_name(r, &p.title);
                    }
                    if r.chance(0.3) {
                        p.vendor = odd_name(r, &p.vendor);
                    }
                    for t in &mut p.tags {
                        if r.chance(0.3) {
                            *t = odd_name(r, t);
                        }
                    }
                    for (n, v) in &mut p.options {
                        if r.chance(0.2) {
                            *n = odd_name(r, n);
                        }
                        for o in v {
                            if r.chance(0.3) {
                                *o = odd_name(r, o);
                            }
                        }
                    }
                    if r.chance(0.4) {
                        p.desc = match r.below(6) {
                            0 => format!(" {}", p.desc),
                            1 => format!("{} ", p.desc),
                            2 => format!(" {}", "ordudenmellemrum".repeat(r.range(3, 12))),
                            3 => format!("linje \"et\"\nlinje to\t\\ {}", p.desc),
                            4 => " ".repeat(r.range(1, 130)),
                            _ => format!("{}👽", "x".repeat(r.range(90, 104))),
                        };
                    }
                }
            }
            // A tag and an option that every product carries.
            4 => {
                let v = if r.chance(0.5) { Some(r.pick(&VENDORS).to_string()) } else { None };
                for p in &mut c.products {
                    p.tags.push("alle".into());
                    p.options.push(("Alle".into(), vec!["ja".into()]));
                    if let Some(v) = &v {
                        p.vendor = v.clone();
                    }
                }
            }
            // The same option name in several categories, the same category or value twice.
            5 => {
                for p in &mut c.products {
                    for (n, v) in &mut p.options {
                        if n != "Serie" && r.chance(0.6) {
                            *v = ["Sort", "Hvid", "Grå"].iter().filter(|_| r.chance(0.5)).map(|s| s.to_string()).collect();
                        }
                        if r.chance(0.2) && !v.is_empty() {
                            v.push(v[0].clone());
                        }
                    }
                    if r.chance(0.3) && !p.options.is_empty() {
                        let o = p.options[r.below(p.options.len())].clone();
                        p.options.push(o);
                    }
                    if r.chance(0.3) && !p.tags.is_empty() {
                        let t = p.tags[0].clone();
                        p.tags.push(t);
                    }
                }
            }
            // No options, no tags at all; categories without options.
            6 => {
                let (a, b) = (r.chance(0.5), r.chance(0.5));
                for p in &mut c.products {
                    if a {
                        p.tags.clear();
                    }
                    if b {
                        p.options.clear();
                    } else if r.chance(0.6) {
                        p.options.push(("Tom".into(), vec![]));
                    }
                }
            }
            // Prices of every kind, close together and far apart.
            7 | 8 => {
                const ODD: [&str; 23] = [
                    "1e3", "-5.5", "16777217", "16777216", "0.30000001", "0.3", "1e-3", "+5", "99.99", "99.989", "99.991", "100000000", "-0", "0", "1e30", "-100", ".5", "5.", "00012.50", "1e-45",
                    "3.4028235e38", "-1e-3", "99.990000000000000000000000000000001",
                ];
                let near = r.chance(0.3);
                for p in &mut c.products {
                    p.price = if near { format!("{}.{:02}", 100, r.below(100)) } else { (*r.pick(&ODD)).into() };
                }
            }
            // No, empty and many images.
            9 => {
                for p in &mut c.products {
                    match r.below(4) {
                        0 => p.media.clear(),
                        1 => p.media.insert(0, String::new()),
                        2 => p.media = vec!["https://cdn/ens.jpg".into()],
                        _ => p.media.push(format!("https://cdn/{}", "sti/".repeat(r.range(20, 60)))),
                    }
                }
            }
            // Many tags, options and categories.
            10 | 11 => {
                let m = *r.pick(&[9usize, 20, 66, 130, 140, 260]);
                let kind = r.below(3);
                for k in 0..m {
                    let i = r.below(n);
                    let p = &mut c.products[i];
                    match kind {
                        0 => p.tags.push(format!("mærke {k}")),
                        1 => match p.options.iter_mut().find(|o| o.0 == "Størrelse") {
                            Some(o) => o.1.push(format!("{k}x{k}")),
                            None => p.options.push(("Størrelse".into(), vec![format!("{k}x{k}")])),
                        },
                        _ => p.options.push((format!("Kategori {k}"), vec!["A".into(), "B".into()])),
                    }
                }
            }
            // Very different characters, so that n-gram nodes have many children.
            12 => {
                let m = *r.pick(&[30usize, 60, 130, 260]);
                let near = r.chance(0.5);
                for p in &mut c.products {
                    let mut d = String::new();
                    for _ in 0..r.range(10, 60) {
                        if near {
                            d.push('k');
                        }
                        d.push(wide_char(r.below(m)));
                    }
                    p.desc = d;
                }
                if near {
                    // All of them after the same character.
                    let i = r.below(n);
                    c.products[i].desc = (0..m).flat_map(|k| ['k', wide_char(k)]).collect();
                }
            }
            // Long texts.
            13 => {
                let whole = r.chance(0.1);
                for p in &mut c.products {
                    if r.chance(0.3) {
                        p.desc = words(r, 60, 200);
                    }
                    if r.chance(0.2) {
                        p.title = format!("{} {}", p.title, if whole { words(r, 150, 400) } else { words(r, 20, 60) });
                    }
                    if r.chance(0.2) {
                        p.id = format!("gid://{}/{}", "shop/".repeat(30), p.id);
                    }
                }
            }
            // Names and texts that differ in case only, or in a few characters far behind.
            14 => {
                let base = words(r, 8, 16);
                for p in &mut c.products {
                    let flip = |r: &mut Rng, s: &str| if r.chance(0.5) { s.to_uppercase() } else { s.to_string() };
                    for t in &mut p.tags {
                        *t = flip(r, t);
                    }
                    for (_, v) in &mut p.options {
                        for o in v {
                            *o = flip(r, o);
                        }
                    }
                    p.vendor = flip(r, &p.vendor);
                    if r.chance(0.5) {
                        p.title = format!("{base} {}", flip(r, &p.title));
                    } else {
                        p.title = flip(r, &p.title);
                    }
                }
            }
            // Identifiers that agree in their number, in their beginning or but for case.
            15 => {
                for (k, p) in c.products.iter_mut().enumerate() {
                    p.id = match r.below(6) {
                        0 => format!("gid://shop/Poster{}/{}", p.id.rsplit('/').next().unwrap(), k % 3),
                        1 => format!("{}/", p.id),
                        2 => p.id.to_uppercase(),
                        3 => format!("{}{}", p.id, 7),
                        4 => format!("{}#", k),
                        _ => format!("gid://shop/Product/{}{k}", "0".repeat(r.range(1, 30))),
                    };
                }
            }
            // Image addresses of many forms.
            16 => {
                for p in &mut c.products {
                    for m in &mut p.media {
                        *m = match r.below(8) {
                            0 => format!("{m}?v={}", r.below(100_000)),
                            1 => format!("{m}#{}", r.below(9)),
                            2 => m.to_uppercase(),
                            3 => m.replace("https", "http"),
                            4 => m.replace("https:", ""),
                            5 => format!(" {m} "),
                            6 => m.replace("cdn", "cdn.børn.dk:8080/a b"),
                            _ => format!("{m}?width=100&v={}", r.below(9)),
                        };
                    }
                }
            }
            // Variants: mostly what the product before or another one is, long texts included.
            19 => {
                let far = r.chance(0.3);
                if r.chance(0.6) {
                    let m = *r.pick(&[8usize, 20, 50, 90]);
                    let p = &mut c.products[0];
                    p.media = vec![format!("https://cdn.example.dk/{}a.jpg", "billeder/".repeat(m / 8))];
                    p.title = format!("{} {}", p.title, words(r, m / 8, m / 4));
                    p.desc = words(r, m / 8, m);
                    p.vendor = format!("{} {}", p.vendor, words(r, 1, m / 8 + 1));
                    p.tags.push(words(r, 1, m / 8 + 1));
                }
                for k in 1..n {
                    if r.chance(0.3) {
                        continue;
                    }
                    let old = c.products[if far { r.below(k) } else { k - 1 }].clone();
                    let p = &mut c.products[k];
                    let own = std::mem::replace(p, Prod { id: p.id.clone(), ..old });
                    for _ in 0..r.range(0, 2) {
                        match r.below(7) {
                            0 => p.title = own.title.clone(),
                            1 => p.desc = own.desc.clone(),
                            2 => p.price = own.price.clone(),
                            3 => p.media = own.media.clone(),
                            4 => p.tags = own.tags.clone(),
                            5 => p.options = own.options.clone(),
                            _ => p.vendor = own.vendor.clone(),
                        }
                    }
                }
            }
            // Many products and vendors.
            _ => {
                let big = if sh.crowd { *r.pick(&[260usize, 270, 300, 345, 420]) } else { *r.pick(&[20usize, 26, 40, 66, 130, 140, 260, 300, 345, 420]) };
                let big = big.min(sh.huge);
                let each = r.chance(0.6);
                // A word that as many products share as may share one and still be found by it.
                let common = if r.chance(0.4) { Some(*r.pick(&WORDS)) } else { None };
                let texts = r.range(3, 40);
                let mut k = n;
                while c.products.len() < big {
                    let mut p = c.products[r.below(n)].clone();
                    p.id = p.id.replace(':', &format!(":{k}:"));
                    p.title = match common {
                        Some(w) if r.chance(0.76) => format!("{w} nr {}", r.below(texts)),
                        _ => format!("{} nr {}", *r.pick(&WORDS), r.below(texts)),
                    };
                    p.desc = words(r, 0, 3);
                    p.price = format!("{}.{:02}", r.below(2000), r.below(100));
                    if r.chance(0.5) {
                        p.tags = vec![(*r.pick(&TAGS)).into()];
                        p.options = vec![];
                    }
                    p.media = if r.chance(0.8) { vec![format!("https://cdn/{k}.jpg")] } else { vec![] };
                    if each {
                        p.vendor = format!("V{k}");
                    }
                    c.products.push(p);
                    k += 1;
                }
            }
        }
    }
    // Identifiers stay unique whatever happened above.
    let mut seen = BTreeSet::new();
    for (i, p) in c.products.iter_mut().enumerate() {
        while !seen.insert(p.id.clone()) {
            p.id = format!("{}/{i}", p.id);
        }
    }
}

/// An edition of exactly the same shape and length in every part: a few letters and digits differ,
/// or things are carried by other products than before.
pub fn twin(r: &mut Rng, old: &Cat, g: usize) -> Cat {
    let letter = (b'A' + (g % 26) as u8) as char;
    let mut c = old.clone();
    let n = c.products.len();
    let same_ids = r.chance(0.6);
    for (i, p) in c.products.iter_mut().enumerate() {
        if !same_ids {
            // Same length, another letter.
            p.id = p.id.replacen("Product/", &format!("Prod{letter}ct/"), 1);
        }
        if i == 0 || r.chance(0.2) {
            for t in &mut p.tags {
                if t.starts_with("nur-") {
                    *t = format!("nur-{letter}");
                }
            }
            for o in &mut p.options {
                if o.0 == "Serie" && o.1.len() == 1 {
                    o.1 = vec![format!("Serie {letter}")];
                }
            }
        }
    }
    for _ in 0..r.range(1, 3) {
        if n == 0 {
            break;
        }
        let (i, j) = (r.below(n), r.below(n));
        match r.below(7) {
            0 if i != j => {
                let t = c.products[i].tags.clone();
                c.products[i].tags = std::mem::replace(&mut c.products[j].tags, t);
            }
            1 if i != j => {
                let t = c.products[i].options.clone();
                c.products[i].options = std::mem::replace(&mut c.products[j].options, t);
            }
            2 if i != j => {
                let t = c.products[i].price.clone();
                c.products[i].price = std::mem::replace(&mut c.products[j].price, t);
            }
            3 => {
                // Another digit in a price.
                let p = &mut c.products[i].price;
                if let Some(k) = p.rfind(|x: char| x.is_ascii_digit()) {
                    let d = (p.as_bytes()[k] - b'0' + 1 + r.below(8) as u8) % 10 + b'0';
                    let mut b = p.clone().into_bytes();
                    b[k] = d;
                    *p = String::from_utf8(b).unwrap();
                }
            }
            4 => {
                // Another letter in a title.
                let p = &mut c.products[i].title;
                if let Some(k) = p.find(|x: char| x.is_ascii_lowercase()) {
                    let mut b = p.clone().into_bytes();
                    b[k] = b'a' + (b[k] - b'a' + 1 + r.below(24) as u8) % 26;
                    *p = String::from_utf8(b).unwrap();
                }
            }
            5 => {
                if let Some(m) = c.products[i].media.first_mut() {
                    *m = m.replacen("cdn", &format!("cd{}", letter.to_ascii_lowercase()), 1);
                }
            }
            _ if i != j => {
                let t = c.products[i].title.clone();
                c.products[i].title = std::mem::replace(&mut c.products[j].title, t);
            }
            _ => {}
        }
    }
    c
}

/// A later edition of a catalogue: mostly the same data under new identifiers, shuffled.
pub fn edition(r: &mut Rng, old: &Cat, g: usize) -> Cat {
    let letter = (b'A' + (g % 26) as u8) as char;
    let mut c = old.clone();
    let same_ids = r.chance(0.5);
    for i in (1..c.products.len()).rev() {
        let j = r.below(i + 1);
        c.products.swap(i, j);
    }
    while c.products.len() > 2 && r.chance(0.3) {
        c.products.pop();
    }
    for (i, p) in c.products.iter_mut().enumerate() {
        if !same_ids {
            p.id = format!("gid://shop/Product/{letter}{:04}", 7 * i + 13);
        }
        if !same_ids || r.chance(0.3) {
            p.title = format!("{} {letter}{i}", words(r, 1, 3));
        }
        if r.chance(0.4) {
            p.tags.reverse();
        }
        p.tags.retain(|t| !t.starts_with("nur-"));
        p.options.retain(|o| o.0 != "Serie");
        if i == 0 || r.chance(0.15) {
            p.tags.push(format!("nur-{letter}"));
            p.options.push(("Serie".into(), vec![format!("Serie {letter}")]));
        }
        if r.chance(0.3) {
            p.price = format!("{}.{:02}", r.below(2000), r.below(100));
        }
    }
    c
}

fn jstr(s: &str) -> String {
    // Only descriptions contain characters that JSON has to escape.
    serde_json::to_string(s).unwrap()
}
impl Cat {
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        for (i, p) in self.products.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let list = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
            let opts: Vec<String> =
                p.options.iter().map(|(n, v)| format!("{{\"name\":{},\"values\":[{}]}}", jstr(n), list(v))).collect();
            let media: Vec<String> = p.media.iter().map(|u| format!("{{\"url\":{}}}", jstr(u))).collect();
            let money = format!("{{\"amount\":{},\"currencyCode\":\"DKK\"}}", jstr(&p.price));
            let max = match &p.max {
                Some(m) => format!("{{\"amount\":{},\"currencyCode\":\"EUR\"}}", jstr(m)),
                None => money.clone(),
            };
            o.push_str(&format!(
                "{}:{{\"description\":{},\"tags\":[{}],\"title\":{},\"vendor\":{},\"id\":{},\"options\":[{}],\"price\":{{\"min\":{money},\"max\":{max}}},\"media\":[{}]}}",
                jstr(p.key.as_ref().unwrap_or(&p.id)), jstr(&p.desc), list(&p.tags), jstr(&p.title), jstr(&p.vendor), jstr(&p.id), opts.join(","), media.join(",")
            ));
        }
        o.push('}');
        o
    }
    pub fn raw(&self) -> Vec<RawProduct<'static>> {
        let text: &'static str = Box::leak(self.json().into_boxed_str());
        let mut m: BTreeMap<String, RawProduct<'static>> = serde_json::from_str(text).expect("generated catalogue is valid");
        // Arrival order is the specification's order.
        self.products.iter().map(|p| m.remove(p.key.as_ref().unwrap_or(&p.id)).expect("unique keys")).collect()
    }
    pub fn by_id(&self, id: &str) -> Option<&Prod> {
        self.products.iter().find(|p| p.id == id)
    }
    pub fn tags(&self) -> BTreeSet<String> {
        self.products.iter().flat_map(|p| p.tags.iter().cloned()).collect()
    }
    /// Category name -> its option names. A category may have no options.
    pub fn categories(&self) -> BTreeMap<String, BTreeSet<String>> {
        let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for p in &self.products {
            for (c, v) in &p.options {
                m.entry(c.clone()).or_default().extend(v.iter().cloned());
            }
        }
        m
    }
}
impl Prod {
    pub fn price(&self) -> f32 {
        self.price.parse().unwrap()
    }
    pub fn image(&self) -> Option<&str> {
        self.media.first().map(|s| s.as_str()).filter(|s| !s.is_empty())
    }
    pub fn has_tag(&self, t: &str) -> bool {
        self.tags.iter().any(|x| x == t)
    }
    pub fn has_option(&self, c: &str, o: &str) -> bool {
        self.options.iter().any(|(n, v)| n == c && v.iter().any(|x| x == o))
    }
}

// ------------------------------------------------------------------ what a product shows

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Shown {
    pub id: String,
    pub title: String,
    pub desc: String,
    pub price: Option<f64>,
    pub image: Option<String>,
}
/// What is wrong with a shown product, given the product it claims to be.
pub fn shown_wrong(s: &Shown, p: &Prod) -> Option<String> {
    if s.title != p.title {
        return Some(format!("product {} shows title {:?}, its own is {:?}", s.id, s.title, p.title));
    }
    if !p.desc.starts_with(&s.desc) || (s.desc.is_empty() && !p.desc.is_empty()) {
        return Some(format!("product {} shows description {:?}, its own is {:?}", s.id, s.desc, p.desc));
    }
    if s.price != Some(f64::from(p.price())) {
        return Some(format!("product {} shows price {:?}, its own is {}", s.id, s.price, p.price()));
    }
    let img = s.image.as_deref().filter(|x| !x.is_empty());
    if img != p.image() {
        return Some(format!("product {} shows image {:?}, its own is {:?}", s.id, s.image, p.image()));
    }
    None
}

// ------------------------------------------------------------------ reference instances

pub use glue::{Idx, NodeArena};

pub fn leak_super() -> &'static SuperAlloc {
    Box::leak(Box::new(SuperAlloc::new()))
}
pub fn leak_nodes() -> &'static NodeArena {
    Box::leak(Box::new(NodeArena::new()))
}

/// Decodes a file into an instance of its own, outside the engine's globals.
pub fn load_ref<const N: usize>(bytes: &[u8]) -> Option<(Idx<N>, ClassicIndexes<'static>)> {
    indexer_lib::serialize::deserialize_all::<char, N>(bytes, leak_nodes(), leak_super())
}

/// Where the parts of an undamaged file begin, and its end.
#[cfg(not(feature = "deep"))]
pub fn sections(_: &[u8]) -> Option<Vec<usize>> {
    None
}
#[cfg(feature = "deep")]
pub fn sections(file: &[u8]) -> Option<Vec<usize>> {
    use indexer_lib::serialize::Serializable;
    fn len<T: Serializable + ?Sized>(x: &T) -> usize {
        let mut n = 0;
        x.serialize(&mut |_| n += 1);
        n
    }
    let (ix, cl) = load_ref::<5>(file)?;
    let (all, pc) = (len(&ix), ix.product_container);
    let mut at = vec![0, len(&*pc.vendors)];
    at.push(len(pc) - len(&pc.extra_features));
    at.push(len(pc));
    at.push(at[3] + len(&ix.roots));
    at.push(all);
    for n in [len(&cl.categories), len(&cl.tags), len(&cl.order)] {
        at.push(at.last()? + n);
    }
    (at.windows(2).all(|w| w[0] <= w[1]) && *at.last()? == file.len()).then_some(at)
}

/// Everything observable about a catalogue, keyed by product identifier instead of number.
#[derive(PartialEq, Default)]
pub struct View {
    /// Whether it was looked at.
    pub known: bool,
    pub products: BTreeMap<String, (String, String, String, Option<f64>, Option<String>)>, // title, desc, vendor, price, image
    pub tags: BTreeMap<String, Vec<String>>,
    pub options: BTreeMap<(String, String), Vec<String>>,
    pub categories: BTreeMap<String, Vec<String>>,
    pub exclusive: BTreeMap<String, bool>,
    pub orders: BTreeMap<String, Vec<String>>,
    pub grams: BTreeMap<Vec<char>, Vec<String>>,
    pub nodes: BTreeMap<Vec<char>, u32>,
    pub dup: Option<String>,
}

#[cfg(feature = "deep")]
fn walk(path: &mut Vec<char>, n: &GramNode<'static, char>, out: &mut BTreeMap<Vec<char>, u32>, dup: &mut Option<String>) {
    path.push(n.item);
    if out.insert(path.clone(), n.weight.to_bits()).is_some() {
        *dup = Some(format!("the n-gram tree has {path:?} twice"));
    }
    if n.items.len() != n.by_occurances.len() {
        *dup = Some(format!("the n-gram tree node {path:?} indexes {} children but lists {}", n.items.len(), n.by_occurances.len()));
    }
    let mut last = f32::INFINITY;
    for c in &n.by_occurances {
        if c.weight > last {
            *dup = Some(format!("the n-gram tree node {path:?} does not list its children by falling weight"));
        }
        last = c.weight;
        match n.items.get(&c.item) {
            Some(x) if std::ptr::eq(*x, *c) || *x == *c => {}
            _ => *dup = Some(format!("the n-gram tree node {path:?} finds another child under {:?}", c.item)),
        }
        walk(path, c, out, dup);
    }
    path.pop();
}

/// The identifiers of the products in the order of their numbers.
pub fn numbering<const N: usize>(ix: &Idx<N>) -> Vec<String> {
    #[cfg(feature = "deep")]
    return ix.product_container.products.iter().map(|p| p.id.clone()).collect();
    #[cfg(not(feature = "deep"))]
    {
        let _ = ix;
        vec![]
    }
}
/// The product identifiers in this order.
pub fn ordered<const N: usize>(ix: &Idx<N>, cl: &ClassicIndexes<'static>, order: &str) -> Option<Vec<String>> {
    #[cfg(feature = "deep")]
    {
        let pos = cl.order.get_orders(order)?;
        let mut v: Vec<(usize, String)> = ix.product_container.products.iter().enumerate().map(|(i, p)| (pos[i], p.id.clone())).collect();
        v.sort();
        return Some(v.into_iter().map(|x| x.1).collect());
    }
    #[cfg(not(feature = "deep"))]
    {
        let _ = (ix, cl, order);
        None
    }
}
#[cfg(not(feature = "deep"))]
pub fn view<const N: usize>(_: &Idx<N>, _: &ClassicIndexes<'static>) -> View {
    View::default()
}
#[cfg(feature = "deep")]
pub fn view<const N: usize>(ix: &Idx<N>, cl: &ClassicIndexes<'static>) -> View {
    let cont = ix.product_container;
    let mut dup = None;
    let mut v = View { known: true, ..View::default() };
    for (i, p) in cont.products.iter().enumerate() {
        if p.serialization_id != i {
            dup = Some(format!("product {} at position {i} carries number {}", p.id, p.serialization_id));
        }
        let price = match cont.extra_features.get(p, "price") {
            Some(FeatureValue::Float(f)) => Some(f64::from(f)),
            Some(FeatureValue::Integer(f)) => Some(f64::from(f)),
            _ => None,
        };
        let image = match cont.extra_features.get(p, "image_url") {
            Some(FeatureValue::String(s)) if !s.is_empty() => Some(s.to_string()),
            _ => None,
        };
        if v.products
            .insert(p.id.clone(), (p.title.clone(), p.description.clone(), p.vendor.name.clone(), price, image))
            .is_some()
        {
            dup = Some(format!("product {} is there twice", p.id));
        }
    }
    let members = |f: &dyn Fn(&Product<'_>) -> bool| -> Vec<String> {
        let mut o: Vec<String> = cont.products.iter().filter(|p| f(p)).map(|p| p.id.clone()).collect();
        o.sort();
        o
    };
    for (i, t) in cl.tags.iter().enumerate() {
        if t.get_id() != i {
            dup = Some(format!("tag {:?} at position {i} carries number {}", t.name, t.get_id()));
        }
        if v.tags.insert(t.name.clone(), members(&|p| t.contains(p))).is_some() {
            dup = Some(format!("tag {:?} is there twice", t.name));
        }
    }
    for c in &cl.categories.0 {
        let names: Vec<String> = c.options.iter().map(|o| o.name.clone()).collect();
        if v.categories.insert(c.name.clone(), {
            let mut n = names.clone();
            n.sort();
            n
        }).is_some()
        {
            dup = Some(format!("category {:?} is there twice", c.name));
        }
        v.exclusive.insert(c.name.clone(), c.exclusive);
        for o in &c.options {
            if v.options.insert((c.name.clone(), o.name.clone()), members(&|p| o.contains(p))).is_some() {
                dup = Some(format!("option {:?} of {:?} is there twice", o.name, c.name));
            }
        }
    }
    for name in cl.order.options() {
        let pos = cl.order.get_orders(name).unwrap();
        let mut ids: Vec<usize> = (0..cont.products.len()).collect();
        if pos.len() != cont.products.len() {
            dup = Some(format!("order {name:?} has {} positions for {} products", pos.len(), cont.products.len()));
            continue;
        }
        let mut sorted = pos.clone();
        sorted.sort();
        if sorted.iter().enumerate().any(|(i, p)| i != *p) {
            dup = Some(format!("order {name:?} is not a numbering of the products: {pos:?}"));
        }
        ids.sort_by_key(|i| pos[*i]);
        v.orders.insert(name.to_string(), ids.into_iter().map(|i| cont.products[i].id.clone()).collect());
    }
    for (g, ps) in &ix.data {
        let mut ids: Vec<String> = ps.iter().map(|p| p.id.clone()).collect();
        for p in ps {
            if cont.products.get(p.serialization_id).map(|q| std::ptr::eq(q, *p)) != Some(true) {
                dup = Some(format!("n-gram {g:?} refers to a product outside its own container"));
            }
        }
        if ps.windows(2).any(|w| w[0].serialization_id > w[1].serialization_id) {
            dup = Some(format!("n-gram {g:?} lists its products out of order"));
        }
        ids.sort();
        v.grams.insert(g.to_vec(), ids);
    }
    let mut path = Vec::new();
    for (k, n) in &ix.roots {
        if *k != n.item {
            dup = Some(format!("n-gram tree root {k:?} holds {:?}", n.item));
        }
        walk(&mut path, n, &mut v.nodes, &mut dup);
    }
    v.dup = dup;
    v
}

/// How a view differs from the specification, products' own data and groupings only.
pub fn view_vs_spec(v: &View, c: &Cat) -> Option<String> {
    if !v.known {
        return None;
    }
    if let Some(d) = &v.dup {
        return Some(d.clone());
    }
    if v.products.len() != c.products.len() {
        return Some(format!("{} products instead of {}", v.products.len(), c.products.len()));
    }
    for p in &c.products {
        let Some((title, desc, vendor, price, image)) = v.products.get(&p.id) else {
            return Some(format!("product {} is missing", p.id));
        };
        let s = Shown { id: p.id.clone(), title: title.clone(), desc: desc.clone(), price: *price, image: image.clone() };
        if let Some(w) = shown_wrong(&s, p) {
            return Some(w);
        }
        if *vendor != p.vendor {
            return Some(format!("product {} shows vendor {vendor:?}, its own is {:?}", p.id, p.vendor));
        }
    }
    let sorted = |f: &dyn Fn(&Prod) -> bool| -> Vec<String> {
        let mut o: Vec<String> = c.products.iter().filter(|p| f(p)).map(|p| p.id.clone()).collect();
        o.sort();
        o
    };
    let tags = c.tags();
    if v.tags.keys().cloned().collect::<BTreeSet<_>>() != tags {
        return Some(format!("tags {:?} instead of {tags:?}", v.tags.keys().collect::<Vec<_>>()));
    }
    for (t, m) in &v.tags {
        let want = sorted(&|p| p.has_tag(t));
        if *m != want {
            return Some(format!("tag {t:?} covers {m:?} instead of {want:?}"));
        }
    }
    let cats = c.categories();
    let got: BTreeMap<String, BTreeSet<String>> =
        v.categories.iter().map(|(k, o)| (k.clone(), o.iter().cloned().collect())).collect();
    if got != cats {
        return Some(format!("categories {got:?} instead of {cats:?}"));
    }
    for ((ca, op), m) in &v.options {
        let want = sorted(&|p| p.has_option(ca, op));
        if *m != want {
            return Some(format!("option {op:?} of {ca:?} covers {m:?} instead of {want:?}"));
        }
    }
    let names: Vec<&str> = v.orders.keys().map(|s| s.as_str()).collect();
    let mut want = ORDERS.to_vec();
    want.sort_unstable();
    if names != want {
        return Some(format!("sort orders {names:?} instead of {want:?}"));
    }
    for (name, ids) in &v.orders {
        let seq: Vec<&Prod> = ids.iter().filter_map(|i| c.by_id(i)).collect();
        if let Some(w) = order_wrong(name, &seq) {
            return Some(w);
        }
    }
    None
}

/// Whether a sequence of products is arranged as the order's name says.
pub fn order_wrong(name: &str, seq: &[&Prod]) -> Option<String> {
    for w in seq.windows(2) {
        let bad = match name {
            "Alphabetical" => w[0].title > w[1].title,
            "Price low to high" => w[0].price() > w[1].price(),
            "Price high to low" => w[0].price() < w[1].price(),
            _ => return Some(format!("unknown order {name:?}")),
        };
        if bad {
            return Some(format!(
                "order {name:?} puts {} ({:?}, {}) before {} ({:?}, {})",
                w[0].id, w[0].title, w[0].price(), w[1].id, w[1].title, w[1].price()
            ));
        }
    }
    None
}

/// How two views of the same catalogue differ. `trees`: also compare n-gram data.
pub fn views_differ(a: &View, b: &View, exact: bool) -> Option<String> {
    if let Some(d) = a.dup.as_ref().or(b.dup.as_ref()) {
        return Some(d.clone());
    }
    let pre = |x: &BTreeMap<String, (String, String, String, Option<f64>, Option<String>)>| -> Vec<_> {
        x.iter().map(|(k, v)| (k.clone(), v.0.clone(), v.2.clone(), v.3.map(f64::to_bits), v.4.clone())).collect()
    };
    if pre(&a.products) != pre(&b.products) {
        return Some(format!("products differ: {:?} / {:?}", pre(&a.products), pre(&b.products)));
    }
    for (k, x) in &a.products {
        let y = &b.products[k];
        if !(x.1.starts_with(&y.1) || y.1.starts_with(&x.1)) || x.1.is_empty() != y.1.is_empty() {
            return Some(format!("description of {k} differs: {:?} / {:?}", x.1, y.1));
        }
    }
    if a.tags != b.tags {
        return Some(format!("tags differ: {:?} / {:?}", a.tags, b.tags));
    }
    if a.categories != b.categories || a.options != b.options || a.exclusive != b.exclusive {
        return Some(format!("categories differ: {:?} / {:?}", a.options, b.options));
    }
    if a.orders.keys().collect::<Vec<_>>() != b.orders.keys().collect::<Vec<_>>() {
        return Some("sort orders differ".into());
    }
    if a.grams != b.grams {
        let d = a.grams.iter().find(|(k, v)| b.grams.get(*k) != Some(v)).or_else(|| b.grams.iter().find(|(k, v)| a.grams.get(*k) != Some(v)));
        return Some(format!("n-gram data differ ({} / {} n-grams), first at {:?}", a.grams.len(), b.grams.len(), d));
    }
    // Two builds may add up weights in different orders.
    let same = |x: u32, y: u32| {
        let (f, g) = (f32::from_bits(x), f32::from_bits(y));
        x == y || !exact && (f - g).abs() <= 1e-5 * f.abs().max(g.abs())
    };
    let differs = |x: &BTreeMap<Vec<char>, u32>, y: &BTreeMap<Vec<char>, u32>| -> Option<Vec<char>> {
        x.iter().find(|(k, v)| y.get(*k).map_or(true, |w| !same(**v, *w))).map(|x| x.0.clone())
    };
    if let Some(d) = differs(&a.nodes, &b.nodes).or_else(|| differs(&b.nodes, &a.nodes)) {
        return Some(format!(
            "n-gram trees differ ({} / {} nodes), first at {d:?}: {:?} / {:?}",
            a.nodes.len(), b.nodes.len(), a.nodes.get(&d).map(|x| f32::from_bits(*x)), b.nodes.get(&d).map(|x| f32::from_bits(*x))
        ));
    }
    None
}

/// The engine's own sequential answer to a query on one instance, as identifiers with confidences.
pub fn ref_search<const N: usize>(ix: &Idx<N>, q: &str) -> Vec<(String, f32)> {
    ix.search(q.chars().flat_map(char::to_lowercase)).into_iter().map(|(p, c)| (p.id.clone(), c)).collect()
}

/// A query that is likely to find something: pieces of the catalogue's own texts, perhaps misspelt.
pub fn gen_query(r: &mut Rng, c: &Cat) -> String {
    if c.products.is_empty() || r.chance(0.1) {
        return words(r, 0, 4);
    }
    let mut parts = Vec::new();
    for _ in 0..r.range(1, 3) {
        let p = &c.products[r.below(c.products.len())];
        let src = if r.chance(0.6) { &p.title } else { &p.desc };
        let ch: Vec<char> = src.chars().collect();
        if ch.is_empty() {
            continue;
        }
        let a = r.below(ch.len());
        let len = r.range(3, 24);
        let mut piece: Vec<char> = ch[a..(a + len).min(ch.len())].to_vec();
        if r.chance(0.3) && !piece.is_empty() {
            let k = r.below(piece.len());
            match r.below(3) {
                0 => piece[k] = *r.pick(&['a', 'k', 'z', 'ø', ' ']),
                1 => {
                    piece.remove(k);
                }
                _ => piece.insert(k, *r.pick(&['e', 'n', 'q'])),
            }
        }
        parts.push(piece.into_iter().collect::<String>());
    }
    parts.join(" ")
}
/// A query made of the products' titles: finds (nearly) everything the engine can find.
pub fn wide_query(c: &Cat) -> String {
    let mut q = String::new();
    let step = c.products.len().div_ceil(24).max(1);
    for p in c.products.iter().step_by(step) {
        if !q.is_empty() {
            q.push(' ');
        }
        q.extend(p.title.chars().rev().take(40).collect::<Vec<_>>().into_iter().rev());
        if q.len() > 500 {
            break;
        }
    }
    q
}
