//! Values written back to back through the engine's encoders, with the writer or the reader stopped
//! at every byte.
use crate::child::{self, guard, Got};
use crate::rt::{self, Rng};
use ahash::AHashMap;
#[cfg(feature = "deep")]
use indexer_lib::data::{Feature, FeatureSet};
use indexer_lib::serialize::{sequential_array, Deserializable, DeserializableCollection, Serializable};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum V {
    U64(u64),
    Usize(u64),
    U32(u32),
    U8(u8),
    Bool(bool),
    Char(char),
    /// By its bits, so that replay files are exact.
    F32(u32),
    Str(String),
    StrRef(String),
    Usizes(Vec<u64>),
    Strs(Vec<String>),
    Floats(Vec<u32>),
    Ints(Vec<u32>),
    Bools(Vec<bool>),
    Chars3([char; 3]),
    Gram5([char; 5]),
    Map(Vec<(String, u64)>),
    MapVec(Vec<(char, Vec<u32>)>),
    Seq(Vec<u64>),
    Seq32(Vec<u32>),
    /// Texts stored up to about so many bytes.
    Limited(String, usize),
    Array8([u32; 8]),
    /// Columns of product data.
    Texts(Vec<String>),
    Numbers(Vec<u32>),
    Counts(Vec<u32>),
    Columns(Vec<(String, u8, usize)>),
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Codec {
    pub vals: Vec<V>,
    pub hseed: u64,
    /// Where the writer's sink fails, besides everywhere for short streams.
    pub cuts: Vec<usize>,
}

fn gen_u64(r: &mut Rng) -> u64 {
    match r.below(6) {
        // Around the edges of the encoding's bytes.
        0 | 1 => {
            let b = 7 * r.range(1, 9);
            let e = if b >= 64 { u64::MAX } else { 1u64 << b };
            e.wrapping_add(r.below(3) as u64).wrapping_sub(1)
        }
        2 => 1u64 << r.below(64),
        3 => r.next(),
        4 => r.next() >> r.below(64),
        _ => *r.pick(&[0, 1, 127, 128, 255, 256, 16383, 16384, u64::from(u32::MAX), u64::from(u32::MAX) + 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 56]),
    }
}
fn gen_char(r: &mut Rng) -> char {
    match r.below(4) {
        0 => *r.pick(&['a', '\0', 'æ', '👽', '\u{7f}', '\u{80}', '\u{10FFFF}', '\u{d7ff}', '\u{e000}', ' ']),
        1 => (b'a' + r.below(26) as u8) as char,
        _ => loop {
            if let Some(c) = char::from_u32((r.next() as u32) % 0x11_0000) {
                break c;
            }
        },
    }
}
fn gen_f32(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.pick(&[0.0f32, -0.0, 1.0, f32::INFINITY, f32::MIN_POSITIVE, f32::MAX, -1.5, 0.1, f32::NEG_INFINITY]).to_bits(),
        1 => (r.f() as f32).to_bits(),
        _ => {
            let b = r.next() as u32;
            if f32::from_bits(b).is_nan() {
                0x3f80_0000
            } else {
                b
            }
        }
    }
}
/// Not a number; which of the many is not held against the decoder.
fn gen_nan(r: &mut Rng) -> u32 {
    0x7fc0_0000 | (r.next() as u32 & 0x803f_ffff)
}
fn one_nan(b: u32) -> u32 {
    if f32::from_bits(b).is_nan() {
        f32::NAN.to_bits()
    } else {
        b
    }
}
fn gen_str(r: &mut Rng) -> String {
    let n = match r.below(5) {
        0 => 0,
        1 if r.chance(0.01) => r.range(16380, 16388),
        1 => r.range(120, 140),
        _ => r.below(20),
    };
    if n > 1000 {
        let mut s: String = "langt ".repeat(n / 6);
        s.extend(std::iter::repeat('x').take(n - s.len()));
        return s;
    }
    (0..n).map(|_| if r.chance(0.8) { (b'a' + r.below(26) as u8) as char } else { gen_char(r) }).collect()
}
fn vec_of<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = match r.below(6) {
        0 => 0,
        1 if r.chance(0.01) => r.range(16382, 16386),
        1 => r.range(125, 131),
        _ => r.below(8),
    };
    (0..n).map(|_| f(r)).collect()
}
fn gen_val(r: &mut Rng) -> V {
    match r.below(25) {
        20 => {
            let words: Vec<String> = (0..r.below(30)).map(|_| gen_str(r)).collect();
            V::Limited(words.join(" "), *r.pick(&[0usize, 1, 5, 12, 100, 100, 127, 128, 20000]))
        }
        21 => V::Array8([0; 8].map(|_| gen_u64(r) as u32)),
        22 => match r.below(3) {
            0 => V::Texts((0..r.below(8)).map(|_| gen_str(r)).collect()),
            1 => V::Numbers(vec_of(r, gen_f32)),
            _ => V::Counts(vec_of(r, |r| gen_u64(r) as u32)),
        },
        23 => {
            let mut v: Vec<(String, u8, usize)> = (0..r.below(5)).map(|_| (gen_str(r), r.below(3) as u8, r.below(9) + 1)).collect();
            v.sort();
            v.dedup_by(|a, b| a.0 == b.0);
            V::Columns(v)
        }
        0 => V::U64(gen_u64(r)),
        1 => V::Usize(gen_u64(r)),
        2 => V::U32(gen_u64(r) as u32),
        3 => V::U8(r.next() as u8),
        4 => V::Bool(r.chance(0.5)),
        5 => V::Char(gen_char(r)),
        6 => V::F32(if r.chance(0.1) { gen_nan(r) } else { gen_f32(r) }),
        7 => V::Str(gen_str(r)),
        8 => V::StrRef(gen_str(r)),
        9 => V::Usizes(vec_of(r, gen_u64)),
        10 => V::Strs((0..r.below(6)).map(|_| gen_str(r)).collect()),
        11 => V::Floats(vec_of(r, |r| if r.chance(0.05) { gen_nan(r) } else { gen_f32(r) })),
        12 => V::Ints(vec_of(r, |r| gen_u64(r) as u32)),
        13 => V::Bools(vec_of(r, |r| r.chance(0.5))),
        14 => V::Chars3([gen_char(r), gen_char(r), gen_char(r)]),
        15 => V::Gram5([gen_char(r), gen_char(r), gen_char(r), gen_char(r), gen_char(r)]),
        16 => {
            let mut m: Vec<(String, u64)> = vec_of(r, |r| (gen_str(r), gen_u64(r)));
            m.sort();
            m.dedup_by(|a, b| a.0 == b.0);
            V::Map(m)
        }
        17 => {
            let mut m: Vec<(char, Vec<u32>)> = (0..r.below(5)).map(|_| (gen_char(r), vec_of(r, |r| r.next() as u32))).collect();
            m.sort();
            m.dedup_by(|a, b| a.0 == b.0);
            V::MapVec(m)
        }
        18 => {
            // Identifier lists: strictly or weakly growing once sorted, from dense to huge.
            let sh = r.below(64);
            V::Seq(vec_of(r, |r| if r.chance(0.2) { gen_u64(r) } else { r.next() >> sh }))
        }
        _ => {
            let sh = r.below(32);
            V::Seq32(vec_of(r, |r| (r.next() as u32) >> sh))
        }
    }
}
pub fn gen(seed: u64) -> Codec {
    let mut r = Rng::new(seed);
    let n = r.range(1, 10);
    let vals = (0..n).map(|_| gen_val(&mut r)).collect();
    let hseed = r.next();
    let cuts = (0..24).map(|_| r.below(1 << 16)).collect();
    Codec { vals, hseed, cuts }
}

/// The prepared value: maps are built once, so that a retry iterates the very same map.
enum P {
    V(V),
    Map(AHashMap<String, u64>),
    MapVec(AHashMap<char, Wrap>),
    #[cfg(feature = "deep")]
    Col(Feature),
    #[cfg(feature = "deep")]
    Cols(FeatureSet),
}
/// A list inside a map (the encoder for owned lists exists only for numbers).
#[derive(PartialEq, Debug)]
struct Wrap(Vec<u32>);
impl Serializable for Wrap {
    fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
        (&self.0).serialize(output);
    }
}
impl Deserializable for Wrap {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (i, v) = Vec::<u32>::deserialize(input)?;
        Some((i, Wrap(v)))
    }
}
fn prepare(v: &V) -> P {
    match v {
        V::Map(m) => P::Map(m.iter().cloned().collect()),
        V::MapVec(m) => P::MapVec(m.iter().map(|(k, v)| (*k, Wrap(v.clone()))).collect()),
        #[cfg(feature = "deep")]
        V::Texts(t) => P::Col(Feature::String(t.clone())),
        #[cfg(feature = "deep")]
        V::Numbers(n) => P::Col(Feature::Float(fl(n))),
        #[cfg(feature = "deep")]
        V::Counts(n) => P::Col(Feature::Integer(n.clone())),
        #[cfg(feature = "deep")]
        V::Columns(c) => {
            let mut s = FeatureSet::new_empty();
            for (name, kind, n) in c {
                for i in 0..*n {
                    match kind {
                        0 => s.add_string(name, format!("{name}{i}")),
                        1 => s.add_float(name, i as f32 * 1.1),
                        _ => s.add_int(name, (i as u32).wrapping_mul(0x0101_7f33)),
                    }
                }
            }
            P::Cols(s)
        }
        #[cfg(not(feature = "deep"))]
        V::Texts(_) | V::Numbers(_) | V::Counts(_) | V::Columns(_) | V::Limited(..) => P::V(V::U8(7)),
        v => P::V(v.clone()),
    }
}
fn us(v: &[u64]) -> Vec<usize> {
    v.iter().map(|x| *x as usize).collect()
}
fn fl(v: &[u32]) -> Vec<f32> {
    v.iter().map(|x| f32::from_bits(*x)).collect()
}
fn enc(p: &P, out: &mut impl FnMut(u8)) {
    match p {
        P::Map(m) => m.serialize(out),
        P::MapVec(m) => m.serialize(out),
        #[cfg(feature = "deep")]
        P::Col(c) => c.serialize(out),
        #[cfg(feature = "deep")]
        P::Cols(c) => c.serialize(out),
        P::V(v) => match v {
            V::U64(x) => x.serialize(out),
            V::Usize(x) => (*x as usize).serialize(out),
            V::U32(x) => x.serialize(out),
            V::U8(x) => x.serialize(out),
            V::Bool(x) => x.serialize(out),
            V::Char(x) => x.serialize(out),
            V::F32(x) => f32::from_bits(*x).serialize(out),
            V::Str(x) => x.serialize(out),
            V::StrRef(x) => x.as_str().serialize(out),
            V::Usizes(x) => us(x).serialize(out),
            V::Strs(x) => x.serialize(out),
            V::Floats(x) => (&fl(x)).serialize(out),
            V::Ints(x) => x.serialize(out),
            V::Bools(x) => x.serialize(out),
            V::Chars3(x) => x.serialize(out),
            V::Gram5(x) => x.serialize(out),
            V::Seq(x) => sequential_array::serialize(us(x).into_iter(), out),
            V::Seq32(x) => sequential_array::serialize(x.iter().copied(), out),
            #[cfg(feature = "deep")]
            V::Limited(x, max) => indexer_lib::serialize::serialize_string_with_limit(x, *max, out),
            V::Array8(x) => x.serialize(out),
            _ => unreachable!(),
        },
    }
}
/// Reads one value of the same type: how many bytes it took, and whether it is the same value.
fn dec(p: &P, b: &[u8]) -> Option<(usize, Result<(), String>)> {
    fn eq<T: PartialEq + std::fmt::Debug>(r: Option<(&[u8], T)>, w: &T, n: usize) -> Option<(usize, Result<(), String>)> {
        let (rest, v) = r?;
        Some((n - rest.len(), if v == *w { Ok(()) } else { Err(format!("{v:?} instead of {w:?}")) }))
    }
    let n = b.len();
    match p {
        P::Map(m) => eq(<AHashMap<String, u64> as Deserializable>::deserialize(b), m, n),
        P::MapVec(m) => eq(<AHashMap<char, Wrap> as Deserializable>::deserialize(b), m, n),
        #[cfg(feature = "deep")]
        P::Col(c) => {
            let (rest, v) = Feature::deserialize(b)?;
            Some((n - rest.len(), if v == *c { Ok(()) } else { Err("another column".into()) }))
        }
        #[cfg(feature = "deep")]
        P::Cols(c) => {
            let (rest, v) = FeatureSet::deserialize(b)?;
            Some((n - rest.len(), if v == *c { Ok(()) } else { Err("other columns".into()) }))
        }
        P::V(v) => match v {
            V::U64(x) => eq(u64::deserialize(b), x, n),
            V::Usize(x) => eq(usize::deserialize(b), &(*x as usize), n),
            V::U32(x) => eq(u32::deserialize(b), x, n),
            V::U8(x) => eq(u8::deserialize(b), x, n),
            V::Bool(x) => eq(bool::deserialize(b), x, n),
            V::Char(x) => eq(char::deserialize(b), x, n),
            V::F32(x) => eq(f32::deserialize(b).map(|(r, v)| (r, one_nan(v.to_bits()))), &one_nan(*x), n),
            V::Str(x) | V::StrRef(x) => eq(<String as Deserializable>::deserialize(b), x, n),
            V::Usizes(x) => eq(Vec::<usize>::deserialize(b), &us(x), n),
            V::Strs(x) => eq(Vec::<String>::deserialize(b), x, n),
            V::Floats(x) => eq(Vec::<f32>::deserialize(b).map(|(r, v)| (r, v.iter().map(|f| one_nan(f.to_bits())).collect::<Vec<u32>>())), &x.iter().map(|f| one_nan(*f)).collect(), n),
            V::Ints(x) => eq(Vec::<u32>::deserialize(b), x, n),
            V::Bools(x) => eq(Vec::<bool>::deserialize(b), x, n),
            V::Chars3(x) => eq(<[char; 3] as Deserializable>::deserialize(b), x, n),
            V::Gram5(x) => eq(<[char; 5] as DeserializableCollection>::deserialize(b), x, n),
            V::Seq(x) => {
                let mut w = us(x);
                w.sort_unstable();
                eq(sequential_array::deserialize::<usize>(b), &w, n)
            }
            V::Seq32(x) => {
                let mut w = x.clone();
                w.sort_unstable();
                eq(sequential_array::deserialize::<u32>(b), &w, n)
            }
            V::Limited(x, _) => {
                let (rest, v) = <String as Deserializable>::deserialize(b)?;
                Some((n - rest.len(), if x.starts_with(&v) { Ok(()) } else { Err(format!("{v:?}, which is no beginning of {x:?}")) }))
            }
            V::Array8(x) => eq(<[u32; 8] as DeserializableCollection>::deserialize(b), x, n),
            V::Map(_) | V::MapVec(_) | V::Texts(_) | V::Numbers(_) | V::Counts(_) | V::Columns(_) => unreachable!(),
        },
    }
}

struct SinkFull;
pub fn run(c: &Codec) {
    rt::install_random(c.hseed);
    rt::set_epoch(1);
    let ps: Vec<P> = c.vals.iter().map(prepare).collect();
    let mut bytes: Vec<u8> = Vec::new();
    let mut ends = Vec::new();
    for p in &ps {
        match guard(|| {
            let mut b = Vec::new();
            enc(p, &mut |x| b.push(x));
            b
        }) {
            Got::Ok(b) => bytes.extend(b),
            Got::Panic(m) | Got::Throw(m) => return child::violation("codec", format!("writing a value failed: {m}")),
        }
        ends.push(bytes.len());
    }
    child::log(|| format!("{} values, {} bytes, digest {:x}", ps.len(), bytes.len(), bytes.iter().fold(0u64, |h, b| rt::mix(h, u64::from(*b)))));
    if bytes.len() > 4 {
        child::nontrivial();
    }
    // The transfer stops at byte `k`.
    let mut stops: Vec<usize> = (0..=bytes.len()).rev().collect();
    if bytes.len() > 4000 {
        // Too long for every byte: around the values' ends, at the beginning and here and there.
        let near = |k: usize| ends.iter().any(|e| e.abs_diff(k) < 4) || k < 60;
        let mut r = Rng::new(c.hseed);
        stops.retain(|&k| near(k) || r.chance(0.005));
    }
    for &k in &stops {
        child::set_status(&format!("reading after the transfer stopped at byte {k} of {}", bytes.len()));
        child::evals(1);
        let part = &bytes[..k];
        let mut at = 0;
        for (i, p) in ps.iter().enumerate() {
            let whole = ends[i] <= k;
            match guard(|| dec(p, &part[at..])) {
                Got::Panic(m) | Got::Throw(m) => {
                    return child::violation("codec", format!("reading value {i} ({:?}) of a stream stopped at byte {k} of {} ended abnormally: {m}", c.vals[i], bytes.len()));
                }
                Got::Ok(None) if whole => return child::violation("codec", format!("value {i} ({:?}) is complete but was not read", c.vals[i])),
                Got::Ok(None) => break,
                Got::Ok(Some((n, same))) => {
                    if !whole {
                        return child::violation(
                            "codec",
                            format!("value {i} ({:?}) lacks its last {} byte(s) (stream stopped at byte {k}), but was read as a value: {same:?}", c.vals[i], ends[i] - k),
                        );
                    }
                    if let Err(e) = same {
                        return child::violation("codec", format!("value {i} was read as {e}"));
                    }
                    at += n;
                    if at != ends[i] {
                        return child::violation("codec", format!("value {i} ({:?}) was read from {} bytes but written as {}", c.vals[i], n, ends[i] - if i == 0 { 0 } else { ends[i - 1] }));
                    }
                }
            }
        }
    }
    child::count("fault: transfer stopped", stops.len() as u64);
    // The sink fails at byte `k` of the stream; then the value is written again.
    let mut cuts: Vec<usize> = c.cuts.iter().map(|k| k % bytes.len().max(1)).collect();
    if bytes.len() < 60 {
        cuts = (0..bytes.len()).collect();
    }
    for k in cuts {
        let Some(i) = (0..ps.len()).find(|&i| ends[i] > k) else { continue };
        let from = if i == 0 { 0 } else { ends[i - 1] };
        let mut out = Vec::new();
        let room = k - from;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            enc(&ps[i], &mut |x| {
                if out.len() == room {
                    std::panic::resume_unwind(Box::new(SinkFull));
                }
                out.push(x);
            });
        }));
        child::evals(1);
        child::count("fault: sink failed", 1);
        if r.is_ok() {
            return child::violation("codec", format!("writing value {i} went on although the sink had failed"));
        }
        if out != bytes[from..k] {
            return child::violation("codec", format!("the interrupted writer of value {i} emitted {out:?}, which is no prefix of its encoding"));
        }
        let mut again = Vec::new();
        enc(&ps[i], &mut |x| again.push(x));
        if again != bytes[from..ends[i]] {
            return child::violation("codec", format!("value {i} was written differently after an interrupted attempt"));
        }
    }
}
