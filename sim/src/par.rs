//! Concurrent builds and loads on shared arenas, for several n-gram lengths, each compared with the
//! same build or load done alone (and every file with the index it was written from).
use crate::cat::{self, Cat, View};
use crate::child::{self, guard, Got};
use crate::plan;
use crate::rt::{self, Policy, Rng};
use glue::{Both, Codec, Idx, W};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ptr::addr_of_mut;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum POp {
    /// Build in memory, then write it.
    Build(usize),
    /// Build and write in one call.
    File(usize),
    Load(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PStep {
    pub id: u32,
    pub op: POp,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Par {
    pub cats: Vec<Cat>,
    pub n: usize,
    pub threads: Vec<Vec<PStep>>,
    pub queries: Vec<String>,
    pub hseed: u64,
    pub policy: Policy,
}

pub fn gen(seed: u64, nt: (usize, usize), loads_only: bool, shape: cat::Shape) -> Par {
    let mut r = Rng::new(seed);
    let ng = r.range(1, 3);
    let cats: Vec<Cat> = (0..ng)
        .map(|g| if r.chance(0.04) { Cat { products: vec![] } } else { cat::gen(&mut r, g, shape) })
        .collect();
    let mut id = 1;
    let threads = (0..r.range(nt.0, nt.1))
        .map(|_| {
            (0..r.range(1, 3))
                .map(|_| {
                    id += 1;
                    let g = r.below(ng);
                    let op = match r.below(if loads_only { 2 } else { 4 }) {
                        0 | 1 if loads_only => POp::Load(g),
                        0 => POp::Load(g),
                        1 | 2 => POp::Build(g),
                        _ => POp::File(g),
                    };
                    PStep { id, op }
                })
                .collect()
        })
        .collect();
    let queries = (0..6)
        .map(|i| if i == 0 { cat::wide_query(&cats[0]) } else { let c = &cats[r.below(ng)]; cat::gen_query(&mut r, c) })
        .collect();
    Par { cats, n: *r.pick(&[2usize, 3, 4, 5, 5, 6, 8]), threads, queries, hseed: r.next(), policy: plan::gen_policy(&mut r) }
}

enum Done<const N: usize> {
    Built(Both<N>, Vec<u8>),
    File(Vec<u8>),
    Loaded(Both<N>),
}
static mut SLOT: usize = 0;

/// The same catalogue: also the same numbering and the same positions in every order.
fn same_instance<const N: usize>(a: &Both<N>, b: &Both<N>) -> Option<String> {
    let (x, y) = (cat::numbering(&a.0), cat::numbering(&b.0));
    if x != y {
        return Some(format!("the products are numbered differently: {x:?} / {y:?}"));
    }
    let (va, vb) = (cat::view(&a.0, &a.1), cat::view(&b.0, &b.1));
    if let Some(d) = cat::views_differ(&va, &vb, true) {
        return Some(d);
    }
    if va.orders != vb.orders {
        return Some(format!("sort positions differ: {:?} / {:?}", va.orders, vb.orders));
    }
    None
}
fn searches_differ<const N: usize>(a: &Idx<N>, b: &Idx<N>, qs: &[String]) -> Option<String>
where
    W: Codec<N>,
{
    for q in qs {
        let get = |i: &Idx<N>| <W as Codec<N>>::search(i, q).into_iter().map(|(p, c)| (p, c.to_bits())).collect::<BTreeMap<_, _>>();
        let (x, y) = (get(a), get(b));
        child::evals(1);
        if x != y {
            return Some(format!("query {q:?} finds {x:?} / {y:?}"));
        }
        if !x.is_empty() {
            child::nontrivial();
        }
    }
    None
}

fn run_n<const N: usize>(p: &Par)
where
    W: Codec<N>,
{
    rt::install_random(p.hseed);
    crate::alloc::poison(true);
    struct Solo<const N: usize> {
        mem: Both<N>,
        view: View,
        file: Vec<u8>,
    }
    let solos: Vec<Solo<N>> = p
        .cats
        .iter()
        .enumerate()
        .map(|(g, c)| {
            rt::set_epoch(1000 + g as u64);
            let mem = <W as Codec<N>>::build(c.raw(), cat::leak_super(), cat::leak_nodes());
            let file = <W as Codec<N>>::encode(&mem);
            let view = cat::view(&mem.0, &mem.1);
            Solo { mem, view, file }
        })
        .collect();
    for (g, s) in solos.iter().enumerate() {
        if let Some(w) = cat::view_vs_spec(&s.view, &p.cats[g]) {
            child::violation("contents", format!("catalogue {g} built alone: {w}"));
        }
    }
    struct Ctx<const N: usize> {
        raws: BTreeMap<u32, Vec<indexer_lib::data::RawProduct<'static>>>,
        files: Vec<Vec<u8>>,
        out: Vec<(u32, POp, Done<N>)>,
        p: Par,
        sa: &'static indexer_lib::data::SuperAlloc,
        na: &'static glue::NodeArena,
        left: usize,
    }
    let mut raws = BTreeMap::new();
    for s in p.threads.iter().flatten() {
        if let POp::Build(g) | POp::File(g) = s.op {
            // Every build reads the catalogue in an order of its own.
            let mut v: Vec<_> = p.cats[g % p.cats.len()].raw();
            let mut r = Rng::new(rt::mix(p.hseed, u64::from(s.id)));
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
            raws.insert(s.id, v);
        }
    }
    let cx = Box::leak(Box::new(Ctx::<N> {
        raws,
        files: solos.iter().map(|s| s.file.clone()).collect(),
        out: vec![],
        p: p.clone(),
        sa: cat::leak_super(),
        na: cat::leak_nodes(),
        left: p.threads.len(),
    }));
    unsafe { *addr_of_mut!(SLOT) = cx as *mut _ as usize }
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..p.threads.len())
        .map(|t| {
            Box::new(move || {
                let cx = unsafe { &mut *(*addr_of_mut!(SLOT) as *mut Ctx<N>) };
                let steps = cx.p.threads[t].clone();
                for s in steps {
                    child::set_status(&format!("thread {t} operation {}: {:?}", s.id, s.op));
                    rt::begin_op(s.id);
                    let (sa, na) = (cx.sa, cx.na);
                    let r = guard(|| match s.op {
                        POp::Build(_) => {
                            let b = <W as Codec<N>>::build(cx.raws.remove(&s.id).unwrap(), sa, na);
                            let f = <W as Codec<N>>::encode(&b);
                            Some(Done::Built(b, f))
                        }
                        POp::File(_) => Some(Done::File(<W as Codec<N>>::file(cx.raws.remove(&s.id).unwrap(), sa))),
                        POp::Load(g) => {
                            let buf = cx.files[g % cx.files.len()].clone();
                            let r = <W as Codec<N>>::decode(&buf, na, sa);
                            drop(buf);
                            r.map(Done::Loaded)
                        }
                    });
                    child::log(|| format!("t{t} op{} {:?} done", s.id, s.op));
                    let cx = unsafe { &mut *(*addr_of_mut!(SLOT) as *mut Ctx<N>) };
                    match r {
                        Got::Ok(Some(d)) => cx.out.push((s.id, s.op, d)),
                        Got::Ok(None) => child::violation("call-failed", format!("{:?} in operation {} of thread {t} was refused", s.op, s.id)),
                        Got::Panic(m) | Got::Throw(m) => {
                            child::violation("call-failed", format!("{:?} in operation {} of thread {t} ended abnormally: {m}", s.op, s.id));
                        }
                    }
                }
                cx.left -= 1;
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    rt::run(&p.policy, 60_000_000, bodies);
    child::set_status("comparing");
    crate::alloc::poison(false);
    let st = rt::stats();
    if p.threads.len() < 2 || st.preempts > 0 {
        child::nontrivial();
    }
    rt::set_epoch(77);
    for (id, op, d) in &cx.out {
        let g = match op {
            POp::Build(g) | POp::File(g) | POp::Load(g) => g % p.cats.len(),
        };
        let s = &solos[g];
        child::evals(1);
        child::count(
            match op {
                POp::Build(_) | POp::File(_) => "builds",
                POp::Load(_) => "catalogue loads",
            },
            1,
        );
        let bad = |what: &str, w: Option<String>| {
            if let Some(w) = w {
                child::violation("contents", format!("{what} of catalogue {g} in operation {id} (n-grams of {N}): {w}"));
            }
        };
        let decode = |f: &[u8]| match guard(|| <W as Codec<N>>::decode(f, cat::leak_nodes(), cat::leak_super())) {
            Got::Ok(b) => b,
            _ => None,
        };
        match d {
            Done::Built(b, f) => {
                let v = cat::view(&b.0, &b.1);
                bad("a build", cat::view_vs_spec(&v, &p.cats[g]));
                bad("a build, against one done alone", cat::views_differ(&s.view, &v, false));
                match decode(f) {
                    None => bad("the file of a build", Some("is rejected".into())),
                    Some(l) => {
                        bad("the file of a build, against its own index", same_instance(b, &l));
                        bad("the file of a build, against its own index", searches_differ(&b.0, &l.0, &p.queries));
                    }
                }
            }
            Done::File(f) => match decode(f) {
                None => bad("a written file", Some("is rejected".into())),
                Some(l) => {
                    let v = cat::view(&l.0, &l.1);
                    bad("a written file", cat::view_vs_spec(&v, &p.cats[g]));
                    bad("a written file, against one written alone", cat::views_differ(&s.view, &v, false));
                }
            },
            Done::Loaded(l) => {
                bad("a load, against the index the file was written from", same_instance(&s.mem, l));
                bad("a load, against the index the file was written from", searches_differ(&s.mem.0, &l.0, &p.queries));
            }
        }
    }
}

pub fn run(p: &Par) {
    match p.n {
        2 => run_n::<2>(p),
        3 => run_n::<3>(p),
        4 => run_n::<4>(p),
        6 => run_n::<6>(p),
        8 => run_n::<8>(p),
        _ => run_n::<5>(p),
    }
}
