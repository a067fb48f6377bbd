//! Deterministic simulation of the search engine: seeded runs, each in a process of its own, judged
//! against the catalogues' specifications; violations are minimised and written as replay files.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod alloc;
mod alone;
mod cat;
mod child;
mod cli;
mod codec;
mod doc;
mod files;
mod judge;
mod par;
mod plan;
mod props;
mod rt;
mod shrink;
mod world;

use child::{Limits, Outcome, Viol};
use props::{Case, Prop};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

#[derive(Serialize, Deserialize)]
pub struct Replay {
    property: String,
    base_seed: u64,
    index: usize,
    seed: u64,
    class: String,
    detail: String,
    digest: u64,
    case: Case,
    history: Vec<String>,
}

pub fn run_case(p: &Prop, c: &Case, history: bool) -> Outcome {
    let lim = Limits { cpu_s: p.cpu_s, wall_s: p.cpu_s * 4 + 30 };
    child::run(history, &lim, || props::execute(p, c))
}

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    runs: u64,
    evals: u64,
    nontrivial: u64,
    steps: u64,
    switches: u64,
    preempts: u64,
    blocks: u64,
    counters: BTreeMap<String, u64>,
    shashes: Vec<u64>,
    hashes: Vec<u64>,
    nt_hashes: Vec<u64>,
    rechecked: u64,
    mismatches: Vec<usize>,
    harness: Vec<String>,
    samples: Vec<serde_json::Value>,
    viol: Option<(usize, Viol)>,
    cut_off: bool,
}

struct Cfg {
    p: &'static Prop,
    base: u64,
    runs: usize,
    cap_s: u64,
    thorough: bool,
}
fn seed_of(c: &Cfg, i: usize) -> u64 {
    rt::mix(rt::mix(c.base, rt::hash_str(c.p.id)), i as u64)
}

fn work(c: &Cfg, w: usize, of: usize, flag: *mut u64) -> Sum {
    let t0 = Instant::now();
    let mut s = Sum::default();
    let mut i = w;
    while i < c.runs {
        if unsafe { flag.read_volatile() } < i as u64 {
            break;
        }
        if t0.elapsed().as_secs() > c.cap_s {
            s.cut_off = true;
            break;
        }
        let case = (c.p.gen)(seed_of(c, i), c.thorough);
        let o = run_case(c.p, &case, false);
        s.runs += 1;
        s.evals += o.evaluations;
        s.steps += o.steps;
        s.switches += o.switches;
        s.preempts += o.preempts;
        s.blocks += o.blocks;
        for (k, v) in &o.counters {
            *s.counters.entry(k.clone()).or_insert(0) += v;
        }
        s.shashes.push(o.shash);
        s.hashes.push(o.hash);
        if o.nontrivial {
            s.nontrivial += 1;
            s.nt_hashes.push(o.hash);
        }
        if let Some(h) = o.harness {
            if s.harness.len() < 5 {
                s.harness.push(format!("run {i}: {h}"));
            }
        } else if let Some(v) = o.viol {
            unsafe {
                if flag.read_volatile() > i as u64 {
                    flag.write_volatile(i as u64);
                }
            }
            s.viol = Some((i, v));
            break;
        } else if (i / of) % 16 == 3 {
            s.rechecked += 1;
            if run_case(c.p, &case, false).hash != o.hash {
                s.mismatches.push(i);
            }
        }
        if w == 0 && s.samples.len() < 3 && o.nontrivial {
            let t = serde_json::to_string(&case).unwrap();
            s.samples.push(serde_json::json!({"run": i, "seed": format!("{:#x}", seed_of(c, i)), "plan": t.chars().take(600).collect::<String>(),
                "basic_blocks": o.steps, "preemptions": o.preempts, "judged": o.evaluations}));
        }
        i += of;
    }
    s
}

fn search(c: &Cfg) -> Sum {
    let of = std::env::var("DST_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let flag = child::shared_map(4096) as *mut u64;
    unsafe { *flag = u64::MAX };
    let cover = child::shared_map(rt::MAXG);
    rt::COVER.store(cover, std::sync::atomic::Ordering::Relaxed);
    let mut pipes = vec![];
    for w in 0..of {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                let s = serde_json::to_vec(&work(c, w, of, flag)).unwrap();
                let mut off = 0;
                while off < s.len() {
                    let n = libc::write(fds[1], s[off..].as_ptr() as *const _, s.len() - off);
                    if n <= 0 {
                        break;
                    }
                    off += n as usize;
                }
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push((fds[0], pid));
        }
    }
    let mut t = Sum::default();
    for (fd, pid) in pipes {
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Sum>(&out) {
            Err(_) => t.harness.push(format!("a worker process ended without a report (status {st})")),
            Ok(s) => {
                t.runs += s.runs;
                t.evals += s.evals;
                t.nontrivial += s.nontrivial;
                t.steps += s.steps;
                t.switches += s.switches;
                t.preempts += s.preempts;
                t.blocks += s.blocks;
                for (k, v) in s.counters {
                    *t.counters.entry(k).or_insert(0) += v;
                }
                t.shashes.extend(s.shashes);
                t.hashes.extend(s.hashes);
                t.nt_hashes.extend(s.nt_hashes);
                t.rechecked += s.rechecked;
                t.mismatches.extend(s.mismatches);
                t.harness.extend(s.harness);
                t.samples.extend(s.samples);
                t.cut_off |= s.cut_off;
                if let Some((i, v)) = s.viol {
                    if t.viol.as_ref().map_or(true, |x| i < x.0) {
                        t.viol = Some((i, v));
                    }
                }
            }
        }
    }
    t
}

fn distinct(v: &[u64]) -> usize {
    v.iter().collect::<HashSet<_>>().len()
}

fn check(c: &Cfg, tier: &str) -> i32 {
    if rt::guards() == 0 {
        println!("harness error: the engine was built without the scheduler's callbacks");
        return 2;
    }
    let t0 = Instant::now();
    let s = search(c);
    let secs = t0.elapsed().as_secs_f64();
    let cover = rt::COVER.load(std::sync::atomic::Ordering::Relaxed) as *const u8;
    let covered = (0..rt::MAXG).filter(|&g| unsafe { *cover.add(g) } != 0).count();
    let mut faults = BTreeMap::new();
    let mut other = BTreeMap::new();
    for (k, v) in &s.counters {
        match k.strip_prefix("fault: ") {
            Some(f) => faults.insert(f.to_string(), *v),
            None => other.insert(k.clone(), *v),
        };
    }
    for k in ["exceptions thrown by getters", "exceptions thrown by listeners", "calls re-entered from host callbacks"] {
        if let Some(v) = other.get(k) {
            faults.insert(k.to_string(), *v);
        }
    }
    if s.preempts > 0 {
        faults.insert("preemption at a basic block".into(), s.preempts);
    }
    let verdict = if s.viol.is_some() { "violation" } else if !s.harness.is_empty() || !s.mismatches.is_empty() { "harness-error" } else { "held" };
    let nt_distinct = distinct(&s.nt_hashes);
    let ev = serde_json::json!({
        "property": c.p.id,
        "tier": tier,
        "seed": c.base,
        "level": "exploration",
        "coverage": {
            "technique": "deterministic simulation with fault injection",
            "verdict": verdict,
            "evaluations": s.runs,
            "distinct_nontrivial": nt_distinct,
            "rule": format!("Each case is one simulated run: a plan (catalogues, threads' calls, faults) and a schedule, both generated from one seed derived from the base seed and the run's number. Non-trivial: {}. Distinct: by the digest of the run's event log and schedule.", c.p.rule),
            "samples": s.samples,
            "judged_calls_and_comparisons": s.evals,
            "runs_per_hour_one_seed_each": (s.runs as f64 / secs * 3600.0) as u64,
            "cut_off_by_time_cap": s.cut_off,
            "simulated_time": {"basic_blocks_of_engine_code": s.steps, "thread_hand_overs": s.switches, "blockings_on_locks": s.blocks, "note": "the engine has no clock or timers; progress is counted in basic blocks"},
            "faults_injected": faults,
            "other_counts": other,
            "distinct_interleavings": distinct(&s.shashes),
            "distinct_event_logs": distinct(&s.hashes),
            "measure": c.p.distinct,
            "engine_blocks_reached": covered,
            "engine_blocks_total": rt::guards(),
            "determinism": {"runs_executed_twice": s.rechecked, "digests_that_differed": s.mismatches},
            "harness_errors": s.harness,
            "components": components(c.p.id),
        },
        "assumptions": ["sequentially consistent interleavings at basic-block granularity (x86-64 build of the engine; no weak-memory effects)",
            "the simulated JavaScript host behaves as wasm-bindgen's and js-sys's documented contracts say",
            "seeded search: schedules, inputs and faults not generated are not covered"],
        "wall_s": secs,
        "violations": usize::from(s.viol.is_some()),
    });
    let dir = std::env::var("DST_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", c.p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("writing evidence");
    println!(
        "{} {tier}: {} runs ({} nontrivial, {} distinct), {} judged, {} schedules, {} blocks, {}/{} reached, {:.1} s{}",
        c.p.id, s.runs, s.nontrivial, nt_distinct, s.evals, distinct(&s.shashes), s.steps, covered, rt::guards(), secs, if s.cut_off { " (time cap)" } else { "" }
    );
    if let Some((i, v)) = &s.viol {
        println!("run {i}: {}: {}", v.class, v.detail);
        let path = report(c, *i, v);
        println!("VIOLATION property={} replay={path}", c.p.id);
        return 1;
    }
    for h in &s.harness {
        println!("harness error: {h}");
    }
    for m in &s.mismatches {
        println!("harness error: two executions of run {m} differ");
    }
    i32::from(verdict != "held") * 2
}

fn components(id: &str) -> serde_json::Value {
    let mut stub = vec![
        "JavaScript host (wasm-bindgen, js-sys, console_error_panic_hook): simulated host objects, functions, getters, exceptions, re-entrancy checks",
        "operating system's thread scheduler and futexes: replaced by the seeded scheduler",
        "hash seeds (ahash random source, getrandom): replaced by seeded values",
        "allocator: system allocator with limits and poisoning",
    ];
    let mut real = vec!["indexer_lib (all of /repo/src)", "colosseum arenas", "std Mutex/Arc/collections", "serde_json"];
    if id == "C17" {
        real.push("/repo/src/main.rs and std::fs");
        stub.push("file system below libc's open/read/write/close/stat/rename: simulated");
    }
    serde_json::json!({"real": real, "stub": stub})
}

/// Minimises the failing run and writes its replay file.
fn report(c: &Cfg, i: usize, v: &Viol) -> String {
    let mut case = (c.p.gen)(seed_of(c, i), c.thorough);
    let o = run_case(c.p, &case, true);
    let mut class = v.class.clone();
    if let Some(ov) = &o.viol {
        class = ov.class.clone();
        // From here on the schedule is explicit.
        if !o.trace.is_empty() {
            let mut explicit = case.clone();
            if let Some(p) = explicit.policy() {
                *p = rt::Policy::Replay(o.trace.clone());
            }
            if run_case(c.p, &explicit, false).viol.map_or(false, |x| x.class == class) {
                case = explicit;
            }
        }
    }
    let limit = std::env::var("DST_MINIMISE_S").ok().and_then(|v| v.parse().ok()).unwrap_or(60u64);
    let before = serde_json::to_string(&case).unwrap().len();
    let (case, tries) = shrink::minimise(c.p, case, &class, limit);
    let o = run_case(c.p, &case, true);
    let again = run_case(c.p, &case, false);
    let exact = o.hash == again.hash;
    let detail = o.viol.as_ref().map_or_else(|| v.detail.clone(), |x| x.detail.clone());
    println!(
        "minimised in {tries} attempts from {before} to {} bytes; replayed twice, {}",
        serde_json::to_string(&case).unwrap().len(),
        if exact { "identically" } else { "with different digests" }
    );
    println!("minimal: {class}: {detail}");
    let dir = std::env::var("DST_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:016x}.json", c.p.id, seed_of(c, i));
    let r = Replay { property: c.p.id.into(), base_seed: c.base, index: i, seed: seed_of(c, i), class, detail, digest: o.hash, case, history: o.history };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).expect("writing the replay file");
    path
}

fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let p = props::find(&r.property).expect("property");
    let o = run_case(p, &r.case, true);
    for l in &o.history {
        println!("{l}");
    }
    if let Some(h) = o.harness {
        println!("harness error: {h}");
        return 2;
    }
    match o.viol {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("{}", if o.hash == r.digest && v.class == r.class { "identical to the recorded run" } else { "differs from the recorded run" });
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// The same addresses in every process, so that a replay is exact even for code that hashes pointers.
fn fixed_addresses() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur == -1 || cur & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("DST_REEXEC").is_some() {
            return;
        }
        if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) == -1 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let a: Vec<_> = std::env::args_os().collect();
    let _ = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("DST_REEXEC", "1").exec();
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = props::find(&opt("--property").expect("--property")).expect("known property");
            let tier = opt("--tier").unwrap_or_else(|| "quick".into());
            let thorough = tier == "thorough";
            let env = std::env::var("VERIF_SEED").ok();
            let base = opt("--seed").or(env).and_then(|s| s.parse().ok()).unwrap_or(1);
            let runs = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.runs.1 } else { p.runs.0 });
            let cap_s = opt("--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 700 } else { 240 });
            check(&Cfg { p, base, runs, cap_s, thorough }, &tier)
        }
        Some("replay") => replay(&a[2]),
        Some("show") => {
            let p = props::find(&opt("--property").unwrap()).unwrap();
            let base = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let c = Cfg { p, base, runs: 0, cap_s: 0, thorough: false };
            let i = opt("--run").unwrap().parse().unwrap();
            let case = (p.gen)(seed_of(&c, i), false);
            println!("{}", serde_json::to_string(&case).unwrap());
            let t = Instant::now();
            let o = run_case(p, &case, true);
            for l in &o.history {
                println!("{l}");
            }
            println!("{:?} {:?} {} steps {} preempts {:?} {:?}", o.viol, o.harness, o.steps, o.preempts, o.counters, t.elapsed());
            0
        }
        _ => {
            eprintln!("dst check --property Cxx [--tier quick|thorough] [--seed n] [--runs n] | dst replay FILE");
            2
        }
    };
    std::process::exit(code);
}
