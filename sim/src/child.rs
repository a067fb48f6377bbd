//! One simulated run per process: the run is forked off, so that its global state, its aborts and
//! its stack overflows stay its own, and reports an `Outcome` over a pipe.
use crate::rt;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicUsize, Ordering::*};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// What kind of violation; minimisation keeps it.
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub viol: Option<Viol>,
    /// Set when the harness itself went wrong; never counts as a violation.
    pub harness: Option<String>,
    pub hash: u64,
    pub shash: u64,
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub trace: Vec<rt::Dec>,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub evaluations: u64,
    pub note: String,
    pub history: Vec<String>,
}

static PIPE: AtomicI32 = AtomicI32::new(-1);
static DONE: AtomicBool = AtomicBool::new(false);
/// For processes forked off the run: the report is not theirs.
pub fn detach() {
    unsafe {
        libc::close(PIPE.load(Relaxed));
    }
    STATUS.store(0, Relaxed);
    DETACHED.store(true, Relaxed);
}
static DETACHED: AtomicBool = AtomicBool::new(false);
pub static WANT_HISTORY: AtomicBool = AtomicBool::new(false);

struct Rec {
    counters: BTreeMap<String, u64>,
    history: Vec<String>,
    hash: u64,
    viol: Option<Viol>,
    evals: u64,
    nontrivial: bool,
    note: String,
}
static mut REC: Option<Rec> = None;
#[allow(static_mut_refs)]
fn rec() -> &'static mut Rec {
    unsafe {
        (*addr_of_mut!(REC)).get_or_insert_with(|| Rec {
            counters: BTreeMap::new(),
            history: vec![],
            hash: 0,
            viol: None,
            evals: 0,
            nontrivial: false,
            note: String::new(),
        })
    }
}
pub fn count(k: &str, n: u64) {
    match rec().counters.get_mut(k) {
        Some(v) => *v += n,
        None => {
            rec().counters.insert(k.to_string(), n);
        }
    }
}
pub fn counter(k: &str) -> u64 {
    rec().counters.get(k).copied().unwrap_or(0)
}
pub fn counters() -> BTreeMap<String, u64> {
    rec().counters.clone()
}
pub fn evals(n: u64) {
    rec().evals += n;
}
pub fn nontrivial() {
    rec().nontrivial = true;
}
pub fn note(s: String) {
    rec().note = s;
}
/// Adds an event to the run's log; its digest is what two executions of a seed must agree on.
pub fn log(f: impl FnOnce() -> String) {
    let line = f();
    let r = rec();
    r.hash = rt::mix(r.hash, rt::hash_str(&line));
    if WANT_HISTORY.load(Relaxed) && r.history.len() < 5000 {
        r.history.push(line);
    }
}
static mut ENABLED: Option<Vec<String>> = None;
/// Which classes of violation belong to the property being checked (all, if never called).
pub fn enable(classes: &[&str]) {
    unsafe { *addr_of_mut!(ENABLED) = Some(classes.iter().map(|s| s.to_string()).collect()) }
}
#[allow(static_mut_refs)]
pub fn enabled(class: &str) -> bool {
    unsafe { (*addr_of_mut!(ENABLED)).as_ref().map_or(true, |v| v.iter().any(|c| c == class)) }
}
/// Records a violation; the first one of the property's own classes counts.
pub fn violation(class: &str, detail: String) {
    if !enabled(class) {
        count(&format!("other property's observation: {class}"), 1);
        return;
    }
    let r = rec();
    if r.viol.is_none() {
        r.viol = Some(Viol { class: class.into(), detail });
    }
}
pub fn has_violation() -> bool {
    rec().viol.is_some()
}

fn emit(harness: Option<String>) -> ! {
    if DONE.swap(true, SeqCst) {
        unsafe { libc::_exit(3) }
    }
    crate::alloc::unlimited();
    let st = rt::stats();
    let r = rec();
    let (reads, jumps, _) = rt::clock_reads();
    if reads > 0 {
        r.counters.insert("clock reads".into(), reads);
    }
    if jumps > 0 {
        r.counters.insert("fault: clock jump".into(), jumps);
    }
    if st.holds > 0 {
        r.counters.insert("fault: thread stalled while the others went on".into(), st.holds);
    }
    let o = Outcome {
        viol: r.viol.clone(),
        harness,
        hash: rt::mix(r.hash, st.shash),
        shash: st.shash,
        steps: if st.steps == 0 { rt::plain() } else { st.steps },
        switches: st.switches,
        preempts: st.preempts,
        blocks: st.blocks,
        trace: if r.viol.is_some() || WANT_HISTORY.load(Relaxed) { st.trace } else { vec![] },
        counters: r.counters.clone(),
        nontrivial: r.nontrivial,
        evaluations: r.evals,
        note: std::mem::take(&mut r.note),
        history: std::mem::take(&mut r.history),
    };
    let b = serde_json::to_vec(&o).unwrap();
    unsafe {
        let fd = PIPE.load(Relaxed);
        let mut off = 0;
        while off < b.len() {
            let n = rt::raw(libc::SYS_write, fd as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        libc::_exit(0)
    }
}
/// Ends the run at once with a violation (deadlock, runaway call, memory).
pub fn fatal(class: &str, detail: &str) -> ! {
    let ctx = status();
    violation(class, if ctx.is_empty() { detail.to_string() } else { format!("{detail}; during {ctx}") });
    emit(None)
}
pub fn harness_error(m: &str) -> ! {
    if DETACHED.load(Relaxed) {
        unsafe { libc::_exit(77) }
    }
    emit(Some(m.to_string()))
}
pub fn finish() -> ! {
    emit(None)
}

// A page shared with the parent, holding what the run was doing when it died.
static STATUS: AtomicUsize = AtomicUsize::new(0);
const STATUS_LEN: usize = 512;
pub fn set_status(s: &str) {
    let p = STATUS.load(Relaxed) as *mut u8;
    if !p.is_null() {
        let n = s.len().min(STATUS_LEN - 1);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), p, n);
            *p.add(n) = 0;
        }
    }
}
fn status() -> String {
    let p = STATUS.load(Relaxed) as *const u8;
    if p.is_null() {
        return String::new();
    }
    let b = unsafe { std::slice::from_raw_parts(p, STATUS_LEN) };
    let n = b.iter().position(|&c| c == 0).unwrap_or(0);
    String::from_utf8_lossy(&b[..n]).into_owned()
}
pub fn shared_map(len: usize) -> usize {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p as usize
    }
}

/// What the last panic of a simulated thread said.
static mut PANICS: [Option<String>; rt::MAXT + 1] = [const { None }; rt::MAXT + 1];
pub fn take_panic() -> String {
    let t = rt::tid();
    let i = if t < 0 { rt::MAXT } else { t as usize };
    unsafe { (*addr_of_mut!(PANICS))[i].take().unwrap_or_default() }
}
fn hook(info: &std::panic::PanicHookInfo<'_>) {
    let msg = info
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| info.payload().downcast_ref::<String>().cloned())
        .unwrap_or_default();
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let t = rt::tid();
    let i = if t < 0 { rt::MAXT } else { t as usize };
    unsafe { (*addr_of_mut!(PANICS))[i] = Some(format!("{msg} at {loc}")) }
}

/// How a guarded call ended.
pub enum Got<T> {
    Ok(T),
    /// A Rust panic (on the real target: a trap).
    Panic(String),
    /// A host exception that crossed the engine.
    Throw(String),
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Got<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Got::Ok(v),
        Err(e) => match e.downcast_ref::<wasm_bindgen::JsThrow>() {
            Some(t) => Got::Throw(t.0.clone()),
            None => Got::Panic(take_panic()),
        },
    }
}

pub struct Limits {
    pub cpu_s: u64,
    pub wall_s: u64,
}

/// Runs `body` in a child process and returns what it reported.
pub fn run(history: bool, lim: &Limits, body: impl FnOnce()) -> Outcome {
    if STATUS.load(Relaxed) == 0 {
        STATUS.store(shared_map(4096), Relaxed);
    }
    set_status("");
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(fds[0]);
            PIPE.store(fds[1], Relaxed);
            WANT_HISTORY.store(history, Relaxed);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            let rl = libc::rlimit { rlim_cur: lim.cpu_s, rlim_max: lim.cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            std::panic::set_hook(Box::new(hook));
            rt::simulate_clock(true);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                Ok(()) => finish(),
                Err(_) => harness_error(&format!("harness panic: {}", take_panic())),
            }
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = vec![0u8; 65536];
        let mut waited = 0u64;
        let mut killed = false;
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, 1000);
            if r == 0 {
                waited += 1;
                if waited > lim.wall_s && !killed {
                    libc::kill(pid, libc::SIGKILL);
                    killed = true;
                }
                continue;
            }
            let n = rt::raw(libc::SYS_read, fds[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if let Ok(o) = serde_json::from_slice::<Outcome>(&out) {
            return o;
        }
        let ctx = status();
        let mut o = Outcome::default();
        if killed || (libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL) {
            o.harness = Some(format!("run was killed (wall-time limit {} s, or memory pressure); during {ctx}", lim.wall_s));
        } else if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (class, what) = match sig {
                libc::SIGSEGV | libc::SIGBUS => ("crash", "the process crashed: memory fault or exhausted stack"),
                libc::SIGABRT => ("crash", "the process aborted (exhausted stack, panic while panicking, or failed allocation)"),
                libc::SIGXCPU => ("no-progress", "the call did not finish within its processor-time limit"),
                _ => ("crash", "the process was killed by a signal"),
            };
            o.viol = Some(Viol { class: class.into(), detail: format!("{what} (signal {sig}); during {ctx}") });
            o.hash = rt::hash_str(class);
        } else {
            o.harness = Some(format!("run ended without a report (status {st}); during {ctx}"));
        }
        o
    }
}
