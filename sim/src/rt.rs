//! The simulated runtime: one baton, a seeded scheduler, and the seams through which the engine
//! reaches the outside world (futexes, randomness, clocks). Threads are real OS threads, but only
//! the one holding the baton runs; every hand-over is decided here.
//!
//! The engine and its arena crate are compiled with a callback on every basic block (see
//! rustc-wrap.sh); the callback is where a thread may be preempted.
use serde::{Deserialize, Serialize};
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAXT: usize = 8;
pub const MAXG: usize = 1 << 15;

// ------------------------------------------------------------------ raw system calls

#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub unsafe fn with_errno(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
fn raw_futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT) as usize, v as usize, 0, 0, 0);
    }
}
fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0);
    }
}

// ------------------------------------------------------------------ small PRNG

#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    mix(h, s.len() as u64)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed, 0x5eed) | 1)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// Below a random power of two.
    pub fn upto(&mut self, lo: usize, hi: usize) -> usize {
        let b = self.range(lo, hi);
        self.below(1 << b)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ------------------------------------------------------------------ scheduler state

/// One scheduling decision: thread `t`, in its operation `op` after `at` basic blocks (`f`: it could
/// not go on there), handed the baton to `to`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dec {
    pub t: u8,
    pub op: u32,
    pub at: u64,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub f: bool,
    pub to: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Policy {
    /// Preempt at a block with probability `p0` / (number of times it was reached), so that rarely
    /// executed code is preempted often; `pu`: flat probability; `pb`: at operation boundaries;
    /// `burst`: probability that a preempting thread gets only a short slice; `hold`: probability
    /// that a preempted thread stalls until the others have begun a few more operations.
    Random {
        seed: u64,
        p0: f64,
        pu: f64,
        pb: f64,
        burst: f64,
        #[serde(default)]
        hold: f64,
    },
    Replay(Vec<Dec>),
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Done,
}

struct Th {
    st: St,
    op: u32,
    at: u64,
    limit: u64, // for `at`
    seeds: u64,
    since: u64, // order of blocking
    next: u64,  // replay: the next `at` with a decision
    plan: Vec<(u64, u8)>,
    pi: usize,
    slice: u64,
    held: u64, // stalls until this many operations have begun
    run: u64, // blocks since it got the baton
    tag: u64, // random-source label
}

struct Sched {
    n: usize,
    th: Vec<Th>,
    rng: Rng,
    p0: f64,
    pu: u32,
    pb: f64,
    burst: f64,
    hold: f64,
    ops: u64,
    holds: u64,
    replay: bool,
    forced: BTreeMap<(u8, u32, u64), u8>,
    planned: BTreeMap<(u8, u32), Vec<(u64, u8)>>,
    trace: Vec<Dec>,
    steps: u64,
    switches: u64,
    preempts: u64,
    blocks: u64,
    shash: u64,
    block_seq: u64,
    op_limit: u64,
}

static mut S: Option<Sched> = None;
static mut HITS: [u32; MAXG] = [0; MAXG];
static PARK: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static SEQ: AtomicU64 = AtomicU64::new(1);
pub static COVER: AtomicUsize = AtomicUsize::new(0); // shared map, one byte per block
static NGUARD: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
}
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    // Only the holder of the baton gets here.
    unsafe { (*addr_of_mut!(S)).as_mut().unwrap() }
}
pub fn guards() -> u32 {
    NGUARD.load(Relaxed)
}
/// A fresh stamp in the run's single order of events.
pub fn stamp() -> u64 {
    SEQ.fetch_add(1, Relaxed)
}

// ------------------------------------------------------------------ instrumentation callbacks

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if p == stop || *p != 0 {
        return;
    }
    while p < stop {
        let n = NGUARD.fetch_add(1, Relaxed) + 1;
        *p = n % (MAXG as u32);
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE.load(Relaxed) {
        // Outside the scheduler (runs of one thread, reference computations): coverage only.
        PLAIN.store(PLAIN.load(Relaxed) + 1, Relaxed);
        let m = COVER.load(Relaxed);
        if m != 0 {
            let p = (m + *g as usize) as *mut u8;
            if *p == 0 {
                *p = 1;
            }
        }
        return;
    }
    let t = tid();
    if t < 0 {
        return;
    }
    edge(t as usize, *g as usize);
}

static PLAIN: AtomicU64 = AtomicU64::new(0);
/// Basic blocks executed outside the scheduler.
pub fn plain() -> u64 {
    PLAIN.load(Relaxed)
}

fn edge(t: usize, g: usize) {
    let sc = s();
    sc.steps += 1;
    let hits = unsafe { &mut (*addr_of_mut!(HITS))[g] };
    if *hits == 0 {
        let m = COVER.load(Relaxed);
        if m != 0 {
            unsafe { *((m + g) as *mut u8) = 1 };
        }
    }
    *hits = hits.saturating_add(1);
    let h = *hits;
    let th = &mut sc.th[t];
    th.at += 1;
    th.run += 1;
    if th.at > th.limit {
        crate::child::fatal("no-progress", &format!("thread {t} ran {} basic blocks in operation {} without finishing it", th.at, th.op));
    }
    if sc.n < 2 {
        return;
    }
    if sc.replay {
        if th.at == th.next {
            let to = th.plan[th.pi].1 as usize;
            th.pi += 1;
            th.next = th.plan.get(th.pi).map_or(u64::MAX, |p| p.0);
            if to != t && to < sc.n && sc.th[to].st == St::Ready {
                preempt(t, to, g);
            }
        }
        return;
    }
    if th.slice > 0 {
        th.slice -= 1;
        if th.slice == 0 {
            if let Some(to) = other(t) {
                preempt(t, to, g);
            }
            return;
        }
    }
    let r = sc.rng.next();
    let lim = (sc.p0 * 4294967296.0) as u64 / u64::from(h);
    if (r >> 32) < lim.max(u64::from(sc.pu)) || th.run > 3_000_000 {
        if let Some(to) = other(t) {
            preempt(t, to, g);
        }
    }
}

/// A random other thread that can run.
fn other(t: usize) -> Option<usize> {
    let sc = s();
    let c: Vec<usize> = (0..sc.n).filter(|&i| i != t && sc.th[i].st == St::Ready && sc.th[i].held <= sc.ops).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[sc.rng.below(c.len())])
    }
}

fn preempt(t: usize, to: usize, g: usize) {
    let sc = s();
    sc.preempts += 1;
    let (op, at) = (sc.th[t].op, sc.th[t].at);
    sc.trace.push(Dec { t: t as u8, op, at, f: false, to: to as u8 });
    if !sc.replay && sc.burst > 0.0 {
        let b = sc.burst;
        if sc.rng.chance(b) {
            let e = sc.rng.range(1, 10);
            sc.th[to].slice = 1 + sc.rng.below(1 << e) as u64;
        }
    }
    if !sc.replay && sc.hold > 0.0 && g != 0 {
        let p = sc.hold;
        if sc.rng.chance(p) {
            sc.th[t].held = sc.ops + 1 + sc.rng.upto(0, 4) as u64;
            sc.holds += 1;
        }
    }
    hand_over(t, to, g);
}

fn hand_over(t: usize, to: usize, g: usize) {
    let sc = s();
    sc.switches += 1;
    sc.shash = mix(sc.shash, ((t as u64) << 40) ^ ((to as u64) << 32) ^ ((sc.th[t].op as u64) << 16) ^ g as u64);
    sc.th[t].run = 0;
    sc.th[to].run = 0;
    SEQ.fetch_add(1, Relaxed);
    wake(to);
    park(t);
}
fn wake(to: usize) {
    PARK[to].store(1, Release);
    raw_futex_wake(&PARK[to]);
}
fn park(t: usize) {
    while PARK[t].load(Acquire) == 0 {
        raw_futex_wait(&PARK[t], 0);
    }
    PARK[t].store(0, Relaxed);
}

/// The running thread cannot go on: somebody else must.
fn must_leave(t: usize) -> bool {
    let sc = s();
    let c: Vec<usize> = (0..sc.n).filter(|&i| i != t && sc.th[i].st == St::Ready).collect();
    if c.is_empty() {
        return false;
    }
    let (op, at) = (sc.th[t].op, sc.th[t].at);
    let awake: Vec<usize> = c.iter().copied().filter(|&i| sc.th[i].held <= sc.ops).collect();
    let to = if sc.replay {
        match sc.forced.get(&(t as u8, op, at)) {
            Some(&x) if c.contains(&(x as usize)) => x as usize,
            _ => c[0],
        }
    } else if awake.is_empty() {
        // Everybody else stalls or is done: the stall is over.
        let i = c[sc.rng.below(c.len())];
        sc.th[i].held = 0;
        i
    } else {
        awake[sc.rng.below(awake.len())]
    };
    sc.trace.push(Dec { t: t as u8, op, at, f: true, to: to as u8 });
    if sc.th[t].st == St::Done {
        sc.switches += 1;
        sc.shash = mix(sc.shash, ((t as u64) << 40) ^ ((to as u64) << 32) ^ 0xffff);
        sc.th[to].run = 0;
        SEQ.fetch_add(1, Relaxed);
        wake(to);
    } else {
        hand_over(t, to, 0);
    }
    true
}

fn futex_wait(t: usize, addr: usize, val: u32, timed: bool) -> isize {
    let a = unsafe { &*(addr as *const AtomicU32) };
    if a.load(SeqCst) != val {
        return -(libc::EAGAIN as isize);
    }
    let sc = s();
    if timed {
        // A timed wait may always time out: time jumps when it is the scheduler's turn.
        tick(1_000_000_000);
        if let Some(to) = other(t) {
            preempt(t, to, 0);
        }
        return -(libc::ETIMEDOUT as isize);
    }
    sc.blocks += 1;
    sc.block_seq += 1;
    sc.th[t].since = sc.block_seq;
    sc.th[t].st = St::Blocked(addr);
    if !must_leave(t) {
        let who: Vec<String> = (0..sc.n)
            .map(|i| match sc.th[i].st {
                St::Blocked(_) => format!("thread {i} blocked in operation {}", sc.th[i].op),
                St::Done => format!("thread {i} done"),
                St::Ready => format!("thread {i} ready"),
            })
            .collect();
        crate::child::fatal("deadlock", &format!("no thread can run: {}", who.join(", ")));
    }
    0
}
fn futex_wake(addr: usize, n: usize) -> isize {
    let sc = s();
    let mut w: Vec<usize> = (0..sc.n).filter(|&i| sc.th[i].st == St::Blocked(addr)).collect();
    w.sort_by_key(|&i| sc.th[i].since);
    w.truncate(n);
    for &i in &w {
        sc.th[i].st = St::Ready;
    }
    w.len() as isize
}

// ------------------------------------------------------------------ interposed libc entry points

static RNDCTR: AtomicU64 = AtomicU64::new(0);
unsafe fn sim_random(buf: *mut u8, len: usize) {
    for i in 0..len {
        *buf.add(i) = (hash_seed() >> 13) as u8;
    }
    RNDCTR.fetch_add(len as u64, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == libc::SYS_futex {
        let t = tid();
        if t >= 0 && ACTIVE.load(Relaxed) {
            let cmd = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            let r = match cmd {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => futex_wait(t as usize, a, c as u32, d != 0),
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => futex_wake(a, c),
                _ => raw(n, a, b, c, d, e, f),
            };
            return with_errno(r);
        }
    } else if n == libc::SYS_getrandom {
        sim_random(a as *mut u8, b);
        return b as isize;
    }
    with_errno(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    sim_random(buf, len);
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    sim_random(buf, len);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let t = tid();
    if t >= 0 && ACTIVE.load(Relaxed) {
        tick(1000);
        if let Some(to) = other(t as usize) {
            preempt(t as usize, to, 0);
        }
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
const REAL: u32 = 0;
const JUMPING: u32 = 1;
const CALM: u32 = 2;
/// Which clock this process sees.
static CLOCK: AtomicU32 = AtomicU32::new(REAL);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
static SKEW: AtomicI64 = AtomicI64::new(0);
static LATEST: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static JUMPS: AtomicU64 = AtomicU64::new(0);
fn tick(ns: u64) {
    CLOCK_NS.fetch_add(ns, Relaxed);
}
/// From now on this process sees the simulated clock.
pub fn simulate_clock(jumps: bool) {
    CLOCK.store(if jumps { JUMPING } else { CALM }, Relaxed);
}
pub fn clock_reads() -> (u64, u64, u64) {
    (READS.load(Relaxed), JUMPS.load(Relaxed), CLOCK_NS.load(Relaxed))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    let mode = CLOCK.load(Relaxed);
    if mode != REAL {
        let n = READS.fetch_add(1, Relaxed);
        let r = mix(RUNSEED.load(Relaxed) ^ 0xc10c, n);
        if mode == JUMPING && r % 6 == 0 {
            // Time jumps, by up to half an hour.
            JUMPS.fetch_add(1, Relaxed);
            tick(1 << ((r >> 8) % 41));
        }
        if mode == JUMPING && r % 16 == 1 {
            // The wall clock is set, forwards or back.
            JUMPS.fetch_add(1, Relaxed);
            SKEW.store(((r >> 20) % 7_200_000_000_000) as i64 - 3_600_000_000_000, Relaxed);
        }
        tick(1000);
        let work = PLAIN.load(Relaxed) + (*addr_of_mut!(S)).as_ref().map_or(0, |sc| sc.steps);
        let wall = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
        let base = if wall { 1_700_000_000_000_000_000 + SKEW.load(Relaxed) } else { 1_000_000_000_000 };
        let mut now = base as u64 + CLOCK_NS.load(Relaxed) + work;
        if !wall {
            // This one never goes back.
            now = now.max(LATEST.fetch_max(now, Relaxed));
        }
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    with_errno(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ts: *const libc::timespec) -> bool {
    let t = tid();
    if t >= 0 && ACTIVE.load(Relaxed) {
        tick((*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64);
        if let Some(to) = other(t as usize) {
            preempt(t as usize, to, 0);
        }
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if sim_sleep(a) {
        return 0;
    }
    with_errno(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, fl: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
    if sim_sleep(a) {
        return 0;
    }
    -(raw(libc::SYS_clock_nanosleep, clk as usize, fl as usize, a as usize, b as usize, 0, 0) as i32)
}

// ------------------------------------------------------------------ hash seeds

struct Source;
static mut FIXED: [[u64; 4]; 2] = [[1, 2, 3, 4], [5, 6, 7, 8]];
static RUNSEED: AtomicU64 = AtomicU64::new(0);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static EPCTR: AtomicU64 = AtomicU64::new(0);

/// The next seed of a hash table. It depends on the run's seed, the thread, the operation and a
/// counter within the operation, so that it does not change when unrelated operations are removed.
fn hash_seed() -> u64 {
    let r = RUNSEED.load(Relaxed);
    let t = tid();
    if t >= 0 && ACTIVE.load(Relaxed) {
        let th = &mut s().th[t as usize];
        th.seeds += 1;
        mix(mix(r, th.tag), th.seeds)
    } else {
        let c = EPCTR.fetch_add(1, Relaxed);
        mix(mix(r ^ 0xabcd, EPOCH.load(Relaxed)), c)
    }
}
impl ahash::RandomSource for Source {
    #[allow(static_mut_refs)]
    fn get_fixed_seeds(&self) -> &'static [[u64; 4]; 2] {
        unsafe { &*std::ptr::addr_of!(FIXED) }
    }
    fn gen_hasher_seed(&self) -> usize {
        hash_seed() as usize
    }
}
/// Installs the simulated randomness for this process.
pub fn install_random(run_seed: u64) {
    RUNSEED.store(run_seed, Relaxed);
    unsafe {
        let f = &mut *addr_of_mut!(FIXED);
        for i in 0..8 {
            f[i / 4][i % 4] = mix(run_seed ^ 0xf1ed, i as u64);
        }
    }
    let _ = ahash::RandomState::set_random_source(Source);
}
/// Code outside simulated threads (builders, reference instances) draws its seeds from this epoch.
pub fn set_epoch(e: u64) {
    EPOCH.store(e, Relaxed);
    EPCTR.store(0, Relaxed);
}
/// Labels the hash seeds the current operation draws (defaults to thread and operation).
pub fn set_tag(tag: u64) {
    let t = tid();
    if t >= 0 {
        s().th[t as usize].tag = tag;
        s().th[t as usize].seeds = 0;
    }
}

// ------------------------------------------------------------------ running threads

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub blocks: u64,
    pub holds: u64,
    pub shash: u64,
    pub trace: Vec<Dec>,
}
pub fn stats() -> RunStats {
    unsafe {
        match (*addr_of_mut!(S)).as_ref() {
            Some(sc) => RunStats {
                steps: sc.steps,
                switches: sc.switches,
                preempts: sc.preempts,
                blocks: sc.blocks,
                holds: sc.holds,
                shash: sc.shash,
                trace: sc.trace.clone(),
            },
            None => RunStats::default(),
        }
    }
}

/// Starts operation `op` of the running thread; a preemption may happen right here.
/// Basic blocks run in the current operation so far.
pub fn spent() -> u64 {
    let t = tid();
    if t < 0 {
        return 0;
    }
    s().th[t as usize].at
}
/// A call from within the current operation: it may take as long as an operation.
pub fn extend() {
    let t = tid();
    if t >= 0 {
        let l = s().op_limit;
        s().th[t as usize].limit += l;
    }
}
pub fn begin_op(op: u32) {
    let t = tid();
    if t < 0 {
        return;
    }
    let t = t as usize;
    let sc = s();
    let th = &mut sc.th[t];
    th.op = op;
    th.at = 0;
    th.limit = sc.op_limit;
    th.seeds = 0;
    th.tag = mix(t as u64 + 1, u64::from(op));
    sc.ops += 1;
    if sc.n < 2 {
        return;
    }
    if sc.replay {
        th.plan = sc.planned.get(&(t as u8, op)).cloned().unwrap_or_default();
        th.pi = 0;
        th.next = th.plan.first().map_or(u64::MAX, |p| p.0);
        if th.next == 0 {
            let to = th.plan[0].1 as usize;
            th.pi = 1;
            th.next = th.plan.get(1).map_or(u64::MAX, |p| p.0);
            if to != t && to < sc.n && sc.th[to].st == St::Ready {
                preempt(t, to, 0);
            }
        }
        return;
    }
    let pb = sc.pb;
    if sc.rng.chance(pb) {
        if let Some(to) = other(t) {
            preempt(t, to, 0);
        }
    }
}

/// Runs the bodies as simulated threads to completion.
pub fn run(policy: &Policy, op_limit: u64, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n <= MAXT);
    let mut sc = Sched {
        n,
        th: (0..n)
            .map(|_| Th { st: St::Ready, op: 0, at: 0, limit: op_limit, seeds: 0, since: 0, next: u64::MAX, plan: vec![], pi: 0, slice: 0, held: 0, run: 0, tag: 0 })
            .collect(),
        rng: Rng::new(1),
        p0: 0.0,
        pu: 0,
        pb: 0.0,
        burst: 0.0,
        hold: 0.0,
        ops: 0,
        holds: 0,
        replay: false,
        forced: BTreeMap::new(),
        planned: BTreeMap::new(),
        trace: vec![],
        steps: 0,
        switches: 0,
        preempts: 0,
        blocks: 0,
        shash: 0,
        block_seq: 0,
        op_limit,
    };
    match policy {
        Policy::Random { seed, p0, pu, pb, burst, hold } => {
            sc.rng = Rng::new(*seed);
            sc.p0 = *p0;
            sc.pu = (*pu * 4294967296.0) as u32;
            sc.pb = *pb;
            sc.burst = *burst;
            sc.hold = *hold;
        }
        Policy::Replay(d) => {
            sc.replay = true;
            for e in d {
                if e.f {
                    sc.forced.insert((e.t, e.op, e.at), e.to);
                } else {
                    sc.planned.entry((e.t, e.op)).or_default().push((e.at, e.to));
                }
            }
            for v in sc.planned.values_mut() {
                v.sort();
            }
        }
    }
    unsafe {
        *addr_of_mut!(S) = Some(sc);
        for h in (*addr_of_mut!(HITS)).iter_mut() {
            *h = 0;
        }
    }
    if n == 0 {
        return;
    }
    for (i, b) in bodies.into_iter().enumerate() {
        let started = std::sync::Arc::new(AtomicU32::new(0));
        let st2 = started.clone();
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                TID.with(|t| t.set(i as i32));
                st2.store(1, Release);
                raw_futex_wake(&st2);
                std::mem::forget(st2);
                park(i);
                b();
                s().th[i].st = St::Done;
                if !must_leave(i) {
                    wake(MAXT); // all done, or the rest is blocked: the controller looks
                }
                // Parked for good; the process ends with `_exit`.
                loop {
                    raw_futex_wait(&PARK[i], 0);
                }
            })
            .expect("spawn");
        while started.load(Acquire) == 0 {
            raw_futex_wait(&started, 0);
        }
        std::mem::forget(started);
    }
    ACTIVE.store(true, Release);
    let sc = s();
    let first = if sc.replay {
        match sc.forced.get(&(255, 0, 0)) {
            Some(&x) if (x as usize) < n => x as usize,
            _ => 0,
        }
    } else {
        sc.rng.below(n)
    };
    sc.trace.push(Dec { t: 255, op: 0, at: 0, f: true, to: first as u8 });
    wake(first);
    park(MAXT);
    ACTIVE.store(false, Release);
    let sc = s();
    if sc.th.iter().any(|t| t.st != St::Done) {
        let who: Vec<String> =
            (0..n).filter(|&i| sc.th[i].st != St::Done).map(|i| format!("thread {i} in operation {}", sc.th[i].op)).collect();
        crate::child::fatal("deadlock", &format!("blocked with nobody left to wake them: {}", who.join(", ")));
    }
}
