//! The command-line indexer on a simulated file system: its own source, every file operation it makes
//! answered here, with short, interrupted and failing operations and a kill at any of them.
use crate::cat::{self, Cat};
use crate::child::{self, guard, Got};
use crate::rt::{self, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::ptr::addr_of_mut;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

// Behind a feature, so that the other properties' checks do not depend on main.rs.
#[cfg(not(feature = "cli"))]
mod real {
    pub fn entry() -> bool {
        crate::child::harness_error("built without the command-line indexer (feature cli)")
    }
}
#[cfg(feature = "cli")]
#[allow(dead_code, unused_imports)]
mod real {
    include!(concat!(env!("OUT_DIR"), "/indexer_main.rs"));
    pub fn entry() -> bool {
        let code = std::process::Termination::report(main());
        format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum At {
    Open,
    Read,
    Write,
    /// Any file operation at all.
    Any,
    /// Any that neither opens nor moves bytes.
    Other,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Effect {
    /// Only this many bytes are moved.
    Short(usize),
    /// Interrupted by a signal; nothing happens.
    Eintr,
    /// Fails with this code, from now on.
    Fail(i32),
    /// Fails with this code, this once.
    Once(i32),
    /// The disk has room for this many more bytes (writes only).
    Full(usize),
    /// The process is killed, having moved this many bytes (modulo the operation's length + 1).
    Kill(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub at: At,
    /// At the how-maniest such operation.
    pub nth: usize,
    pub effect: Effect,
}
/// One time the indexer is run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    pub cat: Cat,
    /// The input holds only this many bytes (modulo the length), or does not exist.
    pub input_cut: Option<usize>,
    pub missing: bool,
    /// Largest transfer of any read and write.
    pub chunk: Option<(usize, usize)>,
    pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cli {
    /// What the output file held at first: nothing, or another catalogue's index.
    pub old: Option<Cat>,
    /// Runs in the same directory, one after the other, each a process of its own.
    pub rounds: Vec<Round>,
    pub hseed: u64,
}

pub fn gen(seed: u64) -> Cli {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[1usize, 3, 8, 16]);
    let cat = if r.chance(0.03) { Cat { products: vec![] } } else { cat::gen(&mut r, 0, cat::Shape::new(1, max, true).huge(150)) };
    let old = if r.chance(0.5) { Some(cat::gen(&mut r, 1, cat::Shape::new(1, 4, false))) } else { None };
    let mut rounds = vec![];
    if r.chance(0.25) {
        // What an earlier run left behind is there; mostly it did not end well.
        for k in 0..r.range(1, 2) {
            let c = match r.below(3) {
                0 => cat.clone(),
                1 => cat::edition(&mut r, &cat, 2 + k),
                _ => cat::gen(&mut r, 2 + k, cat::Shape::new(1, 8, false)),
            };
            let bad = r.chance(0.75);
            rounds.push(gen_round(&mut r, c, bad));
        }
    }
    rounds.push(gen_round(&mut r, cat, false));
    Cli { old, rounds, hseed: r.next() }
}
fn gen_round(r: &mut Rng, cat: Cat, bad: bool) -> Round {
    let chunk = match r.below(5) {
        0 => Some((1 + r.below(64), 1 + r.below(64))),
        1 => Some((1 + r.below(4096), 1 + r.below(4096))),
        2 => Some((usize::MAX, 1 + r.below(1 << 14))),
        _ => None,
    };
    let mut faults = vec![];
    let deep = |r: &mut Rng| if r.chance(0.6) { r.below(3) } else { r.below(200) };
    // Transient trouble.
    if r.chance(0.6) {
        for _ in 0..r.range(1, 6) {
            let at = *r.pick(&[At::Open, At::Read, At::Write, At::Read, At::Write]);
            let effect = if at == At::Open || r.chance(0.5) { Effect::Eintr } else { Effect::Short(1 + r.upto(0, 14)) };
            faults.push(Fault { at, nth: deep(r), effect });
        }
    }
    let mut input_cut = None;
    let mut missing = false;
    match if bad { r.range(1, 8) } else { r.below(10) } {
        0 => input_cut = Some(r.next() as usize & 0xfff_ffff),
        1 if r.chance(0.3) => missing = true,
        1 | 2 => {
            let e = *r.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOSPC]);
            faults.push(Fault { at: *r.pick(&[At::Open, At::Read, At::Write]), nth: deep(r), effect: Effect::Fail(e) });
        }
        3 => faults.push(Fault { at: At::Write, nth: 0, effect: Effect::Full(r.upto(0, 17)) }),
        4 => {
            // An error that passes, usually with something already moved.
            let at = *r.pick(&[At::Write, At::Write, At::Write, At::Read, At::Open]);
            let nth = if r.chance(0.7) { r.below(4) } else { deep(r) };
            if r.chance(0.8) && nth > 0 {
                faults.push(Fault { at, nth: nth - 1, effect: Effect::Short(1 + r.upto(0, 14)) });
            }
            let e = *r.pick(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::EDQUOT, libc::ENOMEM]);
            faults.push(Fault { at, nth, effect: Effect::Once(e) });
        }
        8 => {
            // Renaming, flushing, asking for sizes and the like fail.
            let e = *r.pick(&[libc::EIO, libc::EACCES, libc::ENOSPC, libc::EXDEV]);
            let effect = if r.chance(0.5) { Effect::Fail(e) } else { Effect::Once(e) };
            faults.push(Fault { at: At::Other, nth: if r.chance(0.8) { r.below(6) } else { r.below(40) }, effect });
        }
        5 | 6 | 7 => {
            let at = *r.pick(&[At::Any, At::Write]);
            faults.push(Fault { at, nth: if r.chance(0.7) { r.below(12) } else { r.below(300) }, effect: Effect::Kill(r.next() as usize & 0xfff_ffff) });
        }
        _ => {}
    }
    Round { cat, input_cut, missing, chunk, faults }
}

// ------------------------------------------------------------------ the simulated file system

const BASE: i32 = 50_000;
struct Open {
    path: String,
    pos: usize,
    append: bool,
}
struct Fs {
    files: BTreeMap<String, Vec<u8>>,
    /// Unlinked or replaced files that are still open keep their own contents under a hidden name.
    open: BTreeMap<i32, Open>,
    next: i32,
    n: [usize; 5],
    faults: Vec<Fault>,
    chunk: (usize, usize),
    sticky: [i32; 5],
    room: Option<usize>,
    ops: usize,
    permanent: bool,
    killed: bool,
    exited: Option<i32>,
}
static mut FS: Option<Fs> = None;
static ON: AtomicBool = AtomicBool::new(false);
static WAKE: AtomicU32 = AtomicU32::new(0);
thread_local! {
    static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[allow(static_mut_refs)]
fn fs() -> &'static mut Fs {
    unsafe { (*addr_of_mut!(FS)).as_mut().unwrap() }
}
fn mine() -> bool {
    ON.load(Relaxed) && MINE.with(|m| m.get())
}
fn simfd(fd: i32) -> bool {
    fd >= BASE && mine()
}
fn name(p: &str) -> String {
    let mut s = p;
    while let Some(x) = s.strip_prefix("./") {
        s = x;
    }
    s.to_string()
}
/// The thread stops here for good: the process was killed.
fn stop() -> ! {
    WAKE.store(1, Release);
    unsafe {
        rt::raw(libc::SYS_futex, &WAKE as *const _ as usize, libc::FUTEX_WAKE as usize, 9, 0, 0, 0);
        loop {
            rt::raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
        }
    }
}
/// What happens to the next operation of this kind: `Err(errno)` or how many bytes it may move.
fn next(at: At, len: usize) -> Result<usize, i32> {
    let f = fs();
    f.ops += 1;
    let k = at as usize;
    let (nk, na) = (f.n[k], f.n[At::Any as usize]);
    f.n[k] += 1;
    f.n[At::Any as usize] += 1;
    if f.ops > 2_000_000 {
        child::fatal("no-progress", "the indexer makes file operations without end");
    }
    let mut allow = match at {
        At::Read => len.min(f.chunk.0),
        At::Write => len.min(f.chunk.1),
        _ => len,
    };
    if f.sticky[k] != 0 {
        return Err(f.sticky[k]);
    }
    for x in f.faults.clone() {
        let hit = (x.at == at && x.nth == nk) || (x.at == At::Any && x.nth == na);
        if !hit {
            continue;
        }
        match x.effect {
            Effect::Short(n) => {
                if n < allow {
                    child::count("fault: short transfer", 1);
                    allow = n.max(1);
                }
            }
            Effect::Eintr => {
                if at != At::Other {
                    child::count("fault: interrupted call", 1);
                    return Err(libc::EINTR);
                }
            }
            Effect::Fail(e) => {
                child::count("fault: I/O error", 1);
                f.sticky[k] = e;
                f.permanent = true;
                return Err(e);
            }
            Effect::Once(e) => {
                child::count("fault: I/O error that passes", 1);
                f.permanent = true;
                return Err(e);
            }
            Effect::Full(n) => {
                child::count("fault: disk full after some bytes", 1);
                f.room = Some(n);
            }
            Effect::Kill(n) => {
                child::count("fault: killed", 1);
                f.killed = true;
                allow = n % (allow + 1);
                if at != At::Write {
                    stop();
                }
                break;
            }
        }
    }
    if at == At::Write {
        if let Some(room) = &mut f.room {
            if *room == 0 && len > 0 && !f.killed {
                f.permanent = true;
                return Err(libc::ENOSPC);
            }
            allow = allow.min(*room);
            *room -= allow;
        }
    }
    Ok(allow)
}
fn err(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e }
    -1
}
fn sim_open(path: *const i8, flags: i32) -> i32 {
    let p = name(&unsafe { CStr::from_ptr(path) }.to_string_lossy());
    child::log(|| format!("open {p} {flags:x}"));
    if let Err(e) = next(At::Open, 0) {
        return err(e) as i32;
    }
    let f = fs();
    let there = f.files.contains_key(&p);
    if !there && flags & libc::O_CREAT == 0 {
        return err(libc::ENOENT) as i32;
    }
    if there && flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
        return err(libc::EEXIST) as i32;
    }
    if !there || flags & libc::O_TRUNC != 0 {
        f.files.insert(p.clone(), vec![]);
    }
    let fd = f.next;
    f.next += 1;
    f.open.insert(fd, Open { path: p, pos: 0, append: flags & libc::O_APPEND != 0 });
    fd
}
fn sim_read(fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> isize {
    let allow = match next(At::Read, len) {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    let f = fs();
    let Some(o) = f.open.get_mut(&fd) else { return err(libc::EBADF) };
    let Some(data) = f.files.get(&o.path) else { return 0 };
    let from = at.unwrap_or(o.pos).min(data.len());
    let n = allow.min(data.len() - from);
    unsafe { std::ptr::copy_nonoverlapping(data[from..].as_ptr(), buf, n) };
    if at.is_none() {
        o.pos = from + n;
    }
    child::log(|| format!("read {n} of {len}"));
    n as isize
}
fn sim_write(fd: i32, buf: *const u8, len: usize, at: Option<usize>) -> isize {
    let allow = match next(At::Write, len) {
        Ok(n) => n,
        Err(e) => return err(e),
    };
    let f = fs();
    let Some(o) = f.open.get_mut(&fd) else { return err(libc::EBADF) };
    let data = f.files.entry(o.path.clone()).or_default();
    let pos = at.unwrap_or(if o.append { data.len() } else { o.pos });
    if data.len() < pos + allow {
        data.resize(pos + allow, 0);
    }
    data[pos..pos + allow].copy_from_slice(unsafe { std::slice::from_raw_parts(buf, allow) });
    if at.is_none() {
        o.pos = pos + allow;
    }
    child::log(|| format!("write {allow} of {len}"));
    if f.killed {
        stop();
    }
    allow as isize
}
fn any_op() -> Result<(), i32> {
    next(At::Other, 0).map(|_| ())
}

macro_rules! raw {
    ($n:expr $(, $a:expr)*) => {{
        let a = [$($a as usize,)* 0, 0, 0, 0, 0, 0];
        rt::with_errno(rt::raw($n, a[0], a[1], a[2], a[3], a[4], a[5]))
    }};
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, fl: i32, mode: u32) -> i32 {
    if mine() {
        return sim_open(p, fl);
    }
    raw!(libc::SYS_openat, libc::AT_FDCWD, p, fl, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, fl: i32, mode: u32) -> i32 {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const i8, fl: i32, mode: u32) -> i32 {
    if mine() {
        return sim_open(p, fl);
    }
    raw!(libc::SYS_openat, d, p, fl, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const i8, fl: i32, mode: u32) -> i32 {
    openat(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if simfd(fd) {
        return sim_read(fd, b, n, None);
    }
    raw!(libc::SYS_read, fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if simfd(fd) {
        return sim_write(fd, b, n, None);
    }
    raw!(libc::SYS_write, fd, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    if simfd(fd) {
        return sim_read(fd, b, n, Some(off as usize));
    }
    raw!(libc::SYS_pread64, fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    if simfd(fd) {
        return sim_write(fd, b, n, Some(off as usize));
    }
    raw!(libc::SYS_pwrite64, fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if simfd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return sim_read(fd, x.iov_base as *mut u8, x.iov_len, None);
            }
        }
        return 0;
    }
    raw!(libc::SYS_readv, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if simfd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return sim_write(fd, x.iov_base as *const u8, x.iov_len, None);
            }
        }
        return 0;
    }
    raw!(libc::SYS_writev, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if simfd(fd) {
        let r = any_op();
        fs().open.remove(&fd);
        return if let Err(e) = r { err(e) as i32 } else { 0 };
    }
    raw!(libc::SYS_close, fd) as i32
}
unsafe fn fill_statx(size: usize, st: *mut libc::statx) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*st).stx_mask = libc::STATX_BASIC_STATS;
    (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
    (*st).stx_size = size as u64;
    (*st).stx_nlink = 1;
    (*st).stx_blksize = 4096;
    (*st).stx_blocks = (size as u64).div_ceil(512);
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const i8, fl: i32, mask: u32, st: *mut libc::statx) -> i32 {
    if mine() {
        // The standard library asks this to see whether the call is there.
        if p.is_null() || st.is_null() {
            return err(libc::EFAULT) as i32;
        }
        if let Err(e) = any_op() {
            return err(e) as i32;
        }
        let size = if d >= BASE {
            fs().open.get(&d).and_then(|o| fs().files.get(&o.path)).map(Vec::len)
        } else {
            let n = name(&CStr::from_ptr(p).to_string_lossy());
            fs().files.get(&n).map(Vec::len)
        };
        return match size {
            Some(n) => {
                fill_statx(n, st);
                0
            }
            None => err(libc::ENOENT) as i32,
        };
    }
    raw!(libc::SYS_statx, d, p, fl, mask, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut libc::stat64) -> i32 {
    if simfd(fd) {
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_mode = libc::S_IFREG | 0o644;
        (*st).st_nlink = 1;
        (*st).st_blksize = 4096;
        (*st).st_size = fs().open.get(&fd).and_then(|o| fs().files.get(&o.path)).map_or(0, |f| f.len() as i64);
        return 0;
    }
    raw!(libc::SYS_fstat, fd, st) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if simfd(fd) {
        let f = fs();
        let Some(o) = f.open.get_mut(&fd) else { return err(libc::EBADF) as i64 };
        let len = f.files.get(&o.path).map_or(0, Vec::len) as i64;
        let to = match wh {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => o.pos as i64 + off,
            _ => len + off,
        };
        if to < 0 {
            return err(libc::EINVAL) as i64;
        }
        o.pos = to as usize;
        return to;
    }
    raw!(libc::SYS_lseek, fd, off, wh) as i64
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
    if simfd(fd) {
        if let Err(e) = any_op() {
            return err(e) as i32;
        }
        let f = fs();
        if let Some(o) = f.open.get(&fd) {
            f.files.entry(o.path.clone()).or_default().resize(len as usize, 0);
        }
        return 0;
    }
    raw!(libc::SYS_ftruncate, fd, len) as i32
}
unsafe fn sim_sync(fd: i32, n: i64) -> i32 {
    if simfd(fd) {
        return if let Err(e) = any_op() { err(e) as i32 } else { 0 };
    }
    raw!(n, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    sim_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    sim_sync(fd, libc::SYS_fdatasync)
}
unsafe fn sim_rename(a: *const i8, b: *const i8, keep: bool) -> i32 {
    if let Err(e) = any_op() {
        return err(e) as i32;
    }
    let (a, b) = (name(&CStr::from_ptr(a).to_string_lossy()), name(&CStr::from_ptr(b).to_string_lossy()));
    child::log(|| format!("rename {a} {b}"));
    let f = fs();
    if keep && f.files.contains_key(&b) {
        return err(libc::EEXIST) as i32;
    }
    let found = if keep { f.files.get(&a).cloned() } else { f.files.remove(&a) };
    match found {
        Some(d) => {
            if !keep {
                for o in f.open.values_mut() {
                    if o.path == a {
                        o.path = b.clone();
                    }
                }
            }
            f.files.insert(b, d);
            0
        }
        None => err(libc::ENOENT) as i32,
    }
}
unsafe fn sim_unlink(a: *const i8) -> i32 {
    if let Err(e) = any_op() {
        return err(e) as i32;
    }
    let a = name(&CStr::from_ptr(a).to_string_lossy());
    if fs().files.remove(&a).is_some() {
        0
    } else {
        err(libc::ENOENT) as i32
    }
}
fn there(p: *const i8) -> i32 {
    if let Err(e) = any_op() {
        return err(e) as i32;
    }
    let n = name(&unsafe { CStr::from_ptr(p) }.to_string_lossy());
    if fs().files.contains_key(&n) {
        0
    } else {
        err(libc::ENOENT) as i32
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    if mine() {
        return sim_rename(a, b, false);
    }
    raw!(libc::SYS_rename, a, b) as i32
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: i32, a: *const i8, e: i32, b: *const i8) -> i32 {
    if mine() {
        return sim_rename(a, b, false);
    }
    raw!(libc::SYS_renameat2, d, a, e, b, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: i32, a: *const i8, e: i32, b: *const i8, fl: i32) -> i32 {
    if mine() {
        return sim_rename(a, b, true);
    }
    raw!(libc::SYS_linkat, d, a, e, b, fl) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const i8) -> i32 {
    if mine() {
        return sim_unlink(a);
    }
    raw!(libc::SYS_unlink, a) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, a: *const i8, fl: i32) -> i32 {
    if mine() {
        return sim_unlink(a);
    }
    raw!(libc::SYS_unlinkat, d, a, fl) as i32
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const i8, m: i32) -> i32 {
    if mine() {
        return there(p);
    }
    raw!(libc::SYS_access, p, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: i32, p: *const i8, m: i32, fl: i32) -> i32 {
    if mine() {
        return there(p);
    }
    raw!(libc::SYS_faccessat2, d, p, m, fl) as i32
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const i8, m: u32) -> i32 {
    if mine() {
        return there(p);
    }
    raw!(libc::SYS_chmod, p, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: i32, m: u32) -> i32 {
    if simfd(fd) {
        return if let Err(e) = any_op() { err(e) as i32 } else { 0 };
    }
    raw!(libc::SYS_fchmod, fd, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: i32, op: i32) -> i32 {
    if simfd(fd) {
        return 0;
    }
    raw!(libc::SYS_flock, fd, op) as i32
}
/// Copying within the kernel is not there; programs copy by reading and writing instead.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, oa: *mut i64, b: i32, ob: *mut i64, n: usize, fl: u32) -> isize {
    if simfd(a) || simfd(b) {
        return err(libc::ENOSYS);
    }
    raw!(libc::SYS_copy_file_range, a, oa, b, ob, n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: i32, i: i32, off: *mut i64, n: usize) -> isize {
    if simfd(o) || simfd(i) {
        return err(libc::EINVAL);
    }
    raw!(libc::SYS_sendfile, o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: i32, oa: *mut i64, b: i32, ob: *mut i64, n: usize, fl: u32) -> isize {
    if simfd(a) || simfd(b) {
        return err(libc::EINVAL);
    }
    raw!(libc::SYS_splice, a, oa, b, ob, n, fl)
}
/// `std::process::exit` ends up here.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if mine() {
        fs().exited = Some(code);
        stop();
    }
    rt::raw(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    loop {}
}

// ------------------------------------------------------------------ one run

/// How a run of the indexer ended and what it left behind.
#[derive(Default, Serialize, Deserialize)]
struct Left {
    files: BTreeMap<String, Vec<u8>>,
    /// None if it was killed.
    success: Option<bool>,
    permanent: bool,
    ops: usize,
    n: [usize; 5],
    counters: BTreeMap<String, u64>,
}
/// Runs the indexer in this process; only once.
fn indexer(c: &Round, files: BTreeMap<String, Vec<u8>>) -> Left {
    unsafe {
        *addr_of_mut!(FS) = Some(Fs {
            files,
            open: BTreeMap::new(),
            next: BASE,
            n: [0; 5],
            faults: c.faults.clone(),
            chunk: c.chunk.unwrap_or((usize::MAX, usize::MAX)),
            sticky: [0; 5],
            room: None,
            ops: 0,
            permanent: false,
            killed: false,
            exited: None,
        });
    }
    static mut RET: Option<bool> = None;
    ON.store(true, Relaxed);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(|| {
            MINE.with(|m| m.set(true));
            let r = guard(real::entry);
            MINE.with(|m| m.set(false));
            unsafe {
                *addr_of_mut!(RET) = Some(match r {
                    Got::Ok(b) => b,
                    Got::Panic(m) | Got::Throw(m) => {
                        child::log(|| format!("panicked: {m}"));
                        false
                    }
                });
            }
            stop();
        })
        .unwrap();
    while WAKE.load(Acquire) == 0 {
        unsafe {
            rt::raw(libc::SYS_futex, &WAKE as *const _ as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0);
        }
    }
    ON.store(false, Relaxed);
    let f = fs();
    let success = if f.killed { None } else { Some(f.exited.map_or_else(|| unsafe { (*addr_of_mut!(RET)).unwrap_or(false) }, |c| c == 0)) };
    Left { files: std::mem::take(&mut f.files), success, permanent: f.permanent, ops: f.ops, n: f.n, counters: BTreeMap::new() }
}
/// The same in a process of its own.
fn apart(c: &Round, files: BTreeMap<String, Vec<u8>>) -> Left {
    let mut fd = [0; 2];
    let mut got = vec![];
    unsafe {
        if libc::pipe(fd.as_mut_ptr()) != 0 {
            child::harness_error("no pipe");
        }
        let pid = libc::fork();
        if pid == 0 {
            child::detach();
            let mut l = indexer(c, files);
            l.counters = child::counters();
            let b = serde_json::to_vec(&l).unwrap();
            let mut off = 0;
            while off < b.len() {
                let n = rt::raw(libc::SYS_write, fd[1] as usize, b[off..].as_ptr() as usize, b.len() - off, 0, 0, 0);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fd[1]);
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = rt::raw(libc::SYS_read, fd[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0);
            if n <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fd[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
            child::harness_error("an earlier run of the indexer could not be simulated");
        }
    }
    match serde_json::from_slice::<Left>(&got) {
        Ok(l) => {
            for (k, n) in &l.counters {
                child::count(k, n - child::counter(k).min(*n));
            }
            l
        }
        Err(_) => child::fatal("crash", "the indexer ended abnormally"),
    }
}

pub fn run(c: &Cli) {
    rt::install_random(c.hseed);
    rt::set_epoch(1);
    let mut files = BTreeMap::new();
    if let Some(o) = &c.old {
        files.insert("out.test".to_string(), indexer_lib::index_and_serialize(o.raw(), cat::leak_super()).expect("building"));
    }
    for (k, round) in c.rounds.iter().enumerate() {
        let last = k + 1 == c.rounds.len();
        if !last {
            child::count("runs of the indexer before the last one", 1);
        }
        files = one(round, files, 10 * k as u64, last);
    }
}
fn one(c: &Round, mut files: BTreeMap<String, Vec<u8>>, epoch: u64, last: bool) -> BTreeMap<String, Vec<u8>> {
    let old_file = files.get("out.test").cloned();
    let remains = files.keys().any(|k| k != "out.test" && k != "test.json");
    let mut input = c.cat.json().into_bytes();
    let mut damaged_input = c.missing;
    if let Some(k) = c.input_cut {
        let k = k % input.len();
        input.truncate(k);
        damaged_input = true;
        child::count("fault: input cut short", 1);
    }
    if c.missing {
        child::count("fault: input missing", 1);
        files.remove("test.json");
    } else {
        files.insert("test.json".to_string(), input);
    }
    rt::set_epoch(epoch + 2);
    child::set_status("running the command-line indexer");
    let f = if last { indexer(c, files) } else { apart(c, files) };
    child::set_status("judging the output file");
    let success = f.success;
    child::log(|| format!("ended: success {success:?}, {} operations, reads {}, writes {}", f.ops, f.n[1], f.n[2]));
    child::count("file operations simulated", f.ops as u64);
    child::evals(1);
    if !c.faults.is_empty() || c.chunk.is_some() || damaged_input {
        child::nontrivial();
    }
    rt::set_epoch(epoch + 3);
    let out = f.files.get("out.test").cloned();
    let state = match &out {
        None => "missing".to_string(),
        Some(b) if b.is_empty() => "empty".into(),
        Some(b) if success != Some(true) && Some(b) == old_file.as_ref() => "unchanged".into(),
        Some(b) => match guard(|| cat::load_ref::<5>(b)) {
            Got::Ok(None) => format!("rejected ({} bytes)", b.len()),
            Got::Panic(m) | Got::Throw(m) => {
                child::violation("output", format!("loading the output file ends abnormally: {m}"));
                "crashing".into()
            }
            Got::Ok(Some((ix, cl))) => match cat::view_vs_spec(&cat::view(&ix, &cl), &c.cat) {
                Some(w) => {
                    child::violation("output", format!("the output file is accepted but is not the input catalogue's index: {w}"));
                    "wrong".into()
                }
                None => {
                    // Exactly one index: without its last byte it is none.
                    if b.len() > 1 && !matches!(guard(|| cat::load_ref::<5>(&b[..b.len() - 1]).is_none()), Got::Ok(true)) {
                        child::violation("output", "the output file goes on after the end of the index".into());
                    }
                    "complete".into()
                }
            },
        },
    };
    child::log(|| format!("output file: {state}"));
    match success {
        Some(true) => {
            child::count("runs that ended in success", 1);
            if state != "complete" {
                child::violation("output", format!("the indexer reported success but its output file is {state} (faults {:?})", c.faults));
            }
            if damaged_input || f.permanent {
                child::count("successes in spite of a lasting fault", 1);
                if damaged_input {
                    child::violation("output", "the indexer reported success on a missing or cut input".into());
                }
            }
        }
        Some(false) => {
            child::count("runs that ended in failure", 1);
            // Something an earlier run left behind may be a reason.
            if !damaged_input && !f.permanent && !remains {
                child::violation("output", format!("the indexer failed although every fault was transient (faults {:?}, transfers {:?})", c.faults, c.chunk));
            }
        }
        None => child::count("runs that were killed", 1),
    }
    f.files
}
