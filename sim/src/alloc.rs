//! The allocator of the simulated process: freed memory is overwritten (so that stale references
//! show), and requests out of proportion to the input are reported.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
static POISON: AtomicBool = AtomicBool::new(false);
static ONE_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

pub fn poison(on: bool) {
    POISON.store(on, Relaxed);
}
/// From now on, report a single request above `one` bytes or a growth of live memory above `total`.
pub fn limit(one: usize, total: usize) {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    ONE_CAP.store(one, Relaxed);
    LIVE_CAP.store(live.saturating_add(total), Relaxed);
}
pub fn unlimited() {
    ONE_CAP.store(usize::MAX, Relaxed);
    LIVE_CAP.store(usize::MAX, Relaxed);
}

#[cold]
fn too_much(size: usize, live: usize) -> ! {
    let (one, total) = (ONE_CAP.load(Relaxed), LIVE_CAP.load(Relaxed));
    unlimited();
    crate::child::fatal(
        "memory",
        &if size > one {
            format!("a single request for {size} bytes (limit for this input: {one})")
        } else {
            format!("live memory grew beyond the limit for this input ({live} > {total})")
        },
    )
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Relaxed).wrapping_add(l.size());
        if l.size() > ONE_CAP.load(Relaxed) || live > LIVE_CAP.load(Relaxed) {
            too_much(l.size(), live);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        if POISON.load(Relaxed) {
            std::ptr::write_bytes(p, 0xDB, l.size());
        }
        System.dealloc(p, l);
    }
}
