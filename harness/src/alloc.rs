//! Counting allocator: live bytes, number of allocations, bytes requested, peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);

fn up(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(l, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    BYTES.fetch_add(n as u64, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            up(n);
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    live: i64,
    count: u64,
    bytes: u64,
}
/// what happened since a mark
#[derive(Clone, Copy, Debug)]
pub struct Used {
    pub live: i64,
    pub peak: i64,
    pub count: u64,
    pub bytes: u64,
}
pub fn mark() -> Mark {
    let m = Mark { live: LIVE.load(Relaxed), count: COUNT.load(Relaxed), bytes: BYTES.load(Relaxed) };
    PEAK.store(m.live, Relaxed);
    m
}
impl Mark {
    pub fn used(&self) -> Used {
        Used {
            live: LIVE.load(Relaxed) - self.live,
            peak: PEAK.load(Relaxed) - self.live,
            count: COUNT.load(Relaxed) - self.count,
            bytes: BYTES.load(Relaxed) - self.bytes,
        }
    }
}
/// CPU time of this thread in nanoseconds
pub fn cpu() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}
/// run on a thread with the given stack
pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, f).unwrap().join() {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    })
}
