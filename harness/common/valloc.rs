// Allocation monitor: every block of the Rust heap is remembered with its layout, and a release
// or resize with another layout, of an unknown block, or twice, is reported and ends the process
// with status 77. Sharded, so that it can stay on in threaded runs.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::UnsafeCell,
    sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering},
};

const SHARDS: usize = 64;
const INIT_CAP: usize = 1 << 10;

struct Shard {
    lock: AtomicBool,
    tab: UnsafeCell<*mut [usize; 3]>, // !addr (so that a leak scanner does not see it), size, align
    cap: UnsafeCell<usize>,
    used: UnsafeCell<usize>, // live + tombstones
}
unsafe impl Sync for Shard {}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Shard = Shard {
    lock: AtomicBool::new(false),
    tab: UnsafeCell::new(std::ptr::null_mut()),
    cap: UnsafeCell::new(0),
    used: UnsafeCell::new(0),
};
static TABLE: [Shard; SHARDS] = [EMPTY; SHARDS];
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);

// Blocks allocated in here (log, ledger) do not count as live bytes; the mark stays with the block.
const QUIET_BIT: usize = 1 << 63;
thread_local!(static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            let _ = QUIET.try_with(|q| q.set(self.0));
        }
    }
    let _r = Reset(QUIET.try_with(|q| q.replace(true)).unwrap_or(true));
    f()
}
fn is_quiet() -> usize {
    if QUIET.try_with(|q| q.get()).unwrap_or(true) { QUIET_BIT } else { 0 }
}
fn account(q: usize, n: i64) {
    if q == 0 {
        LIVE_BYTES.fetch_add(n, Ordering::Relaxed);
    }
}

fn hash(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E3779B97F4A7C15) >> 17
}
fn die(what: &dyn std::fmt::Display, p: usize, size: usize, align: usize, got: Option<[usize; 3]>) -> ! {
    use std::io::Write;
    let mut buf = [0u8; 300];
    let n = {
        let mut w = &mut buf[..];
        let _ = match got {
            Some(g) => writeln!(w, "VALLOC-ERROR: {what}: ptr {p:#x} layout size {size} align {align}, block was size {} align {}", g[1] & !QUIET_BIT, g[2]),
            None => writeln!(w, "VALLOC-ERROR: {what}: ptr {p:#x} layout size {size} align {align}, no such live block"),
        };
        300 - w.len()
    };
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        write(2, buf.as_ptr(), n);
        _exit(77)
    }
}
impl Shard {
    fn with<R>(&self, f: impl FnOnce(&mut *mut [usize; 3], &mut usize, &mut usize) -> R) -> R {
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = unsafe { f(&mut *self.tab.get(), &mut *self.cap.get(), &mut *self.used.get()) };
        self.lock.store(false, Ordering::Release);
        r
    }
    fn insert(&self, p: usize, size: usize, align: usize, quiet: usize) {
        self.with(|tab, cap, used| unsafe {
            if *cap == 0 || *used * 2 >= *cap {
                let live = (0..*cap).filter(|i| (*(*tab).add(*i))[0] > 1).count();
                let ncap = std::cmp::max(INIT_CAP, (live * 4).next_power_of_two());
                let nt = System.alloc_zeroed(Layout::array::<[usize; 3]>(ncap).unwrap()) as *mut [usize; 3];
                for i in 0..*cap {
                    let e = *(*tab).add(i);
                    if e[0] > 1 {
                        let mut j = hash(!e[0]) & (ncap - 1);
                        while (*nt.add(j))[0] != 0 {
                            j = (j + 1) & (ncap - 1);
                        }
                        *nt.add(j) = e;
                    }
                }
                if *cap != 0 {
                    System.dealloc(*tab as *mut u8, Layout::array::<[usize; 3]>(*cap).unwrap());
                }
                *tab = nt;
                *cap = ncap;
                *used = live;
            }
            let mut j = hash(p) & (*cap - 1);
            while (*(*tab).add(j))[0] > 1 {
                j = (j + 1) & (*cap - 1);
            }
            if (*(*tab).add(j))[0] == 0 {
                *used += 1;
            }
            *(*tab).add(j) = [!p, size | quiet, align];
        })
    }
    fn take(&self, p: usize) -> Option<[usize; 3]> {
        self.with(|tab, cap, _| unsafe {
            if *cap == 0 {
                return None;
            }
            let mut j = hash(p) & (*cap - 1);
            loop {
                let e = *(*tab).add(j);
                if e[0] == 0 {
                    return None;
                }
                if e[0] == !p {
                    (*(*tab).add(j))[0] = 1; // tombstone
                    return Some(e);
                }
                j = (j + 1) & (*cap - 1);
            }
        })
    }
}
fn shard(p: usize) -> &'static Shard {
    &TABLE[(p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 58]
}
pub struct VAlloc;
unsafe impl GlobalAlloc for VAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            ALLOCS.fetch_add(1, Ordering::Relaxed);
            let q = is_quiet();
            account(q, l.size() as i64);
            shard(p as usize).insert(p as usize, l.size(), l.align(), q);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let q = released(p, l, "release");
        account(q, -(l.size() as i64));
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = released(p, l, "resize");
        let q = System.realloc(p, l, n);
        if q.is_null() {
            shard(p as usize).insert(p as usize, l.size(), l.align(), m);
        } else {
            account(m, n as i64 - l.size() as i64);
            shard(q as usize).insert(q as usize, n, l.align(), m);
        }
        q
    }
}
fn released(p: *mut u8, l: Layout, what: &str) -> usize {
    match shard(p as usize).take(p as usize) {
        Some(e) if e[1] & !QUIET_BIT == l.size() && e[2] == l.align() => e[1] & QUIET_BIT,
        Some(e) => die(&format_args!("{what} with a wrong layout"), p as usize, l.size(), l.align(), Some(e)),
        None => die(&format_args!("{what} of a block that is not live"), p as usize, l.size(), l.align(), None),
    }
}
