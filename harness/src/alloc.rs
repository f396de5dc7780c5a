//! A checking global allocator: red zones, exact layout checks, poisoned quarantine, configurable
//! contents of fresh memory, always-moving realloc, counters, leak accounting, failure injection.

use core::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Checking;

static FILL: AtomicU32 = AtomicU32::new(0xA5);
static TRACK: AtomicBool = AtomicBool::new(false);
static EPOCH: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static N_ALLOC: AtomicU64 = AtomicU64::new(0);
static N_REALLOC: AtomicU64 = AtomicU64::new(0);
static N_FREE: AtomicU64 = AtomicU64::new(0);
static LAST_SIZE: AtomicUsize = AtomicUsize::new(0);
static LAST_ALIGN: AtomicUsize = AtomicUsize::new(0);
static MAX_REQ: AtomicUsize = AtomicUsize::new(0);
static FAIL_IN: AtomicU64 = AtomicU64::new(0); // 0: never; n: the n-th request from now fails
static FAIL_TIMES: AtomicU64 = AtomicU64::new(0); // how many more requests fail from then on
static FAILED: AtomicU64 = AtomicU64::new(0);
static FLAG: AtomicUsize = AtomicUsize::new(0);

const MSGS: [&str; 9] = [
    "",
    "allocation of zero bytes requested",
    "deallocation with a size other than the allocation's",
    "deallocation with an alignment other than the allocation's",
    "block freed twice",
    "pointer freed that is not an allocated block",
    "bytes before an allocated block were overwritten",
    "bytes after an allocated block were overwritten",
    "freed memory was written to",
];

#[allow(dead_code)]
fn flag(n: usize) {
    let _ = FLAG.compare_exchange(0, n, Relaxed, Relaxed);
}

/// Takes the first memory error recorded since the last call.
pub fn take_flag() -> Option<&'static str> {
    match FLAG.swap(0, Relaxed) {
        0 => None,
        n => Some(MSGS[n]),
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
}

pub fn counts() -> Counts {
    Counts { allocs: N_ALLOC.load(Relaxed), reallocs: N_REALLOC.load(Relaxed), frees: N_FREE.load(Relaxed) }
}
impl Counts {
    pub fn since(self, b: Counts) -> Counts {
        Counts {
            allocs: self.allocs - b.allocs,
            reallocs: self.reallocs - b.reallocs,
            frees: self.frees - b.frees,
        }
    }
}
/// Size and alignment of the last allocation or reallocation request.
pub fn last_request() -> (usize, usize) {
    (LAST_SIZE.load(Relaxed), LAST_ALIGN.load(Relaxed))
}
pub fn set_fill(b: u8) {
    FILL.store(b as u32, Relaxed);
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn live_bytes() -> usize {
    LIVE_BYTES.load(Relaxed)
}
pub fn begin_case() {
    EPOCH.fetch_add(1, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    FLAG.store(0, Relaxed);
    FAIL_IN.store(0, Relaxed);
    MAX_REQ.store(0, Relaxed);
    TRACK.store(true, Relaxed);
}
pub fn end_case() {
    TRACK.store(false, Relaxed);
    FAIL_IN.store(0, Relaxed);
}
/// Runs harness bookkeeping whose allocations do not belong to the case.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let t = TRACK.swap(false, Relaxed);
    let r = f();
    TRACK.store(t, Relaxed);
    r
}
/// The `n`-th allocation request from now fails, and with it `times` requests in a row (or those until `disarm`).
/// Panics allocate too, so with many the process ends instead of unwinding.
pub fn arm_failure(n: u64, times: u64) {
    FAILED.store(0, Relaxed);
    FAIL_TIMES.store(times, Relaxed);
    FAIL_IN.store(n, Relaxed);
}
pub fn disarm_failure() -> u64 {
    FAIL_IN.store(0, Relaxed);
    FAILED.load(Relaxed)
}

fn injected(size: usize) -> bool {
    // Nothing that is generated needs blocks this large, except to see a refusal.
    if size > 1 << 31 {
        return true;
    }
    let n = FAIL_IN.load(Relaxed);
    if n == 0 || !TRACK.load(Relaxed) {
        return false;
    }
    if n == 1 {
        FAILED.fetch_add(1, Relaxed);
        let t = FAIL_TIMES.load(Relaxed) - 1;
        FAIL_TIMES.store(t, Relaxed);
        if t == 0 {
            FAIL_IN.store(0, Relaxed);
        }
        true
    } else {
        FAIL_IN.store(n - 1, Relaxed);
        false
    }
}

/// Counts an operation, unless it is the harness's own.
fn count(n: &AtomicU64) {
    if TRACK.load(Relaxed) {
        n.fetch_add(1, Relaxed);
    }
}
fn note(size: usize, align: usize) {
    if !TRACK.load(Relaxed) {
        return;
    }
    LAST_SIZE.store(size, Relaxed);
    LAST_ALIGN.store(align, Relaxed);
}

#[cfg(not(any(miri, feature = "plain-alloc")))]
mod imp {
    use super::*;

    const MAGIC: u64 = 0x5ca1ab1e_0ddba115;
    const FREED: u64 = 0xdeadbeef_00c0ffee;
    const CANARY: u8 = 0x6B;
    const POISON: u8 = 0xDB;
    const FRONT: usize = 16;
    const BACK: usize = 32;
    const QLEN: usize = 512;
    const QMAX: usize = 1 << 14;

    #[derive(Clone, Copy)]
    #[repr(C)]
    struct H {
        magic: u64,
        size: usize,
        align: usize,
        epoch: u64,
    }
    const HS: usize = core::mem::size_of::<H>();

    #[derive(Clone, Copy)]
    struct Q {
        user: *mut u8,
    }
    struct Ring {
        q: [Q; QLEN],
        at: usize,
    }
    struct Cell(core::cell::UnsafeCell<Ring>);
    // Workers are single-threaded.
    unsafe impl Sync for Cell {}
    static RING: Cell = Cell(core::cell::UnsafeCell::new(Ring { q: [Q { user: core::ptr::null_mut() }; QLEN], at: 0 }));

    // Blocks are aligned to exactly the requested alignment, never to more.
    fn pre(align: usize) -> usize {
        core::cmp::max(2 * align, 64) + align
    }
    unsafe fn base_layout(size: usize, align: usize) -> Layout {
        Layout::from_size_align_unchecked(pre(align) + size + BACK, 2 * core::cmp::max(align, 16))
    }
    unsafe fn header(user: *mut u8) -> H {
        (user.sub(FRONT + HS) as *const H).read_unaligned()
    }
    unsafe fn set_header(user: *mut u8, h: H) {
        (user.sub(FRONT + HS) as *mut H).write_unaligned(h)
    }
    unsafe fn all_eq(p: *const u8, n: usize, b: u8) -> bool {
        for i in 0..n {
            if *p.add(i) != b {
                return false;
            }
        }
        true
    }
    unsafe fn really_free(user: *mut u8) {
        let h = header(user);
        let (size, align) = (h.size, h.align);
        let n = core::cmp::min(size, 4096);
        if !all_eq(user, n, POISON)
            || !all_eq(user.add(size - n), n, POISON)
            || !all_eq(user.sub(FRONT), FRONT, POISON)
            || !all_eq(user.add(size), BACK, POISON)
            || h.magic != FREED
        {
            flag(8);
        }
        System.dealloc(user.sub(pre(align)), base_layout(size, align));
    }

    /// Empties the quarantine, checking that nobody wrote to freed blocks.
    pub fn flush() {
        unsafe {
            let r = &mut *RING.0.get();
            for q in r.q.iter_mut() {
                if !q.user.is_null() {
                    really_free(q.user);
                    q.user = core::ptr::null_mut();
                }
            }
        }
    }
    /// Checks the red zones of a live block (used on blocks whose address the case knows).
    unsafe fn check_zones(user: *mut u8, size: usize) {
        if !all_eq(user.sub(FRONT), FRONT, CANARY) {
            flag(6);
        }
        if !all_eq(user.add(size), BACK, CANARY) {
            flag(7);
        }
    }

    unsafe fn do_alloc(size: usize, align: usize) -> *mut u8 {
        let base = System.alloc(base_layout(size, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(pre(align));
        let track = TRACK.load(Relaxed);
        set_header(user, H { magic: MAGIC, size, align, epoch: if track { EPOCH.load(Relaxed) as u64 } else { 0 } });
        core::ptr::write_bytes(user.sub(FRONT), CANARY, FRONT);
        core::ptr::write_bytes(user.add(size), CANARY, BACK);
        core::ptr::write_bytes(user, FILL.load(Relaxed) as u8, size);
        if track {
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(size, Relaxed);
        }
        user
    }

    unsafe fn do_free(user: *mut u8, size: usize, align: usize) {
        // Reading in front of a wild pointer may crash; the driver attributes that to the case.
        if (user as usize) < 4096 {
            flag(5);
            return;
        }
        let mut h = header(user);
        if h.magic == FREED {
            flag(4);
            return;
        }
        if h.magic != MAGIC {
            flag(5);
            return;
        }
        let (hs, ha) = (h.size, h.align);
        if hs != size {
            flag(2);
        } else if ha != align {
            flag(3);
        }
        check_zones(user, hs);
        if h.epoch != 0 && h.epoch == EPOCH.load(Relaxed) as u64 {
            LIVE.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(hs, Relaxed);
        }
        h.magic = FREED;
        set_header(user, h);
        core::ptr::write_bytes(user.sub(FRONT), POISON, FRONT);
        core::ptr::write_bytes(user, POISON, hs + BACK);
        if hs > QMAX {
            System.dealloc(user.sub(pre(ha)), base_layout(hs, ha));
            return;
        }
        let r = &mut *RING.0.get();
        let at = r.at;
        r.at = (at + 1) % QLEN;
        if !r.q[at].user.is_null() {
            really_free(r.q[at].user);
        }
        r.q[at] = Q { user };
    }

    unsafe impl GlobalAlloc for Checking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() == 0 {
                flag(1);
            }
            count(&N_ALLOC);
            note(l.size(), l.align());
            if injected(l.size()) {
                return core::ptr::null_mut();
            }
            do_alloc(l.size(), l.align())
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = self.alloc(l);
            if !p.is_null() {
                core::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            count(&N_FREE);
            do_free(p, l.size(), l.align());
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            if new == 0 {
                flag(1);
            }
            count(&N_REALLOC);
            note(new, l.align());
            if injected(new) {
                return core::ptr::null_mut();
            }
            let q = do_alloc(new, l.align());
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, core::cmp::min(l.size(), new));
                do_free(p, l.size(), l.align());
            }
            q
        }
    }
}

#[cfg(any(miri, feature = "plain-alloc"))]
mod imp {
    use super::*;
    pub fn flush() {}
    unsafe impl GlobalAlloc for Checking {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            count(&N_ALLOC);
            note(l.size(), l.align());
            if injected(l.size()) {
                return core::ptr::null_mut();
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            count(&N_FREE);
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            count(&N_REALLOC);
            note(new, l.align());
            if injected(new) {
                return core::ptr::null_mut();
            }
            System.realloc(p, l, new)
        }
    }
}

pub use imp::flush;
