//! Instrumented components: every instance is registered, so that double drops, leaks and reads of
//! garbage are seen; their callbacks can be made to panic.

use core::cell::UnsafeCell;

/// A failed expectation.
pub struct Fail(pub String);
/// The panic injected into a user callback.
pub struct Injected;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { std::panic::panic_any($crate::track::Fail($crate::alloc::quiet(|| format!($($a)*)))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}

pub const MAKE: u8 = 1;
pub const CLONE: u8 = 2;
pub const DROP: u8 = 4;
pub const DEFAULT: u8 = 8;
pub const NEXT: u8 = 16;
pub const ANY: u8 = 31;

#[derive(Default)]
pub struct Reg {
    dead: Vec<bool>,
    pub live: isize,
    pub zlive: isize,
    pub clones: u64,
    pub makes: u64,
    pub drops: u64,
    pub defaults: u64,
    pub nexts: u64,
    flag: Option<&'static str>,
    panic_in: u64,
    panic_mask: u8,
    pub panicked: bool,
    digest: u64,
    cases: u32,
}
struct Cell(UnsafeCell<Option<Reg>>);
// Workers are single-threaded.
unsafe impl Sync for Cell {}
static REG: Cell = Cell(UnsafeCell::new(None));

pub fn reg() -> &'static mut Reg {
    unsafe { (*REG.0.get()).get_or_insert_with(Reg::default) }
}

pub fn begin_case() {
    let r = reg();
    r.dead.clear();
    r.live = 0;
    r.zlive = 0;
    r.clones = 0;
    r.makes = 0;
    r.drops = 0;
    r.defaults = 0;
    r.nexts = 0;
    r.flag = None;
    r.panic_in = 0;
    r.panicked = false;
    r.digest = 0xcbf29ce484222325;
    // Values of the previous case must not look alive.
    r.cases = r.cases.wrapping_add(1);
}

/// Makes the `n`-th callback (of the kinds in `mask`) from now panic.
pub fn arm(n: u64, mask: u8) {
    let r = reg();
    r.panic_in = n;
    r.panic_mask = mask;
    r.panicked = false;
}
/// Whether the injected panic happened.
pub fn disarm() -> bool {
    let r = reg();
    r.panic_in = 0;
    r.panicked
}

pub fn tick(kind: u8) {
    let r = reg();
    match kind {
        MAKE => r.makes += 1,
        CLONE => r.clones += 1,
        DROP => r.drops += 1,
        DEFAULT => r.defaults += 1,
        _ => r.nexts += 1,
    }
    if r.panic_in > 0 && r.panic_mask & kind != 0 {
        r.panic_in -= 1;
        if r.panic_in == 0 && !std::thread::panicking() {
            r.panicked = true;
            std::panic::panic_any(Injected);
        }
    }
}

pub fn set_flag(m: &'static str) {
    let r = reg();
    if r.flag.is_none() {
        r.flag = Some(m);
    }
}
pub fn take_flag() -> Option<&'static str> {
    reg().flag.take()
}

/// Adds to the digest of everything the case observed.
pub fn obs(x: u64) {
    let r = reg();
    r.digest = (r.digest ^ crate::src::mix(x)).wrapping_mul(0x100000001b3).rotate_left(17);
}
pub fn digest() -> u64 {
    reg().digest
}

static mut TRACE: bool = false;
/// Print every step at once, for cases that crash.
pub fn set_trace() {
    unsafe { TRACE = true }
}
pub fn trace(m: &str) {
    if unsafe { TRACE } {
        use std::io::Write;
        let _ = std::io::stderr().write_all(format!("@ {m}\n").as_bytes());
    }
}

const MAGIC: u32 = 0x7ac3_ed01;

fn register() -> u32 {
    let r = reg();
    r.live += 1;
    crate::alloc::quiet(|| r.dead.push(false));
    (r.dead.len() - 1) as u32 | 0x4000_0000
}

/// A registered value.
#[repr(C)]
pub struct Tr {
    magic: u32,
    id: u32,
    val: u64,
}
impl Tr {
    fn state(&self) -> Option<&'static mut bool> {
        if self.magic != MAGIC ^ reg().cases || self.id & 0x4000_0000 == 0 {
            return None;
        }
        reg().dead.get_mut((self.id & !0x4000_0000) as usize)
    }
    pub fn new(val: u64) -> Self {
        tick(MAKE);
        Tr { magic: MAGIC ^ reg().cases, id: register(), val }
    }
    pub fn get(&self) -> u64 {
        match self.state() {
            None => set_flag("a component was read that never existed"),
            Some(true) => set_flag("a component was read after it was dropped"),
            Some(false) => {}
        }
        self.val
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        let val = self.get();
        tick(CLONE);
        Tr { magic: MAGIC ^ reg().cases, id: register(), val }
    }
}
impl Default for Tr {
    fn default() -> Self {
        tick(DEFAULT);
        Tr { magic: MAGIC ^ reg().cases, id: register(), val: 0 }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        match self.state() {
            None => set_flag("a component was dropped that never existed"),
            Some(true) => set_flag("a component was dropped twice"),
            Some(d) => {
                *d = true;
                reg().live -= 1;
            }
        }
        tick(DROP);
    }
}

/// A registered value without size.
pub struct TrZ(());
impl TrZ {
    pub fn new() -> Self {
        tick(MAKE);
        reg().zlive += 1;
        TrZ(())
    }
}
impl Clone for TrZ {
    fn clone(&self) -> Self {
        tick(CLONE);
        reg().zlive += 1;
        TrZ(())
    }
}
impl Default for TrZ {
    fn default() -> Self {
        tick(DEFAULT);
        reg().zlive += 1;
        TrZ(())
    }
}
impl Drop for TrZ {
    fn drop(&mut self) {
        reg().zlive -= 1;
        if reg().zlive < 0 {
            set_flag("a zero-sized component was dropped twice");
        }
        tick(DROP);
    }
}
