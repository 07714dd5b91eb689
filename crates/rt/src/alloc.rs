//! Global allocator seam.  While a window is armed on a thread, allocations
//! made by anything but the harness are counted, or refused.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Off,
    Count,
    /// every allocation fails
    Deny,
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static SUSP: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn note() -> bool {
    if SUSP.try_with(Cell::get).unwrap_or(1) > 0 {
        return true;
    }
    match MODE.try_with(Cell::get).unwrap_or(Mode::Off) {
        Mode::Off => true,
        Mode::Count => {
            COUNT.with(|c| c.set(c.get() + 1));
            true
        }
        Mode::Deny => {
            COUNT.with(|c| c.set(c.get() + 1));
            false
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if note() {
            System.alloc(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if note() {
            System.alloc_zeroed(l)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if note() {
            System.realloc(p, l, n)
        } else {
            std::ptr::null_mut()
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Harness code running inside an armed window.
pub struct Suspend;
impl Suspend {
    pub fn new() -> Self {
        SUSP.with(|s| s.set(s.get() + 1));
        Suspend
    }
}
impl Drop for Suspend {
    fn drop(&mut self) {
        SUSP.with(|s| s.set(s.get() - 1));
    }
}

/// Arm the current thread until `disarm`.
pub fn arm(m: Mode) {
    COUNT.with(|c| c.set(0));
    MODE.with(|c| c.set(m));
}
/// Number of allocations (or refusals) seen since `arm`.
pub fn disarm() -> u64 {
    MODE.with(|c| c.set(Mode::Off));
    COUNT.with(Cell::get)
}
