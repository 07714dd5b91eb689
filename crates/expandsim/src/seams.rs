//! Everything the macro code could learn from its process, decided by the run:
//! hash seeds, clock, process id, environment, memory addresses, allocation
//! failure, and when another thread gets to run.
use simcore::{choose, mix, yield_point};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

thread_local! {
    /// executing the code under test (and not the simulator)
    static IN_CODE: Cell<bool> = const { Cell::new(false) };
    static NEXT_YIELD: Cell<u64> = const { Cell::new(u64::MAX) };
    static NEXT_FAIL: Cell<u64> = const { Cell::new(u64::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static SEEDS: Cell<u64> = const { Cell::new(0) };
}
/// per run
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static ENV_SEED: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
static PREEMPT: AtomicBool = AtomicBool::new(false);
static LAYOUT: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);
pub static USED: [AtomicU64; 6] = [const { AtomicU64::new(0) }; 6];
pub const RANDOM: usize = 0;
pub const ENV: usize = 1;
pub const TIME: usize = 2;
pub const FUTEX: usize = 3;
pub const SWITCH: usize = 4;
pub const OOM: usize = 5;

pub fn start_run(hash: u64, env: u64, clock: u64, layout: u64, preempt: bool) {
    HASH_SEED.store(hash, Ordering::Relaxed);
    ENV_SEED.store(env, Ordering::Relaxed);
    CLOCK.store(clock, Ordering::Relaxed);
    LAYOUT.store(layout, Ordering::Relaxed);
    PREEMPT.store(preempt, Ordering::Relaxed);
    THREADS.store(0, Ordering::Relaxed);
    for u in &USED {
        u.store(0, Ordering::Relaxed);
    }
    arena_rewind();
}
/// Called first thing on every simulated thread.
pub fn start_thread() {
    let k = THREADS.fetch_add(1, Ordering::Relaxed);
    SEEDS.with(|s| s.set(mix(HASH_SEED.load(Ordering::Relaxed), k)));
}

const GAPS: [u64; 8] = [100_000, 1, 5, 20, 80, 300, 1000, 4000];
fn plan_yield() {
    let gap = if PREEMPT.load(Ordering::Relaxed) { GAPS[choose("run-for", 8) as usize] } else { u64::MAX / 2 };
    NEXT_YIELD.with(|n| n.set(ALLOCS.with(Cell::get) + gap));
}

pub struct Oom;

/// Run code under test. `fail_at`: which allocation is refused.
pub fn enter<R>(fail_at: Option<u64>, f: impl FnOnce() -> R) -> (std::thread::Result<R>, u64) {
    ALLOCS.with(|a| a.set(0));
    if simcore::in_sim() {
        plan_yield();
    } else {
        NEXT_YIELD.with(|n| n.set(u64::MAX));
    }
    NEXT_FAIL.with(|n| n.set(fail_at.unwrap_or(u64::MAX)));
    IN_CODE.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CODE.with(|c| c.set(false));
    NEXT_FAIL.with(|n| n.set(u64::MAX));
    (r, ALLOCS.with(Cell::get))
}
fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_CODE.with(|c| c.replace(false));
    let r = f();
    IN_CODE.with(|c| c.set(was));
    r
}
fn in_code() -> bool {
    IN_CODE.try_with(Cell::get).unwrap_or(false)
}
fn used(k: usize) {
    USED[k].fetch_add(1, Ordering::Relaxed);
}

// ------------------------------------------------------------------ memory
const BASE: usize = 0x5000_0000_0000;
const HALF: usize = 8 << 30;
struct Arena {
    low: Cell<usize>,
    high: Cell<usize>,
    rng: Cell<u64>,
    layout: Cell<u64>,
    free: [Cell<*mut u8>; CLASSES],
}
const CLASSES: usize = 64 + 40;
/// size class and the size really taken
fn class(l: Layout) -> (usize, usize) {
    let n = l.size().max(l.align()).max(16);
    if n <= 1024 {
        (n.div_ceil(16) - 1, n.div_ceil(16) * 16)
    } else {
        let p = n.next_power_of_two();
        (64 + p.trailing_zeros() as usize - 11, p)
    }
}
struct Shared(UnsafeCell<Arena>);
// one task runs at a time
unsafe impl Sync for Shared {}
static ARENA: Shared = Shared(UnsafeCell::new(Arena { low: Cell::new(0), high: Cell::new(0), rng: Cell::new(0), layout: Cell::new(0), free: [const { Cell::new(std::ptr::null_mut()) }; CLASSES] }));
/// Only needed while an abandoned run is torn down on several threads at once.
static BUSY: AtomicBool = AtomicBool::new(false);
struct Busy;
impl Busy {
    fn new() -> Busy {
        while BUSY.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.store(false, Ordering::Release);
    }
}
static LIVE: AtomicUsize = AtomicUsize::new(0);
static MAPPED: AtomicBool = AtomicBool::new(false);
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub fn map_arena() {
    const PROT: i32 = 3;
    const FLAGS: i32 = 0x2 | 0x20 | 0x4000 | 0x10_0000; // private, anonymous, noreserve, fixed-noreplace
    let p = unsafe { mmap(BASE as *mut u8, 2 * HALF, PROT, FLAGS, -1, 0) };
    assert!(p as usize == BASE, "arena");
    MAPPED.store(true, Ordering::Relaxed);
    arena_rewind();
}
fn arena_rewind() {
    let a = unsafe { &*ARENA.0.get() };
    if LIVE.load(Ordering::Relaxed) == 0 || a.low.get() == 0 {
        a.low.set(BASE + 64);
        a.high.set(BASE + 2 * HALF);
        for f in &a.free {
            f.set(std::ptr::null_mut());
        }
    }
    let l = LAYOUT.load(Ordering::Relaxed);
    a.layout.set(l);
    a.rng.set(l);
}
fn arena_alloc(l: Layout) -> *mut u8 {
    let _b = Busy::new();
    let a = unsafe { &*ARENA.0.get() };
    let mut r = a.rng.get();
    r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    a.rng.set(r);
    let layout = a.layout.get();
    let (down, gap) = match layout {
        0 => (false, 0),
        n if n % 3 == 1 => (true, 0),
        _ => ((r >> 33) & 1 == 1, ((r >> 40) & 0xf) as usize * 16),
    };
    let (c, size) = class(l);
    let old = a.free[c].get();
    if !old.is_null() && (old as usize) % l.align() == 0 {
        a.free[c].set(unsafe { *old.cast::<*mut u8>() });
        LIVE.fetch_add(1, Ordering::Relaxed);
        return old;
    }
    let align = l.align().max(16);
    let p = if down {
        let p = (a.high.get() - size - gap) & !(align - 1);
        a.high.set(p);
        p
    } else {
        let p = (a.low.get() + gap + align - 1) & !(align - 1);
        a.low.set(p + size);
        p
    };
    if a.low.get() + 4096 > BASE + HALF || a.high.get() < BASE + HALF + 4096 {
        return std::ptr::null_mut();
    }
    LIVE.fetch_add(1, Ordering::Relaxed);
    p as *mut u8
}
fn is_arena(p: *mut u8) -> bool {
    (BASE..BASE + 2 * HALF).contains(&(p as usize))
}

pub struct SimAlloc;
/// true: refuse
fn at_alloc() -> bool {
    let n = ALLOCS.with(|a| {
        a.set(a.get() + 1);
        a.get()
    });
    if n >= NEXT_YIELD.with(Cell::get) {
        NEXT_YIELD.with(|x| x.set(u64::MAX));
        outside(|| {
            used(SWITCH);
            yield_point("alloc");
            plan_yield();
        });
    }
    if n == NEXT_FAIL.with(Cell::get) {
        used(OOM);
        return true;
    }
    false
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !in_code() {
            return System.alloc(l);
        }
        if at_alloc() {
            return std::ptr::null_mut();
        }
        if MAPPED.load(Ordering::Relaxed) {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_arena(p) {
            let _b = Busy::new();
            LIVE.fetch_sub(1, Ordering::Relaxed);
            let a = &*ARENA.0.get();
            let f = &a.free[class(l).0];
            *p.cast::<*mut u8>() = f.get();
            f.set(p);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_code() && !is_arena(p) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

// ------------------------------------------------------------ system calls
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        let s = SEEDS.with(|s| {
            s.set(mix(s.get(), 0x5eed));
            s.get()
        });
        *buf.add(i) = (s >> 17) as u8;
    }
    if in_code() {
        used(RANDOM);
    }
    n as isize
}
extern "C" {
    fn __errno_location() -> *mut i32;
    static environ: *const *const u8;
}
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
/// std's locks wait through this.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    const FUTEX_CALL: i64 = 202;
    const GETRANDOM: i64 = 318;
    if n == FUTEX_CALL && in_code() && matches!(b & 0x7f, 0 | 9) {
        outside(|| {
            used(FUTEX);
            simcore::yield_to_other();
        });
        return 0;
    }
    if n == GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    raw(n, a, b, c, d, e, f)
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let len = (0..).take_while(|i| *name.add(*i) != 0).count();
    let key = std::slice::from_raw_parts(name, len);
    if in_code() {
        used(ENV);
        let h = key.iter().fold(ENV_SEED.load(Ordering::Relaxed), |h, b| mix(h, u64::from(*b)));
        return match h % 18 {
            0..=7 => std::ptr::null(),
            8..=10 => c"1".as_ptr().cast(),
            11 => c"/some/other/place".as_ptr().cast(),
            12 => c"0".as_ptr().cast(),
            13 => c"".as_ptr().cast(),
            14 => c"true".as_ptr().cast(),
            15 => c"release".as_ptr().cast(),
            16 => c"debug".as_ptr().cast(),
            _ => c"full".as_ptr().cast(),
        };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if (0..len).all(|i| *e.add(i) == key[i] && *e.add(i) != 0) && *e.add(len) == b'=' {
            return e.add(len + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    if in_code() {
        used(TIME);
        let k = CLOCK.fetch_add(12_345_678, Ordering::Relaxed);
        *t = [1_600_000_000 + (k / 1_000_000_000) as i64, (k % 1_000_000_000) as i64];
        return 0;
    }
    raw(228, i64::from(c), t as i64, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    if in_code() {
        return 2 + (HASH_SEED.load(Ordering::Relaxed) % 30_000) as i32;
    }
    unsafe { raw(39, 0, 0, 0, 0, 0, 0) as i32 }
}
