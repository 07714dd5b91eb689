//! What code under test could learn from its process: clock, randomness and
//! environment, decided by the run. Outside a run everything is real.
use simcore::{choose, mix};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

static SEED: AtomicU64 = AtomicU64::new(0);
static READS: AtomicI64 = AtomicI64::new(0);
/// what passes between two readings: (monotonic, wall clock) in nanoseconds
static STEP: [AtomicI64; 2] = [const { AtomicI64::new(1000) }; 2];
const HOUR: i64 = 3_600_000_000_000;

pub fn start_run() {
    let (m, w) = [(1000, 1000), (0, 0), (HOUR, HOUR), (1_000_000, -24 * HOUR), (200_000_000, 200_000_000)][choose("clock", 5) as usize];
    STEP[0].store(m, Relaxed);
    STEP[1].store(w, Relaxed);
    READS.store(0, Relaxed);
    SEED.store(u64::from(choose("process", 6)), Relaxed);
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
extern "C" {
    fn __errno_location() -> *mut i32;
    static environ: *const *const u8;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    if !simcore::in_sim() {
        return raw(228, i64::from(c), t as i64, 0) as i32;
    }
    let wall = c == 0 || c == 5 || c == 11;
    let k = READS.fetch_add(1, Relaxed);
    let ns = if wall { 1_700_000_000_000_000_000 } else { 90 * HOUR } + k * STEP[usize::from(wall)].load(Relaxed);
    *t = [ns.div_euclid(1_000_000_000), ns.rem_euclid(1_000_000_000)];
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if !simcore::in_sim() {
        return raw(318, buf as i64, n as i64, i64::from(flags)) as isize;
    }
    let mut s = mix(SEED.load(Relaxed), n as u64);
    for i in 0..n {
        s = mix(s, 0x5eed);
        *buf.add(i) = (s >> 17) as u8;
    }
    n as isize
}
/// Variables of std and of the simulation are real, all others are drawn.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let len = (0..).take_while(|i| *name.add(*i) != 0).count();
    let key = std::slice::from_raw_parts(name, len);
    let seed = SEED.load(Relaxed);
    let real = key.starts_with(b"RUST_") || key.starts_with(b"SIM_");
    if !real && seed > 0 && simcore::in_sim() {
        let h = key.iter().fold(seed, |h, b| mix(h, u64::from(*b)));
        return match h % 5 {
            0 | 1 => std::ptr::null(),
            2 => c"1".as_ptr().cast(),
            3 => c"0".as_ptr().cast(),
            _ => c"/some/other/place".as_ptr().cast(),
        };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if (0..len).all(|i| *e.add(i) == key[i] && *e.add(i) != 0) && *e.add(len) == b'=' {
            return e.add(len + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}
