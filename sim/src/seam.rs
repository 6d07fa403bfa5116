//! Seams the simulator owns for code that runs inside its own process.
//!
//! * `getrandom(2)`: std's documented interposition point. It is the only
//!   source of nondeterminism of the library: it keys every HashMap/HashSet and
//!   so decides the order in which every worklist, constraint, hole and
//!   candidate segment is taken. One (k0, k1) key is one schedule.
//! * the allocator: counts allocations, which is the simulated clock, and live
//!   bytes. Liveness is "finishes within B ticks and M bytes"; a run that
//!   exceeds either leaves at once with a verdict, never by a wall-clock timeout.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

static KEY0: AtomicU64 = AtomicU64::new(0);
static KEY1: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);

/// Next schedule key; takes effect for the next simulated thread.
pub fn set_key(key: (u64, u64)) {
    KEY0.store(key.0, Relaxed);
    KEY1.store(key.1, Relaxed);
    DRAWS.store(0, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: libc::c_uint) -> isize {
    let d = DRAWS.fetch_add(1, Relaxed);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let (k0, k1) = (KEY0.load(Relaxed), KEY1.load(Relaxed));
    if d == 0 && len == 16 {
        out[..8].copy_from_slice(&k0.to_ne_bytes());
        out[8..].copy_from_slice(&k1.to_ne_bytes());
        return 16;
    }
    let mut s = k0 ^ k1.rotate_left(17) ^ d.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for b in out.iter_mut() {
        *b = crate::rng::splitmix(&mut s) as u8;
    }
    len as isize
}

pub struct Ticker;
static IN_LIB: AtomicBool = AtomicBool::new(false);
static TICKS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicI64 = AtomicI64::new(0);
static MEM: AtomicI64 = AtomicI64::new(i64::MAX);

/// exit codes of a simulated process that was ended by the seam
pub const OUT_OF_TICKS: i32 = 42;
pub const OUT_OF_MEMORY: i32 = 43;

/// Budget for everything the code under test does in this process.
pub fn arm(ticks: u64, bytes: i64) {
    TICKS.store(0, Relaxed);
    LIMIT.store(ticks, Relaxed);
    MEM.store(LIVE.load(Relaxed) + bytes, Relaxed);
}
pub fn ticks() -> u64 {
    TICKS.load(Relaxed)
}
static SHARED: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
/// a byte the parent process can read after this one died
pub fn share(p: *mut u8) {
    SHARED.store(p, Relaxed);
}
fn set(on: bool) {
    IN_LIB.store(on, Relaxed);
    let p = SHARED.load(Relaxed);
    if !p.is_null() {
        unsafe { *p = on as u8 };
    }
}
/// the code under test runs from here ...
pub fn enter() {
    set(true);
}
/// ... to here
pub fn leave() {
    set(false);
}
pub fn in_lib() -> bool {
    IN_LIB.load(Relaxed)
}

#[inline]
fn tick(size: usize) {
    let live = LIVE.fetch_add(size as i64, Relaxed);
    if IN_LIB.load(Relaxed) {
        let t = TICKS.fetch_add(1, Relaxed);
        if t >= LIMIT.load(Relaxed) {
            unsafe { libc::_exit(OUT_OF_TICKS) }
        }
        if live > MEM.load(Relaxed) {
            unsafe { libc::_exit(OUT_OF_MEMORY) }
        }
    }
}

unsafe impl GlobalAlloc for Ticker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        tick(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Ticker = Ticker;
