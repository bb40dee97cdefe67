//! What the operating system would decide: entropy, clocks; and the reach measure.
use crate::rng::splitmix;
use std::sync::atomic::{AtomicU64, Ordering};

const COV_MAX: usize = 1 << 18;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                NGUARDS += 1;
                *p = NGUARDS;
            }
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        if !COV.is_null() {
            *COV.add(*g as usize & (COV_MAX - 1)) = 1;
        }
        WORK += 1;
        if WORK > LIMIT {
            overrun();
        }
    }
}

/// Work of the frame being made, in executed control-flow edges. Only the thread that runs the
/// application executes instrumented code.
static mut WORK: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut ON_OVERRUN: Option<fn() -> !> = None;

#[cold]
fn overrun() {
    unsafe {
        LIMIT = u64::MAX;
        if let Some(f) = ON_OVERRUN {
            f()
        }
    }
}

/// Start counting a frame's work; `f` takes over when it exceeds `limit`.
pub fn start_work(limit: u64, f: fn() -> !) {
    unsafe {
        WORK = 0;
        LIMIT = limit;
        ON_OVERRUN = Some(f);
    }
}

pub fn work() -> u64 {
    unsafe { WORK }
}

pub fn edges() -> (u64, u64) {
    unsafe {
        if COV.is_null() {
            return (0, 0);
        }
        let m = std::slice::from_raw_parts(COV, COV_MAX);
        (m.iter().filter(|x| **x != 0).count() as u64, NGUARDS as u64)
    }
}

pub static ENTROPY: AtomicU64 = AtomicU64::new(0x1234_5678_9ABC_DEF0);
static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static SIM: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _fl: u32) -> isize {
    let mut x = ENTROPY.load(Ordering::Relaxed);
    for i in 0..len {
        unsafe { *buf.add(i) = (splitmix(&mut x) >> 24) as u8 };
    }
    len as isize
}

/// Inside a simulated run nobody sees the machine's clock.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    unsafe {
        if SIM.load(Ordering::Relaxed) != 0 {
            let t = CLOCK.fetch_add(1000, Ordering::Relaxed);
            (*ts).tv_sec = 1_700_000_000 + (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
            return 0;
        }
        real_gettime(id, ts)
    }
}

unsafe fn real_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") libc::SYS_clock_gettime => r,
            in("rdi") id as i64, in("rsi") ts as i64, out("rcx") _, out("r11") _);
    }
    if r < 0 { -1 } else { 0 }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), COV_MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
    }
}
