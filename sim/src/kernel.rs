//! The simulator kernel: simulated allocator, simulated clock and entropy, baton scheduler over
//! real threads, step accounting, and forked children so that every run starts pristine.
#![allow(static_mut_refs)]
use crate::rng::{Rng, mix, splitmix};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

// ------------------------------------------------------------------ per-thread state

pub struct Client {
    pub id: usize,
    pub uid: u32,       // uid of the operation in progress
    pub step: u64,      // edges + allocations + storage accesses + callbacks in this operation
    pub edges: u64,     // control-flow edges only
    pub allocs: u32,    // allocations made by this operation
    pub next_switch: u64, // step at which to hand over (u64::MAX: never)
    pub fail_alloc: u32,  // fail the n-th allocation of this operation (0: none)
    pub fail_sticky: bool, // .. and every later one of the operation
    pub fired: bool,      // an injected allocation failure happened
    pub budget: u64,
    pub hash_seed: u64,
}

thread_local! {
    static CUR: Cell<*mut Client> = const { Cell::new(std::ptr::null_mut()) };
    static SUT: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sut() -> bool {
    SUT.get()
}

/// Leave the code under test for the duration of `f` (harness work done inside a callback).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = SUT.replace(false);
    let r = f();
    SUT.set(was);
    r
}

pub fn cur() -> Option<&'static mut Client> {
    let p = CUR.get();
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}

// ------------------------------------------------------------------ simulated memory

pub const ARENA_BASE: usize = 0x1000_0000_0000;
const ARENA_SIZE: usize = 1 << 34;
const ARENA_CAP: usize = 256 << 20; // bytes a run may hold; more is reported as runaway growth
const REC_BASE: usize = 0x1800_0000_0000;
const MAX_REC: usize = 1 << 22;
const MAGIC: u64 = 0x51DE_CAFE_F00D_0001;
const HDR: usize = 32;
const CANARY: usize = 16;
const CANARY_BYTE: u8 = 0xC7;
const FREED_BYTE: u8 = 0xDB;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub enum FreeMode {
    #[default]
    Quarantine,
    Lifo,
    Fifo,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct MemKnobs {
    pub base_off: u64,  // where in the address space the run's heap starts
    pub pad_max: u32,   // random gap between blocks, bytes
    pub fill: u8,       // what fresh memory contains
    pub free: FreeMode,
    pub layout_seed: u64,
    pub hash_seed: u64, // per-thread hash keys derive from it
    pub clock_base: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rec {
    pub user: usize,
    pub size: usize,
    pub align: u32,
    pub state: u32, // 1 live, 2 freed
    pub uid: u32,
    pub client: u32,
    pub seq: u64,
    pub next_free: u32,
    pub cap: u32, // reusable capacity class
}

struct Arena {
    mapped: bool,
    top: usize,
    nrec: usize,
    live_bytes: usize,
    live: usize,
    seq: u64,
    total: u64,
    freed: u64,
    reused: u64,
    knobs: MemKnobs,
    rng: u64,
    head: [u32; 512],
    tail: [u32; 512],
}

static mut ARENA: Arena = Arena {
    mapped: false,
    top: 0,
    nrec: 0,
    live_bytes: 0,
    live: 0,
    seq: 0,
    total: 0,
    freed: 0,
    reused: 0,
    knobs: MemKnobs {
        base_off: 0,
        pad_max: 0,
        fill: 0,
        free: FreeMode::Quarantine,
        layout_seed: 0,
        hash_seed: 0,
        clock_base: 0,
    },
    rng: 0,
    head: [0; 512],
    tail: [0; 512],
};

#[inline]
fn recs() -> *mut Rec {
    REC_BASE as *mut Rec
}

pub fn arena_map() {
    unsafe {
        if ARENA.mapped {
            return;
        }
        let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE;
        let p = libc::mmap(ARENA_BASE as *mut _, ARENA_SIZE, libc::PROT_READ | libc::PROT_WRITE, fl, -1, 0);
        assert!(p as usize == ARENA_BASE, "cannot map the simulated heap");
        let p = libc::mmap(
            REC_BASE as *mut _,
            MAX_REC * size_of::<Rec>(),
            libc::PROT_READ | libc::PROT_WRITE,
            fl,
            -1,
            0,
        );
        assert!(p as usize == REC_BASE, "cannot map the allocation ledger");
        ARENA.mapped = true;
    }
}

pub fn arena_reset(k: &MemKnobs) {
    unsafe {
        ARENA.knobs = k.clone();
        ARENA.top = ARENA_BASE + (k.base_off as usize & 0xFFF_FFF0);
        ARENA.nrec = 1;
        ARENA.live = 0;
        ARENA.live_bytes = 0;
        ARENA.seq = 0;
        ARENA.total = 0;
        ARENA.freed = 0;
        ARENA.reused = 0;
        ARENA.rng = k.layout_seed;
        ARENA.head = [0; 512];
        ARENA.tail = [0; 512];
    }
}

/// First memory-discipline violation seen in this process (text, no allocation).
static mut MEMVIOL: [u8; 256] = [0; 256];
static mut MEMVIOL_LEN: usize = 0;

fn memviol(kind: &str, user: usize, size: usize, uid: u32) {
    unsafe {
        if MEMVIOL_LEN != 0 {
            return;
        }
        struct W;
        impl std::fmt::Write for W {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                unsafe {
                    for b in s.bytes() {
                        if MEMVIOL_LEN < 256 {
                            MEMVIOL[MEMVIOL_LEN] = b;
                            MEMVIOL_LEN += 1;
                        }
                    }
                }
                Ok(())
            }
        }
        use std::fmt::Write;
        let cu = cur().map(|c| (c.id, c.uid));
        let _ = write!(
            W,
            "{kind}: block {user:#x} size {size} allocated by op {uid}; during client/op {:?}",
            cu
        );
    }
}

pub fn mem_violation() -> Option<String> {
    unsafe {
        if MEMVIOL_LEN == 0 {
            None
        } else {
            Some(String::from_utf8_lossy(&MEMVIOL[..MEMVIOL_LEN]).into_owned())
        }
    }
}

/// Refuse single requests no machine of the simulated size could serve (instead of ending the run).
pub static mut HUGE_FAILS: bool = false;
pub static mut HUGE_FAILED: u64 = 0;

unsafe fn arena_alloc(layout: Layout, c: &Client) -> *mut u8 {
    unsafe {
        let a = &mut ARENA;
        let size = layout.size();
        let align = layout.align().max(16);
        if HUGE_FAILS && size > ARENA_CAP / 4 {
            HUGE_FAILED += 1;
            return std::ptr::null_mut();
        }
        if a.live_bytes.saturating_add(size) > ARENA_CAP || a.nrec + 1 >= MAX_REC {
            child_exit(ST_STALL, format!("operation {} of client {} wants more than {} MiB of memory", c.uid, c.id, ARENA_CAP >> 20));
        }
        a.seq += 1;
        a.total += 1;
        a.live += 1;
        a.live_bytes += size;
        let class = (size + 15) / 16;
        if a.knobs.free != FreeMode::Quarantine && align == 16 && class < 512 && a.head[class] != 0 {
            let ri = a.head[class];
            let r = &mut *recs().add(ri as usize);
            a.head[class] = r.next_free;
            if r.next_free == 0 {
                a.tail[class] = 0;
            }
            a.reused += 1;
            r.size = size;
            r.align = layout.align() as u32;
            r.state = 1;
            r.uid = c.uid;
            r.client = c.id as u32;
            r.seq = a.seq;
            r.next_free = 0;
            std::ptr::write_bytes(r.user as *mut u8, a.knobs.fill, size);
            std::ptr::write_bytes((r.user + size) as *mut u8, CANARY_BYTE, CANARY);
            return r.user as *mut u8;
        }
        let pad = if a.knobs.pad_max > 0 {
            (splitmix(&mut a.rng) as usize % (a.knobs.pad_max as usize + 1)) & !15
        } else {
            0
        };
        let user = (a.top + pad + HDR + align - 1) & !(align - 1);
        let cap = class.max(1) * 16;
        let end = (user + cap + CANARY + 15) & !15;
        if end > ARENA_BASE + ARENA_SIZE {
            child_exit(ST_STALL, format!("operation {} of client {} allocates without end", c.uid, c.id));
        }
        a.top = end;
        let ri = a.nrec;
        a.nrec += 1;
        *recs().add(ri) = Rec {
            user,
            size,
            align: layout.align() as u32,
            state: 1,
            uid: c.uid,
            client: c.id as u32,
            seq: a.seq,
            next_free: 0,
            cap: class as u32,
        };
        let h = (user - HDR) as *mut u64;
        *h = MAGIC ^ user as u64;
        *h.add(1) = ri as u64;
        *h.add(2) = 0;
        *h.add(3) = MAGIC;
        std::ptr::write_bytes(user as *mut u8, a.knobs.fill, size);
        std::ptr::write_bytes((user + size) as *mut u8, CANARY_BYTE, CANARY);
        user as *mut u8
    }
}

unsafe fn arena_free(p: *mut u8, layout: Layout) {
    unsafe {
        let a = &mut ARENA;
        let user = p as usize;
        let h = (user - HDR) as *mut u64;
        let ri = *h.add(1) as usize;
        if *h != MAGIC ^ user as u64 || ri == 0 || ri >= a.nrec {
            memviol("free of an address that is not an allocation (or heap header overwritten)", user, layout.size(), 0);
            return;
        }
        let r = &mut *recs().add(ri);
        if r.state != 1 {
            memviol("double free", user, r.size, r.uid);
            return;
        }
        if r.size != layout.size() || r.align != layout.align() as u32 {
            memviol("free with a different size or alignment", user, r.size, r.uid);
        }
        for i in 0..CANARY {
            if *((user + r.size + i) as *const u8) != CANARY_BYTE {
                memviol("write past the end of the block", user, r.size, r.uid);
                break;
            }
        }
        a.live -= 1;
        a.live_bytes -= r.size;
        a.freed += 1;
        r.state = 2;
        std::ptr::write_bytes(p, FREED_BYTE, r.size);
        let class = r.cap as usize;
        if class < 512 && r.align <= 16 {
            match a.knobs.free {
                FreeMode::Quarantine => {}
                FreeMode::Lifo => {
                    r.next_free = a.head[class];
                    a.head[class] = ri as u32;
                    if a.tail[class] == 0 {
                        a.tail[class] = ri as u32;
                    }
                }
                FreeMode::Fifo => {
                    r.next_free = 0;
                    if a.tail[class] == 0 {
                        a.head[class] = ri as u32;
                    } else {
                        (*recs().add(a.tail[class] as usize)).next_free = ri as u32;
                    }
                    a.tail[class] = ri as u32;
                }
            }
        }
    }
}

pub fn is_arena(p: usize) -> bool {
    (ARENA_BASE..ARENA_BASE + ARENA_SIZE).contains(&p)
}

/// Is `p` the start of a live simulated block?
pub fn is_live_block(p: usize) -> bool {
    if !is_arena(p) {
        return false;
    }
    unsafe {
        let h = (p - HDR) as *const u64;
        let ri = *h.add(1) as usize;
        *h == MAGIC ^ p as u64 && ri != 0 && ri < ARENA.nrec && (*recs().add(ri)).state == 1
    }
}

pub fn live_blocks(since_seq: u64) -> Vec<Rec> {
    let mut v = vec![];
    unsafe {
        for i in 1..ARENA.nrec {
            let r = *recs().add(i);
            if r.state == 1 && r.seq > since_seq {
                v.push(r);
            }
        }
    }
    v
}

pub fn mem_seq() -> u64 {
    unsafe { ARENA.seq }
}

pub fn mem_totals() -> (u64, u64, u64) {
    unsafe { (ARENA.total, ARENA.freed, ARENA.reused) }
}

pub fn live_count() -> usize {
    unsafe { ARENA.live }
}

/// Freed-and-not-reused memory must still hold the freed pattern; live blocks their canaries.
pub fn sweep() {
    unsafe {
        for i in 1..ARENA.nrec {
            let r = *recs().add(i);
            if r.state == 2 {
                for k in 0..r.size {
                    if *((r.user + k) as *const u8) != FREED_BYTE {
                        memviol("write after free", r.user, r.size, r.uid);
                        return;
                    }
                }
            } else {
                for k in 0..CANARY {
                    if *((r.user + r.size + k) as *const u8) != CANARY_BYTE {
                        memviol("write past the end of the block", r.user, r.size, r.uid);
                        return;
                    }
                }
            }
        }
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if SUT.get() {
            let c = unsafe { &mut *CUR.get() };
            SUT.set(false);
            c.allocs += 1;
            event(c);
            let fail = c.fail_alloc != 0
                && (c.allocs == c.fail_alloc || (c.fail_sticky && c.allocs > c.fail_alloc))
                && !std::thread::panicking();
            let p = if fail {
                c.fired = true;
                note_oom(c.uid);
                std::ptr::null_mut()
            } else {
                let p = unsafe { arena_alloc(l, c) };
                if p.is_null() {
                    c.fired = true;
                    note_oom(c.uid);
                }
                p
            };
            SUT.set(true);
            p
        } else {
            unsafe { System.alloc(l) }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_arena(p as usize) {
            if SUT.get() {
                let c = unsafe { &mut *CUR.get() };
                SUT.set(false);
                event(c);
                SUT.set(true);
            }
            unsafe { arena_free(p, l) }
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

/// Payload of the panic that an injected allocation failure turns into.
pub struct SimOom;

// ------------------------------------------------------------------ interposed entropy, clock, futex

#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _fl: u32) -> isize {
    let mut x = match cur() {
        Some(c) => c.hash_seed,
        None => 0x1234_5678_9ABC_DEF0,
    };
    for i in 0..len {
        unsafe { *buf.add(i) = (splitmix(&mut x) >> 24) as u8 };
    }
    len as isize
}

static mut SIM_CLOCK: u64 = 0;

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    }
    r
}

/// Simulated clients never see a real clock: time is a per-run base plus one tick per step.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut libc::timespec) -> i32 {
    if let Some(c) = cur() {
        unsafe {
            SIM_CLOCK += 1000 + c.step;
            let t = ARENA.knobs.clock_base.wrapping_mul(1_000_003) % 4_000_000_000_000_000_000 + SIM_CLOCK;
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        }
        return 0;
    }
    let r = unsafe { raw6(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0) };
    if r < 0 { -1 } else { 0 }
}

/// std's locks reach the kernel through `syscall`; a simulated client that would sleep on a futex
/// hands the processor to another client instead, so code under test may use real locks.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex {
        let op = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && !CUR.get().is_null() {
            let cl = unsafe { &mut *CUR.get() };
            let was = SUT.replace(false);
            let val = unsafe { (*(a as *const AtomicU32)).load(Ordering::SeqCst) };
            if val != c as u32 {
                unsafe { *libc::__errno_location() = libc::EAGAIN };
                SUT.set(was);
                return -1;
            }
            blocked_yield(cl);
            SUT.set(was);
            return 0; // a spurious wake-up: the caller re-checks its word
        }
    }
    let r = unsafe { raw6(n, a, b, c, d, e, f) };
    if r < 0 && r > -4096 {
        unsafe { *libc::__errno_location() = (-r) as i32 };
        return -1;
    }
    r
}

// ------------------------------------------------------------------ edge callbacks

pub const COV_MAX: usize = 1 << 16;
static mut NGUARDS: u32 = 0;
static mut COV: *mut u8 = std::ptr::null_mut();

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                NGUARDS += 1;
                *p = NGUARDS;
            }
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !SUT.get() {
        return;
    }
    unsafe {
        let c = &mut *CUR.get();
        if !COV.is_null() {
            *COV.add(*g as usize & (COV_MAX - 1)) = 1;
        }
        c.edges += 1;
        c.step += 1;
        if c.step >= c.next_switch || c.step > c.budget {
            SUT.set(false);
            slow_event(c);
            SUT.set(true);
        }
    }
}

pub fn guards_total() -> u32 {
    unsafe { NGUARDS }
}

pub fn cov_map() -> &'static [u8] {
    unsafe {
        if COV.is_null() {
            &[]
        } else {
            std::slice::from_raw_parts(COV, COV_MAX)
        }
    }
}

pub fn cov_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            COV_MAX,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        COV = p as *mut u8;
    }
}

// ------------------------------------------------------------------ scheduler

pub const MAXC: usize = 6;

/// One hand-over of the processor: when `client`, executing operation `uid`, has made `step` steps,
/// run `to` next.  Step 0 is the boundary before the operation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Switch {
    pub client: usize,
    pub uid: u32,
    pub step: u64,
    pub to: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedKnobs {
    pub seed: u64,
    pub mean_gap: f64,       // mean steps between preemptions; <=0: none
    pub boundary_prob: f64,  // probability of a hand-over between operations
    pub max_switches: usize,
}

impl SchedKnobs {
    pub fn none() -> Self {
        SchedKnobs { seed: 0, mean_gap: 0.0, boundary_prob: 0.0, max_switches: 0 }
    }
}

struct Sched {
    n: usize,
    done: [bool; MAXC],
    replay: Option<Vec<Switch>>,
    rng: Rng,
    knobs: SchedKnobs,
    recorded: Vec<Switch>,
    blocked_rounds: u64,
    total_steps: u64,
    trace_hash: u64,
}

static mut SCHED: Option<Sched> = None;
static TURN: [AtomicU32; MAXC] = [const { AtomicU32::new(0) }; MAXC];

fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAIT as i64 | libc::FUTEX_PRIVATE_FLAG as i64, val as i64, 0, 0, 0) };
}
fn futex_wake(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAKE as i64 | libc::FUTEX_PRIVATE_FLAG as i64, 1, 0, 0, 0) };
}

fn wait_turn(me: usize) {
    let mut spin = 0;
    while TURN[me].load(Ordering::Acquire) == 0 {
        spin += 1;
        if spin > 200 {
            futex_wait(&TURN[me], 0);
        } else {
            std::hint::spin_loop();
        }
    }
    TURN[me].store(0, Ordering::Release);
}

fn give_turn(to: usize) {
    TURN[to].store(1, Ordering::Release);
    futex_wake(&TURN[to]);
}

/// Every allocation, release, storage access and callback is an event.
fn event(c: &mut Client) {
    c.step += 1;
    if c.step >= c.next_switch || c.step > c.budget {
        slow_event(c);
    }
}

/// Called by simulated storage and visitors (from inside the code under test).
pub fn user_event() {
    if let Some(c) = cur() {
        let was = SUT.replace(false);
        event(c);
        SUT.set(was);
    }
}

#[cold]
fn slow_event(c: &mut Client) {
    if c.step > c.budget {
        child_exit(ST_STALL, format!("operation {} of client {} made more than {} steps", c.uid, c.id, c.budget));
    }
    let s = unsafe { SCHED.as_mut() };
    let Some(s) = s else {
        c.next_switch = u64::MAX;
        return;
    };
    let step = c.step;
    let target = match &s.replay {
        Some(list) => list
            .iter()
            .find(|w| w.client == c.id && w.uid == c.uid && w.step == step)
            .map(|w| w.to)
            .filter(|t| *t < s.n && !s.done[*t] && *t != c.id),
        None => {
            let others: Vec<usize> = (0..s.n).filter(|i| !s.done[*i] && *i != c.id).collect();
            if others.is_empty() || s.recorded.len() >= s.knobs.max_switches {
                None
            } else {
                Some(others[s.rng.below(others.len())])
            }
        }
    };
    arm(s, c);
    if let Some(t) = target {
        hand_over(s, c, t, step);
    }
}

/// Compute the next step of this operation at which the scheduler wants control.
fn arm(s: &mut Sched, c: &mut Client) {
    c.next_switch = match &s.replay {
        Some(list) => list
            .iter()
            .filter(|w| w.client == c.id && w.uid == c.uid && w.step > c.step)
            .map(|w| w.step)
            .min()
            .unwrap_or(u64::MAX),
        None => {
            if s.knobs.mean_gap > 0.0 && s.n > 1 && s.recorded.len() < s.knobs.max_switches {
                c.step + s.rng.gap(s.knobs.mean_gap)
            } else {
                u64::MAX
            }
        }
    };
}

fn hand_over(s: &mut Sched, c: &Client, to: usize, step: u64) {
    s.recorded.push(Switch { client: c.id, uid: c.uid, step, to });
    log_switch(c.id, c.uid, step, to);
    s.trace_hash = mix(s.trace_hash, mix(((c.id as u64) << 32) | to as u64, mix(c.uid as u64, step)));
    let me = c.id;
    give_turn(to);
    wait_turn(me);
}

fn blocked_yield(c: &mut Client) {
    c.step += 1;
    let s = unsafe { SCHED.as_mut().unwrap() };
    s.blocked_rounds += 1;
    let n = s.n;
    let next = (1..n).map(|k| (c.id + k) % n).find(|i| !s.done[*i]);
    match next {
        Some(t) if s.blocked_rounds < 1_000_000 => {
            let me = c.id;
            give_turn(t);
            wait_turn(me);
        }
        _ => child_exit(ST_STALL, format!("client {} waits forever on a lock in operation {}", c.id, c.uid)),
    }
}

pub fn recorded() -> Vec<Switch> {
    unsafe { SCHED.as_ref().map(|s| s.recorded.clone()).unwrap_or_default() }
}

pub fn trace_hash() -> u64 {
    unsafe { SCHED.as_ref().map(|s| s.trace_hash).unwrap_or(0) }
}

pub fn total_steps() -> u64 {
    unsafe { SCHED.as_ref().map(|s| s.total_steps).unwrap_or(0) }
}

/// Set up an operation: called by a client (harness mode) before entering the code under test.
/// Also a scheduling point (the boundary between operations).
pub fn begin_op(uid: u32, fail_alloc: u32, sticky: bool, budget: u64) {
    let Some(c) = cur() else { return };
    c.uid = uid;
    c.step = 0;
    c.edges = 0;
    c.allocs = 0;
    c.fail_alloc = 0;
    c.fired = false;
    c.budget = budget;
    progress(c.id, uid);
    if let Some(s) = unsafe { SCHED.as_mut() } {
        if s.n > 1 {
            let target = match &s.replay {
                Some(list) => list
                    .iter()
                    .find(|w| w.client == c.id && w.uid == uid && w.step == 0)
                    .map(|w| w.to)
                    .filter(|t| *t < s.n && !s.done[*t] && *t != c.id),
                None => {
                    let others: Vec<usize> = (0..s.n).filter(|i| !s.done[*i] && *i != c.id).collect();
                    if others.is_empty() || s.recorded.len() >= s.knobs.max_switches || !s.rng.chance(s.knobs.boundary_prob) {
                        None
                    } else {
                        Some(others[s.rng.below(others.len())])
                    }
                }
            };
            if let Some(t) = target {
                hand_over(s, c, t, 0);
                progress(c.id, uid);
            }
        }
        arm(s, c);
    } else {
        c.next_switch = u64::MAX;
    }
    c.fail_alloc = fail_alloc;
    c.fail_sticky = sticky;
}

/// Set up a reference computation on the current client: counted and bounded, never preempted and
/// never failing.
pub fn begin_ref(uid: u32, budget: u64) {
    let Some(c) = cur() else { return };
    c.uid = uid;
    c.step = 0;
    c.edges = 0;
    c.allocs = 0;
    c.fail_alloc = 0;
    c.fail_sticky = false;
    c.fired = false;
    c.budget = budget;
    c.next_switch = u64::MAX;
    progress(c.id, uid);
}

/// Allow the operation in progress `more` steps from here on.
pub fn extend_budget(more: u64) {
    if let Some(c) = cur() {
        c.budget = c.budget.max(c.step + more);
    }
}

pub struct OpStats {
    pub steps: u64,
    pub edges: u64,
    pub allocs: u32,
    pub fired: bool,
}

pub fn end_op() -> OpStats {
    let Some(c) = cur() else { return OpStats { steps: 0, edges: 0, allocs: 0, fired: false } };
    if let Some(s) = unsafe { SCHED.as_mut() } {
        s.total_steps += c.step;
    }
    c.fail_alloc = 0;
    c.next_switch = u64::MAX;
    OpStats { steps: c.step, edges: c.edges, allocs: c.allocs, fired: c.fired }
}

/// Run `f` as code under test on the current client.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            SUT.set(false);
        }
    }
    let _g = G;
    SUT.set(true);
    f()
}

/// Let every client run `body(client_index)` on its own thread under the scheduler; the calling
/// thread waits.  Must be called in a forked child.
pub fn run_clients(
    n: usize,
    first: usize,
    knobs: &SchedKnobs,
    replay: Option<Vec<Switch>>,
    mem: &MemKnobs,
    rep: u64,
    body: &(dyn Fn(usize) + Sync),
) {
    assert!(n >= 1 && n <= MAXC);
    unsafe {
        SCHED = Some(Sched {
            n,
            done: [false; MAXC],
            replay,
            rng: Rng::new(knobs.seed),
            knobs: knobs.clone(),
            recorded: Vec::with_capacity(64),
            blocked_rounds: 0,
            total_steps: 0,
            trace_hash: 0,
        });
    }
    for t in &TURN {
        t.store(0, Ordering::Release);
    }
    ALL_DONE.store(0, Ordering::Release);
    std::thread::scope(|sc| {
        for i in 0..n {
            let hash_seed = mix(mem.hash_seed, mix(i as u64, rep));
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    // lives as long as the process: destructors of thread-local objects of the code
                    // under test still run as this client
                    let cl = Box::leak(Box::new(Client {
                        id: i,
                        uid: 0,
                        step: 0,
                        edges: 0,
                        allocs: 0,
                        next_switch: u64::MAX,
                        fail_alloc: 0,
                        fail_sticky: false,
                        fired: false,
                        budget: u64::MAX,
                        hash_seed,
                    }));
                    wait_turn(i);
                    BATON.with(|b| b.0.set(i as i64));
                    room_for_destructors();
                    CUR.set(cl);
                    body(i);
                    SUT.set(false);
                    cl.fail_alloc = 0;
                    cl.next_switch = u64::MAX;
                    cl.budget = u64::MAX;
                })
                .expect("spawn");
        }
        give_turn(first.min(n - 1));
    });
    // the scope ends when the bodies have returned; the clients end when their thread-local objects
    // are gone
    while ALL_DONE.load(Ordering::Acquire) == 0 {
        futex_wait(&ALL_DONE, 0);
    }
}

static ALL_DONE: AtomicU32 = AtomicU32::new(0);

/// Thread-local objects are destroyed in the reverse order of their first use, so this one, used
/// before any of the code under test, goes last: only then does the next client run.
struct Baton(Cell<i64>);

impl Drop for Baton {
    fn drop(&mut self) {
        let i = self.0.get();
        if i < 0 {
            return;
        }
        CUR.set(std::ptr::null_mut());
        SUT.set(false);
        let s = unsafe { SCHED.as_mut().unwrap() };
        s.done[i as usize] = true;
        match (0..s.n).find(|k| !s.done[*k]) {
            Some(t) => give_turn(t),
            None => {
                ALL_DONE.store(1, Ordering::Release);
                futex_wake(&ALL_DONE);
            }
        }
    }
}

thread_local! {
    static BATON: Baton = const { Baton(Cell::new(-1)) };
}

/// The standard library's list of thread-local destructors grows when an object is first used;
/// grow it beforehand, so that it does not end up in simulated memory.
fn room_for_destructors() {
    struct D(Cell<u8>);
    impl Drop for D {
        fn drop(&mut self) {
            std::hint::black_box(&self.0);
        }
    }
    macro_rules! dummies {
        ($($n:ident)*) => { $( thread_local! { static $n: D = const { D(Cell::new(0)) }; } $n.with(|d| d.0.set(1)); )* };
    }
    dummies!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9);
}

// ------------------------------------------------------------------ forked children

pub const ST_OK: u32 = 1;
pub const ST_STALL: u32 = 2;

const SHM: usize = 64 << 20;
static mut SHM_PTR: *mut u8 = std::ptr::null_mut();

pub fn shm_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SHM,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM_PTR = p as *mut u8;
    }
}

fn shm_u32(i: usize) -> *mut u32 {
    unsafe { (SHM_PTR as *mut u32).add(i) }
}

fn progress(client: usize, uid: u32) {
    unsafe {
        if !SHM_PTR.is_null() {
            *shm_u32(2) = client as u32;
            *shm_u32(3) = uid;
        }
    }
}

fn note_oom(uid: u32) {
    unsafe {
        if !SHM_PTR.is_null() {
            *shm_u32(5) = uid;
        }
    }
}

const SWLOG: usize = SHM - (2 << 20);
const SWMAX: usize = (2 << 20) / 24;

/// Hand-overs survive the death of the child, so that a crash can be replayed.
fn log_switch(client: usize, uid: u32, step: u64, to: usize) {
    unsafe {
        if SHM_PTR.is_null() {
            return;
        }
        let n = *shm_u32(4) as usize;
        if n < SWMAX {
            let p = SHM_PTR.add(SWLOG + n * 24) as *mut u32;
            *p = client as u32;
            *p.add(1) = uid;
            *(p.add(2) as *mut u64) = step;
            *p.add(4) = to as u32;
            *shm_u32(4) = n as u32 + 1;
        }
    }
}

/// Hand-overs of the last child.
pub fn logged_switches() -> Vec<Switch> {
    unsafe {
        let n = *shm_u32(4) as usize;
        (0..n)
            .map(|i| {
                let p = SHM_PTR.add(SWLOG + i * 24) as *const u32;
                Switch { client: *p as usize, uid: *p.add(1), step: *(p.add(2) as *const u64), to: *p.add(4) as usize }
            })
            .collect()
    }
}

fn child_finish(status: u32, data: &[u8]) -> ! {
    unsafe {
        let n = data.len().min(SWLOG - 64);
        assert!(n == data.len(), "child report too large");
        std::ptr::copy_nonoverlapping(data.as_ptr(), SHM_PTR.add(64), n);
        *shm_u32(1) = n as u32;
        *shm_u32(0) = status;
        libc::_exit(0);
    }
}

/// End this child here and now (the simulated process loses power).
pub fn finish_now(data: &[u8]) -> ! {
    child_finish(ST_OK, data)
}

fn child_exit(status: u32, msg: String) -> ! {
    child_finish(status, msg.as_bytes())
}

#[derive(Debug, Clone)]
pub enum ChildEnd {
    Done(Vec<u8>),
    /// work budget exceeded or waits forever
    Stall(String),
    /// killed by a signal (abort, segmentation fault ..) while executing client/op
    Died { signal: i32, client: u32, uid: u32 },
    /// an allocation failure injected into this operation hit a place where the standard library
    /// aborts instead of unwinding (inside a B-tree split)
    StdAbort { uid: u32 },
    /// wall-clock safety net; an error of the harness, not a verdict
    Timeout,
    Odd(i32),
}

pub static mut VERBOSE: bool = false;

extern "C" fn show_death(sig: i32) {
    SUT.set(false);
    CUR.set(std::ptr::null_mut());
    eprintln!("signal {sig}:\n{}", std::backtrace::Backtrace::force_capture());
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

pub fn in_child(wall_s: u32, f: impl FnOnce() -> Vec<u8>) -> ChildEnd {
    unsafe {
        *shm_u32(0) = 0;
        *shm_u32(1) = 0;
        *shm_u32(2) = 0;
        *shm_u32(3) = 0;
        *shm_u32(4) = 0;
        *shm_u32(5) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::alarm(wall_s);
            if !VERBOSE {
                let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if fd >= 0 {
                    libc::dup2(fd, 2);
                }
            }
            if VERBOSE {
                for sig in [libc::SIGILL, libc::SIGSEGV, libc::SIGABRT] {
                    libc::signal(sig, show_death as *const () as usize);
                }
            }
            let out = f();
            child_finish(ST_OK, &out);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGALRM {
                return ChildEnd::Timeout;
            }
            if sig == libc::SIGILL && *shm_u32(5) != 0 {
                return ChildEnd::StdAbort { uid: *shm_u32(5) };
            }
            return ChildEnd::Died { signal: sig, client: *shm_u32(2), uid: *shm_u32(3) };
        }
        let n = *shm_u32(1) as usize;
        let data = std::slice::from_raw_parts(SHM_PTR.add(64), n).to_vec();
        match *shm_u32(0) {
            ST_OK => ChildEnd::Done(data),
            ST_STALL => ChildEnd::Stall(String::from_utf8_lossy(&data).into_owned()),
            _ => ChildEnd::Odd(libc::WEXITSTATUS(st)),
        }
    }
}

/// Same address space layout in every process, so that even pointer-valued behaviour replays.
pub fn disable_aslr_and_reexec() {
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && (p as libc::c_ulong & ADDR_NO_RANDOMIZE) == 0 && std::env::var_os("CAVSIM_NOASLR").is_none() {
            if libc::personality(p as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
                std::env::set_var("CAVSIM_NOASLR", "1");
                use std::os::unix::process::CommandExt;
                let args: Vec<_> = std::env::args_os().collect();
                let _ = std::process::Command::new("/proc/self/exe").args(&args[1..]).exec();
            }
        }
    }
}

pub fn install_panic_machinery() {
    std::alloc::set_alloc_error_hook(|_l| {
        std::panic::panic_any(SimOom);
    });
    std::panic::set_hook(Box::new(|info| {
        let was = SUT.replace(false);
        if unsafe { VERBOSE } || CUR.get().is_null() {
            eprintln!("panic: {info}");
        }
        LAST_PANIC.with(|l| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "<injected>".into()
            };
            *l.borrow_mut() = format!(
                "{} at {}",
                msg,
                info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
            );
        });
        SUT.set(was);
    }));
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}
