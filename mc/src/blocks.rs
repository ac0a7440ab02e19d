//! Two threads under one scheduler, rx509's basic blocks being the points where it may switch.
//!
//! rx509 is compiled with coverage callbacks for this; the callback is the scheduling point. Exactly one
//! of the two threads runs at any time. A thread that would sleep in the kernel (a lock held by the
//! other one) hands over instead, so that a schedule never deadlocks on the scheduler's account.

use std::arch::asm;
use std::cell::Cell;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

const FREE: usize = 2;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(FREE) };
}

static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
/// points until the running thread is preempted
static LEFT: AtomicU64 = AtomicU64::new(u64::MAX);
/// points passed since the last hand-over
static SPUN: AtomicU64 = AtomicU64::new(0);
static SEGMENT: AtomicU32 = AtomicU32::new(0);
static SEGMENTS: [AtomicU64; 16] = [const { AtomicU64::new(u64::MAX) }; 16];
/// counting only
static POINTS: AtomicU64 = AtomicU64::new(0);

/// A spinning thread is made to give way after this many points.
const PATIENCE: u64 = 3_000_000;

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn wait_turn(me: usize) {
    loop {
        let t = TURN.load(SeqCst);
        if t as usize == me {
            return;
        }
        unsafe {
            raw(202, TURN.as_ptr() as i64, 128, t as i64, 0, 0, 0);
        }
    }
}

fn give(to: usize) {
    let s = SEGMENT.load(SeqCst) as usize;
    SEGMENT.store(s as u32 + 1, SeqCst);
    LEFT.store(SEGMENTS.get(s + 1).map(|x| x.load(SeqCst)).unwrap_or(u64::MAX), SeqCst);
    SPUN.store(0, SeqCst);
    TURN.store(to as u32, SeqCst);
    unsafe {
        raw(202, TURN.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
}

/// Hands over unless the other one has ended.
fn hand_over(me: usize) {
    let other = 1 - me;
    if DONE[other].load(SeqCst) == 1 {
        SPUN.store(0, SeqCst);
        return;
    }
    give(other);
    wait_turn(me);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    let me = ME.with(|m| m.get());
    if me == FREE {
        return;
    }
    POINTS.fetch_add(1, SeqCst);
    let l = LEFT.load(SeqCst);
    if l == 0 {
        LEFT.store(u64::MAX, SeqCst);
        hand_over(me);
        return;
    }
    if l != u64::MAX {
        LEFT.store(l - 1, SeqCst);
    }
    if SPUN.fetch_add(1, SeqCst) > PATIENCE {
        hand_over(me);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// What the standard library calls to sleep on a lock.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && (b & 0x7F == 0 || b & 0x7F == 9) {
        let me = ME.with(|m| m.get());
        if me != FREE && DONE[1 - me].load(SeqCst) == 0 {
            hand_over(me);
            return 0;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    let me = ME.with(|m| m.get());
    if me != FREE {
        hand_over(me);
        return 0;
    }
    raw(24, 0, 0, 0, 0, 0, 0) as i32
}

/// Runs both under the schedule: thread `first` for segments[0] points, the other for segments[1], ...
pub fn two(first: usize, segments: &[u64], ops: [Box<dyn FnOnce() -> String + Send>; 2]) -> [String; 2] {
    for (i, s) in SEGMENTS.iter().enumerate() {
        s.store(segments.get(i).copied().unwrap_or(u64::MAX), SeqCst);
    }
    DONE[0].store(0, SeqCst);
    DONE[1].store(0, SeqCst);
    SEGMENT.store(0, SeqCst);
    SPUN.store(0, SeqCst);
    LEFT.store(SEGMENTS[0].load(SeqCst), SeqCst);
    TURN.store(FREE as u32, SeqCst);
    let t: Vec<_> = ops
        .into_iter()
        .enumerate()
        .map(|(me, op)| {
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    wait_turn(me);
                    ME.with(|m| m.set(me));
                    let r = op();
                    ME.with(|m| m.set(FREE));
                    DONE[me].store(1, SeqCst);
                    if DONE[1 - me].load(SeqCst) == 0 {
                        give(1 - me);
                    }
                    r
                })
                .unwrap()
        })
        .collect();
    TURN.store(first as u32, SeqCst);
    unsafe {
        raw(202, TURN.as_ptr() as i64, 129, i32::MAX as i64, 0, 0, 0);
    }
    let mut r = t.into_iter().map(|t| t.join().unwrap_or_else(|_| "thread ended by a panic".into()));
    [r.next().unwrap(), r.next().unwrap()]
}

/// How many points an operation passes on its own.
pub fn count(op: impl FnOnce()) -> u64 {
    DONE[1].store(1, SeqCst);
    LEFT.store(u64::MAX, SeqCst);
    POINTS.store(0, SeqCst);
    BYTES.store(0, SeqCst);
    COPIED.store(0, SeqCst);
    ME.with(|m| m.set(0));
    MEASURING.store(true, SeqCst);
    op();
    MEASURING.store(false, SeqCst);
    ME.with(|m| m.set(FREE));
    POINTS.load(SeqCst)
}

// ---------------------------------------------------------------- memory

static MEASURING: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicU64 = AtomicU64::new(0);
static COPIED: AtomicU64 = AtomicU64::new(0);

/// Octets asked for during the last count.
pub fn allocated() -> u64 {
    BYTES.load(SeqCst)
}

/// Octets copied, filled or compared by way of the C library during the last count.
pub fn copied() -> u64 {
    COPIED.load(SeqCst)
}

struct Counting;

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn asked(n: usize) {
    if MEASURING.load(SeqCst) {
        BYTES.fetch_add(n as u64, SeqCst);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        asked(n);
        System.realloc(p, l, n)
    }
}

fn moved(n: usize) {
    if MEASURING.load(SeqCst) {
        COPIED.fetch_add(n as u64, SeqCst);
    }
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize).wrapping_sub(s as usize) >= n {
        return memcpy(d, s, n);
    }
    moved(n);
    asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
         inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    d
}

#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    moved(n);
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") v as u8, options(nostack, preserves_flags));
    d
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    let (mut x, mut y, mut left) = (a, b, n);
    while left > 0 {
        let (p, q) = (std::ptr::read_volatile(x), std::ptr::read_volatile(y));
        if p != q {
            return p as i32 - q as i32;
        }
        x = x.wrapping_add(1);
        y = y.wrapping_add(1);
        left -= 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
