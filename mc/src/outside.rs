//! The world outside the process as the code under test can ask for it: environment variables, clocks,
//! random octets, files, and facts about the process itself. The C library's entry points are replaced here, so that a history decides the
//! answers; with policy 0 they answer as usual.

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

/// Values every variable has under a policy (index + 1); the first is "unset".
pub const VALUES: &[Option<&[u8]>] = &[
    None,
    Some(b"\0"),
    Some(b"1\0"),
    Some(b"0\0"),
    Some(b"true\0"),
    Some(b"off\0"),
    Some(b"2147483647\0"),
    Some(b"tr_TR.UTF-8\0"),
    Some(b"/nonexistent\0"),
    Some(b"\xFF\xFE\0"),
];

/// Seconds every clock shows under a policy (index + 1).
pub const CLOCKS: &[i64] = &[0, 1, 946684800, 951782400, 1709164800, 2147483647, 2147483648, 2524608000, 4294967296, 253402300800];

pub const FILLS: &[u8] = &[0x00, 0xFF, 0x55, 0x01];

/// What a file is under a policy (index + 1): none, an empty one, a text.
pub const FILES: &[Option<&[u8]>] = &[None, Some(b"/dev/null\0"), Some(b"/proc/sys/kernel/ostype\0")];

/// What the process is under a policy (index + 1): (number, on a terminal, folder and links, host, processors).
pub const SELVES: &[(i64, bool, Option<&[u8]>, &[u8], usize)] = &[(1, true, Some(b"/\0"), b"a\0", 1), (0x3F_FFFF, false, None, b"\0", 64), (4096, true, Some(b"/tmp/x\0"), b"localhost\0", 2)];

pub static SELF: AtomicUsize = AtomicUsize::new(0);
pub static FILE: AtomicUsize = AtomicUsize::new(0);
pub static ENV: AtomicUsize = AtomicUsize::new(0);
pub static CLOCK: AtomicUsize = AtomicUsize::new(0);
pub static RANDOM: AtomicUsize = AtomicUsize::new(0);
/// how often the code under test asked
pub static ASKED: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    /// what the system clock shows to this thread, in seconds and nanoseconds
    static SHOWN: std::cell::Cell<Option<[i64; 2]>> = const { std::cell::Cell::new(None) };
}

pub fn show_clock(to: Option<[i64; 2]>) {
    SHOWN.with(|s| s.set(to));
}

/// The system clock, or one that counts something else.
fn shown(id: i32) -> Option<[i64; 2]> {
    SHOWN.with(|s| s.get()).map(|c| if matches!(id, 0 | 5) { c } else { [1234, 567_000_000] })
}

pub fn set(env: usize, clock: usize, random: usize, file: usize, own: usize) {
    SELF.store(own, SeqCst);
    FILE.store(file, SeqCst);
    ENV.store(env, SeqCst);
    CLOCK.store(clock, SeqCst);
    RANDOM.store(random, SeqCst);
}

extern "C" {
    static environ: *const *const u8;
    fn __errno_location() -> *mut i32;
}

unsafe fn text<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

/// Asked by the standard library on its own account.
const OWN: &[&[u8]] = &[b"RUST_BACKTRACE", b"RUST_LIB_BACKTRACE", b"RUST_MIN_STACK"];

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let name = text(name);
    let p = ENV.load(SeqCst);
    if p > 0 && !OWN.contains(&name) {
        ASKED.fetch_add(1, SeqCst);
        return VALUES[p - 1].map_or(std::ptr::null(), |v| v.as_ptr());
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let t = text(*e);
        if t.len() > name.len() && t.starts_with(name) && t[name.len()] == b'=' {
            return (*e).add(name.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64) -> i64 {
    raw5(n, [a, b, c, 0, 0])
}

unsafe fn raw5(n: i64, a: [i64; 5]) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    if let Some(c) = shown(id) {
        *t = c;
        return 0;
    }
    let p = CLOCK.load(SeqCst);
    if p > 0 {
        ASKED.fetch_add(1, SeqCst);
        *t = [CLOCKS[p - 1], 999_999_999 * (p as i64 % 2)];
        return 0;
    }
    raw(228, id as i64, t as i64, 0) as i32
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut [i64; 2], _zone: *mut u8) -> i32 {
    let mut c = [0; 2];
    clock_gettime(0, &mut c);
    *t = [c[0], c[1] / 1000];
    0
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut c = [0; 2];
    clock_gettime(0, &mut c);
    if !out.is_null() {
        *out = c[0];
    }
    c[0]
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, flags: u32) -> isize {
    let p = RANDOM.load(SeqCst);
    if p > 0 {
        ASKED.fetch_add(1, SeqCst);
        std::ptr::write_bytes(b, FILLS[p - 1], n);
        return n as isize;
    }
    raw(318, b as i64, n as i64, flags as i64) as isize
}

/// The path that stands in for this one.
unsafe fn instead(path: *const u8) -> Result<*const u8, ()> {
    match FILE.load(SeqCst) {
        0 => Ok(path),
        p => {
            ASKED.fetch_add(1, SeqCst);
            FILES[p - 1].map(|v| v.as_ptr()).ok_or_else(|| *__errno_location() = 2)
        }
    }
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let Ok(p) = instead(path) else { return -1 };
    raw5(257, [-100, p as i64, flags as i64, mode as i64, 0]) as i32
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    let Ok(p) = instead(path) else { return -1 };
    raw5(332, [dir as i64, p as i64, flags as i64, mask as i64, out as i64]) as i32
}

fn own() -> Option<&'static (i64, bool, Option<&'static [u8]>, &'static [u8], usize)> {
    match SELF.load(SeqCst) {
        0 => None,
        p => {
            ASKED.fetch_add(1, SeqCst);
            Some(&SELVES[p - 1])
        }
    }
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if let Some(o) = own() {
        *__errno_location() = 25;
        return o.1 as i32;
    }
    let mut settings = [0u8; 64];
    (raw(16, fd as i64, 0x5401, settings.as_mut_ptr() as i64) == 0) as i32
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    own().map_or_else(|| raw(39, 0, 0, 0), |o| o.0) as i32
}

unsafe fn give(t: &[u8], to: *mut u8, n: usize) -> usize {
    let k = t.len().min(n);
    std::ptr::copy_nonoverlapping(t.as_ptr(), to, k);
    k
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if let Some(o) = own() {
        return match o.2 {
            Some(t) if t.len() <= n => {
                give(t, b, n);
                b
            }
            _ => {
                *__errno_location() = 2;
                std::ptr::null_mut()
            }
        };
    }
    if raw(79, b as i64, n as i64, 0) < 0 {
        return std::ptr::null_mut();
    }
    b
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const u8, b: *mut u8, n: usize) -> isize {
    if let Some(o) = own() {
        return match o.2 {
            Some(t) => give(&t[..t.len() - 1], b, n) as isize,
            None => {
                *__errno_location() = 2;
                -1
            }
        };
    }
    raw(89, path as i64, b as i64, n as i64) as isize
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut u8, n: usize) -> i32 {
    if let Some(o) = own() {
        give(o.3, b, n);
        return 0;
    }
    let mut u = [0u8; 65 * 6];
    let r = raw(63, u.as_mut_ptr() as i64, 0, 0);
    give(&u[65..130], b, n);
    r as i32
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    std::ptr::write_bytes(set, 0, n);
    if let Some(o) = own() {
        (0..o.4.min(8 * n)).for_each(|i| *set.add(i / 8) |= 1 << (i % 8));
        return 0;
    }
    if raw(204, pid as i64, n as i64, set as i64) < 0 {
        -1
    } else {
        0
    }
}
