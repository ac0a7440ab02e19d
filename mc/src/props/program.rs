//! P03: the decoder program, run as a process on every input, against the library in this process.

use super::common::*;
use super::x509::{built, cert_legal, cert_sizes, ext_kinds, sequence_of};
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::refder::hex_line;
use crate::refprint::{console, element_text, Line};
use crate::refx509::*;
use crate::sut::*;
use rx509::der::*;
use std::cell::RefCell;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const CPU_SECONDS: u64 = 10;
const OUTPUT_CAP: u64 = 64 << 20;

extern "C" {
    fn prlimit(pid: i32, res: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32;
}

/// Built together with this program, from /repo/decoder (see Cargo.toml).
fn program() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("decoder")
}

/// One worker's scratch files; removed with it.
struct Scratch {
    dir: PathBuf,
}

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        // the supervisor removes its folder as a whole
        let base = std::env::var("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let dir = base.join(format!("mc-p03-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(dir.join("folder")).unwrap();
        Scratch { dir }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

thread_local! {
    static SCRATCH: RefCell<Option<Scratch>> = const { RefCell::new(None) };
}

pub(super) fn in_scratch<T>(f: impl FnOnce(&Path) -> T) -> T {
    SCRATCH.with(|s| f(&s.borrow_mut().get_or_insert_with(Scratch::new).dir))
}

#[derive(Clone, Debug)]
pub(super) struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: String,
}

impl Run {
    pub fn how(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}, standard error {:?}", cut(&self.err)),
            (_, s) => format!("killed by signal {s:?}, standard error {:?}", cut(&self.err)),
        }
    }

    /// ended by a panic, a signal or the time limit
    pub fn crashed(&self) -> bool {
        self.signal.is_some() || self.code == Some(101)
    }
}

pub(super) fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

fn run_program(dir: &Path, args: &[OsString]) -> Run {
    run_with(dir, args, &[], None)
}

/// Standard output goes to `to`, if given, and is not read back then.
pub(super) fn run_with(dir: &Path, args: &[OsString], env: &[(&str, OsString)], to: Option<&dyn Fn(&mut Command)>) -> Run {
    let err_path = dir.join("stderr");
    let err = std::fs::File::create(&err_path).unwrap();
    let mut cmd = Command::new(program());
    cmd.args(args).current_dir(dir).env_clear().envs(env.iter().map(|(k, v)| (k, v))).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(err);
    if let Some(to) = to {
        to(&mut cmd);
    }
    let mut c = cmd.spawn().unwrap();
    unsafe {
        let pid = c.id() as i32;
        prlimit(pid, 4, &[0, 0], std::ptr::null_mut()); // core files
        prlimit(pid, 0, &[CPU_SECONDS, CPU_SECONDS], std::ptr::null_mut()); // CPU time
        prlimit(pid, 9, &[2 << 30, 2 << 30], std::ptr::null_mut()); // address space
        if to.is_none() {
            prlimit(pid, 1, &[1 << 20, 1 << 20], std::ptr::null_mut()); // file size
        }
    }
    let mut out = vec![];
    if let Some(mut pipe) = c.stdout.take() {
        let _ = (&mut pipe).take(OUTPUT_CAP).read_to_end(&mut out);
    }
    let st = c.wait().unwrap();
    let err = String::from_utf8_lossy(&std::fs::read(&err_path).unwrap_or_default()).into_owned();
    Run { code: st.code(), signal: st.signal(), out, err }
}

fn run_on(flag: &str, b: &[u8]) -> Run {
    in_scratch(|dir| {
        std::fs::write(dir.join("input"), b).unwrap();
        run_program(dir, &[flag.into(), "input".into()])
    })
}

#[derive(Default)]
struct Lines {
    level: usize,
    lines: Vec<Line>,
    error: Option<String>,
}

impl ParseHandler for Lines {
    fn begin_constructed(&mut self) {
        self.level += 1;
    }
    fn end_constructed(&mut self) {
        self.level = self.level.saturating_sub(1);
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.lines.push(Line { level: self.level, text: element_text(asn) });
        if let ASNType::BitString(b) = asn {
            for row in b.value.octets().unwrap_or(&[]).chunks(16) {
                self.lines.push(Line { level: self.level + 1, text: hex_line(row, false) });
            }
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        self.error = Some(err.to_string());
    }
}

fn first_difference(want: &str, got: &str) -> (String, String) {
    let i = want.lines().zip(got.lines()).take_while(|(a, b)| a == b).count();
    (
        format!("standard output line {}: {:?}", i + 1, want.lines().nth(i)),
        format!("{:?}", got.lines().nth(i)),
    )
}

fn elements(b: &[u8]) -> Step {
    let mut h = Lines::default();
    let lib = guard(|| parse_all(b, &mut h).map_err(|e| e.to_string()));
    let r = run_on("--der", b);
    if r.crashed() {
        return bad("the program ends by itself", r.how());
    }
    let Ok(lib) = lib else { return Ok(0) };
    let want = console(&h.lines);
    let got = String::from_utf8_lossy(&r.out).into_owned();
    match lib {
        Ok(()) => {
            if got != want {
                let (e, a) = first_difference(&want, &got);
                return bad(e, a);
            }
            if r.code != Some(0) {
                return bad("success status", r.how());
            }
            Ok(10 + h.lines.len() as u64)
        }
        Err(text) => {
            let Some(rest) = got.strip_prefix(&want[..]) else {
                let (e, a) = first_difference(&want, &got);
                return bad(e, a);
            };
            // one remark about the defect may follow on standard output as well
            if !(rest.is_empty() || rest.trim_start().starts_with("Error") && rest.lines().count() == 1) {
                return bad("nothing but the elements before the defect", format!("also {:?}", cut(rest)));
            }
            if !r.err.contains(&text) {
                return bad(format!("the defect on standard error: {text}"), r.how());
            }
            Ok(100_000 + h.lines.len() as u64)
        }
    }
}

fn certificate(b: &[u8]) -> Step {
    let lib = guard(|| match rx509::x509::Certificate::parse(b) {
        Ok(c) => Ok(report(&c).shown),
        Err(e) => Err(e.to_string()),
    });
    let r = run_on("--certs", b);
    if r.crashed() {
        return bad("the program ends by itself", r.how());
    }
    let Ok(lib) = lib else { return Ok(0) };
    let got = String::from_utf8_lossy(&r.out).into_owned();
    match lib {
        Ok(want) => {
            if got != want {
                let (e, a) = first_difference(&want, &got);
                return bad(e, a);
            }
            if r.code != Some(0) {
                return bad("success status", r.how());
            }
            Ok(200_000 + want.lines().count() as u64)
        }
        Err(text) => {
            if !got.is_empty() {
                return bad("no report of a defective certificate", format!("{:?}", cut(&got)));
            }
            if !r.err.contains(&text) {
                return bad(format!("the defect on standard error: {text}"), r.how());
            }
            Ok(300_000)
        }
    }
}

fn both(b: &[u8]) -> Step {
    Ok(elements(b)? * 1_000_000 + certificate(b)?)
}

/// The end of a run that was asked for something it cannot do.
fn refused(args: &[OsString], r: &Run) -> Step {
    if matches!(r.code, Some(0) | None) {
        return bad("a failure status", r.how());
    }
    if !r.out.is_empty() {
        return bad("nothing on standard output", format!("{:?}", cut(&String::from_utf8_lossy(&r.out))));
    }
    if r.err.trim().is_empty() {
        return bad("a message on standard error", r.how());
    }
    // a flag it does not know is named
    if let [flag, _] = args {
        if let Some(flag) = flag.to_str().filter(|f| !["--der", "--certs"].contains(f) && !f.contains(char::is_control)) {
            if !r.err.contains(flag) {
                return bad(format!("a message that names the flag {flag:?}"), r.how());
            }
        }
    }
    Ok(1)
}

/// All argument lists over a small vocabulary.
fn arguments(max: usize) -> Family {
    use std::os::unix::ffi::OsStringExt;
    let bytes = |b: &[u8]| OsString::from_vec(b.to_vec());
    // (argument, is it a flag, is it a readable file)
    let odd: &[u8] = &[b'o', 0xFF, b'd'];
    let words: Vec<(OsString, bool, bool)> = vec![
        ("--der".into(), true, false),
        ("--certs".into(), true, false),
        ("good".into(), false, true),
        ("missing".into(), false, false),
        ("folder".into(), false, false),
        ("good/below".into(), false, false),
        ("".into(), false, false),
        ("--DER".into(), false, false),
        ("--cert".into(), false, false),
        ("--".into(), false, false),
        ("-h".into(), false, false),
        (bytes(odd), false, true),
        (bytes(&[0xFF]), false, false),
    ];
    let n = words.len();
    Family::new(
        "arguments",
        &format!("all argument lists of 0..={max} of {n} words: both flags, near misses, readable, missing, unreadable and oddly named files"),
        0,
        move || {
            let words = words.clone();
            move |ch: &mut Ch| {
                let k = ch.choose(max + 1);
                let pick: Vec<usize> = (0..k).map(|_| ch.choose(words.len())).collect();
                let args: Vec<OsString> = pick.iter().map(|i| words[*i].0.clone()).collect();
                ch.note(|| format!("arguments {args:?}"));
                let fine = k == 2 && words[pick[0]].1 && words[pick[1]].2;
                let der = k > 0 && pick[0] == 0;
                let b = REAL_CERTS[0].1.to_vec();
                let r = in_scratch(|dir| {
                    std::fs::write(dir.join("good"), &b).unwrap();
                    std::fs::write(dir.join(OsString::from_vec(odd.to_vec())), &b).unwrap();
                    run_program(dir, &args)
                });
                if r.crashed() {
                    return bad("the program ends by itself", r.how());
                }
                if !fine {
                    return refused(&args, &r);
                }
                let want = if der {
                    let mut h = Lines::default();
                    let _ = parse_all(&b, &mut h);
                    console(&h.lines)
                } else {
                    report(&rx509::x509::Certificate::parse(&b).unwrap()).shown
                };
                let got = String::from_utf8_lossy(&r.out).into_owned();
                if r.code != Some(0) || got != want {
                    let (e, a) = first_difference(&want, &got);
                    return bad(format!("success; {e}"), format!("{}; {a}", r.how()));
                }
                Ok(2 + der as u64)
            }
        },
    )
}

/// Everything one edit away from a word, and the word itself.
fn near(word: &[u8]) -> Vec<Vec<u8>> {
    const PUT: &[&[u8]] = &[b" ", b"\t", b"\n", b"\r", b"-", b"=", b"x", b"e", b"s", b"\"", b"'", b"*", b".", b"/", b"\x7F", b"\xFF", b"\xC2\xA0", b"\xE2\x80\x8B", b"\xEF\xBB\xBF", b"--"];
    let mut v = vec![word.to_vec(), word.to_ascii_uppercase(), word.repeat(2), [word, word].join(&b' '), word.iter().rev().copied().collect()];
    for at in 0..=word.len() {
        v.push(word[..at].to_vec());
        v.push(word[at..].to_vec());
        for p in PUT {
            v.push(cat(&[&word[..at], p, &word[at..]]));
        }
        if let Some(x) = word.get(at) {
            v.push(cat(&[&word[..at], &word[at + 1..]]));
            v.push(cat(&[&word[..=at], &word[at..]]));
            for y in [x ^ 0x20, x ^ 1, x | 0x80, b' ', b'_', b'?'] {
                v.push(cat(&[&word[..at], &[y], &word[at + 1..]]));
            }
            if let Some(y) = word.get(at + 1) {
                v.push(cat(&[&word[..at], &[*y, *x], &word[at + 2..]]));
            }
        }
    }
    v.retain(|w| !w.contains(&0));
    v.sort();
    v.dedup();
    v
}

/// Only the two flags are flags, and only the file of that very name is read.
fn near_misses() -> Family {
    use std::os::unix::ffi::OsStringExt;
    let words: Vec<Vec<Vec<u8>>> = [&b"--der"[..], b"--certs", b"good"].iter().map(|w| near(w)).collect();
    let what = format!(
        "flags one edit away from --der and --certs ({} and {} words), and file names one edit away from that of the only file ({} words)",
        words[0].len(),
        words[1].len(),
        words[2].len()
    );
    Family::new("near-misses", &what, 0, move || {
        let words = words.clone();
        move |ch: &mut Ch| {
            let k = ch.choose(3);
            let w = ch.pick(&words[k]).clone();
            let (flag, name) = match k {
                2 => (if ch.flip() { b"--certs".to_vec() } else { b"--der".to_vec() }, w),
                _ => (w, b"good".to_vec()),
            };
            let b = REAL_CERTS[0].1.to_vec();
            // dots and slashes lead to the file as well
            let path = Path::new(std::str::from_utf8(&name).unwrap_or("\u{fffd}"));
            let there = name == b"good" || (!name.ends_with(b"/") && path.components().collect::<PathBuf>() == Path::new("good"));
            if name.starts_with(b"/") || name.is_empty() || name.windows(2).any(|w| w == b"..") {
                return Err(Stop::Prune);
            }
            let args = [OsString::from_vec(flag.clone()), OsString::from_vec(name)];
            ch.note(|| format!("arguments {args:?}"));
            let r = in_scratch(|dir| {
                std::fs::write(dir.join("good"), &b).unwrap();
                run_program(dir, &args)
            });
            if r.crashed() {
                return bad("the program ends by itself", r.how());
            }
            let der = flag == b"--der";
            if !(der || flag == b"--certs") || !there {
                return refused(&args, &r);
            }
            let want = if der {
                let mut h = Lines::default();
                let _ = parse_all(&b, &mut h);
                console(&h.lines)
            } else {
                report(&rx509::x509::Certificate::parse(&b).unwrap()).shown
            };
            let got = String::from_utf8_lossy(&r.out).into_owned();
            if r.code != Some(0) || got != want {
                let (e, a) = first_difference(&want, &got);
                return bad(format!("success; {e}"), format!("{}; {a}", r.how()));
            }
            Ok(2 + der as u64)
        }
    })
}

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}

/// The same contents behind files of every kind and name.
fn files(o_sizes: Vec<usize>) -> Family {
    use std::os::unix::ffi::OsStringExt;
    use std::os::unix::fs::{symlink, OpenOptionsExt, PermissionsExt};
    let kinds = [
        "an ordinary file", "a read-only file", "an executable file", "a symbolic link", "a chain of three symbolic links", "a second name of a file", "a file in another folder",
        "a file by its absolute path", "a file by a path with . and ..", "a pipe fed at once", "a pipe fed octet by octet", "a pipe fed in two parts", "a file also open elsewhere", "a sparse file",
    ];
    let names: Vec<OsString> = [
        &b"input"[..], b"-", b"--", b"--der", b"--certs", b"-h", b"--help", b"-v", b"a b", b" ", b"a\nb", b"*", b"~", b"$HOME", b"%s", b"{}", b"a.pem", b"a.der", b"a.PEM", b"a.crt", b"a.cer", b"a.p7b", b"a.txt", b"a.gz",
        b"a.b64", b"a.hex", b"@input", b"file:input", b"\xC3\xBC", b"\xFF\xFE", b"\xE2\x82", b"0", b"nul", b"con", b"stdin", b"very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-",
    ]
    .iter()
    .map(|n| OsString::from_vec(n.to_vec()))
    .collect();
    let mut contents: Vec<Vec<u8>> = vec![vec![], vec![5, 0], plain_cert(false), REAL_CERTS[0].1.to_vec(), [REAL_CERTS[1].1, &[2]].concat()];
    contents.extend(o_sizes.iter().map(|n| cat(&[&tlv(4, &fill(*n, 1)), &[5, 0]])));
    let what = format!(
        "{} contents (empty, small, certificates, octet strings of {o_sizes:?} octets) as {}; and under each of {} names of ordinary files",
        contents.len(),
        kinds.join(", "),
        names.len()
    );
    Family::new("files", &what, 0, move || {
        let (names, contents) = (names.clone(), contents.clone());
        move |ch: &mut Ch| {
            let b = ch.pick(&contents).clone();
            let flag = if ch.flip() { "--certs" } else { "--der" };
            let k = ch.choose(kinds.len() + names.len() - 1);
            let (kind, name) = if k < kinds.len() { (k, names[0].clone()) } else { (0, names[k + 1 - kinds.len()].clone()) };
            ch.note(|| format!("{} named {name:?}", kinds[kind]));
            let lib = guard(|| {
                if flag == "--der" {
                    let mut h = Lines::default();
                    let r = parse_all(&b, &mut h).map_err(|e| e.to_string());
                    (console(&h.lines), r)
                } else {
                    match rx509::x509::Certificate::parse(&b) {
                        Ok(c) => (report(&c).shown, Ok(())),
                        Err(e) => (String::new(), Err(e.to_string())),
                    }
                }
            });
            let Ok((want, lib)) = lib else { return Ok(0) };
            let r = in_scratch(|outer| {
                let dir = outer.join("files");
                std::fs::create_dir_all(dir.join("sub")).unwrap();
                let path = dir.join(&name);
                let mut arg = name.clone();
                let put = |p: &Path| std::fs::write(p, &b).unwrap();
                let mut feeder = None;
                let mut held = None;
                match kind {
                    0 => put(&path),
                    1 | 2 => {
                        put(&path);
                        std::fs::set_permissions(&path, std::fs::Permissions::from_mode(if kind == 1 { 0o400 } else { 0o755 })).unwrap();
                    }
                    3 => {
                        put(&dir.join("target"));
                        symlink("target", &path).unwrap();
                    }
                    4 => {
                        put(&dir.join("sub/target"));
                        symlink("sub/target", dir.join("link1")).unwrap();
                        symlink(dir.join("link1"), dir.join("link2")).unwrap();
                        symlink("link2", &path).unwrap();
                    }
                    5 => {
                        put(&dir.join("target"));
                        std::fs::hard_link(dir.join("target"), &path).unwrap();
                    }
                    6 => {
                        put(&dir.join("sub/deep"));
                        arg = "sub/deep".into();
                    }
                    7 => {
                        put(&path);
                        arg = path.clone().into();
                    }
                    8 => {
                        put(&path);
                        arg = "./sub/.././input".into();
                    }
                    9 | 10 | 11 => {
                        let c = std::ffi::CString::new(path.as_os_str().as_encoded_bytes()).unwrap();
                        assert!(unsafe { mkfifo(c.as_ptr(), 0o600) } == 0);
                        let (p, b) = (path.clone(), b.clone());
                        feeder = Some(std::thread::spawn(move || {
                            use std::io::Write;
                            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&p) else { return };
                            let step = match kind {
                                9 => b.len().max(1),
                                10 => (b.len() / 64).max(1),
                                _ => (b.len() / 2).max(1),
                            };
                            for part in b.chunks(step) {
                                if f.write_all(part).is_err() {
                                    return;
                                }
                                std::thread::yield_now();
                            }
                        }));
                    }
                    12 => {
                        put(&path);
                        held = Some(std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap());
                    }
                    _ => {
                        let f = std::fs::File::create(&path).unwrap();
                        use std::os::unix::fs::FileExt;
                        // zero octets are left out
                        f.set_len(b.len() as u64).unwrap();
                        for (i, x) in b.chunks(4096).enumerate() {
                            if x.iter().any(|o| *o != 0) {
                                f.write_all_at(x, i as u64 * 4096).unwrap();
                            }
                        }
                    }
                }
                let r = run_program(&dir, &[flag.into(), arg]);
                if let Some(t) = feeder {
                    // a feeder nobody listened to
                    let mut release = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&path).unwrap();
                    while !t.is_finished() {
                        let _ = release.read(&mut [0; 4096]);
                        std::thread::yield_now();
                    }
                    let _ = t.join();
                }
                drop(held);
                std::fs::remove_dir_all(&dir).unwrap();
                r
            });
            if r.crashed() {
                return bad("the program ends by itself", r.how());
            }
            let got = String::from_utf8_lossy(&r.out).into_owned();
            match lib {
                Ok(()) if r.code == Some(0) && got == want => Ok(1 + k as u64),
                Err(e) if r.err.contains(&e) && got.starts_with(&want) => Ok(1000 + k as u64),
                lib => {
                    let (e, a) = first_difference(&want, &got);
                    bad(format!("{lib:?} of {} named {name:?}; {e}", kinds[kind]), format!("{}; {a}", r.how()))
                }
            }
        }
    })
}

extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, b: *mut u8, n: usize) -> i32;
    fn tcgetattr(fd: i32, t: *mut [u64; 32]) -> i32;
    fn tcsetattr(fd: i32, when: i32, t: *const [u64; 32]) -> i32;
    fn cfmakeraw(t: *mut [u64; 32]);
    fn ioctl(fd: i32, request: u64, ...) -> i32;
}

/// A terminal of so many columns that changes nothing it is given: its two ends.
fn terminal(columns: u16) -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    // SAFETY: the C functions, on buffers of sufficient size
    unsafe {
        let fd = posix_openpt(0o2 | 0o400 | 0o2000000);
        if fd < 0 {
            return None;
        }
        let master = std::fs::File::from_raw_fd(fd);
        let mut name = [0u8; 100];
        if grantpt(fd) != 0 || unlockpt(fd) != 0 || ptsname_r(fd, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let name = std::ffi::CStr::from_bytes_until_nul(&name).unwrap().to_str().unwrap();
        use std::os::unix::fs::OpenOptionsExt;
        let slave = std::fs::OpenOptions::new().read(true).write(true).custom_flags(0o400).open(name).ok()?;
        let mut t = [0; 32];
        tcgetattr(slave.as_raw_fd(), &mut t);
        cfmakeraw(&mut t);
        tcsetattr(slave.as_raw_fd(), 0, &t);
        ioctl(fd, 0x5414, &[24u16, columns, 0, 0]);
        Some((master, slave))
    }
}

/// Asked for by many programs.
const VARIABLES: &[&str] = &[
    "LANG", "LC_ALL", "LANGUAGE", "TERM", "COLUMNS", "LINES", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLORTERM", "PAGER", "HOME", "TMPDIR", "TZ", "USER", "PWD", "DEBUG", "VERBOSE", "QUIET", "RUST_LOG", "RUST_BACKTRACE", "POSIXLY_CORRECT", "SOURCE_DATE_EPOCH", "INDENT", "CI",
];

/// The same file, with other standard streams, variables, folders and names of the program.
fn surroundings(t: Tier) -> Family {
    let outputs = ["a pipe", "a file", "a file's end", "a terminal of 80 columns", "a terminal of 20 columns", "a terminal of no size", "a socket", "a pipe said to be a terminal", "a terminal said not to be one"];
    let inputs = ["/dev/null", "a closed descriptor", "a pipe with octets in it", "the given file"];
    let rest = ["nothing else changed", "another folder", "the name --certs for the program", "no name for the program", "standard error on the same file as standard output", "every signal's default action"];
    let values = crate::outside::VALUES;
    let contents: Vec<Vec<u8>> = t.pick(
        vec![REAL_CERTS[0].1.to_vec(), cat(&[&tlv(0x30, &tlv(3, &fill(40, 0))), &tlv(12, &[b'a'; 300]), &[2, 0]])],
        vec![REAL_CERTS[0].1.to_vec(), cat(&[&tlv(0x30, &tlv(3, &fill(40, 0))), &[2, 0]]), plain_cert(true), vec![], cat(&[&tlv(12, "\u{e9}\u{202e}\x1b[1m".as_bytes()), &tlv(12, &[b'a'; 3000])])],
    );
    let what = format!(
        "{} files in both modes with {} kinds of standard output ({}), {} of standard input ({}), {} answers to every variable asked for and {} variables of that value, and {}",
        contents.len(),
        outputs.len(),
        outputs.join(", "),
        inputs.len(),
        inputs.join(", "),
        values.len(),
        VARIABLES.len(),
        rest.join(", ")
    );
    Family::new("surroundings", &what, 0, move || {
        let contents = contents.clone();
        let mut known: Option<(Vec<u8>, &str, Run)> = None;
        move |ch: &mut Ch| {
            let b = ch.pick(&contents).clone();
            let flag = if ch.flip() { "--certs" } else { "--der" };
            let (o, i, v, r) = (ch.choose(outputs.len()), ch.choose(inputs.len()), ch.choose(values.len()), ch.choose(rest.len()));
            ch.saw(&b);
            ch.note(|| format!("standard output {}, standard input {}, every variable {:?}, {}", outputs[o], inputs[i], values[v].map(String::from_utf8_lossy), rest[r]));
            if known.as_ref().map_or(true, |k| k.0 != b || k.1 != flag) {
                known = Some((b.clone(), flag, run_on(flag, &b)));
            }
            let base = &known.as_ref().unwrap().2;
            if base.crashed() {
                return Ok(0);
            }
            let text = values[v].map(|t| <OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(&t[..t.len() - 1]).to_os_string());
            let got = in_scratch(|outer| {
                use std::os::fd::AsFd;
                let dir = outer.join("around");
                std::fs::create_dir_all(&dir).unwrap();
                let given = dir.join("input");
                std::fs::write(&given, &b).unwrap();
                let mut env: Vec<(&str, OsString)> = vec![("LD_PRELOAD", super::faults::library(outer).into())];
                if let Some(t) = &text {
                    env.push(("FAULTS_ANSWER", t.clone()));
                    env.extend(VARIABLES.iter().map(|n| (*n, t.clone())));
                }
                if o >= 7 {
                    env.push(("FAULTS_TTY", if o == 7 { "1" } else { "0" }.into()));
                }
                let mut end: Option<std::os::fd::OwnedFd> = None;
                let mut file = None;
                let mut reader = None;
                let mut read = |mut f: Box<dyn Read + Send>| {
                    reader = Some(std::thread::spawn(move || {
                        let (mut v, mut part) = (vec![], [0; 4096]);
                        while let Ok(n @ 1..) = f.read(&mut part) {
                            v.extend_from_slice(&part[..n]);
                        }
                        v
                    }))
                };
                match o {
                    1 => {
                        file = Some(0);
                        end = Some(std::fs::File::create(dir.join("output")).unwrap().into());
                    }
                    2 => {
                        std::fs::write(dir.join("output"), "before").unwrap();
                        file = Some(6);
                        end = Some(std::fs::OpenOptions::new().append(true).open(dir.join("output")).unwrap().into());
                    }
                    3 | 4 | 5 | 8 => {
                        // none to be had: an ordinary pipe
                        if let Some((master, slave)) = terminal([80, 20, 0, 0, 0, 80][o - 3]) {
                            read(Box::new(master));
                            end = Some(slave.into());
                        }
                    }
                    6 => {
                        let (x, y) = std::os::unix::net::UnixStream::pair().unwrap();
                        read(Box::new(x));
                        end = Some(y.into());
                    }
                    _ => {}
                }
                let fed = (i == 2).then(|| {
                    let (x, mut y) = std::io::pipe().unwrap();
                    std::io::Write::write_all(&mut y, &[0x30, 3, 2, 1, 5, b'\n']).unwrap();
                    x
                });
                let other = dir.join("elsewhere");
                std::fs::create_dir_all(&other).unwrap();
                let arg: OsString = if r == 1 { given.clone().into() } else { "input".into() };
                let mut run = run_with(&dir, &[flag.into(), arg], &env, Some(&|cmd: &mut Command| {
                    if let Some(e) = &end {
                        cmd.stdout(e.as_fd().try_clone_to_owned().unwrap());
                        if r == 4 {
                            cmd.stderr(e.as_fd().try_clone_to_owned().unwrap());
                        }
                    }
                    match i {
                        1 => unsafe {
                            use std::os::unix::process::CommandExt;
                            cmd.pre_exec(|| {
                                close(0);
                                Ok(())
                            });
                        },
                        2 => {
                            cmd.stdin(fed.as_ref().unwrap().try_clone().unwrap());
                        }
                        3 => {
                            cmd.stdin(std::fs::File::open(&given).unwrap());
                        }
                        _ => {}
                    }
                    use std::os::unix::process::CommandExt;
                    match r {
                        1 => {
                            cmd.current_dir(&other);
                        }
                        2 => {
                            cmd.arg0("--certs");
                        }
                        3 => {
                            cmd.arg0("");
                        }
                        5 => unsafe {
                            cmd.pre_exec(|| {
                                (1..32).for_each(|n| {
                                    signal(n, 0);
                                });
                                Ok(())
                            });
                        },
                        _ => {}
                    }
                }));
                drop(end);
                if let Some(k) = file {
                    run.out = std::fs::read(dir.join("output")).unwrap().split_off(k);
                }
                if let Some(t) = reader {
                    run.out = t.join().unwrap();
                }
                run
            });
            // one stream for both: what comes from standard error is found in it
            let both = r == 4 && matches!(o, 1..=6 | 8);
            let mut want = base.out.clone();
            if both {
                want.extend(base.err.as_bytes());
            }
            let fits = got.out == want || both && got.out.len() == want.len() && base.err.lines().all(|l| String::from_utf8_lossy(&got.out).contains(l));
            if !fits || got.code != base.code || !both && got.err != base.err {
                let (e, a) = first_difference(&String::from_utf8_lossy(&want), &String::from_utf8_lossy(&got.out));
                return bad(format!("as with the usual surroundings: {}; {e}", base.how()), format!("{}; {a}", got.how()));
            }
            Ok(1 + o as u64)
        }
    })
}

extern "C" {
    fn close(fd: i32) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}

/// Files of many sizes, something to find at their end.
fn file_sizes(most: u32, o: &Oracle) -> Family {
    built(
        "file-sizes",
        &format!("an octet string, then Null: files of 2^k octets and up to three more or less, k = 9..={most}, and of every multiple of 4096 up to 128 KiB, one more or less"),
        0,
        o,
        move |ch| {
            let n = if ch.flip() {
                (1usize << (9 + ch.choose(most as usize - 8))) + ch.choose(7) - 3
            } else {
                4096 * (1 + ch.choose(32)) + ch.choose(3) - 1
            };
            for l in 0..6 {
                let b = cat(&[&tlv(4, &vec![0; n.saturating_sub(l + 4)]), &[5, 0]]);
                if b.len() == n {
                    return Ok(b);
                }
            }
            Err(Stop::Prune)
        },
    )
}

/// Files ending in any octet: nothing is cut off the end of a file.
fn last_octets(sizes: Vec<usize>, o: &Oracle) -> Family {
    const ENDS: &[u8] = &[0x00, 0x0A, 0x0D, 0x1A, 0x20, 0x2D, 0x3D, 0xFF];
    built(
        "last-octets",
        &format!("octet strings, and certificates with signatures, of {sizes:?} octets, the last octet any of 256, or the last two any of {ENDS:02x?}, or all of them one of these"),
        0,
        o,
        move |ch| {
            let n = *ch.pick(&sizes);
            let mut c = fill(n, 3);
            match ch.choose(3) {
                0 => c[n - 1] = ch.choose(256) as u8,
                1 => {
                    c[n - 2] = *ch.pick(ENDS);
                    c[n - 1] = *ch.pick(ENDS);
                }
                _ => c = vec![*ch.pick(ENDS); n],
            }
            Ok(if ch.flip() { tlv(4, &c) } else { super::more::cert_of(false, |m| m.sig = vec![tlv(3, &cat(&[&[0], &c]))]) })
        },
    )
}

fn bit_strings(max: usize, o: &Oracle) -> Family {
    built(
        "bit-strings",
        &format!("bit strings of every size 0..={max}, padding 0 or 5, at depths 0..=3, before and after siblings"),
        0,
        o,
        move |ch| {
            let n = ch.choose(max + 1);
            let mut c = vec![if n > 0 && ch.flip() { 5 } else { 0 }];
            c.extend(fill(n, 4));
            let mut e = tlv(3, &c);
            for _ in 0..ch.choose(4) {
                e = cat(&[&[5, 0], &tlv(0x30, &e), &[1, 1, 0]]);
            }
            Ok(e)
        },
    )
}

pub fn ext_certs(n: usize, o: &Oracle) -> Family {
    let mut items: Vec<Vec<u8>> = ext_kinds().into_iter().map(|(id, c)| ext_of(id, Some(0xFF), &c)).collect();
    items.push(ext_of(OID_SAN, None, &seq(&[&tlv(0x87, &[10, 0, 0, 1]), &tlv(0x82, b"after"), &tlv(0x88, &[0x2A, 3])])));
    items.push(ext_of(&[1, 2, 3], None, &fill(20, 2)));
    items.push(ext_of(OID_KU, None, &[]));
    built(
        "extension-lists",
        &format!("certificates with all lists of 0..={n} extensions over {} kinds (one undecodable)", items.len()),
        0,
        o,
        move |ch| Ok(cert_with_ext(&tlv(0x30, &sequence_of(ch, n, &items)))),
    )
}

/// Certificates with some octets changed.
pub fn changed(values: &'static [u8], o: &Oracle) -> Family {
    let certs = base_certs();
    built(
        "changed-octets",
        &format!("the six base certificates, each octet replaced by each of {values:02x?}"),
        0,
        o,
        move |ch| {
            let mut b = ch.pick(&certs).clone();
            let p = ch.choose(b.len());
            b[p] = *ch.pick(values);
            Ok(b)
        },
    )
}

fn prefixes(o: &Oracle) -> Family {
    let certs = base_certs();
    built("prefixes", "every prefix of the six base certificates", 0, o, move |ch| {
        let c = ch.pick(&certs);
        Ok(c[..ch.choose(c.len() + 1)].to_vec())
    })
}

pub fn p03(t: Tier) -> Vec<Family> {
    let e = oracle(elements);
    let c = oracle(certificate);
    let b = oracle(both);
    let mut depths: Vec<usize> = (0..=40).collect();
    depths.extend([100, 255, 256, 257, 500, 1000]);
    if t == Tier::Thorough {
        depths.extend([2000, 3000]);
    }
    vec![
        arguments(t.pick(3, 4)),
        near_misses(),
        files(t.pick(vec![4089, 65536, 1 << 20], vec![4085, 4089, 8192, 65535, 65536, 1 << 20, (1 << 24) + 5])),
        surroundings(t),
        file_sizes(t.pick(26, 28), &e),
        last_octets(t.pick(vec![60, 4096, 5000], vec![60, 250, 511, 1024, 2047, 4096, 5000, 8191, 20000, 70000]), &b),
        super::more::marked(&b),
        bytes_upto(1, &b),
        alphabet("strings", t.pick(&[0x00, 0x01, 0x02, 0x05, 0x30][..], DER_ALPHA_SMALL), t.pick(4, 5), &b),
        contents("contents", TAGS, 1, &e),
        patterns("patterns", &[0x02, 0x06, 0x0C], t.pick(5, 10), &[0x2A], &e),
        trees("trees", tree_menu, t.pick(2, 3), 1, &e),
        bit_strings(t.pick(70, 300), &e),
        sizes("sizes", t.pick(&[0x02, 0x06, 0x0C][..], TAGS), t.pick(40, 300), &e),
        depth_sweep("depths", depths, &e),
        fan_sweep("siblings", t.pick(20, 100), &e),
        cert_legal(t.pick(1, 2), &c),
        cert_sizes(t.pick(40, 200), &c),
        ext_certs(t.pick(2, 3), &c),
        prefixes(&b),
        changed(t.pick(&[0x00, 0x80][..], &[0x00, 0x01, 0x02, 0x05, 0x30, 0x7F, 0x80, 0xFF][..]), &b),
    ]
}
