//! P05: the decoder program with its calls on the file, on standard output and for memory failing at
//! every point (faults.c is preloaded into it), against its own run without faults.

use super::program::{cut, in_scratch, run_with, Run};
use super::x509::ext_kinds;
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;

const LIBRARY: &[u8] = include_bytes!(concat!(env!("OUT_DIR"), "/faults.so"));

extern "C" {
    fn setrlimit(res: i32, new: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}

/// What became of one call without a fault of its own.
#[derive(Clone, Copy, Debug)]
struct Call {
    class: char,
    result: u64,
}

/// The program's options and file.
#[derive(Clone)]
struct Case {
    what: String,
    flag: &'static str,
    file: Vec<u8>,
}

/// Leaves the result as it is: interruptions, and transfers done in parts.
fn harmless(action: &str) -> bool {
    action == "e4" || action.starts_with('s')
}

/// Where the library is, in a scratch folder.
pub(super) fn library(outer: &Path) -> PathBuf {
    let dir = outer.join("faults");
    let lib = dir.join("faults.so");
    if !lib.exists() {
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(&lib, LIBRARY).unwrap();
    }
    lib
}

fn run_faulty(c: &Case, classes: &str, plan: &[(usize, String)], each: &str) -> (Run, Vec<Call>) {
    in_scratch(|outer| {
        let dir = outer.join("faults");
        let lib = library(outer);
        let log = dir.join("log");
        let _ = std::fs::remove_file(&log);
        std::fs::write(dir.join("given"), &c.file).unwrap();
        let text: Vec<String> = plan.iter().map(|(at, a)| format!("{at}{a}")).collect();
        let env: [(&str, OsString); 6] = [
            ("LD_PRELOAD", lib.into()),
            ("FAULTS_FILE", "given".into()),
            ("FAULTS_LOG", log.clone().into()),
            ("FAULTS_CLASS", classes.into()),
            ("FAULTS_PLAN", text.join(",").into()),
            ("FAULTS_EACH", each.into()),
        ];
        let r = run_with(&dir, &[c.flag.into(), "given".into()], &env, None);
        let calls = std::fs::read_to_string(&log).expect("the faults library was not loaded");
        let calls = calls
            .lines()
            .map(|l| Call { class: l.chars().next().unwrap(), result: l[2..].parse().unwrap() })
            .collect();
        (r, calls)
    })
}

type Known = Rc<(Run, Vec<Call>)>;

thread_local! {
    /// runs with fewer faults than the most explored, by case and plan
    static KNOWN: RefCell<HashMap<(String, String), Known>> = RefCell::new(HashMap::new());
}

fn known(c: &Case, classes: &str, plan: &[(usize, String)]) -> Known {
    let key = (format!("{} {} {classes}", c.what, c.flag), format!("{plan:?}"));
    if let Some(k) = KNOWN.with(|k| k.borrow().get(&key).cloned()) {
        return k;
    }
    let r = Rc::new(run_faulty(c, classes, plan, ""));
    KNOWN.with(|k| {
        let mut k = k.borrow_mut();
        if k.len() > 20_000 {
            k.clear();
        }
        k.insert(key, r.clone());
    });
    r
}

fn judge(base: &Run, r: &Run, plan: &[(usize, String)], calls: &[Call], each: bool) -> Step {
    let text = || String::from_utf8_lossy(&r.out).into_owned();
    if !base.out.starts_with(&r.out) {
        let same = base.out.iter().zip(&r.out).take_while(|(a, b)| a == b).count();
        return bad(
            format!("standard output a beginning of the {} octets written without faults", base.out.len()),
            format!("{} octets, different from octet {same} on: {:?}; {}", r.out.len(), cut(&text()[text().floor_char_boundary(same)..]), r.how()),
        );
    }
    if plan.iter().all(|(_, a)| harmless(a)) {
        // only interruptions and partial transfers
        if r.code != base.code || r.out != base.out || r.err != base.err {
            return bad(
                format!("as without the interruptions and partial transfers: {} octets on standard output, {}", base.out.len(), base.how()),
                format!("{} octets, {}", r.out.len(), r.how()),
            );
        }
        return Ok(if each { 1 } else { 2 });
    }
    if plan.iter().any(|(_, a)| a == "k") {
        return Ok(3);
    }
    if matches!(r.signal, Some(9 | 24)) {
        return bad("the program ends by itself", r.how());
    }
    if r.code == Some(0) {
        if r.out != base.out {
            return bad("a failure status, or all of the output", format!("{} of {} octets, {}", r.out.len(), base.out.len(), r.how()));
        }
        for (at, a) in plan {
            let class = calls.get(*at).map(|c| c.class);
            if a.ends_with('+') && matches!(class, Some('o' | 'r')) && !a.starts_with('s') {
                return bad("a failure status, the file not being readable from a point on", r.how());
            }
        }
        return Ok(4);
    }
    Ok(10 + r.code.unwrap_or(-1) as u64 % 256 + 1000 * r.out.len() as u64)
}

/// What may happen at a call.
fn actions(c: Call, all: bool) -> Vec<String> {
    let n = c.result;
    let mut v: Vec<&str> = match c.class {
        'o' => vec!["e4", "e2", "e13", "e24", "e5+"],
        'r' => vec!["e4", "e5", "e5+", "e21", "e11", "k"],
        'w' => vec!["e4", "e28", "e28+", "e32+", "e5", "e11", "z", "z+", "s1+", "k"],
        's' => vec!["e5", "e5+"],
        'm' => vec!["e12", "e12+"],
        _ => vec![],
    };
    if !all {
        v.retain(|a| matches!(*a, "e4" | "e5+" | "e5" | "e28" | "e28+" | "z" | "e12"));
    }
    let mut v: Vec<String> = v.into_iter().map(String::from).collect();
    if matches!(c.class, 'r' | 'w') {
        let mut part: Vec<u64> = if all { vec![1, n / 2, n.saturating_sub(1)] } else { vec![n / 2] };
        part.retain(|k| 0 < *k && *k < n);
        part.dedup();
        v.extend(part.iter().map(|k| format!("s{k}")));
    }
    v
}

/// Up to `most` faults, each at any call after the one before, on every case.
fn faults(name: &str, what: &str, cases: Vec<Case>, classes: &'static str, most: usize, all: bool) -> Family {
    let list: Vec<&str> = cases.iter().map(|c| &c.what[..]).collect();
    let kinds = match (classes, all) {
        ("m", _) => "no memory, once or from then on",
        (_, true) => "open: EINTR, ENOENT, EACCES, EMFILE, EIO for good; read: EINTR, EIO once or for good, EISDIR, EAGAIN, 1 octet, half, all but one, killed; write: EINTR, ENOSPC once or for good, EPIPE, EIO, EAGAIN, nothing once or for good, 1 octet once or for good, half, all but one, killed; size and position: EIO once or for good",
        _ => "open: EINTR, EIO for good; read: EINTR, EIO once or for good, half; write: EINTR, ENOSPC once or for good, EIO, nothing, half; size and position: EIO once or for good",
    };
    Family::new(name, &format!("{what}: 0..={most} faults at all {most}-tuples of the calls of a run, the calls after a fault being those of the run with it ({kinds}); of {}", list.join(", ")), 0, move || {
        let cases = cases.clone();
        move |ch: &mut Ch| {
            let c = ch.pick(&cases);
            ch.saw(&c.file);
            ch.note(|| format!("decoder {} on {}", c.flag, c.what));
            let base = known(c, classes, &[]);
            if base.0.crashed() {
                // of that P03 tells
                return Ok(0);
            }
            let mut plan: Vec<(usize, String)> = vec![];
            let mut last = base.clone();
            loop {
                let from = plan.last().map_or(0, |p| p.0 + 1);
                let calls = &last.1;
                if plan.len() == most || from >= calls.len() || !ch.flip() {
                    break;
                }
                let at = from + ch.choose(calls.len() - from);
                let list = actions(calls[at], all);
                if list.is_empty() {
                    return Err(Stop::Prune);
                }
                let a = ch.pick(&list).clone();
                ch.note(|| format!("call {at} ({} with result {}): {a}", calls[at].class, calls[at].result));
                plan.push((at, a));
                last = if plan.len() < most { known(c, classes, &plan) } else { Rc::new(run_faulty(c, classes, &plan, "")) };
            }
            judge(&base.0, &last.0, &plan, &last.1, false)
        }
    })
}

/// Every call interrupted before it is done, or every transfer done octet by octet.
fn each(cases: Vec<Case>) -> Family {
    let what = format!("{} files: every call interrupted once before it is done, every read and write of one octet only, and both in turn", cases.len());
    Family::new("every-call", &what, 0, move || {
        let cases = cases.clone();
        move |ch: &mut Ch| {
            let c = ch.pick(&cases);
            ch.saw(&c.file);
            let mode = *ch.pick(&["i", "1"]);
            ch.note(|| format!("decoder {} on {}, every call: {mode}", c.flag, c.what));
            let base = known(c, "orw", &[]);
            if base.0.crashed() {
                return Ok(0);
            }
            let r = run_faulty(c, "orw", &[], mode);
            judge(&base.0, &r.0, &[], &r.1, true)
        }
    })
}

/// The system's own faults: a full device, a size limit, a reader that has gone.
fn system(cases: Vec<Case>) -> Family {
    let what = format!("{} files with standard output a full device, a socket nobody reads, and a file that may grow to n octets for every n up to the whole output", cases.len());
    Family::new("system-faults", &what, 0, move || {
        let cases = cases.clone();
        move |ch: &mut Ch| {
            let c = ch.pick(&cases);
            ch.saw(&c.file);
            let base = known(c, "", &[]);
            if base.0.crashed() {
                return Ok(0);
            }
            let len = base.0.out.len();
            let n = ch.choose(len + 3);
            let r = in_scratch(|outer| {
                std::fs::create_dir_all(outer.join("faults")).unwrap();
                let dir = outer.join("faults");
                std::fs::write(dir.join("given"), &c.file).unwrap();
                let path = dir.join("output");
                let mut r = run_with(&dir, &[c.flag.into(), "given".into()], &[], Some(&|cmd: &mut Command| match n {
                    0 => {
                        cmd.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
                    }
                    1 => {
                        // a pipe would do, but that its reading end may live on for a moment in a process
                        // another worker has forked and that has not yet executed its program
                        let (reader, writer) = std::os::unix::net::UnixStream::pair().unwrap();
                        reader.shutdown(std::net::Shutdown::Both).unwrap();
                        cmd.stdout(Stdio::from(std::os::fd::OwnedFd::from(writer)));
                    }
                    _ => {
                        // the limit would hold for a file behind it as well
                        cmd.stderr(Stdio::null());
                        let most = n as u64 - 2;
                        cmd.stdout(std::fs::File::create(&path).unwrap());
                        // SAFETY: two system calls
                        unsafe {
                            cmd.pre_exec(move || {
                                signal(25, 1); // SIGXFSZ ignored: the write itself fails
                                setrlimit(1, &[most, most]);
                                Ok(())
                            });
                        }
                    }
                }));
                if n >= 2 {
                    r.out = std::fs::read(&path).unwrap();
                }
                r
            });
            ch.note(|| format!("decoder {} on {}, standard output {}", c.flag, c.what, match n {
                0 => "/dev/full".into(),
                1 => "a socket whose other end is shut".into(),
                n => format!("a file limited to {} octets", n - 2),
            }));
            if n == len + 2 {
                if r.code != base.0.code || r.out != base.0.out {
                    return bad(format!("as ever: {}", base.0.how()), format!("{} of {len} octets, {}", r.out.len(), r.how()));
                }
                return Ok(1);
            }
            let plan = [(0, String::from("e28"))];
            judge(&base.0, &r, &plan, &[], false)
        }
    })
}

fn cases(list: &[(&str, Vec<u8>)]) -> Vec<Case> {
    let mut v = vec![];
    for (what, file) in list {
        for flag in ["--der", "--certs"] {
            v.push(Case { what: format!("{what} ({flag})"), flag, file: file.clone() });
        }
    }
    v
}

fn deep(n: usize) -> Vec<u8> {
    (0..n).fold(vec![5, 0], |e, _| tlv(0x30, &e))
}

pub fn p05(t: Tier) -> Vec<Family> {
    let bits = {
        let mut c = vec![0];
        c.extend(fill(20, 4));
        tlv(0x30, &cat(&[&tlv(3, &c), &[1, 1, 0xFF]]))
    };
    let exts: Vec<Vec<u8>> = ext_kinds().into_iter().map(|(id, c)| ext_of(id, Some(0xFF), &c)).collect();
    let exts: Vec<&[u8]> = exts.iter().map(|e| &e[..]).collect();
    let rich = cert_with_ext(&tlv(0x30, &cat(&exts)));
    let text = tlv(0x0C, "ein Text\nmit Zeilen".as_bytes());
    let broken_cert = {
        let mut b = plain_cert(false);
        let n = b.len();
        b.truncate(n - 1);
        b
    };
    let small = cases(&[
        ("an empty file", vec![]),
        ("a Null", vec![5, 0]),
        ("a sequence with a bit string", bits.clone()),
        ("a text", text.clone()),
        ("a text and a defect", cat(&[&text, &[2, 0]])),
        ("a defect", vec![0x30, 5, 1]),
    ]);
    let certs = cases(&[("a small certificate", plain_cert(false)), ("a full certificate", plain_cert(true))]);
    let large = cases(&[
        ("the first real certificate", REAL_CERTS[0].1.to_vec()),
        ("the second real certificate", REAL_CERTS[1].1.to_vec()),
        ("a certificate with every extension", rich),
        ("a certificate cut short", broken_cert),
        ("a certificate and an octet", cat(&[&plain_cert(true), &[0]])),
        ("nested sequences", deep(60)),
        ("an octet string of 100000 octets", cat(&[&tlv(4, &fill(100_000, 1)), &[5, 0]])),
        ("a long text", cat(&[&tlv(0x0C, &vec![b'a'; 5000]), &[5, 0]])),
        ("a long bit string", tlv(3, &cat(&[&[0], &fill(3000, 2)]))),
    ]);
    let of_sizes: Vec<(String, Vec<u8>)> = [28usize, 32, 33, 4096, 8192, 65536, 1 << 20].iter().map(|n| (format!("a file of {n} octets"), {
        let k = (0..7).find(|l| tlv(4, &fill(n - 2 - l, 1)).len() + 2 == *n).unwrap();
        cat(&[&tlv(4, &fill(n - 2 - k, 1)), &[5, 0]])
    })).collect();
    let of_sizes: Vec<(&str, Vec<u8>)> = of_sizes.iter().map(|(a, b)| (&a[..], b.clone())).collect();
    let every: Vec<Case> = small.iter().chain(&certs).chain(&large).cloned().collect();
    let mut most: Vec<Case> = every.clone();
    most.extend(cases(&of_sizes));
    let mut v = vec![
        faults("one-fault", "one fault", most.clone(), "orws", 1, true),
        faults("two-faults", "two faults in small files", small.clone(), "orws", 2, true),
        faults("two-faults-certs", "two faults in certificates", certs[..2].to_vec(), "orws", 2, t == Tier::Thorough),
        faults("memory", "memory", every.clone(), "m", 1, true),
        each(most.iter().filter(|c| c.file.len() < 200_000).cloned().collect()),
        system(small.iter().chain(&certs).chain(&large[..4]).cloned().collect()),
    ];
    if t == Tier::Thorough {
        v.push(faults("three-faults", "three faults in small files", small.clone(), "orws", 3, false));
        v.push(faults("three-faults-all", "three faults in the smallest files", [&small[..4], &small[5..]].concat(), "orws", 3, true));
        let some = certs[2..].iter().chain(&large[..2]).chain(&large[6..12]).cloned().collect();
        v.push(faults("two-faults-large", "two faults in larger files", some, "orws", 2, false));
        v.push(faults("memory-and-calls", "memory and calls together", small, "orwsm", 2, true));
    }
    v
}
