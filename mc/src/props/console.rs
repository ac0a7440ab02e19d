//! P04: what the console line printer writes, for every sequence of calls up to a depth.
//!
//! The calls are made in a process of its own (`mc console`), whose standard output is read back.

use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use rx509::x509::printer::{ConsoleLinePrinter, LinePrinter};
use std::io::{BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Call {
    BeginType,
    EndType,
    BeginLine,
    Str(String),
    Fmt(String),
    LnStr(String),
    LnFmt(String),
    /// The text written in one of several ways by what is formatted.
    Made(usize, String),
    LnMade(usize, String),
    /// One of the constant texts, with nothing to format.
    Const(usize),
    LnConst(usize),
    /// A new printer in place of the old one.
    New,
}

use Call::*;

/// A call on one of the two printers.
type Script = Vec<(u8, Call)>;

macro_rules! constants {
    ($($t:literal),*) => {
        const CONSTANTS: &[&str] = &[$($t),*];

        /// Formatting nothing gives the constant itself.
        fn constant(k: usize, f: &mut dyn FnMut(&core::fmt::Arguments)) {
            let mut n = 0;
            $(if n == k {
                return f(&format_args!($t));
            }
            n += 1;)*
            let _ = n;
        }
    };
}
constants!("", " ", "a", "two words", "a\nb", "ends\n", "\u{e9}", "\0", "%s", "a longer text, which stays on its own line, however long it may get and wherever it may end up in the report");

/// How many ways there are of making a text.
const WAYS: usize = 5;

/// Writes its text by octet-wise, piecewise or nested formatting.
struct Writes<'a>(usize, &'a str);

impl core::fmt::Display for Writes<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        use core::fmt::Write;
        match self.0 {
            0 => self.1.chars().try_for_each(|c| f.write_char(c)),
            1 => self.1.split_inclusive(' ').try_for_each(|w| f.write_str("").and_then(|_| f.write_str(w))),
            2 => write!(f, "{}{}", Writes(0, ""), Writes(0, self.1)),
            // a precision has sixteen bits
            3 if self.1.len() < 60000 => write!(f, "{:.*}{}", self.1.chars().count(), self.1, ""),
            _ => f.pad(self.1),
        }
    }
}

/// Never part of a text.
const END: &[u8] = b"\xFFend\n";
const PANICKED: &[u8] = b"\xFFpanic\n";
const DIED: &[u8] = b"\xFFdied\n";

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, options: i32) -> i32;
    fn alarm(seconds: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// What a script runs in: usual surroundings, or one of the answers of `outside.rs`.
type Around = (u8, u8);

const USUAL: Around = (0, 0);

fn encode(default: bool, around: Around, s: &Script) -> Vec<u8> {
    let mut b = vec![default as u8, around.0, around.1];
    for (p, c) in s {
        let (k, t) = match c {
            BeginType => (0, ""),
            EndType => (1, ""),
            BeginLine => (2, ""),
            Str(t) => (3, t.as_str()),
            Fmt(t) => (4, t.as_str()),
            LnStr(t) => (5, t.as_str()),
            LnFmt(t) => (6, t.as_str()),
            New => (63, ""),
            Const(_) => (7, ""),
            LnConst(_) => (8, ""),
            Made(w, t) => (9 + *w as u8, t.as_str()),
            LnMade(w, t) => (9 + (WAYS + *w) as u8, t.as_str()),
        };
        b.push(p << 6 | k);
        b.push(if let Const(i) | LnConst(i) = c { *i as u8 } else { 0 });
        b.extend((t.len() as u32).to_le_bytes());
        b.extend(t.as_bytes());
    }
    let mut m = (b.len() as u32).to_le_bytes().to_vec();
    m.extend(b);
    m
}

/// The process that prints; exits when its input ends.
pub fn console_process() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = std::io::stdin().lock();
    loop {
        let mut n = [0; 4];
        if input.read_exact(&mut n).is_err() {
            return 0;
        }
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        if input.read_exact(&mut b).is_err() {
            return 2;
        }
        // a pristine process for every script
        let pid = unsafe { fork() };
        if pid > 0 {
            let mut st = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            if st != 0 {
                let mut out = std::io::stdout().lock();
                let _ = out.write_all(DIED).and_then(|_| out.flush());
            }
            continue;
        }
        unsafe { alarm(200) };
        crate::outside::set(b[1] as usize, 0, 0, 0, b[2] as usize);
        let r = std::panic::catch_unwind(|| {
            let new = || if b[0] == 1 { Default::default() } else { ConsoleLinePrinter::new() };
            let mut printers = [new(), new()];
            let mut at = 3;
            while at < b.len() {
                let (p, k, which) = (b[at] >> 6, b[at] & 63, b[at + 1] as usize);
                let n = u32::from_le_bytes(b[at + 2..at + 6].try_into().unwrap()) as usize;
                let t = std::str::from_utf8(&b[at + 6..at + 6 + n]).unwrap();
                at += 6 + n;
                if k == 63 {
                    printers[p as usize] = new();
                    continue;
                }
                let p: &mut dyn LinePrinter = &mut printers[p as usize];
                match k {
                    0 => p.begin_type(),
                    1 => p.end_type(),
                    2 => p.begin_line(),
                    3 => p.print_str(t),
                    4 => p.print_fmt(&format_args!("{t}")),
                    5 => p.println_str(t),
                    6 => p.println_fmt(&format_args!("{t}")),
                    7 => constant(which, &mut |a| p.print_fmt(a)),
                    8 => constant(which, &mut |a| p.println_fmt(a)),
                    w => match w as usize - 9 {
                        w if w < WAYS => p.print_fmt(&format_args!("{}", Writes(w, t))),
                        w => p.println_fmt(&format_args!("{}", Writes(w - WAYS, t))),
                    },
                }
            }
        });
        let mut out = std::io::stdout().lock();
        let done = out.write_all(if r.is_ok() { END } else { PANICKED }).and_then(|_| out.flush());
        unsafe { _exit(if done.is_ok() { 0 } else { 2 }) }
    }
}

struct Console {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Console {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Console {
    fn start() -> Console {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .arg("console")
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("the printing process starts");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Console { child, to, from }
    }

    /// What was written, and how it ended.
    fn print(&mut self, default: bool, around: Around, s: &Script) -> (Vec<u8>, &'static str) {
        let m = encode(default, around, s);
        let _ = self.to.write_all(&m).and_then(|_| self.to.flush());
        let mut out = vec![];
        loop {
            let mut b = vec![];
            let n = std::io::BufRead::read_until(&mut self.from, b'\n', &mut b).unwrap_or(0);
            out.extend_from_slice(&b);
            if n == 0 {
                return (out, "the process ended");
            }
            for (mark, how) in [(END, ""), (PANICKED, "a panic"), (DIED, "the process died")] {
                if out.ends_with(mark) {
                    out.truncate(out.len() - mark.len());
                    return (out, how);
                }
            }
            if out.len() > 64 << 20 {
                return (out, "output without end");
            }
        }
    }
}

/// Two spaces for every open level at the start of a line, every text as it is, one line end.
fn expected(s: &Script) -> Vec<u8> {
    let mut level = [0usize; 2];
    let mut out = String::new();
    for (p, c) in s {
        let l = &mut level[*p as usize];
        match c {
            BeginType => *l += 1,
            EndType => *l -= 1,
            New => *l = 0,
            BeginLine => (0..*l).for_each(|_| out += "  "),
            Str(t) | Fmt(t) | Made(_, t) => out += t,
            LnStr(t) | LnFmt(t) | LnMade(_, t) => {
                out += t;
                out += "\n";
            }
            Const(k) => out += CONSTANTS[*k],
            LnConst(k) => {
                out += CONSTANTS[*k];
                out += "\n";
            }
        }
    }
    out.into_bytes()
}

fn check(c: &mut Console, default: bool, around: Around, s: &Script) -> Step {
    let want = expected(s);
    let (got, how) = c.print(default, around, s);
    if got == want && how.is_empty() {
        return Ok(want.len() as u64);
    }
    let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count().saturating_sub(20);
    let cut = |b: &[u8]| format!("{:?} ({} octets)", String::from_utf8_lossy(&b[k.min(b.len())..(k + 120).min(b.len())]), b.len());
    if !how.is_empty() {
        *c = Console::start();
    }
    let calls: String = format!("{s:?}").chars().take(400).collect();
    bad(format!("..{}", cut(&want)), format!("..{} {how}; calls {calls}", cut(&got)))
}

fn family(name: &str, what: &str, body: impl Fn(&mut Ch) -> Result<(bool, Script), Stop> + Send + Sync + 'static) -> Family {
    around(name, what, move |ch| body(ch).map(|(d, s)| (d, USUAL, s)))
}

fn around(name: &str, what: &str, body: impl Fn(&mut Ch) -> Result<(bool, Around, Script), Stop> + Send + Sync + 'static) -> Family {
    let body = Arc::new(body);
    Family::new(name, what, 0, move || {
        let body = body.clone();
        let mut c: Option<Console> = None;
        move |ch: &mut Ch| {
            let (default, a, s) = body(ch)?;
            if s.len() < 64 {
                ch.saw(&encode(default, a, &s));
            }
            check(c.get_or_insert_with(Console::start), default, a, &s)
        }
    })
}

fn fits(s: &Script) -> bool {
    let mut level = [0i32; 2];
    s.iter().all(|(p, c)| {
        let l = &mut level[*p as usize];
        match c {
            BeginType => *l += 1,
            EndType => *l -= 1,
            New => *l = 0,
            _ => {}
        }
        *l >= 0
    })
}

/// All sequences of 0..=n calls; the levels never below the outermost.
fn calls(n: usize, printers: u8) -> Family {
    let menu: Vec<Call> = if printers == 1 {
        vec![BeginType, EndType, BeginLine, Str("a".into()), Fmt("b ".into()), LnStr("c".into()), LnFmt(" d".into()), New]
    } else {
        vec![BeginType, EndType, BeginLine, LnStr("x".into()), New]
    };
    family(
        &format!("calls-{printers}"),
        &format!("all sequences of 0..={n} calls out of {} on {printers} printer(s), new or default, put aside for new ones at any time", menu.len()),
        move |ch| {
            let default = ch.flip();
            let mut s = Script::new();
            for _ in 0..n {
                let c = ch.choose(1 + menu.len() * printers as usize);
                if c == 0 {
                    break;
                }
                s.push(((c - 1) as u8 % printers, menu[(c - 1) / printers as usize].clone()));
                if !fits(&s) {
                    return Err(Stop::Prune);
                }
            }
            Ok((default, s))
        },
    )
}

/// Short sequences while the process's surroundings are others.
fn surroundings(n: usize) -> Family {
    let menu = [BeginType, EndType, BeginLine, Str("a\tb".into()), Fmt("\u{e9} ".into()), LnStr("a line of some more than eighty characters that no terminal of the usual width shows in one row".into()), LnFmt(" d".into()), New];
    let (v, o) = (crate::outside::VALUES.len(), crate::outside::SELVES.len());
    around(
        "surroundings",
        &format!("all sequences of 0..={n} calls out of {} while every variable answers with one of {v} values, or the process is another in one of {o} ways, standard output a terminal among them", menu.len()),
        move |ch| {
            let a = 1 + ch.choose(v + o) as u8;
            let a = if a as usize <= v { (a, 0) } else { (0, a - v as u8) };
            let mut s = Script::new();
            for _ in 0..n {
                match ch.choose(1 + menu.len()) {
                    0 => break,
                    c => s.push((0, menu[c - 1].clone())),
                }
                if !fits(&s) {
                    return Err(Stop::Prune);
                }
            }
            Ok((false, a, s))
        },
    )
}

/// Every text in every way to print it, at a level, while the process's surroundings are others.
fn texts_in_surroundings() -> Family {
    let mut texts = texts();
    texts.extend(["critical: true", "subject:", "names: ", "a long heading of more than eighty characters, so long that it fits no usual terminal:", "0A:0B", "2012-08-22", "- item", "Error: x", "none"].map(String::from));
    let (v, o) = (crate::outside::VALUES.len(), crate::outside::SELVES.len());
    around(
        "texts-in-surroundings",
        &format!("{} texts printed in each of four ways at a begun line at levels 0..=2, then a line, while every variable answers with one of {v} values, or the process is another in one of {o} ways", texts.len()),
        move |ch| {
            let a = 1 + ch.choose(v + o) as u8;
            let a = if a as usize <= v { (a, 0) } else { (0, a - v as u8) };
            let mut s = Script::new();
            for _ in 0..ch.choose(3) {
                s.push((0, BeginType));
            }
            s.push((0, BeginLine));
            let t = ch.pick(&texts).clone();
            s.push((0, [Str as fn(String) -> Call, Fmt, LnStr, LnFmt][ch.choose(4)](t)));
            s.push((0, BeginLine));
            s.push((0, LnStr("end".into())));
            Ok((false, a, s))
        },
    )
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "  ", "\t", "{}", "{0}", "{{}}", "%s", "%n", "\\n", "\n", "\n\n", "a\nb", "a\n", "\r", "a\r\n", "\x07", "\x08\x08", "\x1b[31mred\x1b[0m",
        "\x7f", "\0", "a\0b", " lead", "trail ", "trail\t", "\u{e9}", "e\u{301}", "\u{85}", "\u{a0}", "\u{2028}", "\u{202e}abc", "\u{feff}", "\u{fffd}",
        "\u{ffff}", "\u{10ffff}", "\u{4e2d}\u{6587}", "\u{1f600}", "\"quoted\"", "'", "a: b", "a:", ":", "-", "--", "#", "\u{1}\u{2}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in (2..=80).chain([127, 128, 129, 255, 256, 257, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 200_000]) {
        v.push((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect());
        v.push((0..n).map(|i| if i % 7 == 6 { '\u{20ac}' } else { ' ' }).collect());
    }
    v
}

fn odd_texts(levels: usize) -> Family {
    let list = texts();
    family(
        "texts",
        &format!("each of {} texts by each of the four calls, formatted in {} ways, at levels 0..={levels}, on a begun line or not, followed by another line or by another text", list.len(), WAYS + 1),
        move |ch| {
            let t = ch.pick(&list).clone();
            let l = ch.choose(levels + 1);
            if t.len() > 3000 && l > 2 {
                return Err(Stop::Prune);
            }
            let k = ch.choose(4 + 2 * WAYS);
            if k >= 4 && l > 2 {
                return Err(Stop::Prune);
            }
            let begun = ch.flip();
            let more = ch.flip();
            let mut s: Script = vec![(0, BeginType); l];
            if begun {
                s.push((0, BeginLine));
            }
            s.push((0, match k {
                0 => Str(t.clone()),
                1 => Fmt(t.clone()),
                2 => LnStr(t.clone()),
                3 => LnFmt(t.clone()),
                k if k - 4 < WAYS => Made(k - 4, t.clone()),
                k => LnMade(k - 4 - WAYS, t.clone()),
            }));
            s.push((0, if more { LnStr("next".into()) } else { Fmt(t) }));
            s.push((0, BeginLine));
            s.push((0, LnFmt("end".into())));
            Ok((false, s))
        },
    )
}

fn constant_texts() -> Family {
    family(
        "constants",
        &format!("each of {} constant texts with nothing to format, ending a line or not, at levels 0..=12, on a begun line or not, followed by each other or by another text", CONSTANTS.len()),
        |ch| {
            let one = |ch: &mut Ch| {
                let k = ch.choose(CONSTANTS.len());
                if ch.flip() { LnConst(k) } else { Const(k) }
            };
            let l = ch.choose(13);
            let mut s: Script = vec![(0, BeginType); l];
            if ch.flip() {
                s.push((0, BeginLine));
            }
            s.push((0, one(ch)));
            s.push((0, if ch.flip() { one(ch) } else { Str("text".into()) }));
            s.push((0, BeginLine));
            s.push((0, LnFmt("end".into())));
            Ok((false, s))
        },
    )
}

fn characters() -> Family {
    family("characters", "every Unicode scalar value, in lines of 64 of them and in lines and texts of one", |ch| {
        let page = ch.choose(0x110000 / 64) as u32;
        let k = ch.choose(3);
        let all: Vec<char> = (page * 64..page * 64 + 64).filter_map(char::from_u32).collect();
        if all.is_empty() {
            return Err(Stop::Prune);
        }
        let mut s: Script = vec![(0, BeginType)];
        match k {
            0 => s.push((0, LnStr(all.iter().collect()))),
            1 => {
                for c in all {
                    s.push((0, BeginLine));
                    s.push((0, LnFmt(c.to_string())));
                }
            }
            _ => {
                for c in all {
                    s.push((0, Str(c.to_string())));
                    s.push((0, Fmt(c.to_string())));
                }
            }
        }
        Ok((false, s))
    })
}

/// Down to a level line by line, and up again.
fn depths(max: usize) -> Family {
    family("levels", &format!("every depth 0..={max}, a line at each level on the way in, on the way out, or both, and one behind"), move |ch| {
        let d = ch.choose(max + 1);
        let way = ch.choose(3);
        let mut s: Script = vec![];
        let line = |s: &mut Script, t: &str| {
            s.push((0, BeginLine));
            s.push((0, LnStr(t.into())));
        };
        for _ in 0..d {
            if way != 1 {
                line(&mut s, "in");
            }
            s.push((0, BeginType));
        }
        line(&mut s, "bottom");
        for _ in 0..d {
            s.push((0, EndType));
            if way != 0 {
                line(&mut s, "out");
            }
        }
        line(&mut s, "behind");
        Ok((false, s))
    })
}

/// The same few lines over and over.
fn many(max: usize) -> Family {
    family("many-lines", &format!("0..={max}, 1023, 1024, 4096, 33000 or 66000 lines and then as many again one level deeper, and levels begun and ended as often"), move |ch| {
        let n = match ch.choose(max + 6) {
            i if i > max => [1023, 1024, 4096, 33000, 66000][i - max - 1],
            i => i,
        };
        let k = ch.choose(2);
        let mut s: Script = vec![];
        for i in 0..2 * n {
            if k == 1 {
                s.push((0, BeginType));
                s.push((0, EndType));
            } else if i == n {
                s.push((0, BeginType));
            }
            s.push((0, BeginLine));
            s.push((0, LnFmt(format!("line {i}"))));
        }
        s.push((0, BeginLine));
        s.push((0, LnStr("end".into())));
        Ok((false, s))
    })
}

pub fn p04(t: Tier) -> Vec<Family> {
    vec![
        calls(t.pick(6, 7), 1),
        constant_texts(),
        calls(t.pick(5, 7), 2),
        odd_texts(t.pick(12, 40)),
        characters(),
        depths(t.pick(300, 1200)),
        many(t.pick(300, 1200)),
        surroundings(t.pick(3, 4)),
        texts_in_surroundings(),
    ]
}
