//! P06: a refused write ends a text, and its writer is told.
//!
//! Every text the library makes for a value (of an element, an error, a number, an object
//! identifier, a certificate) is written to a writer that refuses: at every call of the writer,
//! once or from then on, and at every octet of the text that would go beyond its room, with or
//! without taking the part that fits. Of a text of more than 300 calls (or octets) the first and
//! the last 40 and every fortieth part in between (8 instead of 40 beyond 5000).

use super::common::*;
use super::more::known_oids;
use super::program::{changed, ext_certs};
use super::x509::*;
use super::Tier;
use crate::engine::{bad, Ch, Family, Step};
use crate::gen::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::ext::Extension;
use rx509::x509::{Certificate, Name};
use std::fmt::{Debug, Display, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Refusal {
    Never,
    /// that call, and no other
    Once(usize),
    /// that call and every later one
    From(usize),
    /// what goes beyond so many octets, taking nothing of it (or the part that fits)
    Room(usize, bool),
}

struct Sink {
    text: Vec<u8>,
    calls: usize,
    how: Refusal,
    full: bool,
    refused: bool,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let n = self.calls;
        self.calls += 1;
        let no = match self.how {
            Refusal::Never => false,
            Refusal::Once(k) => n == k,
            Refusal::From(k) => n >= k,
            Refusal::Room(c, part) => {
                if !self.full && self.text.len() + s.len() > c {
                    self.full = true;
                    if part {
                        self.text.extend_from_slice(&s.as_bytes()[..c - self.text.len()]);
                    }
                }
                self.full
            }
        };
        if no {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.text.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

fn run(v: &dyn Fn(&mut Sink) -> std::fmt::Result, how: Refusal) -> Result<(Sink, std::fmt::Result), String> {
    guard(|| {
        let mut s = Sink { text: vec![], calls: 0, how, full: false, refused: false };
        let r = v(&mut s);
        (s, r)
    })
}

/// One value, one of its texts, every refusal.
fn text(what: &str, v: &dyn Fn(&mut Sink) -> std::fmt::Result) -> Result<u64, crate::engine::Stop> {
    // panics without a refusal are a matter of D01
    let Ok((whole, r)) = run(v, Refusal::Never) else { return Ok(0) };
    if r.is_err() {
        return bad(format!("{what}: a text"), "an error, though nothing was refused");
    }
    let len = whole.text.len();
    // all of them, or of a long text those at either end and some on the way
    let some = |n: usize| {
        let few = if n > 5000 { 8 } else { 40 };
        (0..n).filter(move |i| n <= 300 || *i < few || n - i <= few || i % (n / few) == 0)
    };
    let calls = some(whole.calls).flat_map(|k| [Refusal::Once(k), Refusal::From(k)]);
    let rooms = some(len).flat_map(|c| [Refusal::Room(c, false), Refusal::Room(c, true)]);
    for how in calls.chain(rooms) {
        let (got, r) = match run(v, how) {
            Ok(x) => x,
            Err(p) => return bad(format!("{what}, refused {how:?}: an error"), format!("panic: {p}")),
        };
        if !got.refused {
            return bad(format!("{what}, refused {how:?}: the same text each time"), "a text with fewer calls");
        }
        if r.is_ok() {
            return bad(
                format!("{what}, refused {how:?}: an error"),
                format!("success, with {:?} written of {:?}", String::from_utf8_lossy(&got.text), String::from_utf8_lossy(&whole.text)),
            );
        }
        if !whole.text.starts_with(&got.text) {
            return bad(
                format!("{what}, refused {how:?}: a beginning of {:?}", String::from_utf8_lossy(&whole.text)),
                format!("{:?}", String::from_utf8_lossy(&got.text)),
            );
        }
    }
    Ok(whole.calls as u64)
}

fn shown<T: Display + ?Sized>(what: &str, v: &T) -> Result<u64, crate::engine::Stop> {
    text(&format!("the text of {what}"), &|s| write!(s, "{v}"))
}

fn debugged<T: Debug + ?Sized>(what: &str, v: &T) -> Result<u64, crate::engine::Stop> {
    text(&format!("the debug text of {what}"), &|s| write!(s, "{v:?}"))
}

fn both<T: Display + Debug>(what: &str, v: &T) -> Result<u64, crate::engine::Stop> {
    Ok(shown(what, v)? * 64 + debugged(what, v)?)
}

struct Each(Result<u64, crate::engine::Stop>);

impl Each {
    fn put(&mut self, f: impl FnOnce() -> Result<u64, crate::engine::Stop>) {
        if let Ok(n) = self.0 {
            self.0 = f().map(|x| n.wrapping_mul(31).wrapping_add(x));
        }
    }
}

impl ParseHandler for Each {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, t: &ASNType) {
        self.put(|| {
            let inner = match t {
                ASNType::Integer(w) => both("a number", &w.value)?,
                ASNType::ObjectIdentifier(w) => both("an object identifier", &w.value)?,
                ASNType::BitString(w) => debugged("a bit string", &w.value)?,
                _ => 0,
            };
            Ok(both("an element", t)? + inner)
        });
    }
    fn on_error(&mut self, e: &ASNError) {
        self.put(|| both("an error", e));
    }
}

fn walk(b: &[u8]) -> Step {
    let mut h = Each(Ok(0));
    match guard(std::panic::AssertUnwindSafe(|| {
        let _ = parse_all(b, &mut h);
    })) {
        Ok(()) => h.0,
        Err(_) => Ok(0),
    }
}

fn whole(b: &[u8]) -> Step {
    let Ok(r) = guard(|| Certificate::parse(b)) else { return Ok(0) };
    match r {
        Ok(c) => {
            let mut n = debugged("a certificate", &c)?;
            if let Ok(Some(list)) = guard(|| c.tbs_certificate.value.extensions.as_ref().map(|e| e.parse())) {
                n += match list {
                    Ok(list) => debugged("the extensions", &list)?,
                    Err(e) => both("an error", &e)?,
                };
            }
            Ok(n)
        }
        Err(e) => both("an error", &e),
    }
}

fn name(b: &[u8]) -> Step {
    let n = Name { inner: b };
    match guard(|| n.parse().err()) {
        Ok(None) => Ok(1),
        Ok(Some(e)) => both("an error", &e),
        Err(_) => Ok(0),
    }
}

fn extension(b: &[u8]) -> Step {
    match guard(|| Extension::parse(b)) {
        Ok(Ok(x)) => debugged("an extension", &x),
        Ok(Err(e)) => both("an error", &e),
        Err(_) => Ok(0),
    }
}

/// Numbers and object identifiers made by hand, as no input makes some of them.
fn by_hand(t: Tier) -> Vec<Family> {
    let octets: &'static [u8] = t.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFF], &[0x00, 0x01, 0x0A, 0x7F, 0x80, 0x81, 0xFE, 0xFF]);
    let arcs: &'static [u32] = &[0, 1, 2, 5, 39, 40, 128, 840, u32::MAX];
    let long = t.pick(5, 6);
    let most = t.pick(4, 5);
    let known = known_oids();
    vec![
        Family::new("numbers", &format!("all numbers of 0..={long} octets out of {octets:02X?}, and of up to 40 octets FF"), 0, move || {
            move |ch: &mut Ch| {
                let n = ch.choose(41);
                let b: Vec<u8> = (0..n).map(|_| if n <= long { octets[ch.choose(octets.len())] } else { 0xFF }).collect();
                ch.saw(&b);
                both("a number", &ASNInteger { bytes: &b })
            }
        }),
        Family::new(
            "object-identifiers",
            &format!("all object identifiers of 0..={most} arcs out of {arcs:?}, and {} known ones, each as it is and with its last arc left out, repeated or one more", known.len()),
            0,
            move || {
                let known = known.clone();
                move |ch: &mut Ch| {
                    let k = ch.choose(most + 1 + known.len());
                    let items: Vec<u32> = if k <= most {
                        (0..k).map(|_| *ch.pick(arcs)).collect()
                    } else {
                        let mut v = known[k - most - 1].clone();
                        match ch.choose(4) {
                            1 => drop(v.pop()),
                            2 => v.extend(v.last().copied()),
                            3 => v.last_mut().into_iter().for_each(|x| *x = x.wrapping_add(1)),
                            _ => {}
                        }
                        v
                    };
                    ch.note(|| format!("{items:?}"));
                    both("an object identifier", &ASNObjectIdentifier::new(items))
                }
            },
        ),
    ]
}

pub fn p06(t: Tier) -> Vec<Family> {
    let w = oracle(walk);
    let c = oracle(whole);
    let (n, x) = (oracle(name), oracle(extension));
    let mut list = by_hand(t);
    list.extend([
        bytes_upto(t.pick(2, 2), &w),
        alphabet("strings", DER_ALPHA_SMALL, t.pick(4, 6), &w),
        contents("contents", TAGS, t.pick(1, 2), &w),
        patterns("patterns", &[0x02, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18], t.pick(5, 10), &[0x2A], &w),
        element_contents("octets", &[0x02, 0x03, 0x06, 0x0C], t.pick(2, 2), &w),
        trees("trees", tree_menu, t.pick(3, 4), 1, &w),
        sizes("sizes", TAGS, t.pick(40, 300), &w),
        alphabet("names", DER_ALPHA_SMALL, t.pick(4, 6), &n),
        alphabet("extensions", DER_ALPHA_SMALL, t.pick(4, 6), &x),
        cert_legal(t.pick(1, 2), &c),
        cert_wild(t.pick(1, 2), &c),
        ext_certs(t.pick(2, 3), &c),
        changed(t.pick(&[0x00, 0x80][..], &[0x00, 0x01, 0x02, 0x05, 0x30, 0x7F, 0x80, 0xFF][..]), &c),
    ]);
    list
}
