//! D01: every entry point and everything callable on its results, over every input space.

use super::common::*;
use super::x509::{cert_legal, cert_sizes, content_octets, ext_ids, ext_octets, ext_sizes, ext_structure, san_sequences};
use super::Tier;
use crate::engine::{bad, Ch, Family, Step};
use crate::gen::*;
use crate::refx509::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::ext::Extension;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::{Certificate, Name};
use std::fmt::Write;

/// Takes text and forgets it.
#[derive(Default)]
struct Sink {
    n: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += s.len();
        Ok(())
    }
}

impl LinePrinter for Sink {
    fn begin_type(&mut self) {}
    fn begin_line(&mut self) {}
    fn print_fmt(&mut self, a: &core::fmt::Arguments) {
        let _ = self.write_fmt(*a);
    }
    fn print_str(&mut self, s: &str) {
        self.n += s.len();
    }
    fn println_fmt(&mut self, a: &core::fmt::Arguments) {
        let _ = self.write_fmt(*a);
    }
    fn println_str(&mut self, s: &str) {
        self.n += s.len();
    }
    fn end_type(&mut self) {}
}

struct Touch {
    sink: Sink,
    elems: usize,
    calls: usize,
    limit: usize,
    debug: bool,
}

impl Touch {
    fn bits(&mut self, b: &ASNBitString) {
        let n = b.size();
        let mut k = 0usize;
        for bit in b.iter() {
            k += 1;
            self.sink.n += bit as usize;
            if k > n {
                panic!("the bit iterator does not stop after {n} bits");
            }
        }
        if let Some(o) = b.octets() {
            self.sink.n += o.len();
        }
        b.print(&mut self.sink);
    }

    fn int(&mut self, i: &ASNInteger) {
        self.sink.n += i.as_i32().unwrap_or(1) as usize & 1;
        let _ = write!(self.sink, "{i}");
    }

    fn oid(&mut self, o: &ASNObjectIdentifier) {
        self.sink.n += o.values().len();
        let _ = write!(self.sink, "{o}");
    }

    fn element(&mut self, a: &ASNType) {
        let _ = write!(self.sink, "{a}");
        if self.debug {
            let _ = write!(self.sink, "{a:?}{:?}", a.get_id());
        }
        match a {
            ASNType::BitString(b) => self.bits(&b.value),
            ASNType::Integer(i) => self.int(&i.value),
            ASNType::ObjectIdentifier(o) => self.oid(&o.value),
            _ => {}
        }
    }

    fn error(&mut self, e: &ASNError) {
        let _ = write!(self.sink, "{e}");
        let _ = write!(self.sink, "{e:?}");
    }

    fn count(&mut self) {
        self.calls += 1;
        if self.calls > self.limit {
            panic!("more than {} callbacks: the walk does not end", self.limit);
        }
    }
}

impl ParseHandler for Touch {
    fn begin_constructed(&mut self) {
        self.count();
    }
    fn end_constructed(&mut self) {
        self.count();
    }
    fn on_type(&mut self, asn: &ASNType) {
        self.count();
        self.elems += 1;
        self.element(asn)
    }
    fn on_error(&mut self, err: &ASNError) {
        self.count();
        self.error(err)
    }
}

fn touch_ext(t: &mut Touch, e: &Extension) {
    t.oid(&e.extn_id);
    e.print(&mut t.sink);
    let _ = write!(t.sink, "{}", e.content.name());
    if t.debug {
        let _ = write!(t.sink, "{e:?}");
    }
}

fn touch_name(t: &mut Touch, n: &Name) -> bool {
    n.print(&mut t.sink);
    match n.parse() {
        Ok(x) => {
            x.print(&mut t.sink);
            true
        }
        Err(e) => {
            t.error(&e);
            false
        }
    }
}

/// Everything a user can do with `b`; what happened is the outcome class.
fn exercise(b: &[u8]) -> Step {
    let mut t = Touch { sink: Sink::default(), elems: 0, calls: 0, limit: 4 * b.len() + 4, debug: b.len() < 2000 };
    let mut class = 0u64;
    let r = guard(|| match parse_all(b, &mut t) {
        Ok(()) => true,
        Err(e) => {
            t.error(&e);
            false
        }
    });
    match r {
        Ok(ok) => class += ok as u64 + 2 * t.elems.min(1000) as u64,
        Err(p) => return bad("the element walk finishes with a value or an error", p),
    }
    let r = guard(|| match Certificate::parse(b) {
        Err(e) => {
            t.error(&e);
            0
        }
        Ok(c) => {
            let f = &c.tbs_certificate.value;
            t.int(&f.serial_number);
            for a in [&f.signature, &f.subject_public_key_info.algorithm, &c.signature_algorithm] {
                t.oid(&a.algorithm);
                if let Some(p) = &a.parameters {
                    t.element(p);
                }
            }
            t.bits(&f.subject_public_key_info.subject_public_key);
            t.bits(&c.signature_value);
            for u in [&f.issuer_unique_id, &f.subject_unique_id].into_iter().flatten() {
                t.bits(u);
            }
            let mut k = touch_name(&mut t, &f.issuer) as u64 + 2 * touch_name(&mut t, &f.subject) as u64;
            for now in [0, f.validity.not_before.value, u64::MAX] {
                k += f.validity.is_valid(UtcTime::from_seconds_since_epoch(now)) as u64;
            }
            if let Some(x) = &f.extensions {
                match x.parse() {
                    Ok(l) => {
                        k += 8;
                        for e in &l {
                            touch_ext(&mut t, e);
                        }
                    }
                    Err(e) => t.error(&e),
                }
            }
            c.print(&mut t.sink);
            if t.debug {
                let _ = write!(t.sink, "{c:?}");
            }
            10 + k
        }
    });
    match r {
        Ok(k) => class += 10_000 * k,
        Err(p) => return bad("certificate decoding and its results finish with a value or an error", p),
    }
    let r = guard(|| match Extension::parse(b) {
        Ok(e) => {
            touch_ext(&mut t, &e);
            1
        }
        Err(e) => {
            t.error(&e);
            0
        }
    });
    match r {
        Ok(k) => class += 1_000_000 * k,
        Err(p) => return bad("extension decoding and its results finish with a value or an error", p),
    }
    match guard(|| touch_name(&mut t, &Name { inner: b })) {
        Ok(k) => class += 10_000_000 * k as u64,
        Err(p) => return bad("name decoding and its results finish with a value or an error", p),
    }
    Ok(class)
}

/// Extensions in a certificate: the same bytes through the other entry point.
fn both(b: &[u8]) -> Step {
    exercise(b)?;
    exercise(&cert_with_ext(&seq(&[&tlv(0x30, b)])))
}

fn huge(sizes: &'static [usize], o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "huge-elements",
        &format!("one element of each of 13 kinds with {sizes:?} content octets, alone and inside a certificate extension"),
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let n = *ch.pick(sizes);
                let tag = *ch.pick(&[1u8, 2, 3, 4, 5, 6, 0x0C, 0x16, 0x17, 0x18, 0x30, 0x31, 0xA3]);
                let c = match ch.choose(3) {
                    0 => vec![0u8; n],
                    1 => vec![0x80; n],
                    _ => vec![b'1'; n],
                };
                let e = tlv(tag, &c);
                let b = if ch.flip() { cert_with_ext(&seq(&[&ext_of(OID_SAN, None, &e), &ext_of(&[1, 2], None, &e)])) } else { e };
                o(&b)
            }
        },
    )
}

/// Every length claim of up to five length octets over boundary octets, with little data behind.
fn claims(o: &Oracle) -> Family {
    let o = o.clone();
    const V: &[u8] = &[0x00, 0x01, 0x02, 0x7F, 0x80, 0xFE, 0xFF];
    Family::new(
        "length-claims",
        "identifiers of all kinds, every first length octet 80..FF, up to 4 further octets over 7 boundary values, 0 to 3 octets of data, inside nothing, a sequence or a tag",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let mut b = vec![*ch.pick(&[0x02u8, 0x03, 0x04, 0x30, 0xA0]), 0x80 + ch.choose(128) as u8];
                let n = if b[1] < 0x86 || b[1] == 0xFF { ch.choose(5) } else { ch.choose(2) };
                for _ in 0..n {
                    b.push(*ch.pick(V));
                }
                for _ in 0..ch.choose(4) {
                    b.push(0x05);
                }
                let b = match ch.choose(3) {
                    0 => b,
                    1 => tlv(0x30, &b),
                    _ => tlv(0xA3, &b),
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

pub fn d01(t: Tier) -> Vec<Family> {
    let o = oracle(exercise);
    let e = oracle(both);
    let mut depths: Vec<usize> = (0..=300).collect();
    depths.extend([500, 1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000, 1_100_000]);
    if t == Tier::Thorough {
        depths.extend([2_100_000, 4_200_000]);
    }
    let mut v = vec![
        depth_sweep("depths", depths, &o),
        bytes_upto(t.pick(2, 3), &o),
        alphabet("strings-18", DER_ALPHA, t.pick(5, 6), &o),
        alphabet("strings-9", DER_ALPHA_SMALL, t.pick(6, 8), &o),
        alphabet("strings-5", DER_ALPHA_TINY, t.pick(8, 10), &o),
        contents("contents", TAGS, t.pick(2, 3), &o),
        patterns("patterns", TAGS, t.pick(20, 40), &[0x00, 0x30, 0x80, 0xFF], &o),
        sizes("sizes", TAGS, t.pick(130, 600), &o),
        claims(&o),
        trees("trees", tree_menu, t.pick(3, 4), t.pick(1, 2), &o),
        fan_sweep("siblings", t.pick(100, 400), &o),
        cert_legal(t.pick(2, 3), &o),
        cert_sizes(t.pick(130, 1000), &o),
        cert_octets(&o),
        cert_elements(&o),
        cert_edits(&o),
        cert_wild(t.pick(1, 2), &o),
        ext_ids(&e),
        ext_structure(t.pick(1, 2), &e),
        ext_octets(&e),
        ext_sizes(t.pick(130, 600), &e),
        san_sequences(t.pick(2, 3), &e),
        huge(t.pick(&[100_000, 1 << 20][..], &[100_000, 1 << 20, (1 << 24) + 1][..]), &o),
    ];
    for (id, goods) in content_goods() {
        v.push(content_octets(id, goods, &e));
    }
    v.extend(super::more::everything(t, &o));
    if t == Tier::Thorough {
        v.push(cert_octet_pairs(&[0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x30, 0x31, 0x7F, 0x80, 0x81, 0xA0, 0xA3, 0xFF], &o));
    }
    v
}
