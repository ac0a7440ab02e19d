//! S02: the text of an error describes the first defect of the input.
//!
//! The reference decoder names the first defect of an input as a `Cause`. The text expected for a
//! cause is what the code says about a witness: a canonical input that has this one defect and no
//! other. Rules over all witness texts make them worth something: distinct causes have distinct
//! texts, and a text contains the offending value.

use super::common::*;
use super::x509::*;
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::refder::*;
use crate::refx509 as rx;
use crate::refx509::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::ext::Extension;
use rx509::x509::{Certificate, Name};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    Walk,
    Cert,
    Name,
    Ext,
    /// the extension list inside a certificate
    Exts,
}

struct Quiet;

impl ParseHandler for Quiet {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, _: &ASNType) {}
    fn on_error(&mut self, _: &ASNError) {}
}

/// Text of the error, if the input is rejected at this entry (None also when it panics: not a
/// matter of texts).
fn said(at: At, b: &[u8]) -> Option<String> {
    guard(|| match at {
        At::Walk => parse_all(b, &mut Quiet).err().map(|e| e.to_string()),
        At::Cert => Certificate::parse(b).err().map(|e| e.to_string()),
        At::Name => Name { inner: b }.parse().err().map(|e| e.to_string()),
        At::Ext => Extension::parse(b).err().map(|e| e.to_string()),
        At::Exts => {
            let c = Certificate::parse(b).ok()?;
            c.tbs_certificate.value.extensions.as_ref()?.parse().err().map(|e| e.to_string())
        }
    })
    .ok()
    .flatten()
}

fn cause(at: At, b: &[u8]) -> Option<Cause> {
    match at {
        At::Walk => {
            let mut w = Walk::new(b);
            loop {
                match w.next() {
                    Ev::Done => return None,
                    Ev::Defect(c) => return Some(c),
                    _ => {}
                }
            }
        }
        At::Cert => rx::certificate(b).err(),
        At::Name => rx::name(b).err(),
        At::Ext => rx::extension(b).err(),
        At::Exts => rx::extensions(rx::certificate(b).ok()?.extensions?).err(),
    }
}

// ---------------------------------------------------------------- witnesses

const KINDS: &[Kind] = &[
    Kind::Bool,
    Kind::Seq,
    Kind::Set,
    Kind::Int,
    Kind::Printable,
    Kind::Ia5,
    Kind::Utf8,
    Kind::Null,
    Kind::Time,
    Kind::Bits,
    Kind::Octets,
    Kind::Oid,
    Kind::Tag,
];

/// Kinds the schema expects somewhere.
const EXPECTED: &[Kind] = &[
    Kind::Seq,
    Kind::Set,
    Kind::Int,
    Kind::Printable,
    Kind::Utf8,
    Kind::Time,
    Kind::Bits,
    Kind::Octets,
    Kind::Oid,
    Kind::Tag,
];

fn name_of_kind(k: Kind) -> &'static str {
    match k {
        Kind::Bool => "Boolean",
        Kind::Seq => "Sequence",
        Kind::Set => "Set",
        Kind::Int => "Integer",
        Kind::Printable => "PrintableString",
        Kind::Ia5 => "IA5String",
        Kind::Utf8 => "UTF8String",
        Kind::Null => "Null",
        Kind::Time => "UTCTime",
        Kind::Bits => "BitString",
        Kind::Octets => "OctetString",
        Kind::Oid => "ObjectIdentifier",
        Kind::Tag => "ExplicitTag",
        Kind::Other => "?",
    }
}

fn sample_of(k: Kind) -> Vec<u8> {
    let t = match k {
        Kind::Bool => 1,
        Kind::Seq => 0x30,
        Kind::Set => 0x31,
        Kind::Int => 2,
        Kind::Printable => 0x13,
        Kind::Ia5 => 0x16,
        Kind::Utf8 => 0x0C,
        Kind::Null => 5,
        Kind::Time => 0x17,
        Kind::Bits => 3,
        Kind::Octets => 4,
        Kind::Oid => 6,
        Kind::Tag => 0xA9,
        Kind::Other => 5,
    };
    tlv(t, &sample(t))
}

fn cert_with(f: impl FnOnce(&mut CertMenu)) -> Vec<u8> {
    let mut m = plain_menu(false);
    f(&mut m);
    let mut b = CertBuf::new();
    build_cert(&mut Ch::new(0), &m, &mut b);
    b.out
}

fn int_bytes(v: i64) -> Vec<u8> {
    let mut b = (v as i32).to_be_bytes().to_vec();
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xFF && b[1] >= 0x80)) {
        b.remove(0);
    }
    b
}

fn bc_path(c: &[u8]) -> Vec<u8> {
    ext_body(OID_BC, &seq(&[&tlv(2, c)]))
}

/// Two inputs, through different entries where there are several, that have just this defect.
fn witnesses(c: &Cause) -> Vec<(At, Vec<u8>)> {
    let walk = |b: Vec<u8>| vec![(At::Walk, b)];
    match c {
        Cause::BoolLen(n) => walk(tlv(1, &vec![0; *n])),
        Cause::BoolVal(v) => walk(tlv(1, &[*v])),
        Cause::End => walk(vec![2]),
        Cause::IntEmpty => walk(tlv(2, &[])),
        Cause::NullLen(n) => walk(tlv(5, &vec![0; *n])),
        Cause::Id(b) => walk(vec![*b, 0]),
        Cause::Indefinite => walk(vec![4, 0x80]),
        Cause::Reserved => walk(vec![4, 0xFF]),
        Cause::LenCount(k) => walk(vec![4, 0x80 + *k]),
        Cause::LenPadded(k, v) => {
            let mut b = vec![4, 0x80 + *k];
            b.extend_from_slice(&(*v as u64).to_be_bytes()[8 - *k as usize..]);
            walk(b)
        }
        Cause::OidLong => walk(tlv(6, &[0x2A, 0x81, 0x81, 0x81, 0x81, 0x01])),
        Cause::Utf8(_) => walk(tlv(0x0C, &[0xC3])),
        Cause::Time => walk(tlv(0x17, b"991302052345Z")),
        Cause::BitUnused(n) => walk(tlv(3, &[*n, 0])),
        Cause::BitEmpty(n) => walk(tlv(3, &[*n])),
        Cause::Type(e, a) => {
            let x = sample_of(*a);
            match e {
                Kind::Seq => vec![(At::Cert, x)],
                Kind::Set => vec![(At::Name, x)],
                Kind::Int => vec![(At::Cert, cert_with(|m| m.serial = vec![x]))],
                Kind::Printable => vec![(At::Name, tlv(0x31, &ava(&[2, 5, 4, 3], &x)))],
                Kind::Utf8 => vec![(At::Ext, ext_body(OID_ROLE, &x))],
                Kind::Time => vec![(At::Cert, cert_with(|m| m.nb = vec![x]))],
                Kind::Bits => vec![(At::Ext, ext_body(OID_KU, &x))],
                Kind::Octets => vec![(At::Ext, ext_body(OID_SKI, &x))],
                Kind::Oid => vec![(At::Ext, x)],
                Kind::Tag => vec![(At::Ext, ext_body(OID_SAN, &seq(&[&x])))],
                _ => vec![],
            }
        }
        Cause::Trailing(k) => vec![(At::Cert, cat(&[&plain_cert(false), &sample_of(*k)]))],
        Cause::IntBig(n) => vec![(At::Ext, bc_path(&vec![1; *n]))],
        Cause::Version(v) => vec![(At::Cert, cert_with(|m| m.version = vec![tlv(0xA0, &tlv(2, &int_bytes(*v)))]))],
        Cause::Oid(a) => vec![(At::Ext, ext_body(OID_EKU, &seq(&[&oid(a)])))],
        Cause::Tag(t) => vec![(At::Ext, ext_body(OID_SAN, &seq(&[&tlv(0x80 + *t, &[])])))],
        Cause::Several => vec![],
    }
}

thread_local! {
    static TEXTS: RefCell<HashMap<Cause, Option<String>>> = RefCell::new(HashMap::new());
}

/// std's words for the first fault of a text.
fn utf8_words(c: &[u8]) -> String {
    std::str::from_utf8(c).err().map(|e| e.to_string()).unwrap_or_default()
}

/// What the code says about this defect (None: it does not reject the witness).
fn words(c: &Cause) -> Option<String> {
    if let Some(w) = TEXTS.with(|t| t.borrow().get(c).cloned()) {
        return w;
    }
    let mut w = witnesses(c).first().and_then(|(at, b)| {
        let r = said(*at, b);
        if cause(*at, b).as_ref() != Some(c) && !matches!(c, Cause::Utf8(_)) {
            return None; // no witness of this exact defect
        }
        r
    });
    if let Cause::Utf8(m) = c {
        w = w.map(|w| w.replace(&utf8_words(&[0xC3]), m));
    }
    TEXTS.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 100_000 {
            t.clear();
        }
        t.insert(c.clone(), w.clone());
    });
    w
}

fn says(at: At, b: &[u8]) -> Step {
    let Some(c) = cause(at, b) else { return Ok(0) };
    if c == Cause::Several {
        return Ok(1);
    }
    let Some(got) = said(at, b) else { return Ok(2) };
    let Some(want) = words(&c) else { return Ok(3) };
    if got != want {
        return bad(format!("{:?}: {want}", c), got);
    }
    Ok(cause_class(&c) + 10)
}

fn at(at: At) -> Oracle {
    oracle(move |b| says(at, b))
}

// ---------------------------------------------------------------- rules over the texts

fn causes() -> Vec<Cause> {
    let mut v = vec![Cause::End, Cause::IntEmpty, Cause::Indefinite, Cause::Reserved, Cause::OidLong, Cause::Time];
    v.push(Cause::Utf8(utf8_words(&[0xC3])));
    v.push(Cause::Utf8(utf8_words(&[0xFF])));
    v.push(Cause::Utf8(utf8_words(&[b'a', 0xFF])));
    v.push(Cause::Utf8(utf8_words(&[b'a', 0xE2, 0x82, b'a'])));
    v.extend((0usize..=300).filter(|n| *n != 1).chain([999, 1000, 4096, 65535, 65536, 65537, 70000]).map(Cause::BoolLen));
    v.extend((1..=254u8).map(Cause::BoolVal));
    v.extend((1usize..=300).chain([999, 1000, 4096, 65535, 65536, 65537, 70000]).map(Cause::NullLen));
    v.extend((0..=255u8).filter(|b| select(*b).is_none()).map(Cause::Id));
    v.extend((5..=126u8).map(Cause::LenCount));
    for (k, vals) in [
        (1u8, (0..=127usize).collect()),
        (2, (0..=255).collect::<Vec<_>>()),
        (3, (0..=300).step_by(7).chain([128, 255, 256, 257, 32767, 32768, 65534, 65535]).collect()),
        (4, (0..=300).step_by(11).chain([129, 256, 65535, 65536, 65537, 16777214, 16777215]).collect()),
    ] {
        v.extend(vals.into_iter().map(|x| Cause::LenPadded(k, x)));
    }
    v.extend((8..=255u8).map(Cause::BitUnused));
    v.extend((1..=7u8).map(Cause::BitEmpty));
    for e in EXPECTED {
        for a in KINDS {
            let text = matches!(a, Kind::Ia5 | Kind::Utf8 | Kind::Printable);
            if e != a && !(*e == Kind::Printable && text) {
                v.push(Cause::Type(*e, *a));
            }
        }
    }
    v.extend(KINDS.iter().map(|k| Cause::Trailing(*k)));
    v.extend((5usize..=300).chain([999, 1000, 4096, 65535, 65536, 65537]).map(Cause::IntBig));
    v.extend((-300..=300i64).filter(|x| !(0..=2).contains(x)).map(Cause::Version));
    for x in [32767i64, 32768, 65535, 65536, 65537, 8388607, 8388608, 16777215, 16777216, 16777217, i32::MAX as i64] {
        v.push(Cause::Version(x));
        v.push(Cause::Version(-x));
    }
    v.push(Cause::Version(i32::MIN as i64));
    // many arcs, large arcs, and ones that differ in one place only
    for n in 3..=60u32 {
        v.push(Cause::Oid((0..n).map(|i| 1 + i * 37 % 5000).map(|x| if x == 1 { 1 } else { x }).collect()));
    }
    for n in [70u32, 100, 127, 128, 129, 200, 500] {
        v.push(Cause::Oid([vec![1, 3], vec![6; n as usize]].concat()));
    }
    for i in 1..12usize {
        for x in [0u32, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455] {
            let mut a = vec![2, 5, 29, 200, 7, 7, 7, 7, 7, 7, 7, 7];
            a[i] = x;
            v.push(Cause::Oid(a));
        }
    }
    v.sort_by_key(|c| format!("{c:?}"));
    v.dedup();
    for a in [
        vec![0u32, 0],
        vec![1, 0],
        vec![2, 0],
        vec![2, 5],
        vec![2, 5, 4, 3],
        vec![2, 5, 29, 37, 0],
        vec![2, 5, 29, 15],
        vec![1, 3, 6, 1, 5, 5, 7, 3],
        vec![1, 3, 6, 1, 5, 5, 7, 3, 5],
        vec![1, 3, 6, 1, 5, 5, 7, 3, 10],
        vec![1, 3, 6, 1, 5, 5, 7, 3, 1, 1],
        vec![1, 3, 6, 1, 4, 1, 311, 10, 3, 4],
        vec![1, 2, 840, 113549, 1, 1, 1],
        vec![2, 999, 1],
        vec![1, 2, 3, 268435455],
    ] {
        v.push(Cause::Oid(a));
    }
    v.extend((0..=30u8).filter(|t| ![1, 2, 6, 7, 8].contains(t)).map(Cause::Tag));
    v
}

/// Number `n` stands in the text as a number of its own.
fn has_number(text: &str, n: &str) -> bool {
    let t = text.as_bytes();
    let mut from = 0;
    while let Some(i) = text[from..].find(n) {
        let (s, e) = (from + i, from + i + n.len());
        let before = s == 0 || !(t[s - 1].is_ascii_digit() || (t[s - 1] == b'-' && !n.starts_with('-')));
        let after = e == t.len() || !t[e].is_ascii_digit();
        if before && after {
            return true;
        }
        from = s + 1;
    }
    false
}

/// The value a text has to contain.
fn names_value(c: &Cause, w: &str) -> Result<(), String> {
    let number = |n: i64| if has_number(w, &n.to_string()) { Ok(()) } else { Err(format!("the number {n}")) };
    match c {
        Cause::BoolLen(n) | Cause::NullLen(n) | Cause::IntBig(n) => number(*n as i64),
        Cause::BoolVal(n) | Cause::BitUnused(n) | Cause::BitEmpty(n) | Cause::Tag(n) => number(*n as i64),
        Cause::LenCount(n) => number(*n as i64),
        Cause::LenPadded(k, v) => number(*v as i64).and(number(*k as i64)),
        Cause::Version(v) => number(*v),
        Cause::Oid(a) => {
            let t = oid_text(a);
            if w.contains(&t) {
                Ok(())
            } else {
                Err(t)
            }
        }
        Cause::Type(e, a) => match (w.find(name_of_kind(*e)), w.rfind(name_of_kind(*a))) {
            (Some(x), Some(y)) if x < y => Ok(()),
            _ => Err(format!("{} and then {}", name_of_kind(*e), name_of_kind(*a))),
        },
        Cause::Trailing(k) => {
            if w.contains(name_of_kind(*k)) {
                Ok(())
            } else {
                Err(name_of_kind(*k).to_string())
            }
        }
        _ => Ok(()),
    }
}

fn rules() -> Vec<Family> {
    let all = Arc::new(causes());
    let n = all.len();
    let (a1, a2) = (all.clone(), all);
    vec![
        Family::new("values-named", &format!("the texts of {n} defects: each is rejected and contains the offending value"), 0, move || {
            let all = a1.clone();
            move |ch: &mut Ch| {
                let c = ch.pick(&all);
                ch.note(|| format!("{:?}", c));
                let list = witnesses(c);
                if let Some((_, b)) = list.first() {
                    ch.saw(b);
                }
                let Some(w) = words(c) else { return Err(Stop::Prune) };
                match names_value(c, &w) {
                    Ok(()) => Ok(cause_class(c)),
                    Err(v) => bad(format!("the text for {:?} contains {v}", c), w),
                }
            }
        }),
        Family::new("distinct", &format!("every two of {n} defects: their texts differ"), 0, move || {
            let all = a2.clone();
            move |ch: &mut Ch| {
                let i = ch.choose(all.len());
                let j = ch.choose(all.len());
                if j <= i {
                    return Err(Stop::Prune);
                }
                let (Some(x), Some(y)) = (words(&all[i]), words(&all[j])) else { return Err(Stop::Prune) };
                ch.note(|| format!("{:?} and {:?}", all[i], all[j]));
                if x == y {
                    return bad(format!("different texts for {:?} and {:?}", all[i], all[j]), x);
                }
                Ok(1)
            }
        }),
    ]
}

pub fn s02(t: Tier) -> Vec<Family> {
    let (w, c, n, e) = (at(At::Walk), at(At::Cert), at(At::Name), at(At::Ext));
    // a name or an extension rejected inside a certificate says the same
    let x = {
        oracle(move |b| says(At::Exts, &cert_with_ext(&seq(&[&tlv(0x30, b)]))))
    };
    let mut v = rules();
    v.extend([
        bytes_upto(t.pick(2, 3), &w),
        contents("contents", TAGS, t.pick(2, 3), &w),
        alphabet("alphabet", DER_ALPHA, t.pick(5, 6), &w),
        trees("trees", tree_menu, t.pick(3, 5), 2, &w),
        depth_sweep("depths", (0..=64).chain([100, 500]).collect(), &w),
        cert_wild(t.pick(1, 2), &c),
        cert_octets(&c),
        cert_edits(&c),
        cert_elements(&c),
        cert_octet_pairs(t.pick(&[0x00, 0x01, 0x02, 0x05, 0x30, 0x80], &[0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x07, 0x17, 0x30, 0x7F, 0x80, 0x81, 0xA0, 0xFF]), &c),
        name_sequences(t.pick(4, 5), &n),
        name_values(&n),
        name_structure(2, &n),
        alphabet("name-alphabet", &[0x00, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x30, 0x31, 0x55], t.pick(6, 8), &n),
        ext_ids(&e),
        ext_structure(t.pick(2, 3), &e),
        ext_octets(&e),
        ext_octets(&x),
    ]);
    v.push(super::more::broken_counts(t.pick(60, 300), &at(At::Exts)));
    v.push(super::more::broken_counts(t.pick(60, 300), &oracle(|b| {
        let Ok(r) = rx::certificate(b) else { return Err(Stop::Prune) };
        Ok(says(At::Name, r.subject)?.wrapping_mul(31).wrapping_add(says(At::Name, r.issuer)?))
    })));
    v.extend(super::x509::parts(t, &c));
    let items = list_items(0);
    v.push(built(
        "extension-lists",
        "lists of 1..=3 extensions in a certificate, valid and defective in every way, defects in any order",
        0,
        &at(At::Exts),
        move |ch| {
            let k = 1 + ch.choose(3);
            let mut b = vec![];
            for _ in 0..k {
                b.extend_from_slice(ch.pick(&items));
            }
            Ok(cert_with_ext(&tlv(0x30, &b)))
        },
    ));
    for (id, goods) in content_goods() {
        v.push(one_element("one-element", id, goods[0].clone(), &e));
        v.push(content_octets(id, goods.clone(), &e));
        v.push(content_pairs(id, goods.clone(), &e));
        if id != OID_SKI && id != OID_KU && id != OID_ROLE {
            v.push(list_errors(id, &e));
        }
    }
    v
}

/// Lists with two defects in any places: the first one counts.
fn list_errors(id: &'static [u32], o: &Oracle) -> Family {
    let items = match id {
        x if x == OID_SAN => list_items(1),
        x if x == OID_EKU => list_items(2),
        _ => cat_items(),
    };
    let n = items.len();
    built(
        "two-defects",
        &format!("sequences of 1..=3 of {n} items, valid and defective in every way, defects in any order"),
        0,
        o,
        move |ch| {
            let k = 1 + ch.choose(3);
            let mut b = vec![];
            for _ in 0..k {
                b.extend_from_slice(ch.pick(&items));
            }
            Ok(ext_body(id, &tlv(0x30, &b)))
        },
    )
}

/// What may stand in a BasicConstraints sequence, and what may not.
fn cat_items() -> Vec<Vec<u8>> {
    let mut v = vec![tlv(1, &[0xFF]), tlv(1, &[0]), tlv(2, &[3]), tlv(2, &[0x80, 0, 0, 0]), tlv(2, &[1, 2, 3, 4, 5]), tlv(5, &[])];
    v.extend(bad_elements().into_iter().step_by(2));
    v.extend(cut_elements());
    v
}
