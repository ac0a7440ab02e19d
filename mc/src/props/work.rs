//! S04: the work and the memory an operation takes grow no faster than its input.
//!
//! Work is counted, not timed: the basic blocks of rx509 passed and the octets copied, filled or
//! compared through the C library; memory is the sum of all octets asked for. Every operation is
//! measured in a pristine process (`sched`, see blocks.rs), so each number is the same every time.

use super::common::*;
use super::state::{Build, Server};
use super::x509::built;
use super::{more, x509, Tier};
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::history::Entry;
use crate::refx509::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::sync::Arc;

thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}

#[derive(Clone, Copy, Debug)]
struct Work {
    blocks: u64,
    allocated: u64,
    copied: u64,
}

/// None where the operation does not end orderly (D01).
fn measure(e: Entry, b: &[u8]) -> Option<Work> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.get_or_insert_with(|| Server::new(Build::Blocks));
        let mut spec = format!("W {} ", e as u8);
        for x in b {
            let _ = write!(spec, "{x:02x}");
        }
        let r = s.ask(&spec).ok()?;
        let n: Vec<u64> = r[0].split(' ').map(|x| x.parse().unwrap()).collect();
        Some(Work { blocks: n[0], allocated: n[1], copied: n[2] })
    })
}

/// Per octet and once, many times what any input of these spaces needs.
const PER_OCTET: Work = Work { blocks: 1200, allocated: 640, copied: 240 };
const ONCE: Work = Work { blocks: 100_000, allocated: 131_072, copied: 131_072 };

fn parts(w: Work) -> [(&'static str, u64); 3] {
    [("basic blocks passed", w.blocks), ("octets allocated", w.allocated), ("octets copied or compared", w.copied)]
}

/// Within the bounds for its size.
fn within(e: Entry, b: &[u8]) -> Step {
    let Some(w) = measure(e, b) else { return Err(Stop::Prune) };
    for (((what, n), (_, per)), (_, once)) in parts(w).into_iter().zip(parts(PER_OCTET)).zip(parts(ONCE)) {
        let most = per * b.len() as u64 + once;
        if n > most {
            return bad(format!("{e:?} of {} octets: at most {most} {what}", b.len()), format!("{n}"));
        }
    }
    Ok(w.blocks)
}

// ---------------------------------------------------------------- growth

struct Shape {
    text: String,
    entry: Entry,
    make: Box<dyn Fn(usize) -> Vec<u8> + Send + Sync>,
}

fn shapes() -> Vec<Shape> {
    let mut v: Vec<Shape> = vec![];
    let mut add = |text: String, entry: Entry, make: Box<dyn Fn(usize) -> Vec<u8> + Send + Sync>| v.push(Shape { text, entry, make });
    use Entry::*;
    // elements side by side and inside each other
    let units: Vec<Vec<u8>> = good_elements().into_iter().chain(bad_elements()).chain(cut_elements()).collect();
    for u in units {
        let t = crate::sut::show(&u);
        let c = u.clone();
        add(format!("{t} repeated"), Walk, Box::new(move |n| c.repeat(n)));
        let c = u.clone();
        add(format!("a sequence of {t}, repeated"), Walk, Box::new(move |n| tlv(0x30, &c.repeat(n))));
        let c = u.clone();
        add(format!("sequences of one {t} each"), Walk, Box::new(move |n| seq(&[&c]).repeat(n)));
        let c = u.clone();
        add(format!("nulls, then {t}"), Walk, Box::new(move |n| cat(&[&[5, 0].repeat(n), &c])));
        for (before, tag) in [(true, 0x30), (false, 0x30), (true, 0xA5), (false, 0x31)] {
            let c = u.clone();
            let side = if before { "before" } else { "behind" };
            add(
                format!("{t} {side} each of nested {tag:02x}"),
                Walk,
                Box::new(move |n| nested(n, tag, if before { &c } else { &[] }, if before { &[] } else { &c })),
            );
        }
    }
    for tag in [0x30u8, 0x31, 0xA0, 0xBE] {
        add(format!("nested {tag:02x}"), Walk, Box::new(move |n| nested(n, tag, &[], &[])));
        add(format!("empty {tag:02x} repeated"), Walk, Box::new(move |n| tlv(tag, &[]).repeat(n)));
        add(format!("{tag:02x} cut off inside each other"), Walk, Box::new(move |n| [tag, 0x84, 0x7F, 0, 0, 0].repeat(n)));
        add(format!("{tag:02x} of exactly what is left, cut off"), Walk, Box::new(move |n| {
            let mut b = nested(n, tag, &[], &[]);
            b.pop();
            b
        }));
    }
    // long contents
    for (tag, what) in [
        (1u8, "boolean"), (2, "integer"), (3, "bits"), (4, "octets"), (5, "null"), (6, "identifier"), (0x0C, "text"), (0x13, "text"), (0x16, "text"),
        (0x17, "time"), (0x18, "time"), (0x80, "tag"), (0x9E, "tag"),
    ] {
        for (kind, f) in LONG {
            add(format!("one long {what} ({tag:02x}) of {kind}"), Walk, Box::new(move |n| tlv(tag, &f(n))));
        }
    }
    // certificates
    let cert = |text: &str, put: fn(&mut CertMenu, Vec<u8>), unit: Vec<u8>, v: &mut dyn FnMut(String, Entry, Box<dyn Fn(usize) -> Vec<u8> + Send + Sync>)| {
        let t = format!("certificate with {text} of {} repeated", crate::sut::show(&unit));
        v(t, Cert, Box::new(move |n| more::cert_of(true, |m| put(m, unit.repeat(n)))));
    };
    for u in [vec![0u8], vec![0xFF], vec![0x7F], vec![0x80], vec![0x01, 0x80], vec![0x30, 0x00], vec![0x05, 0x00], vec![0x81, 0x80, 0x01]] {
        cert("a serial number", |m, b| m.serial = vec![tlv(2, &b)], u.clone(), &mut add);
        cert("a signature", |m, b| m.sig = vec![tlv(3, &cat(&[&[0], &b]))], u.clone(), &mut add);
        cert("a key", |m, b| m.key = vec![tlv(3, &cat(&[&[0], &b]))], u.clone(), &mut add);
        cert("a bit string key", |m, b| m.key = vec![tlv(3, &cat(&[&[3], &b]))], u.clone(), &mut add);
        cert("a raw issuer", |m, b| m.issuer = vec![tlv(0x30, &b)], u.clone(), &mut add);
        cert("raw extensions", |m, b| m.ext = vec![tlv(0xA3, &tlv(0x30, &b))], u.clone(), &mut add);
        cert("more raw extensions", |m, b| m.ext = vec![tlv(0xA3, &b)], u.clone(), &mut add);
        cert("key parameters", |m, b| m.key_params = vec![tlv(4, &b)], u.clone(), &mut add);
        cert("key parameters, a sequence", |m, b| m.key_params = vec![tlv(0x30, &b)], u.clone(), &mut add);
        cert("an algorithm identifier", |m, b| m.oid = vec![tlv(6, &b)], u.clone(), &mut add);
        cert("an issuer identifier", |m, b| m.iuid = vec![tlv(0x81, &b)], u.clone(), &mut add);
        cert("a time", |m, b| m.nb = vec![tlv(0x17, &b)], u.clone(), &mut add);
        cert("an unknown extension", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&ext_of(&[1, 2, 3], None, &b)]))], u.clone(), &mut add);
        cert("a key identifier", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&ext_of(OID_SKI, None, &tlv(4, &b))]))], u.clone(), &mut add);
        cert("key usages", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&ext_of(OID_KU, None, &tlv(3, &cat(&[&[0], &b])))]))], u.clone(), &mut add);
        cert("a role", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&ext_of(OID_ROLE, None, &tlv(0x0C, &b))]))], u.clone(), &mut add);
        cert("basic constraints", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&ext_of(OID_BC, None, &seq(&[&tlv(2, &b)]))]))], u.clone(), &mut add);
        cert("an extension identifier", |m, b| m.ext = vec![tlv(0xA3, &seq(&[&seq(&[&tlv(6, &b), &tlv(4, &[])])]))], u.clone(), &mut add);
    }
    for u in [&b"a"[..], b"a b", "\u{e9}".as_bytes(), b"\0"] {
        for arc in [3u32, 6, 99] {
            let u = u.to_vec();
            add(
                format!("certificate with a name {arc} of {u:02x?} repeated"),
                Cert,
                Box::new(move |n| more::cert_of(true, |m| m.subject = vec![seq(&[&rdn(arc, 0x0C, &u.repeat(n))])])),
            );
        }
        for tag in [0x81u8, 0x82, 0x86, 0x87, 0x88] {
            let u = u.to_vec();
            add(
                format!("certificate with an alternative name {tag:02x} of {u:02x?} repeated"),
                Cert,
                Box::new(move |n| cert_with_ext(&seq(&[&ext_of(OID_SAN, None, &seq(&[&tlv(tag, &u.repeat(n))]))]))),
            );
        }
    }
    // lists
    for kind in 0..5 {
        let items = list_items(kind);
        let firsts: Vec<Vec<u8>> = items.clone();
        for (i, u) in firsts.into_iter().enumerate() {
            for last in [None, Some(items[0].clone()), items.last().cloned()] {
                let u = u.clone();
                let t = format!("list {kind} of item {i} repeated, {}", if last.is_some() { "another behind" } else { "nothing behind" });
                add(
                    t,
                    [Cert, Ext, Ext, Name, Name][kind],
                    Box::new(move |n| {
                        let body = cat(&[&u.repeat(n), last.as_deref().unwrap_or(&[])]);
                        match kind {
                            0 => cert_with_ext(&tlv(0x30, &body)),
                            1 => ext_body(OID_SAN, &tlv(0x30, &body)),
                            2 => ext_body(OID_EKU, &tlv(0x30, &body)),
                            3 => body,
                            _ => tlv(0x31, &body),
                        }
                    }),
                );
            }
        }
    }
    // lists whose items all differ
    add("names that all differ".into(), Name, Box::new(|n| (0..n).flat_map(|i| rdn([3, 6, 7, 8, 10, 11][i % 6], 0x13, format!("n{i}").as_bytes())).collect()));
    add("attributes that all differ".into(), Name, Box::new(|n| (0..n).flat_map(|i| rdn(100 + i as u32, 0x13, b"x")).collect()));
    add("attributes of one set that all differ".into(), Name, Box::new(|n| tlv(0x31, &(0..n).flat_map(|i| ava(&[2, 5, 4, 100 + i as u32], &tlv(0x13, b"x"))).collect::<Vec<_>>())));
    for crit in [None, Some(0xFF)] {
        add(
            format!("extensions that all differ, {crit:?}"),
            Cert,
            Box::new(move |n| cert_with_ext(&tlv(0x30, &(0..n).flat_map(|i| ext_of(&[1, 2, 3, i as u32], crit, &fill(i % 40, 1))).collect::<Vec<_>>()))),
        );
    }
    add("alternative names that all differ".into(), Ext, Box::new(|n| ext_body(OID_SAN, &tlv(0x30, &(0..n).flat_map(|i| tlv([0x81, 0x82, 0x86][i % 3], format!("n{i}").as_bytes())).collect::<Vec<_>>()))));
    add("registered identifiers that all differ".into(), Ext, Box::new(|n| {
        ext_body(OID_SAN, &tlv(0x30, &(0..n).flat_map(|i| { let mut o = oid(&[1, 2, i as u32]); o[0] = 0x88; o }).collect::<Vec<_>>()))
    }));
    add("identifiers that all differ".into(), Walk, Box::new(|n| (0..n).flat_map(|i| oid(&[1, 3, i as u32, 7])).collect()));
    add("integers that all differ".into(), Walk, Box::new(|n| (0..n).flat_map(|i| tlv(2, &(i as u32).to_be_bytes())).collect()));
    add("texts that all differ".into(), Walk, Box::new(|n| (0..n).flat_map(|i| tlv(0x0C, format!("text {i}").as_bytes())).collect()));
    v
}

fn nested(n: usize, tag: u8, before: &[u8], behind: &[u8]) -> Vec<u8> {
    // from the inside out, written backwards
    let mut r: Vec<u8> = vec![];
    for _ in 0..n {
        r.extend(behind.iter().rev());
        // everything so far but `behind`'s later siblings is the content
        let len = len_octets(r.len());
        r.extend(len.iter().rev());
        r.push(tag);
        r.extend(before.iter().rev());
    }
    r.reverse();
    r
}

type Filling = fn(usize) -> Vec<u8>;

const LONG: &[(&str, Filling)] = &[
    ("zeros", |n| vec![0; n]),
    ("FF", |n| vec![0xFF; n]),
    ("80", |n| vec![0x80; n]),
    ("ones", |n| vec![1; n]),
    ("digits", |n| vec![b'1'; n]),
    ("letters", |n| text(n, 1)),
    ("two-octet characters", |n| "\u{e9}".repeat(n).into_bytes()),
    ("four-octet characters", |n| "\u{1f600}".repeat(n / 2).into_bytes()),
    ("arcs of two octets", |n| [0x81, 0x01].repeat(n)),
    ("arcs of five octets", |n| [0x8F, 0xFF, 0xFF, 0xFF, 0x7F].repeat(n / 4)),
    ("letters and then FF", |n| cat(&[&text(n, 1), &[0xFF]])),
    ("anything", |n| fill(n, 5)),
    ("nulls", |n| [5, 0].repeat(n)),
    ("escapes", |n| b"\x1b\x07".repeat(n)),
];

/// Four times the size: at most so many times the work, and what may be needed once. Work below the
/// ordinary per octet does not count as little: a defect may end the work on the smaller input early.
const GROWTH: [u64; 3] = [7, 9, 9];
const ORDINARY: [u64; 3] = [60, 40, 12];

fn growth(t: Tier) -> Family {
    let list = Arc::new(shapes());
    let sizes: &[usize] = t.pick(&[16, 64, 256, 1024, 4096], &[4, 16, 33, 64, 100, 256, 500, 1024, 4096, 16384]);
    let what = format!(
        "{} shapes of input, each of sizes {sizes:?} and of four times those: repeated and nested elements of every kind and defect, long contents of every kind, long parts and lists of certificates",
        list.len()
    );
    Family::new("growth", &what, 0, move || {
        let list = list.clone();
        move |ch: &mut Ch| {
            let s = ch.pick(&list);
            let n = *ch.pick(sizes);
            let (small, large) = ((s.make)(n), (s.make)(4 * n));
            ch.saw(&small);
            let (Some(a), Some(b)) = (measure(s.entry, &small), measure(s.entry, &large)) else { return Err(Stop::Prune) };
            for (i, ((what, x), (_, y))) in parts(a).into_iter().zip(parts(b)).enumerate() {
                if y > GROWTH[i] * x.max(ORDINARY[i] * small.len() as u64) + parts(ONCE)[i].1 {
                    return bad(
                        format!("{:?} of {}: about four times the {what} from {} to {} octets", s.entry, s.text, small.len(), large.len()),
                        format!("{x} and {y}"),
                    );
                }
            }
            within(s.entry, &large)
        }
    })
}

fn entries(e: Entry) -> Oracle {
    oracle(move |b| within(e, b))
}

fn claims(t: Tier) -> Family {
    let data: Vec<usize> = t.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 8, 100]);
    built(
        "claims",
        "elements of every kind and lists of every kind claiming 0..=2^32-1 octets (one to four length octets over six values), with little data behind, walked, in a certificate, as a name or as an extension",
        0,
        &oracle(|b| within([Entry::Walk, Entry::Cert, Entry::Name, Entry::Ext][b[0] as usize], &b[1..])),
        move |ch| {
            let tag = *ch.pick(&[1u8, 2, 3, 4, 5, 6, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0x80, 0x82, 0xA0, 0xA3]);
            let n = 1 + ch.choose(4);
            let mut e = vec![tag, 0x80 | n as u8];
            for i in 0..n {
                e.push(*ch.pick(if i == 0 { &[0u8, 1, 2, 0x7F, 0x80, 0xFF][..] } else { &[0u8, 0xFF][..] }));
            }
            e.extend(vec![5; *ch.pick(&data)]);
            let (k, b) = match ch.choose(7) {
                0 => (0, e),
                1 => (0, seq(&[&e])),
                2 => (1, more::cert_of(true, |m| m.serial = vec![e])),
                3 => (1, more::cert_of(true, |m| m.ext = vec![tlv(0xA3, &e)])),
                4 => (2, set(&[&seq(&[&oid(&[2, 5, 4, 3]), &e])])),
                5 => (3, ext_body(OID_SAN, &e)),
                _ => (3, ext_body(OID_EKU, &seq(&[&e]))),
            };
            Ok(cat(&[&[k], &b]))
        },
    )
}

pub fn s04(t: Tier) -> Vec<Family> {
    let (walk, cert, name, ext) = (entries(Entry::Walk), entries(Entry::Cert), entries(Entry::Name), entries(Entry::Ext));
    let mut v = vec![
        growth(t),
        claims(t),
        bytes_upto(2, &walk),
        alphabet("strings-9", DER_ALPHA_SMALL, t.pick(4, 6), &walk),
        trees("trees", tree_menu, t.pick(2, 3), 1, &walk),
        cert_wild(1, &cert),
        x509::cert_sizes(t.pick(40, 400), &cert),
        x509::name_sequences(t.pick(2, 3), &name),
        x509::ext_structure(1, &ext),
        x509::san_sequences(t.pick(1, 2), &ext),
        x509::ext_sizes(t.pick(40, 400), &ext),
    ];
    if t == Tier::Thorough {
        v.push(cert_octets(&cert));
        v.push(x509::cert_legal(2, &cert));
        v.push(cert_edits(&cert));
    }
    v
}
