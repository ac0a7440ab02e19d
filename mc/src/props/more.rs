//! Whole certificates that vary one aspect widely: texts, characters, counts, identifiers, addresses,
//! nested octets, instants, and relations between parts that each look ordinary.

use super::common::*;
use super::x509::built;
use super::Tier;
use crate::engine::{Ch, Family, Step, Stop};
use crate::gen::*;
use crate::refx509 as rx;
use crate::refx509::*;
use crate::sut::*;
use std::sync::Arc;

pub fn cert_of(full: bool, f: impl FnOnce(&mut CertMenu)) -> Vec<u8> {
    let mut m = plain_menu(full);
    f(&mut m);
    let mut b = CertBuf::new();
    build_cert(&mut Ch::new(0), &m, &mut b);
    b.out
}

/// A certificate with one extension and nothing else optional.
fn one_ext(id: &[u32], content: &[u8]) -> Vec<u8> {
    cert_of(false, |m| {
        m.version = vec![tlv(0xA0, &tlv(2, &[2]))];
        m.ext = vec![tlv(0xA3, &seq(&[&ext_of(id, None, content)]))];
    })
}

/// Certificates amid what files carry around their contents, and in the text forms of certificates.
pub fn marked(o: &Oracle) -> Family {
    let certs: Vec<Vec<u8>> = base_certs().into_iter().chain([tiny_cert(), vec![5, 0], vec![], seq(&[&tlv(2, &[1])])]).collect();
    let marks: Vec<&'static [u8]> = vec![
        b"", b"\xEF\xBB\xBF", b"\xFE\xFF", b"\xFF\xFE", b"\xFF\xFE\0\0", b"\0\0\xFE\xFF", b" ", b"\n", b"\r\n", b"\t", b"\0", b"\0\0", b"\0\0\0\0", b"\x1A", b"\x04", b"\x0C", b"\x1F\x8B\x08\0",
        b"PK\x03\x04", b"BZh9", b"\xFD7zXZ\0", b"\x7FELF", b"#!", b"%PDF-1.4\n", b"MZ", b"-----BEGIN CERTIFICATE-----\n", b"\n-----END CERTIFICATE-----\n", b"Bag Attributes\n", b"Certificate:\n", b"{", b"<?xml?>",
        b"0", b"1", b"\xA0\x80", b"\x30\x80", b"\x04\x82\x03\0", b"\xFF", b"\xFF\xFF\xFF\xFF", b"DER:", b"3082", b"MII", b"\\x30", b"\xFE\xED\xFE\xED\0\0\0\x02",
    ];
    let n = marks.len();
    let forms = ["as it is", "in upper-case hexadecimal", "in lower-case hexadecimal", "in hexadecimal with colons", "in base 64", "in base 64 between the lines of a certificate file", "in base 64 with lines of 64", "octets reversed", "bits inverted", "in two-octet characters"];
    built(
        "marked",
        &format!("{} inputs {}, with each of {n} marks before and each after", certs.len(), forms.join(", or ")),
        0,
        o,
        move |ch| {
            let c = ch.pick(&certs).clone();
            let f = ch.choose(forms.len());
            let body = match f {
                0 => c,
                1 => c.iter().flat_map(|x| format!("{x:02X}").into_bytes()).collect(),
                2 => c.iter().flat_map(|x| format!("{x:02x}").into_bytes()).collect(),
                3 => c.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(":").into_bytes(),
                4 => base64(&c, usize::MAX),
                5 => cat(&[b"-----BEGIN CERTIFICATE-----\n", &base64(&c, 64), b"\n-----END CERTIFICATE-----\n"]),
                6 => base64(&c, 64),
                7 => c.into_iter().rev().collect(),
                8 => c.into_iter().map(|x| !x).collect(),
                _ => c.into_iter().flat_map(|x| [x, 0]).collect(),
            };
            let (a, z) = if f == 0 { (*ch.pick(&marks), *ch.pick(&marks)) } else if ch.flip() { (*ch.pick(&marks), &b""[..]) } else { (&b""[..], *ch.pick(&marks)) };
            Ok(cat(&[a, &body, z]))
        },
    )
}

fn base64(b: &[u8], line: usize) -> Vec<u8> {
    let set = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut v = vec![];
    for c in b.chunks(3) {
        let x = (c[0] as usize) << 16 | (*c.get(1).unwrap_or(&0) as usize) << 8 | *c.get(2).unwrap_or(&0) as usize;
        for k in 0..4 {
            v.push(if k <= c.len() { set[x >> (18 - 6 * k) & 63] } else { b'=' });
        }
    }
    v.chunks(line.min(v.len().max(1))).collect::<Vec<_>>().join(&b'\n')
}

// ---------------------------------------------------------------- oracles

/// Both names of a certificate attribute by attribute.
pub fn names_of(b: &[u8]) -> Step {
    let Ok(r) = rx::certificate(b) else { return Err(Stop::Prune) };
    Ok(name_check(r.issuer)?.wrapping_mul(31).wrapping_add(name_check(r.subject)?))
}

/// The extensions of a certificate, one by one.
pub fn exts_of(b: &[u8]) -> Step {
    exts_check(b)
}

/// Fields, names and extensions.
pub fn fields_of(b: &[u8]) -> Step {
    cert_check(b, true, Some(ALL_FIELDS))
}

// ---------------------------------------------------------------- texts

pub const PLACES: &[&str] =
    &["issuer C", "issuer ST", "issuer L", "issuer O", "issuer OU", "issuer CN", "subject CN", "subject O", "mail", "DNS", "URI", "role"];

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    All,
    Names,
    Alternatives,
    Role,
}

impl Which {
    fn range(self) -> std::ops::Range<usize> {
        match self {
            Which::All => 0..12,
            Which::Names => 0..8,
            Which::Alternatives => 8..11,
            Which::Role => 11..12,
        }
    }
}

fn with_text(place: usize, tag: u8, t: &[u8]) -> Vec<u8> {
    match place {
        0..=5 => cert_of(false, |m| m.issuer = vec![seq(&[&rdn([6, 8, 7, 10, 11, 3][place], tag, t)])]),
        6 => cert_of(false, |m| m.subject = vec![seq(&[&rdn(3, tag, t)])]),
        7 => cert_of(false, |m| m.subject = vec![seq(&[&rdn(10, tag, t), &rdn(3, tag, b"after")])]),
        8..=10 => one_ext(OID_SAN, &seq(&[&tlv([0x81, 0x82, 0x86][place - 8], t), &tlv(0x82, b"after")])),
        _ => one_ext(OID_ROLE, &tlv(0x0C, t)),
    }
}

fn text_family(
    name: &str,
    what: &str,
    w: Which,
    o: &Oracle,
    f: impl Fn(&mut Ch) -> Result<Vec<u8>, Stop> + Clone + Send + Sync + 'static,
) -> Family {
    let what = format!("{what}; in {} (names under each string type)", PLACES[w.range()].join(", "));
    built(name, &what, 0, o, move |ch| {
        let r = w.range();
        let place = r.start + ch.choose(r.len());
        let tag = if place < 8 { *ch.pick(&[0x0Cu8, 0x13, 0x16]) } else { 0 };
        Ok(with_text(place, tag, &f(ch)?))
    })
}

const UNITS: &[&str] = &[
    "a", "\u{e9}", "\u{20ac}", "\u{10348}", "\0", " ", ".", "\n", "\u{feff}", "\u{202e}", "e\u{301}", "%", "{}", "0", "\u{1F468}\u{200D}\u{1F469}",
];

fn text_sizes(upto: usize, w: Which, o: &Oracle) -> Family {
    let mut list: Vec<usize> = (0..=upto).collect();
    for k in [192usize, 200, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        for d in 0..5 {
            if k + d - 2 > upto {
                list.push(k + d - 2);
            }
        }
    }
    let list = Arc::new(list);
    text_family(
        "whole-text-sizes",
        &format!("texts of every size 0..={upto} octets and around powers of two to 65538, made of one of {} units of 1 to 18 octets behind 0..=3 ASCII letters, filled up with ASCII", UNITS.len()),
        w,
        o,
        move |ch| {
            let n = *ch.pick(&list);
            let u = ch.pick(UNITS).as_bytes();
            let p = ch.choose(4);
            if p > n {
                return Err(Stop::Prune);
            }
            let mut t = b"xyz"[..p].to_vec();
            while t.len() + u.len() <= n {
                t.extend_from_slice(u);
            }
            t.resize(n, b'y');
            Ok(t)
        },
    )
}

fn text_chars(w: Which, o: &Oracle) -> Family {
    let mut chars: Vec<char> = (0..0x800u32).filter_map(char::from_u32).collect();
    for c in [
        0x800u32, 0xFFF, 0x1000, 0x1100, 0x1E9E, 0x2000, 0x200B, 0x200D, 0x200E, 0x2028, 0x2029, 0x202A, 0x2060, 0x20AC, 0x2126, 0x3000, 0x3042,
        0x4E00, 0x7FFF, 0x8000, 0xAC00, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xF8FF, 0xFB01, 0xFDD0, 0xFE0F, 0xFEFF, 0xFF0E, 0xFFFC, 0xFFFD, 0xFFFE,
        0xFFFF, 0x10000, 0x1D11E, 0x1F600, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0xE0001, 0xF0000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF,
    ] {
        chars.extend(char::from_u32(c));
    }
    let k = chars.len();
    let chars = Arc::new(chars);
    text_family(
        "whole-text-characters",
        &format!("each of {k} characters (all of one and two octets, boundaries and oddities of three and four) alone, first, inside, last or doubled"),
        w,
        o,
        move |ch| {
            let c = *ch.pick(&chars);
            Ok(match ch.choose(5) {
                0 => c.to_string(),
                1 => format!("{c}text"),
                2 => format!("te{c}xt"),
                3 => format!("text{c}"),
                _ => format!("{c}{c}"),
            }
            .into_bytes())
        },
    )
}

const WORDS: &[&str] = &[
    "", " ", ".", "*", "*.", "@", "a@b", "host", "HOST", "www.", "xn--", "localhost", "127.0.0.1", "::1", "[::1]", "mailto:", "http://", "https://",
    "HTTP://", "ldap://", "urn:", "file://", "//", "/", "\\", "CN=", "C=", "O=", ",", "+", ";", "=", "#", "\"", "'", "<", ">", "&", "%20", "%00",
    "?", ":", ":443", "-", "_", "(", ")", "\t", "\r", "\n", "\0", "null", "none", "None", "true", "0", "1", "-1", "DE", "de", "US", "USA",
    "\u{e4}", "\u{20ac}", "\u{feff}", "Operator", "operator", "Viewer", "Engineer", "Installer", "SecurityAdmin", "Test", "Unknown", "raw",
];

fn text_words(n: usize, w: Which, o: &Oracle) -> Family {
    text_family(
        "whole-text-words",
        &format!("all sequences of 0..={n} of {} words that programs like to treat specially", WORDS.len()),
        w,
        o,
        move |ch| {
            let k = ch.choose(n + 1);
            let mut t = vec![];
            for _ in 0..k {
                t.extend_from_slice(ch.pick(WORDS).as_bytes());
            }
            Ok(t)
        },
    )
}

pub fn texts(t: Tier, w: Which, o: &Oracle) -> Vec<Family> {
    vec![text_sizes(t.pick(140, 700), w, o), text_chars(w, o), text_words(t.pick(2, 3), w, o)]
}

// ---------------------------------------------------------------- counts

pub fn counts(max: usize, o: &Oracle) -> Family {
    let mut list: Vec<usize> = (0..=max).collect();
    list.extend([999, 1000, 1001, 1023, 1024, 1025, 4096].iter().filter(|x| **x > max));
    let list = Arc::new(list);
    built(
        "whole-counts",
        &format!("certificates with every count 0..={max} (and some to 4096) of: extensions of one kind (each kind), of cycling kinds, of distinct unknown kinds; alternative names of one kind (each) or cycling; key purposes; sets of a name, or attributes of one set, before and after a known one"),
        0,
        o,
        move |ch| {
            let n = *ch.pick(&list);
            let kinds = super::x509::ext_kinds();
            let exts = |f: &dyn Fn(usize) -> Vec<u8>| -> Vec<u8> {
                let mut l = vec![];
                for i in 0..n {
                    l.extend(f(i));
                }
                cert_with_ext(&tlv(0x30, &l))
            };
            let name = |i: usize, k: usize| match k {
                4 => tlv(0x88, &crate::refder::oid_encode(&[1, 2, i as u32])),
                3 => tlv(0x87, &(i as u32).to_be_bytes()),
                k => tlv([0x81, 0x82, 0x86][k], format!("name {i}").as_bytes()),
            };
            Ok(match ch.choose(6) {
                0 => {
                    let k = ch.choose(kinds.len());
                    exts(&|i| ext_of(kinds[k].0, if i % 2 == 0 { None } else { Some(0xFF) }, &kinds[k].1))
                }
                1 => exts(&|i| ext_of(kinds[i % kinds.len()].0, None, &kinds[i % kinds.len()].1)),
                2 => exts(&|i| ext_of(&[1, 2, i as u32], None, &(i as u16).to_be_bytes())),
                3 => {
                    let k = ch.choose(6);
                    let l: Vec<u8> = (0..n).flat_map(|i| name(i, if k == 5 { i % 5 } else { k })).collect();
                    one_ext(OID_SAN, &tlv(0x30, &l))
                }
                4 => {
                    let step = ch.choose(3);
                    let l: Vec<u8> =
                        (0..n).flat_map(|i| oid(&[1, 3, 6, 1, 5, 5, 7, 3, [1, 2, 3, 4, 8, 9][(i * step + step) % 6]])).collect();
                    one_ext(OID_EKU, &tlv(0x30, &l))
                }
                _ => {
                    let one_set = ch.flip();
                    let at = [0, n / 2, n][ch.choose(3)];
                    let mut l = vec![];
                    for i in 0..=n {
                        if i == at {
                            let a = seq(&[&oid(&[2, 5, 4, 3]), &tlv(0x0C, b"known")]);
                            l.extend(if one_set { a } else { tlv(0x31, &a) });
                        }
                        if i < n {
                            let a = seq(&[&oid(&[2, 5, 4, 100 + i as u32]), &tlv(0x0C, format!("v{i}").as_bytes())]);
                            if one_set {
                                l.extend(a);
                            } else {
                                l.extend(tlv(0x31, &a));
                            }
                        }
                    }
                    let l = if one_set { tlv(0x31, &l) } else { l };
                    let who = ch.flip();
                    cert_of(false, |m| if who { m.issuer = vec![tlv(0x30, &l)] } else { m.subject = vec![tlv(0x30, &l)] })
                }
            })
        },
    )
}

/// Long lists with one defect.
pub fn broken_counts(max: usize, o: &Oracle) -> Family {
    let mut list: Vec<usize> = (1..=max).collect();
    list.extend([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025].iter().filter(|x| **x > max));
    let list = Arc::new(list);
    const KINDS: &[&str] = &["extensions", "alternative names", "purposes", "sets of a name", "attributes of a set"];
    built(
        "broken-counts",
        &format!("lists of 1..={max} (and some to 1025) {}, the first, second, middle, last but one or last of which is one of ten others: malformed, truncated, unexpected, of another type; or one of them following the last", KINDS.join(", ")),
        0,
        o,
        move |ch| {
            let kind = ch.choose(KINDS.len());
            let n = *ch.pick(&list);
            let at = *ch.pick(&[0, 1, n / 2, n.saturating_sub(2), n - 1, n]);
            let good = |i: usize| match kind {
                0 => ext_of(&[1, 2, 3, i as u32], None, &[i as u8]),
                1 => tlv(0x82, format!("n{i}").as_bytes()),
                2 => oid(&[1, 3, 6, 1, 5, 5, 7, 3, [1, 2, 3, 4, 8, 9][i % 6]]),
                3 => set(&[&seq(&[&oid(&[2, 5, 4, 100 + i as u32]), &tlv(0x13, b"v")])]),
                _ => seq(&[&oid(&[2, 5, 4, 100 + i as u32]), &tlv(0x13, b"v")]),
            };
            let odd = [
                vec![0x30],
                vec![0x31, 0x7F],
                vec![0x82],
                vec![0x06, 0x83, 0xFF, 0xFF, 0xFF],
                tlv(5, &[]),
                tlv(1, &[7]),
                vec![0x24, 0x00],
                tlv(0x84, &[]),
                oid(&[1, 2, 3]),
                match kind {
                    0 => seq(&[&oid(&[1, 2])]),
                    1 => tlv(0x82, &[0xFF]),
                    2 => tlv(6, &[0x2A, 0x80]),
                    3 => set(&[]),
                    _ => seq(&[&oid(&[2, 5, 4, 100])]),
                },
            ];
            let odd = ch.pick(&odd).clone();
            let mut l = vec![];
            for i in 0..n {
                if i == at {
                    l.extend_from_slice(&odd);
                } else {
                    l.extend(good(i));
                }
            }
            if at == n {
                l.extend_from_slice(&odd);
            }
            Ok(match kind {
                0 => cert_with_ext(&tlv(0x30, &l)),
                1 => one_ext(OID_SAN, &tlv(0x30, &l)),
                2 => one_ext(OID_EKU, &tlv(0x30, &l)),
                k => {
                    let l = if k == 4 { tlv(0x31, &l) } else { l };
                    cert_of(false, |m| m.subject = vec![tlv(0x30, &l)])
                }
            })
        },
    )
}

// ---------------------------------------------------------------- addresses

pub fn addresses(t: Tier, o: &Oracle) -> Vec<Family> {
    let alpha: &'static [u8] = t.pick(&[0, 0x7F, 0xFF], &[0, 1, 0x7F, 0xFE, 0xFF]);
    vec![
        built(
            "addresses",
            &format!("IP address names of 4 octets over nine values, of 8 octets over {alpha:02x?}, of 16 octets with each half's first and last two octets over five values"),
            0,
            o,
            move |ch| {
                let c: Vec<u8> = match ch.choose(3) {
                    0 => (0..4).map(|_| *ch.pick(&[0u8, 1, 10, 127, 128, 169, 192, 254, 255])).collect(),
                    1 => (0..8).map(|_| *ch.pick(alpha)).collect(),
                    _ => {
                        let mut v = vec![0; 16];
                        for i in [0usize, 1, 10, 14, 15] {
                            v[i] = *ch.pick(&[0u8, 1, 0x20, 0xFE, 0xFF]);
                        }
                        if ch.flip() {
                            v[11] = v[10];
                        }
                        v
                    }
                };
                Ok(one_ext(OID_SAN, &seq(&[&tlv(0x87, &c)])))
            },
        ),
        built(
            "address-patterns",
            "IP address names of 0..=40 octets, all 00 or FF or ascending, each single octet set to each of nine values",
            0,
            o,
            move |ch| {
                let n = ch.choose(41);
                let mut c = match ch.choose(3) {
                    0 => vec![0; n],
                    1 => vec![0xFF; n],
                    _ => (0..n as u8).collect(),
                };
                if n > 0 {
                    let p = ch.choose(n);
                    c[p] = *ch.pick(&[0u8, 1, 9, 10, 0x7F, 0x80, 0xA0, 0xFE, 0xFF]);
                }
                Ok(one_ext(OID_SAN, &seq(&[&tlv(0x82, b"before"), &tlv(0x87, &c), &tlv(0x87, &[1])])))
            },
        ),
    ]
}

// ---------------------------------------------------------------- octets that look like DER

/// Every octet-valued place holding something that itself looks like an element.
pub fn wrapped(upto: usize, exts: bool, fields: bool, o: &Oracle) -> Family {
    let mut sizes: Vec<usize> = (0..=upto).collect();
    sizes.extend([119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 253, 254, 255, 256, 257, 258].iter().filter(|x| **x > upto));
    let sizes = Arc::new(sizes);
    let mut places: Vec<usize> = vec![];
    if exts {
        places.extend([0, 1, 2, 9]);
    }
    if fields {
        places.extend([3, 4, 5, 6, 7, 8]);
    }
    built(
        "nested-octets",
        &format!("{} octet-valued places (key identifier, unknown extensions, addresses, key, signature, unique identifiers, serial number, parameters) holding an element of each of 12 identifiers with 0..={upto} or about 128 or 256 octets, or two elements, exact, one short, one over or doubly wrapped", places.len()),
        0,
        o,
        move |ch| {
            let place = *ch.pick(&places);
            let n = *ch.pick(&sizes);
            let tag = *ch.pick(&[2u8, 3, 4, 5, 6, 0x0C, 0x13, 0x17, 0x30, 0x31, 0xA0, 0x82]);
            let mut inner = fill(n, tag);
            if tag == 0x30 && n > 1 && n < 128 {
                inner[0] = 4;
                inner[1] = (n - 2) as u8;
            }
            if (tag == 3 || tag == 2) && n > 0 {
                inner[0] = 0;
            }
            let e = tlv(tag, &inner);
            let e = match ch.choose(5) {
                0 => e,
                1 => e[..e.len() - 1].to_vec(),
                2 => cat(&[&e, &[0]]),
                3 => tlv(4, &e),
                _ => cat(&[&e, &tlv(2, &[3])]),
            };
            let bits = |t: u8| vec![tlv(t, &cat(&[&[0], &e]))];
            Ok(match place {
                0 => one_ext(OID_SKI, &tlv(4, &e)),
                1 => one_ext(&[1, 2, 3, 4], &e),
                2 => one_ext(OID_SAN, &seq(&[&tlv(0x87, &e), &tlv(0x82, b"after")])),
                9 => one_ext(&[2, 5, 29, 35], &e),
                p => cert_of(true, |m| match p {
                    3 => m.key = bits(3),
                    4 => m.sig = bits(3),
                    5 => m.iuid = bits(0x81),
                    6 => m.suid = bits(0x82),
                    7 => m.serial = vec![tlv(2, &e)],
                    _ => m.params = vec![tlv(4, &e)],
                }),
            })
        },
    )
}

/// Keys and signatures in the shapes their algorithms give them, under the right and the wrong
/// algorithm.
pub fn keys(t: Tier, o: &Oracle) -> Family {
    let mut algs: Vec<(Vec<u32>, Vec<u8>)> = vec![];
    for a in [1u32, 4, 5, 7, 10, 11, 12, 13] {
        algs.push((vec![1, 2, 840, 113549, 1, 1, a], tlv(5, &[])));
    }
    for c in [&[1, 2, 840, 10045, 3, 1, 7][..], &[1, 3, 132, 0, 34], &[1, 3, 132, 0, 35], &[1, 3, 132, 0, 10]] {
        algs.push((vec![1, 2, 840, 10045, 2, 1], oid(c)));
    }
    for a in 1..=4u32 {
        algs.push((vec![1, 2, 840, 10045, 4, 3, a], vec![]));
    }
    for a in 110..=113u32 {
        algs.push((vec![1, 3, 101, a], vec![]));
    }
    algs.push((vec![1, 2, 840, 10040, 4, 1], seq(&[&tlv(2, &[7]), &tlv(2, &[3]), &tlv(2, &[2])])));
    algs.push((vec![1, 2, 840, 10046, 2, 1], seq(&[&tlv(2, &[7]), &tlv(2, &[3])])));
    algs.push((vec![2, 16, 840, 1, 101, 3, 4, 3, 2], vec![]));
    algs.push((vec![1, 2, 3], tlv(5, &[])));
    let algs = Arc::new(algs);
    const SHAPES: &[&str] = &[
        "raw octets",
        "an octet string",
        "an uncompressed point",
        "a compressed point",
        "two integers",
        "two integers with a leading zero",
        "one integer",
        "a bit string",
        "a key info",
        "zeros",
    ];
    let mut sizes: Vec<usize> = t.pick((0..=9).chain(28..=36).chain([48, 49, 56, 57, 58, 63, 64, 65, 66, 67, 96, 97, 112, 114, 127, 128, 129, 132, 133, 256, 257]).collect(), (0..=270).collect());
    sizes.extend([384, 512, 1024]);
    let sizes = Arc::new(sizes);
    built(
        "keys",
        &format!("{} algorithms with their usual parameters, none or null; key or signature being {} of {} sizes to 1024, with 0, 1 or 7 unused bits", algs.len(), SHAPES.join(", "), sizes.len()),
        0,
        o,
        move |ch| {
            let (id, params) = ch.pick(&algs).clone();
            let params = [params, vec![], tlv(5, &[])][ch.choose(3)].clone();
            let shape = ch.choose(SHAPES.len());
            let n = *ch.pick(&sizes);
            let x = fill(n, 3);
            let e = match shape {
                0 => x,
                1 => tlv(4, &x),
                2 => cat(&[&[4], &x]),
                3 => cat(&[&[2], &x]),
                4 => seq(&[&tlv(2, &x), &tlv(2, &[1, 0, 1])]),
                5 => seq(&[&tlv(2, &cat(&[&[0, 0x80], &x])), &tlv(2, &cat(&[&[0], &x]))]),
                6 => tlv(2, &x),
                7 => tlv(3, &cat(&[&[0], &x])),
                8 => seq(&[&seq(&[&oid(&id)]), &tlv(3, &cat(&[&[0], &x]))]),
                _ => vec![0; n],
            };
            let unused = *ch.pick(&[0u8, 1, 7]);
            if unused > 0 && e.is_empty() {
                return Err(Stop::Prune);
            }
            let bits = tlv(3, &cat(&[&[unused], &e]));
            let sig = ch.flip();
            Ok(cert_of(false, |m| {
                if sig {
                    (m.oid, m.params) = (vec![oid(&id)], vec![params.clone()]);
                    (m.out_oid, m.out_params) = (vec![oid(&id)], vec![params]);
                    m.sig = vec![bits];
                } else {
                    (m.key_oid, m.key_params) = (vec![oid(&id)], vec![params]);
                    m.key = vec![bits];
                }
            }))
        },
    )
}

// ---------------------------------------------------------------- identifiers

pub fn known_oids() -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    let mut range = |head: &[u32], upto: u32| {
        for i in 0..=upto {
            v.push([head, &[i]].concat());
        }
    };
    range(&[1, 2, 840, 113549, 1, 1], 16); // PKCS 1
    range(&[1, 2, 840, 113549, 1, 9], 25);
    range(&[1, 2, 840, 113549, 2], 12);
    range(&[1, 2, 840, 10040, 4], 4);
    range(&[1, 2, 840, 10045, 1], 3);
    range(&[1, 2, 840, 10045, 2], 3);
    range(&[1, 2, 840, 10045, 4], 5);
    range(&[1, 2, 840, 10045, 4, 3], 5);
    range(&[1, 2, 840, 10045, 3, 1], 8);
    range(&[1, 3, 101], 120);
    range(&[1, 3, 132, 0], 40);
    range(&[1, 3, 14, 3, 2], 30);
    range(&[2, 16, 840, 1, 101, 3, 4, 1], 8);
    range(&[2, 16, 840, 1, 101, 3, 4, 2], 14);
    range(&[2, 16, 840, 1, 101, 3, 4, 3], 32);
    range(&[1, 3, 36, 3, 3], 4);
    range(&[2, 5, 8, 1], 3);
    range(&[2, 5, 4], 70);
    range(&[2, 5, 29], 80);
    range(&[2, 5, 29, 32], 2);
    range(&[2, 5, 29, 37], 2);
    range(&[1, 3, 6, 1, 5, 5, 7], 3);
    range(&[1, 3, 6, 1, 5, 5, 7, 1], 32);
    range(&[1, 3, 6, 1, 5, 5, 7, 3], 40);
    range(&[1, 3, 6, 1, 5, 5, 7, 48], 5);
    range(&[1, 3, 6, 1, 4, 1, 11129, 2, 4], 5);
    range(&[1, 3, 6, 1, 4, 1, 311, 20, 2], 3);
    range(&[1, 3, 6, 1, 4, 1, 311, 21], 10);
    range(&[1, 3, 6, 1, 4, 1, 50316, 802], 5);
    range(&[2, 16, 840, 1, 113730, 1], 13);
    range(&[0, 9, 2342, 19200300, 100, 1], 25);
    range(&[2, 23, 140, 1], 3);
    range(&[2, 16, 840, 1, 113730, 4], 3);
    range(&[1, 3, 6, 1, 4, 1, 311, 10, 3], 20);
    range(&[1, 3, 6, 1, 4, 1, 311, 2, 1], 25);
    range(&[1, 3, 6, 1, 5, 2, 3], 6);
    range(&[1, 3, 6, 1, 5, 5, 8, 2], 3);
    range(&[2, 16, 840, 1, 101, 3, 6], 9);
    range(&[1, 0, 18013, 5], 7);
    range(&[0], 39);
    range(&[1], 39);
    range(&[2], 200);
    v.extend([vec![2, u32::MAX - 80], vec![1, 2, u32::MAX], vec![1, 2, 128], vec![1, 2, 16383], vec![1, 2, 16384], vec![1, 2, 3, 0, 0, 0]]);
    v
}

#[derive(Clone, Copy)]
pub enum At {
    Algorithms,
    Extensions,
    ExtensionParts,
    Attributes,
    RegisteredIds,
    Purposes,
}

pub fn identifiers(at: &'static [At], o: &Oracle) -> Family {
    let mut ids = known_oids();
    for a in at {
        match a {
            At::Attributes => [3u32, 6, 7, 8, 10, 11].iter().for_each(|k| ids.extend(neighbours(&[2, 5, 4, *k]))),
            At::Purposes => [1u32, 2, 3, 4, 8, 9].iter().for_each(|k| ids.extend(neighbours(&[1, 3, 6, 1, 5, 5, 7, 3, *k]))),
            _ => {}
        }
    }
    ids.sort();
    ids.dedup();
    let ids = Arc::new(ids);
    let what: Vec<&str> = at
        .iter()
        .map(|a| match a {
            At::Algorithms => "algorithms at each of the three places with six kinds of parameters",
            At::Extensions => "extension identifiers with six contents, critical or not",
            At::ExtensionParts => "extension identifiers with any three parts (or fewer) of six after them",
            At::Attributes => "name attributes under four value types",
            At::RegisteredIds => "registered ids among alternative names",
            At::Purposes => "key purposes alone, before and after a supported one",
        })
        .collect();
    built(
        "known-identifiers",
        &format!("{} object identifiers (every algorithm, extension, attribute, curve and purpose family in use, with neighbours) as {}", ids.len(), what.join("; ")),
        0,
        o,
        move |ch| {
            let id = ch.pick(&ids).clone();
            let params = || {
                vec![
                    vec![],
                    tlv(5, &[]),
                    oid(&[1, 2, 840, 10045, 3, 1, 7]),
                    tlv(4, &[1, 2]),
                    seq(&[&tlv(0xA0, &seq(&[&oid(&[2, 16, 840, 1, 101, 3, 4, 2, 1]), &tlv(5, &[])]))]),
                    tlv(2, &[7]),
                ]
            };
            Ok(match *ch.pick(at) {
                At::Algorithms => {
                    let place = ch.choose(3);
                    let p = ch.pick(&params()).clone();
                    cert_of(false, |m| match place {
                        0 => (m.oid, m.params) = (vec![oid(&id)], vec![p]),
                        1 => (m.key_oid, m.key_params) = (vec![oid(&id)], vec![p]),
                        _ => (m.out_oid, m.out_params) = (vec![oid(&id)], vec![p]),
                    })
                }
                At::Extensions => {
                    let c = [
                        vec![],
                        tlv(4, &[1, 2, 3]),
                        tlv(3, &[5, 0xA0]),
                        seq(&[]),
                        seq(&[&tlv(0x82, b"x.y")]),
                        seq(&[&seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 48, 1]), &tlv(0x86, b"http://ocsp/")])]),
                    ][ch.choose(6)]
                    .clone();
                    let crit = *ch.pick(&[None, Some(0xFF)]);
                    cert_with_ext(&seq(&[&ext_of(&id, crit, &c), &ext_of(OID_BC, None, &seq(&[]))]))
                }
                At::ExtensionParts => {
                    let c = [vec![], seq(&[]), tlv(3, &[5, 0xA0]), seq(&[&tlv(0x82, b"x.y")])][ch.choose(4)].clone();
                    let parts = [vec![], tlv(1, &[0]), tlv(1, &[0xFF]), tlv(1, &[1]), tlv(4, &c), tlv(4, &[]), vec![5, 0]];
                    let mut body = oid(&id);
                    for _ in 0..3 {
                        body.extend_from_slice(ch.pick(&parts));
                    }
                    cert_with_ext(&seq(&[&tlv(0x30, &body), &ext_of(OID_BC, None, &seq(&[]))]))
                }
                At::Attributes => {
                    let v = [tlv(0x0C, b"text"), tlv(0x13, b"DE"), tlv(0x16, b"a@b"), tlv(2, &[1])][ch.choose(4)].clone();
                    let a = set(&[&seq(&[&oid(&id), &v])]);
                    let both = ch.flip();
                    cert_of(false, |m| {
                        m.subject = vec![seq(&[&a, &rdn(7, 0x0C, b"city")])];
                        if both {
                            m.issuer = m.subject.clone();
                        }
                    })
                }
                At::Purposes => {
                    let e = oid(&id);
                    let known = oid(&[1, 3, 6, 1, 5, 5, 7, 3, 2]);
                    let list = match ch.choose(3) {
                        0 => e,
                        1 => cat(&[&known, &e]),
                        _ => cat(&[&e, &known]),
                    };
                    one_ext(OID_EKU, &tlv(0x30, &list))
                }
                At::RegisteredIds => {
                    one_ext(OID_SAN, &seq(&[&tlv(0x88, &crate::refder::oid_encode(&id)), &tlv(0x82, b"after")]))
                }
            })
        },
    )
}

// ---------------------------------------------------------------- instants

pub fn instants(step: usize, o: &Oracle) -> Family {
    built(
        "instants",
        &format!("not-before or not-after at six days and three times of every {step}. year from 1970 to 9999, in each format that can write it"),
        0,
        o,
        move |ch| {
            let y = 1970 + step * ch.choose((9999 - 1970) / step + 1);
            let utc = y < 2050 && ch.flip();
            let day = *ch.pick(&["0101", "0228", "0301", "0630", "1130", "1231"]);
            let at = *ch.pick(&["000000", "120000", "235959"]);
            let t = if utc { tlv(0x17, format!("{:02}{day}{at}Z", y % 100).as_bytes()) } else { tlv(0x18, format!("{y:04}{day}{at}Z").as_bytes()) };
            let first = ch.flip();
            Ok(cert_of(false, |m| if first { m.nb = vec![t] } else { m.na = vec![t] }))
        },
    )
}

// ---------------------------------------------------------------- relations

/// Parts that equal, precede or imply one another.
pub fn relations(o: &Oracle) -> Family {
    built(
        "relations",
        "issuer and subject each of four names (empty and undecodable among them), validity each pair of three instants, the three algorithms each of two, version absent or v1..v3, unique identifiers each of three, extensions absent, empty or filled, key and signature each empty, equal or not",
        0,
        o,
        move |ch| {
            let names = [name_of(b"One"), name_of(b"Two"), seq(&[]), tlv(0x30, &[0x31])];
            let times = [tlv(0x17, b"700101000000Z"), tlv(0x18, b"20240229120000Z"), tlv(0x17, b"491231235959Z")];
            let algs = [oid(&[1, 2, 840, 113549, 1, 1, 11]), oid(&[1, 3, 101, 112])];
            let mut m = plain_menu(false);
            m.issuer = vec![ch.pick(&names).clone()];
            m.subject = vec![ch.pick(&names).clone()];
            m.nb = vec![ch.pick(&times).clone()];
            m.na = vec![ch.pick(&times).clone()];
            m.oid = vec![ch.pick(&algs).clone()];
            m.key_oid = vec![ch.pick(&algs).clone()];
            m.out_oid = vec![ch.pick(&algs).clone()];
            m.out_params = m.params.clone();
            let v = ch.choose(4);
            m.version = vec![if v == 0 { vec![] } else { tlv(0xA0, &tlv(2, &[v as u8 - 1])) }];
            let u = ch.choose(3);
            m.iuid = vec![[vec![], tlv(0x81, &[0, 7]), tlv(0x81, &[0])][u].clone()];
            let u = ch.choose(3);
            m.suid = vec![[vec![], tlv(0x82, &[0, 7]), tlv(0x82, &[0])][u].clone()];
            let e = ch.choose(3);
            m.ext = vec![[vec![], tlv(0xA3, &seq(&[])), tlv(0xA3, &all_extensions())][e].clone()];
            let s = ch.choose(3);
            if s == 1 {
                m.sig = m.key.clone();
            } else if s == 2 {
                m.key = vec![tlv(3, &[0])];
            }
            let mut b = CertBuf::new();
            build_cert(&mut Ch::new(0), &m, &mut b);
            Ok(b.out)
        },
    )
}

/// Names of every size against each other, and the three algorithm parameters.
pub fn identities(o: &Oracle) -> Family {
    built(
        "identities",
        "issuer and subject each of nine names (empty, one letter, 60 and 300 letters, six attributes of 60, twenty-one of 12, each of the last two also with its last letter changed), the parameters of the three algorithms each of five, the three algorithms each of two",
        0,
        o,
        move |ch| {
            let many = |n: u32, len: usize, last: u8| {
                let all: Vec<Vec<u8>> = (0..n)
                    .map(|k| {
                        let mut v = vec![b'a' + k as u8; len];
                        if k + 1 == n {
                            v[len - 1] = last;
                        }
                        tlv(0x31, &seq(&[&oid(&[2, 5, 4, [6, 8, 7, 10, 11, 3][k as usize % 6]]), &tlv(0x0C, &v)]))
                    })
                    .collect();
                tlv(0x30, &all.concat())
            };
            let names =
                [seq(&[]), name_of(b"a"), name_of(&[b'x'; 60]), name_of(&[b'x'; 300]), many(6, 60, b'y'), many(6, 60, b'z'), many(21, 12, b'y'), many(21, 12, b'z'), many(1, 12, b'y')];
            let params = [vec![], tlv(5, &[]), oid(&[1, 2, 840, 10045, 3, 1, 7]), tlv(2, &[7]), seq(&[&tlv(2, &[7])])];
            let algs = [oid(&[1, 2, 840, 113549, 1, 1, 11]), oid(&[1, 2, 840, 10045, 2, 1])];
            let mut m = plain_menu(false);
            m.issuer = vec![ch.pick(&names).clone()];
            m.subject = vec![ch.pick(&names).clone()];
            m.params = vec![ch.pick(&params).clone()];
            m.out_params = vec![ch.pick(&params).clone()];
            m.key_params = vec![ch.pick(&params).clone()];
            m.oid = vec![ch.pick(&algs).clone()];
            m.key_oid = vec![ch.pick(&algs).clone()];
            m.out_oid = vec![ch.pick(&algs).clone()];
            let mut b = CertBuf::new();
            build_cert(&mut Ch::new(0), &m, &mut b);
            Ok(b.out)
        },
    )
}

/// Extensions whose contents bear on one another.
pub fn ext_relations(o: &Oracle) -> Family {
    built(
        "extension-relations",
        "key usage absent or any of eight, constraints absent or any of seven, purposes absent or any of five, alternative names absent, empty or filled, in four orders, none, all or one of them critical, under version 1 or 3",
        0,
        o,
        move |ch| {
            let mut l: Vec<(&[u32], Vec<u8>)> = vec![];
            let k = ch.choose(9);
            if k > 0 {
                let c = [&[0u8][..], &[7, 0x80], &[2, 0x04], &[1, 0x06], &[5, 0xA0], &[3, 0x08], &[7, 0x00, 0x80], &[7, 0xFF, 0x80]][k - 1];
                l.push((OID_KU, tlv(3, c)));
            }
            let k = ch.choose(8);
            if k > 0 {
                let c = [
                    vec![],
                    tlv(1, &[0]),
                    tlv(1, &[0xFF]),
                    cat(&[&tlv(1, &[0xFF]), &tlv(2, &[0])]),
                    cat(&[&tlv(1, &[0]), &tlv(2, &[0])]),
                    tlv(2, &[5]),
                    cat(&[&tlv(1, &[0xFF]), &tlv(2, &[0xFF])]),
                ][k - 1]
                    .clone();
                l.push((OID_BC, tlv(0x30, &c)));
            }
            let k = ch.choose(6);
            if k > 0 {
                let p: &[u32] = [&[][..], &[1], &[9], &[1, 2], &[4, 1, 8]][k - 1];
                let c: Vec<u8> = p.iter().flat_map(|p| oid(&[1, 3, 6, 1, 5, 5, 7, 3, *p])).collect();
                l.push((OID_EKU, tlv(0x30, &c)));
            }
            let k = ch.choose(3);
            if k > 0 {
                l.push((OID_SAN, if k == 1 { seq(&[]) } else { seq(&[&tlv(0x82, b"a.b"), &tlv(0x87, &[1, 2, 3, 4])]) }));
            }
            match ch.choose(4) {
                1 => l.reverse(),
                2 if l.len() > 1 => l.rotate_left(1),
                3 if l.len() > 2 => l.swap(0, 1),
                0 => {}
                _ => return Err(Stop::Prune),
            }
            let crit = ch.choose(l.len() + 2);
            let v1 = ch.flip();
            let body: Vec<u8> = l
                .iter()
                .enumerate()
                .flat_map(|(i, (id, c))| ext_of(id, if crit == 1 || crit == i + 2 { Some(0xFF) } else { None }, c))
                .collect();
            Ok(cert_of(false, |m| {
                if !v1 {
                    m.version = vec![tlv(0xA0, &tlv(2, &[2]))];
                }
                m.ext = vec![tlv(0xA3, &tlv(0x30, &body))];
            }))
        },
    )
}

/// All of the above, for whatever looks at whole certificates.
pub fn everything(t: Tier, o: &Oracle) -> Vec<Family> {
    let mut v = texts(t, Which::All, o);
    v.push(counts(t.pick(140, 600), o));
    v.extend(addresses(t, o));
    v.push(wrapped(t.pick(40, 300), true, true, o));
    v.push(identifiers(&[At::Algorithms, At::Extensions, At::Attributes, At::RegisteredIds, At::Purposes], o));
    v.push(keys(t, o));
    v.push(instants(t.pick(7, 1), o));
    v.push(relations(o));
    v.push(identities(o));
    v.push(ext_relations(o));
    v.extend(super::x509::parts(t, o));
    v
}
