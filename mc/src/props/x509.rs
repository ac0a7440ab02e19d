//! X01..X14: certificates, names and extensions.

use super::common::*;
use super::more::{self, At, Which};
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::refder::*;
use crate::refx509 as rx;
use crate::refx509::*;
use crate::sut::*;
use rx509::der::UtcTime;
use rx509::x509::ext::{Extension, GeneralName, SpecificExtension};
use rx509::x509::{Certificate, Name, Validity};
use std::sync::Arc;

const NONE: Fields = Fields { version: false, plain: false, algs: false, optional: false, times: false };

/// A family that builds one input and gives it to an oracle.
pub fn built(
    name: &str,
    what: &str,
    dev: u32,
    o: &Oracle,
    f: impl Fn(&mut Ch) -> Result<Vec<u8>, Stop> + Clone + Send + Sync + 'static,
) -> Family {
    let o = o.clone();
    Family::new(name, what, dev, move || {
        let (o, f) = (o.clone(), f.clone());
        move |ch: &mut Ch| {
            let b = f(ch)?;
            ch.saw(&b);
            o(&b)
        }
    })
}

/// All sequences of 0..=n items of a menu, concatenated.
pub fn sequence_of(ch: &mut Ch, n: usize, menu: &[Vec<u8>]) -> Vec<u8> {
    let k = ch.choose(n + 1);
    let mut b = vec![];
    for _ in 0..k {
        b.extend_from_slice(ch.pick(menu));
    }
    b
}

// ------------------------------------------------------------- legal certificates

/// Valid, pairwise distinguishable alternatives for every part.
pub fn legal_menu(full: bool) -> CertMenu {
    let p = plain_menu(full);
    let with = |first: &Vec<Vec<u8>>, rest: Vec<Vec<u8>>| {
        let mut v = first.clone();
        for r in rest {
            if !v.contains(&r) {
                v.push(r);
            }
        }
        v
    };
    let vers = |k: u8| tlv(0xA0, &tlv(2, &[k]));
    let algs = vec![
        oid(&[1, 2, 840, 113549, 1, 1, 5]),
        oid(&[1, 2, 840, 113549, 1, 1, 1]),
        oid(&[1, 3, 101, 112]),
        oid(&[1, 2, 840, 113549, 1, 1, 11]),
        oid(&[2, 5, 4, 3]),
        oid(&[2, 999, 3]),
    ];
    let params = vec![
        vec![],
        tlv(5, &[]),
        tlv(6, &[0x2A, 0x86, 0x48, 0xCE, 0x3D, 3, 1, 7]),
        tlv(4, &[]),
        seq(&[&tlv(2, &[1]), &tlv(5, &[])]),
        tlv(3, &[5, 0xE0]),
        tlv(0xA3, &[]),
        tlv(2, &[7]),
        tlv(0x17, UTC),
        tlv(0x0C, b"p"),
    ];
    let bits = vec![tlv(3, &[0]), tlv(3, &[0, 0xAA]), tlv(3, &[7, 0x80]), tlv(3, &[3, 0x12, 0xF8]), tlv(3, &[1, 0xFF]), tlv(3, &cat(&[&[0], &fill(140, 3)]))];
    let uid = |t: u8| {
        vec![vec![], tlv(t, &[0]), tlv(t, &[0, 0x77]), tlv(t, &[6, 0x40]), tlv(t | 0x20, &[0, 1, 2]), tlv(t, &cat(&[&[0], &fill(40, 5)])), tlv(t, &[3, 2, 0, 7])]
    };
    let names = vec![
        seq(&[]),
        name_of(b"Other"),
        seq(&[&[0xFF]]),
        seq(&[&set(&[])]),
        seq(&[&rdn(3, 0x0C, b"x"), &rdn(3, 0x0C, b"x")]),
        seq(&[&tlv(5, &[])]),
        tlv(0x30, &fill(200, 7)),
    ];
    let times = vec![
        tlv(0x17, b"500101000000Z"),
        tlv(0x17, b"491231235959Z"),
        tlv(0x17, b"700101000000Z"),
        tlv(0x18, b"19700101000000Z"),
        tlv(0x18, b"99991231235959Z"),
        tlv(0x18, b"20500101000000Z"),
        tlv(0x17, b"000229120000Z"),
    ];
    // 500101 is before 1970 and so not a legal value
    let times: Vec<Vec<u8>> = times.into_iter().filter(|t| !t.ends_with(b"500101000000Z") || t[0] == 0x18).collect();
    CertMenu {
        version: with(&p.version, vec![vec![], vers(0), vers(1), vers(2)]),
        serial: with(
            &p.serial,
            vec![
                tlv(2, &[0]),
                tlv(2, &[1]),
                tlv(2, &[0x80]),
                tlv(2, &[0xFF]),
                tlv(2, &[0, 0x80]),
                tlv(2, &[0x7F, 0xFF, 0xFF, 0xFF]),
                tlv(2, &[0x80, 0, 0, 0]),
                tlv(2, &[1, 2, 3, 4, 5]),
                tlv(2, &fill(20, 1)),
                tlv(2, &[0; 4]),
            ],
        ),
        oid: with(&p.oid, algs.clone()),
        params: with(&p.params, params.clone()),
        issuer: with(&p.issuer, names.clone()),
        subject: with(&p.subject, names),
        nb: with(&p.nb, times.clone()),
        na: with(&p.na, times),
        key_oid: with(&p.key_oid, algs.clone()),
        key_params: with(&p.key_params, params.clone()),
        key: with(&p.key, bits.clone()),
        iuid: with(&p.iuid, uid(0x81)),
        suid: with(&p.suid, uid(0x82)),
        ext: with(
            &p.ext,
            vec![vec![], tlv(0xA3, &seq(&[])), tlv(0xA3, &[]), tlv(0xA3, &seq(&[&ext_of(OID_BC, None, &seq(&[]))])), tlv(0x83, &[0xFF, 1])],
        ),
        out_oid: with(&p.out_oid, algs),
        out_params: with(&p.out_params, params),
        sig: with(&p.sig, bits),
        wraps: false,
    }
}

pub fn cert_legal(k: u32, o: &Oracle) -> Family {
    let o = o.clone();
    let menus = Arc::new([legal_menu(false), legal_menu(true)]);
    Family::new(
        "cert-values",
        &format!("two certificate templates, up to {k} of 17 parts replaced by any of their 4 to 10 other legal values"),
        k,
        move || {
            let (o, menus) = (o.clone(), menus.clone());
            let mut b = CertBuf::new();
            move |ch: &mut Ch| {
                let m = &menus[ch.choose(2)];
                build_cert(ch, m, &mut b);
                ch.saw(&b.out);
                o(&b.out)
            }
        },
    )
}

/// One part of every size.
pub fn cert_sizes(upto: usize, o: &Oracle) -> Family {
    let mut list: Vec<usize> = (0..=upto).collect();
    list.extend(SIZES.iter().filter(|s| **s > upto));
    let list = Arc::new(list);
    built(
        "cert-part-sizes",
        &format!("minimal and full certificate, one of 11 parts with every content size 0..={upto} and boundary sizes to 70000"),
        0,
        o,
        move |ch| {
            let mut m = plain_menu(ch.flip());
            let part = ch.choose(11);
            let n = *ch.pick(&list);
            let f = fill(n, part as u8);
            let bits = |t: u8| vec![tlv(t, &cat(&[&[0], &f]))];
            match part {
                0 => m.serial = vec![tlv(2, if n == 0 { &[1] } else { &f })],
                1 => m.issuer = vec![seq(&[&rdn(3, 0x0C, &text(n, 1))])],
                2 => m.subject = vec![tlv(0x30, &f)],
                3 => m.key = bits(3),
                4 => m.sig = bits(3),
                5 => m.iuid = bits(0x81),
                6 => m.suid = bits(0x82),
                7 => m.ext = vec![tlv(0xA3, &f)],
                8 => m.params = vec![tlv(4, &f)],
                9 => m.key_params = vec![tlv(0x30, &f)],
                _ => m.out_params = vec![tlv(0x0C, &text(n, 2))],
            }
            let mut b = CertBuf::new();
            build_cert(&mut Ch::new(0), &m, &mut b);
            Ok(b.out)
        },
    )
}

pub fn x01(t: Tier) -> Vec<Family> {
    let o = oracle(|b| cert_check(b, false, Some(ALL_FIELDS)));
    let mut v = vec![
        cert_legal(t.pick(3, 4), &o),
        cert_sizes(t.pick(300, 1500), &o),
        cert_octets(&o),
        cert_elements(&o),
        cert_edits(&o),
        more::relations(&o),
        more::identities(&o),
        more::keys(t, &o),
        more::instants(t.pick(3, 1), &o),
        more::wrapped(t.pick(64, 300), false, true, &o),
    ];
    v.extend(parts(t, &o));
    if t == Tier::Thorough {
        v.push(cert_wild(2, &o));
        v.push(cert_octet_pairs(&[0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x30, 0x31, 0x7F, 0x80, 0x81, 0xA0, 0xA3, 0xFF], &o));
    }
    v
}

pub fn x02(t: Tier) -> Vec<Family> {
    let o = oracle(|b| cert_check(b, true, None));
    let mut v = vec![
        cert_wild(2, &o),
        cert_octets(&o),
        cert_elements(&o),
        cert_edits(&o),
        cert_sizes(t.pick(140, 600), &o),
        cert_legal(2, &o),
        bytes_upto(2, &o),
        more::marked(&o),
        more::relations(&o),
        more::identities(&o),
        more::counts(t.pick(140, 600), &o),
        more::identifiers(&[At::Algorithms, At::Extensions, At::Attributes], &o),
        more::ext_relations(&o),
    ];
    v.extend(parts(t, &o));
    if t == Tier::Thorough {
        v.push(cert_wild_one(3, &o));
        static EVERY: [u8; 256] = {
            let mut a = [0u8; 256];
            let mut i = 0;
            while i < 256 {
                a[i] = i as u8;
                i += 1;
            }
            a
        };
        v.push(cert_octet_pairs(&EVERY, &o));
        v.push(bytes_upto(3, &o));
    }
    v
}

/// What each part of a certificate may hold, for whatever looks at whole certificates.
pub fn parts(t: Tier, o: &Oracle) -> Vec<Family> {
    let mut v = optional_parts(t, o);
    v.push(field_contents(o));
    v.push(time_contents(o));
    v
}

/// Each field of the right type with other contents.
fn field_contents(o: &Oracle) -> Family {
    built(
        "field-contents",
        "serial number, key, signature, each identifier, and parameters of eleven types: contents of 0..=2 octets, of 3 over boundary octets, and of up to 140 equal octets",
        0,
        o,
        |ch| {
            const EDGE: &[u8] = &[0x00, 0x01, 0x06, 0x07, 0x2A, 0x7F, 0x80, 0xC3, 0xFF];
            let place = ch.choose(9);
            let tag = match place {
                0 => 2,
                1 | 2 => 3,
                3..=5 => 6,
                _ => *ch.pick(&[1u8, 2, 3, 4, 5, 6, 0x0C, 0x13, 0x16, 0x30, 0xA0]),
            };
            let n = ch.choose(5);
            let c: Vec<u8> = match n {
                4 => vec![*ch.pick(EDGE); 4 + ch.choose(137)],
                3 => (0..3).map(|_| *ch.pick(EDGE)).collect(),
                _ => (0..n).map(|_| ch.choose(256) as u8).collect(),
            };
            let e = vec![tlv(tag, &c)];
            Ok(more::cert_of(false, |m| match place {
                0 => m.serial = e,
                1 => m.key = e,
                2 => m.sig = e,
                3 => m.oid = e,
                4 => m.key_oid = e,
                5 => m.out_oid = e,
                6 => m.params = e,
                7 => m.key_params = e,
                _ => m.out_params = e,
            }))
        },
    )
}

/// Both times with their octets changed.
fn time_contents(o: &Oracle) -> Family {
    built(
        "time-contents",
        "either time in either format, one octet any of 256 or two octets each of 14, or of another length, in a certificate",
        0,
        o,
        |ch| {
            let (tag, text) = *ch.pick(&[(0x17u8, &b"240229123456Z"[..]), (0x18, b"20240229123456Z"), (0x17, b"491231235959Z"), (0x18, b"99991231235959Z")]);
            let mut c = text.to_vec();
            let at = ch.choose(c.len());
            match ch.choose(4) {
                0 => c[at] = ch.choose(256) as u8,
                1 => {
                    const D: &[u8] = b"0123456789Z+-.";
                    let other = ch.choose(c.len());
                    c[at] = *ch.pick(D);
                    c[other] = *ch.pick(D);
                }
                2 => c.truncate(at),
                _ => c.insert(at, *ch.pick(b"0159Z ")),
            }
            let e = vec![tlv(tag, &c)];
            let after = ch.flip();
            Ok(more::cert_of(false, |m| if after { m.na = e } else { m.nb = e }))
        },
    )
}

/// Three deviations with a narrower menu.
fn cert_wild_one(k: u32, o: &Oracle) -> Family {
    let o = o.clone();
    let mut m = wild_menu(true);
    for part in [
        &mut m.version, &mut m.serial, &mut m.oid, &mut m.params, &mut m.issuer, &mut m.subject, &mut m.nb, &mut m.na, &mut m.key_oid,
        &mut m.key_params, &mut m.key, &mut m.iuid, &mut m.suid, &mut m.ext, &mut m.out_oid, &mut m.out_params, &mut m.sig,
    ] {
        // default, missing, doubled, neighbours' types and one representative of each defect
        let keep = narrow();
        let first = part[0].clone();
        part.retain(|x| *x == first || x.is_empty() || *x == cat(&[&first, &first]) || keep.contains(x));
    }
    let m = Arc::new(m);
    let what = format!("the full certificate template, up to {k} deviations over 17 element positions ({} alternatives for the serial number) and 7 sequences (17 distortions each)", m.serial.len());
    Family::new("cert-deviations-3", &what, k, move || {
        let (o, m) = (o.clone(), m.clone());
        let mut b = CertBuf::new();
        move |ch: &mut Ch| {
            build_cert(ch, &m, &mut b);
            ch.saw(&b.out);
            o(&b.out)
        }
    })
}

fn narrow() -> Vec<Vec<u8>> {
    vec![
        tlv(5, &[]),
        tlv(2, &[1]),
        tlv(3, &[0]),
        tlv(4, &[]),
        tlv(6, &[0x2A, 0x03]),
        tlv(0x17, UTC),
        tlv(0x30, &[]),
        tlv(0x31, &[]),
        tlv(0xA0, &tlv(2, &[1])),
        tlv(0x81, &[0, 0x5A]),
        tlv(0x82, &[0, 0x5B]),
        tlv(0xA3, &seq(&[])),
        tlv(0x1F, &[]),
        vec![0x02],
        vec![0x30, 0x81],
        tlv(1, &[1]),
    ]
}

// ------------------------------------------------------------- X03

const LISTS: &[&str] = &["extension list", "alternative names", "key purposes", "name", "multi-valued attribute"];

/// Puts a list body where its kind is decoded and compares with the reference.
fn list_check(kind: usize, body: &[u8], outer: usize) -> (Vec<u8>, Step) {
    // outer: 0 exact; 1 something behind the list; 2 list container truncated by one; 3 claims one more
    let container = |body: &[u8]| -> Vec<u8> {
        match outer {
            1 => cat(&[&tlv(0x30, body), &[5, 0]]),
            2 => {
                let mut x = tlv(0x30, body);
                x.pop();
                x
            }
            3 => {
                let mut x = vec![0x30];
                x.extend(len_octets(body.len() + 1));
                x.extend(body);
                x
            }
            _ => tlv(0x30, body),
        }
    };
    match kind {
        0 => {
            let c = cert_with_ext(&container(body));
            let r = exts_check(&c);
            (c, r)
        }
        1 | 2 => {
            let e = cat(&[&oid(if kind == 1 { OID_SAN } else { OID_EKU }), &tlv(4, &container(body))]);
            let r = ext_check(&e);
            (e, r)
        }
        3 => {
            let b = match outer {
                1 => cat(&[body, &[5, 0]]),
                2 => body[..body.len().saturating_sub(1)].to_vec(),
                3 => cat(&[body, &[0x31]]),
                _ => body.to_vec(),
            };
            let r = name_check(&b);
            (b, r)
        }
        _ => {
            let s = match outer {
                1 => cat(&[&tlv(0x31, body), &[0x31, 1]]),
                2 => {
                    let mut x = tlv(0x31, body);
                    x.pop();
                    x
                }
                3 => cat(&[&tlv(0x31, body), &rdn(99, 0x0C, b"z")]),
                _ => tlv(0x31, body),
            };
            let r = name_check(&s);
            (s, r)
        }
    }
}

fn lists(n: usize) -> Family {
    Family::new(
        "lists",
        &format!("extension list, alternative names, key purposes, name and multi-valued attribute: all sequences of 0..={n} items over about 30 well-formed, defective and cut-off items, the container exact, followed by something, cut or claiming more"),
        0,
        move || {
            let items: Vec<Vec<Vec<u8>>> = (0..5).map(list_items).collect();
            move |ch: &mut Ch| {
                let kind = ch.choose(5);
                let outer = ch.choose(4);
                let body = sequence_of(ch, n, &items[kind]);
                let (b, r) = list_check(kind, &body, outer);
                ch.saw(&b);
                ch.note(|| LISTS[kind].to_string());
                r
            }
        },
    )
}

/// Long lists, the defect in any place.
fn long_lists(max: usize) -> Family {
    Family::new(
        "long-lists",
        &format!("the five kinds of list with every count 0..={max} of well-formed items, one of four defects (or none) at the start, middle, second last place or end, two of them cut-off elements"),
        0,
        move || {
            let items: Vec<Vec<Vec<u8>>> = (0..5).map(list_items).collect();
            move |ch: &mut Ch| {
                let kind = ch.choose(5);
                let n = ch.choose(max + 1);
                let defect = ch.choose(5);
                let place = if defect == 0 { 0 } else { ch.choose(4) };
                let at = [0, n / 2, n.saturating_sub(1), n][place];
                let mut body = vec![];
                for i in 0..=n {
                    if i == at {
                        match defect {
                            1 => body.push(0x30),
                            2 => body.extend([items[kind][0][0], 0x7F]),
                            3 => body.extend([5, 0]),
                            4 => body.extend([0x1F, 0]),
                            _ => {}
                        }
                    }
                    if i < n {
                        match kind {
                            // repeated attributes are only fine when unknown
                            3 => body.extend(rdn(90 + (i % 10) as u32, 0x0C, b"v")),
                            4 => body.extend(seq(&[&oid(&[2, 5, 4, 90 + (i % 10) as u32]), &tlv(0x0C, b"v")])),
                            k => body.extend_from_slice(&items[k][i % 3]),
                        }
                    }
                }
                let (b, r) = list_check(kind, &body, 0);
                ch.saw(&b);
                ch.note(|| format!("{} of {n}", LISTS[kind]));
                r
            }
        },
    )
}

/// Every octet of list documents changed or the document cut, containers adjusted.
fn list_octets() -> Family {
    Family::new(
        "list-octets",
        "a four-item list of each of the five kinds (nested contents included): every octet replaced by every value, deleted, or everything from it on removed",
        0,
        || {
            let bodies: Vec<Vec<u8>> = (0..5).map(|k| list_items(k)[..4].concat()).collect();
            let inner = list_items(0);
            let deep = ext_of(
                OID_SAN,
                None,
                &seq(&[&tlv(0x82, b"host"), &tlv(0x87, &[1, 2, 3, 4]), &tlv(0x88, &[0x2A, 3])]),
            );
            let deep2 = ext_of(OID_EKU, Some(0xFF), &seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 1]), &oid(&[1, 3, 6, 1, 5, 5, 7, 3, 4])]));
            let mut all: Vec<(usize, Vec<u8>)> = bodies.into_iter().enumerate().collect();
            // eku list of known purposes only, so that it is well-formed
            all[2].1 = list_items(2)[..3].concat();
            all.push((0, cat(&[&deep, &inner[0], &deep2])));
            move |ch: &mut Ch| {
                let (kind, body) = ch.pick(&all);
                let mut b = body.clone();
                let p = ch.choose(b.len());
                match ch.choose(3) {
                    0 => b[p] = ch.choose(256) as u8,
                    1 => {
                        b.remove(p);
                    }
                    _ => b.truncate(p),
                }
                let (x, r) = list_check(*kind, &b, 0);
                ch.saw(&x);
                r
            }
        },
    )
}

pub fn x03(t: Tier) -> Vec<Family> {
    let o = oracle(|b| {
        let n = more::names_of(b)?;
        Ok(more::exts_of(b)?.wrapping_mul(31).wrapping_add(n))
    });
    vec![
        lists(t.pick(3, 4)),
        long_lists(t.pick(140, 400)),
        list_octets(),
        list_cuts(),
        more::counts(t.pick(300, 1100), &o),
        more::broken_counts(t.pick(300, 1100), &o),
        more::identifiers(&[At::Extensions, At::ExtensionParts, At::Attributes, At::RegisteredIds], &o),
    ]
}

/// Cutting a list at every level while all enclosing lengths stay right.
fn list_cuts() -> Family {
    Family::new(
        "cuts-at-every-level",
        "every container at any depth of a full extension list (inside octet strings too), of alternative names, of key purposes and of names: its content cut after every octet or extended by one of eight endings, enclosing lengths adjusted",
        0,
        || {
            let docs: Vec<(usize, Vec<u8>)> = vec![
                (0, all_extensions()),
                (
                    3,
                    cat(&[
                        &rdn(6, 0x13, b"DE"),
                        &set(&[&seq(&[&oid(&[2, 5, 4, 10]), &tlv(0x0C, b"org")]), &seq(&[&oid(&[2, 5, 4, 99]), &tlv(0x0C, b"zz")])]),
                        &rdn(3, 0x0C, b"cn"),
                    ]),
                ),
            ];
            const ENDS: &[&[u8]] = &[&[0x30], &[0x05], &[0x06, 0x05, 0x01], &[0x82], &[0x31, 0x7F], &[0x05, 0x00], &[0x02, 0x81], &[0x00]];
            move |ch: &mut Ch| {
                let (kind, doc) = ch.pick(&docs);
                let spans = element_spans(doc);
                let at = *ch.pick(&spans);
                let tag = doc[at.0];
                let content = &doc[at.1..at.2];
                // inside an octet string, go one level further down
                let (at2, base): (Option<(usize, usize, usize)>, usize) = if tag == 4 {
                    let sub = element_spans(content);
                    let i = ch.choose(sub.len() + 1);
                    (if i == 0 { None } else { Some(sub[i - 1]) }, at.1)
                } else {
                    (None, 0)
                };
                let edit = |ch: &mut Ch, c: &[u8]| -> Vec<u8> {
                    if ch.flip() {
                        c[..ch.choose(c.len() + 1)].to_vec()
                    } else {
                        cat(&[c, ch.pick(ENDS)])
                    }
                };
                let new = match at2 {
                    None => tlv(tag, &edit(ch, content)),
                    Some(s) => {
                        let _ = base;
                        let inner = edit(ch, &content[s.1..s.2]);
                        tlv(tag, &replace_element(content, s, &tlv(content[s.0], &inner)))
                    }
                };
                let b = replace_element(doc, at, &new);
                let (x, r) = match kind {
                    0 => {
                        let c = cert_with_ext(&b);
                        let r = exts_check(&c);
                        (c, r)
                    }
                    k => list_check(*k, &b, 0),
                };
                ch.saw(&x);
                r
            }
        },
    )
}

// ------------------------------------------------------------- X04

fn in_place_alg(a: &rx509::x509::AlgorithmIdentifier, r: &rx::Alg, what: &str) -> Chk {
    if let (Some(x), Some(y)) = (&a.parameters, &r.params) {
        chk(asn_kind(x) != y.kind() || asn_in_place(x, y), || format!("parameters of {what} in place"), || show_asn(x))?;
    }
    Ok(())
}

fn in_place_bits(b: &rx509::der::ASNBitString, r: (u8, &[u8]), what: &str) -> Chk {
    if r.0 == 0 {
        if let Some(o) = b.octets() {
            return chk(place(o, r.1), || format!("{what} in place: {}", show(r.1)), || show(o));
        }
    }
    Ok(())
}

fn in_place_name(n: &Name, b: &[u8], what: &str) -> Chk {
    chk(place(n.inner, b), || format!("{what} in place"), || show(n.inner))?;
    if let (Ok(p), Ok(w)) = (n.parse(), rx::name(b)) {
        for (g, w) in name_fields(&p).iter().zip(w) {
            if let (Some(g), Some(w)) = (g, w) {
                chk(place(g.as_bytes(), w), || format!("text of {what} in place: {}", show(w)), || g.to_string())?;
            }
        }
    }
    Ok(())
}

fn in_place_ext(g: &Extension, w: &rx::Ext) -> Chk {
    let pairs: Vec<(&[u8], &[u8])> = match (&g.content, &w.content) {
        (SpecificExtension::SubjectKeyIdentifier(x), rx::Content::Ski(y)) => vec![(x.key_identifier, y)],
        (SpecificExtension::ModbusRole(x), rx::Content::Role(y)) => vec![(x.role.as_bytes(), y)],
        (SpecificExtension::Unknown(x), rx::Content::Unknown(y)) => vec![(x, y)],
        (SpecificExtension::SubjectAlternativeName(x), rx::Content::San(y)) => x
            .names
            .iter()
            .zip(y)
            .filter_map(|(a, b)| match (a, b) {
                (GeneralName::Rfc822Name(x), rx::Gn::Mail(y)) => Some((x.as_bytes(), *y)),
                (GeneralName::DnsName(x), rx::Gn::Dns(y)) => Some((x.as_bytes(), *y)),
                (GeneralName::UniformResourceIdentifier(x), rx::Gn::Uri(y)) => Some((x.as_bytes(), *y)),
                (GeneralName::IpAddress(x), rx::Gn::Ip(y)) => Some((*x, *y)),
                _ => None,
            })
            .collect(),
        _ => vec![],
    };
    for (a, b) in pairs {
        chk(place(a, b), || format!("extension content in place: {}", show(b)), || show(a))?;
    }
    Ok(())
}

/// Every exposed slice is the region of `b` that encodes it.
fn cert_in_place(b: &[u8]) -> Step {
    let Ok(r) = rx::certificate(b) else { return Ok(0) };
    let got = guard(|| -> Option<Chk> {
        let c = Certificate::parse(b).ok()?;
        let t = &c.tbs_certificate.value;
        Some((|| {
            chk(
                place(c.tbs_certificate.bytes, r.tbs),
                || format!("to-be-signed octets at their place, {} of them", r.tbs.len()),
                || format!("{} octets {}", c.tbs_certificate.bytes.len(), show(c.tbs_certificate.bytes)),
            )?;
            chk(place(t.serial_number.bytes, r.serial), || "serial number in place".into(), || show(t.serial_number.bytes))?;
            in_place_name(&t.issuer, r.issuer, "issuer")?;
            in_place_name(&t.subject, r.subject, "subject")?;
            in_place_alg(&t.signature, &r.inner_alg, "inner algorithm")?;
            in_place_alg(&t.subject_public_key_info.algorithm, &r.key_alg, "key algorithm")?;
            in_place_alg(&c.signature_algorithm, &r.outer_alg, "outer algorithm")?;
            in_place_bits(&t.subject_public_key_info.subject_public_key, r.key, "public key")?;
            in_place_bits(&c.signature_value, r.signature, "signature")?;
            if let (Some(x), Some(y)) = (&t.issuer_unique_id, r.issuer_uid) {
                in_place_bits(x, y, "issuer unique id")?;
            }
            if let (Some(x), Some(y)) = (&t.subject_unique_id, r.subject_uid) {
                in_place_bits(x, y, "subject unique id")?;
            }
            if let (Some(x), Some(raw)) = (&t.extensions, r.extensions) {
                if let (Ok(list), Ok(w)) = (x.parse(), rx::extensions(raw)) {
                    for (a, b) in list.iter().zip(&w) {
                        in_place_ext(a, b)?;
                    }
                }
            }
            Ok(())
        })())
    });
    match got {
        Ok(Some(c)) => {
            need(c)?;
            Ok(1 + r.tbs.len() as u64)
        }
        Ok(None) => Ok(0), // rejected: not this property's matter
        Err(p) => bad("exposed values can be read", p),
    }
}

/// The same, with the certificate inside a larger buffer that repeats its content.
fn cert_embedded(o: &Oracle) -> Family {
    let o2 = o.clone();
    let certs = Arc::new(base_certs());
    Family::new(
        "embedded",
        "the six base certificates at every offset 0..=40 of a buffer that otherwise holds zeros, copies of itself, or nothing",
        0,
        move || {
            let (o, certs) = (o2.clone(), certs.clone());
            move |ch: &mut Ch| {
                let c = ch.pick(&certs);
                let off = ch.choose(41);
                let mut b = match ch.choose(3) {
                    0 => vec![0u8; off],
                    1 => c.iter().cycle().take(off).copied().collect(),
                    _ => vec![0xFF; off],
                };
                b.extend_from_slice(c);
                b.extend_from_slice(c);
                ch.saw(&b[off..off + c.len()]);
                ch.note(|| format!("offset {off}"));
                o(&b[off..off + c.len()])
            }
        },
    )
}

pub fn x04(t: Tier) -> Vec<Family> {
    let c = oracle(cert_in_place);
    let w = oracle(|b| {
        let mut w = Walk::new(b);
        // disagreement about acceptance is for other properties
        match walk(b, &mut w, Look::Place, &mut |_, _| Ok(())) {
            Ok(r) => Ok(walk_class(&r)),
            Err(e) => Err(e),
        }
    });
    let e = oracle(|b| {
        let Ok(w) = rx::extension(b) else { return Ok(0) };
        match guard(|| Extension::parse(b).ok().map(|g| in_place_ext(&g, &w))) {
            Ok(Some(c)) => {
                need(c)?;
                Ok(content_class(&w.content))
            }
            Ok(None) => Ok(0),
            Err(p) => bad("extension values can be read", p),
        }
    });
    let mut v = vec![
        cert_embedded(&c),
        cert_legal(t.pick(2, 4), &c),
        cert_sizes(t.pick(300, 1500), &c),
        cert_octets(&c),
        sizes("element-sizes", TAGS, t.pick(300, 1500), &w),
        trees("trees", tree_menu, t.pick(4, 6), 0, &w),
        contents("contents", TAGS, 2, &w),
        ext_sizes(t.pick(300, 1500), &e),
        san_sequences(3, &e),
    ];
    v.extend(parts(t, &c));
    v
}

// ------------------------------------------------------------- X05

pub fn name_sequences(n: usize, o: &Oracle) -> Family {
    // eight attribute types: the six known, one near miss, one foreign
    const TYPES: &[&[u32]] = &[
        &[2, 5, 4, 6],
        &[2, 5, 4, 8],
        &[2, 5, 4, 7],
        &[2, 5, 4, 10],
        &[2, 5, 4, 11],
        &[2, 5, 4, 3],
        &[2, 5, 4, 9],
        &[1, 2, 840, 113549, 1, 9, 1],
    ];
    built(
        "attributes",
        &format!("all sequences of 0..={n} attributes over the six known and two other types, every grouping into sets, each value a distinct text in a string type that depends on place or is chosen"),
        0,
        o,
        move |ch| {
            let k = ch.choose(n + 1);
            let same_kind = if k > 0 { ch.choose(4) } else { 0 };
            let mut out = vec![];
            let mut cur: Vec<u8> = vec![];
            for i in 0..k {
                let t = *ch.pick(TYPES);
                let tag = match same_kind {
                    0 => [0x0Cu8, 0x13, 0x16][i % 3],
                    x => [0x0Cu8, 0x13, 0x16][x - 1],
                };
                let v = tlv(tag, format!("value {i}").as_bytes());
                let a = ava(t, &v);
                if i > 0 && ch.flip() {
                    out.extend(tlv(0x31, &cur));
                    cur.clear();
                }
                cur.extend(a);
            }
            if k > 0 {
                out.extend(tlv(0x31, &cur));
            }
            Ok(out)
        },
    )
}

/// Two or three attributes, each with any value element at all, or malformed.
pub fn name_values(o: &Oracle) -> Family {
    let vals = Arc::new(alternatives(&tlv(0x0C, b"text"), &[]));
    const TYPES: &[u32] = &[3, 6, 7, 8, 10, 11, 5, 12, 0];
    built(
        "attribute-values",
        &format!("one or two attributes of nine types, each with any of {} value elements (every type, missing, doubled, malformed, cut), in one set or two", vals.len()),
        0,
        o,
        move |ch| {
            let two = ch.flip();
            let mut sets = vec![];
            for _ in 0..1 + two as usize {
                let t = *ch.pick(TYPES);
                let v = if two { ch.choose(vals.len() / 4) * 4 } else { ch.choose(vals.len()) };
                sets.push(ava(&[2, 5, 4, t], &vals[v]));
            }
            Ok(if two && ch.flip() { set(&[&sets[0], &sets[1]]) } else { sets.iter().flat_map(|s| tlv(0x31, s)).collect() })
        },
    )
}

pub fn name_structure(k: u32, o: &Oracle) -> Family {
    let oids = Arc::new(alternatives(&oid(&[2, 5, 4, 3]), &[oid(&[2, 5, 4, 10])]));
    let vals = Arc::new(alternatives(&tlv(0x0C, b"t"), &[tlv(0x13, b"u")]));
    built(
        "structure",
        &format!("a name of three sets (one with two attributes), up to {k} deviations: any part replaced by any alternative, any sequence or set distorted in 17 ways"),
        k,
        o,
        move |ch| {
            let mut out = vec![];
            for (i, group) in [&[6u32][..], &[10, 11], &[3]].iter().enumerate() {
                let mut s = vec![];
                for a in group.iter() {
                    let mut x = vec![];
                    let d = ch.dev(oids.len());
                    x.extend(if d == 0 { oid(&[2, 5, 4, *a]) } else { oids[d].clone() });
                    let d = ch.dev(vals.len());
                    x.extend(if d == 0 { tlv(0x0C, format!("v{i}{a}").as_bytes()) } else { vals[d].clone() });
                    wrap(ch, &mut s, 0x30, &x);
                }
                wrap(ch, &mut out, 0x31, &s);
            }
            Ok(out)
        },
    )
}

fn name_types(o: &Oracle) -> Family {
    built(
        "attribute-types",
        "attribute types 2.5.4.x for every x 0..=400, neighbours of 2.5.4.3 with any arc changed, dropped or added, before or after each of the six known attributes",
        0,
        o,
        |ch| {
            let arcs: Vec<u32> = match ch.choose(3) {
                0 => vec![2, 5, 4, ch.choose(401) as u32],
                1 => {
                    let last = *ch.pick(&NAME_ARCS);
                    match ch.choose(12) {
                        0 => vec![2, 5, 4],
                        1 => vec![2, 5, last],
                        2 => vec![2, 5, 4, last, 0],
                        3 => vec![2, 5, 4, last, last],
                        4 => vec![2, 5, 3, last],
                        5 => vec![2, 5, 5, last],
                        6 => vec![2, 4, 4, last],
                        7 => vec![2, 6, 4, last],
                        8 => vec![1, 5, 4, last],
                        9 => vec![0, 5, 4, last],
                        10 => vec![2, 5, 132, last],
                        _ => vec![2, 5, 4, last + 128],
                    }
                }
                _ => vec![ch.choose(3) as u32, ch.choose(40) as u32, ch.choose(8) as u32, ch.choose(13) as u32],
            };
            let x = tlv(0x31, &ava(&arcs, &tlv(0x0C, b"probe")));
            let other = rdn(*ch.pick(&NAME_ARCS), 0x13, b"known");
            Ok(match ch.choose(3) {
                0 => x,
                1 => cat(&[&x, &other]),
                _ => cat(&[&other, &x]),
            })
        },
    )
}

fn name_sizes(upto: usize) -> Family {
    let o = oracle(name_check);
    let mut list: Vec<usize> = (0..=upto).collect();
    list.extend(SIZES.iter().filter(|s| **s > upto));
    built(
        "text-sizes",
        &format!("each known attribute with text of every size 0..={upto} and boundary sizes to 70000 in each string type, ASCII or multi-byte, alone or among others"),
        0,
        &o,
        move |ch| {
            let n = *ch.pick(&list);
            let a = *ch.pick(&NAME_ARCS);
            let tag = *ch.pick(&[0x0Cu8, 0x13, 0x16]);
            let t = if ch.flip() { "\u{e9}".repeat(n / 2).into_bytes() } else { text(n, 3) };
            let x = rdn(a, tag, &t);
            Ok(if ch.flip() { cat(&[&rdn(99, 0x0C, b"q"), &x, &rdn(9, 0x0C, b"r")]) } else { x })
        },
    )
}

pub fn x05(t: Tier) -> Vec<Family> {
    let o = oracle(name_check);
    let mut v = vec![
        name_sequences(t.pick(4, 5), &o),
        name_values(&o),
        name_structure(t.pick(2, 3), &o),
        name_types(&o),
        name_sizes(t.pick(300, 2000)),
        alphabet("alphabet", &[0x00, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x30, 0x31, 0x55], t.pick(7, 8), &o),
        bytes_upto(t.pick(2, 3), &o),
    ];
    let o = oracle(more::names_of);
    v.extend(more::texts(t, Which::Names, &o));
    v.push(more::identifiers(&[At::Attributes], &o));
    v.push(more::counts(t.pick(140, 600), &o));
    v.push(more::relations(&o));
    v.push(more::identities(&o));
    v
}

// ------------------------------------------------------------- X06

fn valid_step(nb: u64, na: u64, now: u64) -> Step {
    let v = run("is_valid", || {
        let v = Validity { not_before: UtcTime::from_seconds_since_epoch(nb), not_after: UtcTime::from_seconds_since_epoch(na) };
        v.is_valid(UtcTime::from_seconds_since_epoch(now))
    })?;
    let want = !(now < nb) && !(now > na);
    if v != want {
        return bad(format!("{now} valid within {nb}..={na}: {want}"), format!("{v}"));
    }
    Ok(want as u64)
}

fn valid_grid(n: usize) -> Family {
    Family::new("grid", &format!("not-before, not-after and instant each any of 0..={n}"), 0, move || {
        move |ch: &mut Ch| {
            let (a, b, c) = (ch.choose(n + 1), ch.choose(n + 1), ch.choose(n + 1));
            ch.note(|| format!("not before {a}, not after {b}, instant {c}"));
            valid_step(a as u64, b as u64, c as u64)
        }
    })
}

fn valid_edges() -> Family {
    let mut v: Vec<u64> = vec![0, 1, 59, 60, 86399, 86400, 253402300799, u64::MAX, u64::MAX - 1];
    for k in 1..64 {
        for d in [-1i64, 0, 1] {
            v.push((1u64 << k).wrapping_add(d as u64));
        }
    }
    v.sort();
    v.dedup();
    let v = Arc::new(v);
    Family::new("edges", &format!("not-before, not-after and instant each any of {} values around powers of two and calendar limits", v.len()), 0, move || {
        let v = v.clone();
        move |ch: &mut Ch| {
            let (a, b, c) = (*ch.pick(&v), *ch.pick(&v), *ch.pick(&v));
            ch.note(|| format!("not before {a}, not after {b}, instant {c}"));
            valid_step(a, b, c)
        }
    })
}

fn valid_certs() -> Family {
    let mut times: Vec<Vec<u8>> = vec![];
    for t in [
        "700101000000Z", "700101000001Z", "991231235959Z", "000101000000Z", "000229000000Z", "120822052654Z", "120822052655Z", "490101000000Z",
        "491231235959Z",
    ] {
        times.push(tlv(0x17, t.as_bytes()));
        let century = if &t[..2] >= "50" { "19" } else { "20" };
        times.push(tlv(0x18, format!("{century}{t}").as_bytes()));
    }
    for t in ["20500101000000Z", "21000228235959Z", "21060207062816Z", "99991231235959Z", "19991231235959Z"] {
        times.push(tlv(0x18, t.as_bytes()));
    }
    // rejected ones
    for t in ["500101000000Z", "990229000000Z", "991301000000Z", "9912312359Z"] {
        times.push(tlv(0x17, t.as_bytes()));
    }
    times.push(tlv(0x18, b"19691231235959Z"));
    times.push(tlv(2, &[1]));
    times.push(vec![]);
    let times = Arc::new(times);
    Family::new(
        "certificates",
        &format!("every pair of {} encoded times (both formats, equal and reversed ones, malformed ones) as validity of two certificates; validity asked at the bounds, one second around them, at 0, now and at the far end", times.len()),
        0,
        move || {
            let times = times.clone();
            move |ch: &mut Ch| {
                let mut m = plain_menu(ch.flip());
                m.nb = vec![ch.pick(&times).clone()];
                m.na = vec![ch.pick(&times).clone()];
                let mut buf = CertBuf::new();
                build_cert(&mut Ch::new(0), &m, &mut buf);
                let b = &buf.out[..];
                ch.saw(b);
                let class = cert_check(b, true, Some(Fields { times: true, ..NONE }))?;
                let Ok(r) = rx::certificate(b) else { return Ok(class) };
                let mut at: Vec<u64> = vec![0, 1_700_000_000, u64::MAX];
                for t in [r.not_before, r.not_after] {
                    at.extend([t.saturating_sub(1), t, t.saturating_add(1)]);
                }
                let got = run("is_valid", || {
                    let c = Certificate::parse(b).ok()?;
                    let v = &c.tbs_certificate.value.validity;
                    Some(at.iter().map(|x| v.is_valid(UtcTime::from_seconds_since_epoch(*x))).collect::<Vec<_>>())
                })?;
                let want: Vec<bool> = at.iter().map(|x| r.not_before <= *x && *x <= r.not_after).collect();
                if got.as_ref() != Some(&want) {
                    return bad(format!("valid at {:?}: {:?}", at, want), format!("{:?}", got));
                }
                Ok(want.iter().enumerate().map(|(i, b)| (*b as u64) << i).sum())
            }
        },
    )
}

pub fn x06(t: Tier) -> Vec<Family> {
    vec![valid_grid(t.pick(60, 600)), valid_edges(), valid_certs()]
}

// ------------------------------------------------------------- X07

pub fn ext_kinds() -> Vec<(&'static [u32], Vec<u8>)> {
    vec![
        (OID_SKI, tlv(4, &[1, 2, 3])),
        (OID_KU, tlv(3, &[1, 0x06])),
        (OID_SAN, seq(&[&tlv(0x82, b"a.b")])),
        (OID_BC, seq(&[&tlv(1, &[0xFF]), &tlv(2, &[1])])),
        (OID_EKU, seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 3])])),
        (OID_ROLE, tlv(0x0C, b"Role")),
    ]
}

fn near_ext_ids() -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    for (k, _) in ext_kinds() {
        v.extend(neighbours(k));
    }
    for x in 0..=300 {
        v.push(vec![2, 5, 29, x]);
    }
    for x in 0..40 {
        v.push(vec![1, 3, 6, 1, 4, 1, 50316, 802, x]);
        v.push(vec![1, 3, 6, 1, 4, 1, 50316, x]);
    }
    v.push(vec![2, 5]);
    v.push(vec![1, 3, 6, 1, 5, 5, 7, 1, 1]);
    v.retain(|m| m[0] == 2 || (m[0] < 2 && m[1] < 40));
    v.sort();
    v.dedup();
    v
}

pub fn ext_ids(o: &Oracle) -> Family {
    let ids = near_ext_ids();
    let mut contents: Vec<Vec<u8>> = ext_kinds().into_iter().map(|x| x.1).collect();
    contents.extend([vec![], vec![0xFF], seq(&[]), tlv(5, &[]), tlv(4, &[]), tlv(3, &[0]), tlv(0x0C, &[])]);
    let n = ids.len();
    built(
        "identifiers",
        &format!("{n} extension identifiers: the six supported, neighbours (arcs changed by a little, a power of two or a bit, dropped, doubled, swapped, added), all of 2.5.29.0..=300; critical absent, true or false; each of {} contents", contents.len()),
        0,
        o,
        move |ch| {
            let id = ch.pick(&ids);
            let mut b = oid(id);
            match ch.choose(3) {
                0 => {}
                1 => b.extend(tlv(1, &[0xFF])),
                _ => b.extend(tlv(1, &[0])),
            }
            b.extend(tlv(4, ch.pick(&contents)));
            Ok(b)
        },
    )
}

pub fn ext_structure(k: u32, o: &Oracle) -> Family {
    let oids: Vec<Vec<Vec<u8>>> = ext_kinds().iter().map(|x| alternatives(&oid(x.0), &[])).collect();
    let crit = alternatives(&[], &[tlv(1, &[0xFF]), tlv(1, &[0])]);
    let n = crit.len();
    let octets: Vec<Vec<u8>> = alternatives(&[4, 0], &[]);
    built(
        "structure",
        &format!("each supported extension and an unknown one; up to {k} of: identifier, criticality and content element replaced by any of about {n} alternatives, extra elements at either end"),
        k,
        o,
        move |ch| {
            let kinds = ext_kinds();
            let i = ch.choose(7);
            let (id, content) = if i < 6 { (kinds[i].0, kinds[i].1.clone()) } else { (&[1u32, 2, 3][..], vec![1, 2, 3]) };
            let mut b = vec![];
            let d = ch.dev(oids[0].len());
            b.extend(if d == 0 { oid(id) } else { oids[i % 6][d].clone() });
            b.extend_from_slice(ch.vary(&crit));
            let d = ch.dev(octets.len());
            b.extend(if d == 0 { tlv(4, &content) } else { octets[d].clone() });
            let d = ch.dev(octets.len());
            if d > 0 {
                b.extend_from_slice(&octets[d]);
            }
            Ok(b)
        },
    )
}

pub fn ext_octets(o: &Oracle) -> Family {
    let docs: Vec<Vec<u8>> = ext_kinds()
        .into_iter()
        .flat_map(|(id, c)| {
            [cat(&[&oid(id), &tlv(1, &[0xFF]), &tlv(4, &c)]), cat(&[&oid(id), &tlv(4, &c)])]
        })
        .chain([cat(&[&oid(&[1, 2, 3]), &tlv(1, &[0xFF]), &tlv(4, &[1, 2, 3])])])
        .collect();
    built(
        "octets",
        "each supported extension and an unknown one, with and without criticality: every octet replaced by every value, deleted, inserted before (14 values), every prefix",
        0,
        o,
        move |ch| {
            let mut b = ch.pick(&docs).clone();
            let p = ch.choose(b.len());
            match ch.choose(4) {
                0 => b[p] = ch.choose(256) as u8,
                1 => {
                    b.remove(p);
                }
                2 => b.insert(p, *ch.pick(&[0u8, 1, 2, 3, 4, 5, 6, 0x0C, 0x30, 0x7F, 0x80, 0x82, 0xA0, 0xFF])),
                _ => b.truncate(p),
            }
            Ok(b)
        },
    )
}

pub fn ext_sizes(upto: usize, o: &Oracle) -> Family {
    let mut list: Vec<usize> = (0..=upto).collect();
    list.extend(SIZES.iter().filter(|s| **s > upto));
    built(
        "content-sizes",
        &format!("unknown, key identifier, role, mail, DNS, URI and address content of every size 0..={upto} and boundary sizes to 70000, critical or not"),
        0,
        o,
        move |ch| {
            let n = *ch.pick(&list);
            let kind = ch.choose(7);
            let f = fill(n, 1);
            let t = text(n, 2);
            let (id, c): (&[u32], Vec<u8>) = match kind {
                0 => (&[1, 2, 3], f),
                1 => (OID_SKI, tlv(4, &f)),
                2 => (OID_ROLE, tlv(0x0C, &t)),
                3 => (OID_SAN, seq(&[&tlv(0x81, &t), &tlv(0x82, b"z")])),
                4 => (OID_SAN, seq(&[&tlv(0x82, b"z"), &tlv(0x82, &t)])),
                5 => (OID_SAN, seq(&[&tlv(0x86, &t)])),
                _ => (OID_SAN, seq(&[&tlv(0x87, &f), &tlv(0x82, b"z")])),
            };
            let mut b = oid(id);
            if ch.flip() {
                b.extend(tlv(1, &[0xFF]));
            }
            b.extend(tlv(4, &c));
            Ok(b)
        },
    )
}

fn ext_lists(n: usize) -> Family {
    let mut items: Vec<Vec<u8>> = ext_kinds().into_iter().map(|(id, c)| ext_of(id, Some(0xFF), &c)).collect();
    items.extend(ext_kinds().into_iter().take(3).map(|(id, c)| ext_of(id, None, &c)));
    items.push(ext_of(&[1, 2, 3], None, b"one"));
    items.push(ext_of(&[1, 2, 3], Some(0xFF), b"two"));
    items.push(ext_of(&[2, 5, 29, 16], None, &tlv(4, &[1])));
    let o = oracle(exts_check);
    let k = items.len();
    built(
        "lists",
        &format!("all extension lists of 0..={n} items over {k} extensions (repetitions included) in a certificate"),
        0,
        &o,
        move |ch| Ok(cert_with_ext(&tlv(0x30, &sequence_of(ch, n, &items)))),
    )
}

/// Numbers of things about the sizes that counters and limits have.
pub const BIG_COUNTS: &[usize] = &[
    255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537,
];

fn ext_counts(max: usize) -> Family {
    let o = oracle(exts_check);
    built("list-counts", &format!("extension lists of every length 0..={max}, and 255 to 65537 around powers of two and ten, distinct contents"), 0, &o, move |ch| {
        let n = if ch.flip() { *ch.pick(BIG_COUNTS) } else { ch.choose(max + 1) };
        let mut l = vec![];
        for i in 0..n {
            l.extend(ext_of(&[1, 2, i as u32], if i % 2 == 0 { None } else { Some(0xFF) }, &(i as u16).to_be_bytes()));
        }
        Ok(cert_with_ext(&tlv(0x30, &l)))
    })
}

pub fn x07(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    vec![
        ext_ids(&o),
        ext_structure(t.pick(2, 3), &o),
        ext_octets(&o),
        ext_sizes(t.pick(300, 1500), &o),
        ext_lists(t.pick(3, 6)),
        ext_counts(t.pick(200, 1000)),
        list_octets(),
        more::counts(t.pick(140, 600), &oracle(more::exts_of)),
        more::identifiers(&[At::Extensions, At::ExtensionParts], &oracle(more::exts_of)),
        more::ext_relations(&oracle(more::exts_of)),
        more::wrapped(t.pick(64, 300), true, false, &oracle(more::exts_of)),
    ]
}

// ------------------------------------------------------------- X08

/// Whatever can stand where exactly one element is expected.
pub fn one_element(name: &str, id: &'static [u32], good: Vec<u8>, o: &Oracle) -> Family {
    let alts = alternatives(&good, &[]);
    let n = alts.len();
    built(
        name,
        &format!("content made of 0, 1 or 2 of {n} elements (valid, every other type, malformed, cut), or one wrapped in each container"),
        0,
        o,
        move |ch| {
            let c = match ch.choose(3) {
                0 => ch.pick(&alts).clone(),
                1 => cat(&[ch.pick(&alts), ch.pick(&alts)]),
                _ => tlv(*ch.pick(&[0x30u8, 0x31, 0xA0, 0x04, 0x03, 0x24]), ch.pick(&alts)),
            };
            Ok(ext_body(id, &c))
        },
    )
}

/// Every octet of a valid content changed.
pub fn content_octets(id: &'static [u32], goods: Vec<Vec<u8>>, o: &Oracle) -> Family {
    built(
        "content-octets",
        "valid contents with one octet replaced by every value, deleted, doubled, with every octet appended, or cut",
        0,
        o,
        move |ch| {
            let mut c = ch.pick(&goods).clone();
            match ch.choose(5) {
                0 => {
                    let p = ch.choose(c.len());
                    c[p] = ch.choose(256) as u8;
                }
                1 => {
                    c.remove(ch.choose(c.len()));
                }
                2 => {
                    let p = ch.choose(c.len());
                    c.insert(p, c[p]);
                }
                3 => c.push(ch.choose(256) as u8),
                _ => c.truncate(ch.choose(c.len())),
            }
            Ok(ext_body(id, &c))
        },
    )
}

/// All contents of few octets, and longer ones over the octets that matter for the extension.
fn all_contents(id: &'static [u32], t: Tier, alpha: &'static [u8], lens: (usize, usize), o: &Oracle) -> Vec<Family> {
    let n = t.pick(2, 3);
    let short = built("all-contents", &format!("every content of 0..={n} octets"), 0, o, move |ch| {
        let k = ch.choose(n + 1);
        let c: Vec<u8> = (0..k).map(|_| ch.choose(256) as u8).collect();
        Ok(ext_body(id, &c))
    });
    let n = t.pick(lens.0, lens.1);
    let long = built("alphabet-contents", &format!("every content of 0..={n} octets over {alpha:02x?}"), 0, o, move |ch| {
        let k = ch.choose(n + 1);
        let c: Vec<u8> = (0..k).map(|_| *ch.pick(alpha)).collect();
        Ok(ext_body(id, &c))
    });
    vec![short, long]
}

/// Every pair of octets of a valid content changed to boundary values.
pub fn content_pairs(id: &'static [u32], goods: Vec<Vec<u8>>, o: &Oracle) -> Family {
    const V: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x30, 0x31, 0x7F, 0x80, 0x81, 0x82, 0xA0, 0xFF];
    built(
        "content-octet-pairs",
        "valid contents with any two octets replaced by 16 values each",
        0,
        o,
        move |ch| {
            let mut c = ch.pick(&goods).clone();
            if c.len() < 2 {
                return Err(Stop::Prune);
            }
            let p = ch.choose(c.len() - 1);
            let q = p + 1 + ch.choose(c.len() - p - 1);
            c[p] = *ch.pick(V);
            c[q] = *ch.pick(V);
            Ok(ext_body(id, &c))
        },
    )
}

pub fn x08(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    let three = built("bit-strings", "every bit string content of 0..=2 octets, and of 3 with padding 0..=8", 0, &o, |ch| {
        let n = ch.choose(4);
        let mut c = vec![];
        if n > 0 {
            c.push(ch.choose(if n == 3 { 9 } else { 256 }) as u8);
            for _ in 1..n {
                c.push(ch.choose(256) as u8);
            }
        }
        Ok(ext_body(OID_KU, &tlv(3, &c)))
    });
    let long = built(
        "long-bit-strings",
        "bit strings of 2..=60 octets with every padding, background zeros or ones, any one octet any value",
        0,
        &o,
        |ch| {
            let n = 2 + ch.choose(59);
            let mut c = vec![ch.choose(8) as u8];
            c.resize(n, if ch.flip() { 0xFF } else { 0 });
            let p = 1 + ch.choose(n - 1);
            c[p] = ch.choose(256) as u8;
            Ok(ext_body(OID_KU, &tlv(3, &c)))
        },
    );
    let many = built(
        "many-bits",
        "bit strings of 2^k and one or two more or less octets, k = 4..=17, padding 0 or 3, background zeros or ones, one of the first two octets any of four values, one of the last three or those at the powers of two changed in one bit",
        0,
        &o,
        |ch| {
            let k = 4 + ch.choose(14);
            let n = (1usize << k) + ch.choose(5) - 2;
            let back = if ch.flip() { 0xFF } else { 0 };
            let mut c = vec![back; n + 1];
            c[0] = if ch.flip() { 3 } else { 0 };
            c[1 + ch.choose(2)] = [0x00, 0xFF, 0x86, 0x01][ch.choose(4)];
            let places: Vec<usize> = (n - 2..=n).chain((3..=k).map(|p| (1 << p) + 1).filter(|p| *p < n - 2)).collect();
            let p = *ch.pick(&places);
            c[p] ^= 1 << (7 - ch.choose(8));
            Ok(ext_body(OID_KU, &tlv(3, &c)))
        },
    );
    let mut v = vec![
        three,
        long,
        many,
        one_element("elements", OID_KU, tlv(3, &[1, 0x86]), &o),
        content_octets(OID_KU, vec![tlv(3, &[1, 0x86]), tlv(3, &[7, 0xFF, 0x80]), tlv(3, &[0])], &o),
    ];
    if t == Tier::Thorough {
        v.push(built("bit-strings-3", "bit strings of three octets after padding 0..=7", 0, &o, |ch| {
            let c = [ch.choose(8) as u8, ch.choose(256) as u8, ch.choose(256) as u8, ch.choose(256) as u8];
            Ok(ext_body(OID_KU, &tlv(3, &c)))
        }));
        v.push(content_pairs(OID_KU, vec![tlv(3, &[1, 0x86]), tlv(3, &[7, 0xFF, 0x80])], &o));
    }
    v.extend(all_contents(OID_KU, t, &[0x00, 0x01, 0x02, 0x03, 0x04, 0x07, 0x08, 0x80, 0xFF], (6, 8), &o));
    v
}

// ------------------------------------------------------------- X09

pub fn x09(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    let every = t.pick(2, 3);
    let values = built(
        "values",
        &format!("CA absent, true, false; path length absent or any integer of 1 to {every} octets, of more to 6 octets over boundary octets"),
        0,
        &o,
        move |ch| {
            let mut s = vec![];
            match ch.choose(3) {
                0 => {}
                1 => s.extend(tlv(1, &[0xFF])),
                _ => s.extend(tlv(1, &[0])),
            }
            let n = ch.choose(7);
            let mut c = vec![];
            for _ in 0..n {
                c.push(if n <= every { ch.choose(256) as u8 } else { *ch.pick(&[0x00u8, 0x01, 0x7F, 0x80, 0xFF]) });
            }
            if n > 0 {
                s.extend(tlv(2, &c));
            }
            Ok(ext_body(OID_BC, &tlv(0x30, &s)))
        },
    );
    let alts = alternatives(&tlv(1, &[0xFF]), &[tlv(2, &[3])]);
    let n = alts.len();
    let deep = t.pick(2, 3);
    let parts = built(
        "parts",
        &format!("the sequence filled with every sequence of 0..={deep} of {n} elements"),
        0,
        &o,
        move |ch| Ok(ext_body(OID_BC, &tlv(0x30, &sequence_of(ch, deep, &alts)))),
    );
    let longest = t.pick(4, 5);
    let few: Vec<Vec<u8>> = [tlv(1, &[0xFF]), tlv(1, &[0]), tlv(1, &[1]), tlv(2, &[0]), tlv(2, &[9]), tlv(2, &[1, 2, 3, 4, 5]), tlv(5, &[]), tlv(0x30, &[]), tlv(0x1F, &[]), vec![2], vec![2, 2, 1], vec![0]]
        .to_vec();
    let orders = built(
        "orders",
        &format!("the sequence filled with every sequence of 0..={longest} of 12 elements; the sequence plain or distorted in 17 ways"),
        1,
        &o,
        move |ch| {
            let body = sequence_of(ch, longest, &few);
            let mut c = vec![];
            wrap(ch, &mut c, 0x30, &body);
            Ok(ext_body(OID_BC, &c))
        },
    );
    let good = seq(&[&tlv(1, &[0xFF]), &tlv(2, &[3])]);
    let goods = vec![good.clone(), seq(&[]), seq(&[&tlv(1, &[0xFF])]), seq(&[&tlv(2, &[1, 2, 3, 4])])];
    let mut v = vec![values, parts, orders, one_element("elements", OID_BC, good, &o), content_octets(OID_BC, goods.clone(), &o), content_pairs(OID_BC, goods, &o)];
    v.extend(all_contents(OID_BC, t, &[0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x30, 0x80, 0xFF], (6, 8), &o));
    v
}

// ------------------------------------------------------------- X10

fn san_menu() -> Vec<Vec<u8>> {
    let mut v = vec![
        tlv(0x81, b"a@b"),
        tlv(0x82, b"a.b"),
        tlv(0x86, b"u:v"),
        tlv(0x87, &[1, 2, 3, 4]),
        tlv(0x87, &fill(16, 1)),
        tlv(0x88, &[0x2A, 0x03]),
        tlv(0x81, &[]),
        tlv(0x82, &[]),
        tlv(0x86, &[]),
        tlv(0x87, &[]),
        tlv(0xA2, b"cons"),
        tlv(0x82, "\u{e9}".as_bytes()),
        // to be refused
        tlv(0x88, &[]),
        tlv(0x88, &[0x80]),
        tlv(0x82, &[0xFF]),
        tlv(0x81, &[0xC3]),
        tlv(0x86, &[0x80]),
        tlv(0xA0, &[]),
        tlv(0x83, b"x"),
        tlv(0xA4, &seq(&[])),
        tlv(0x85, b"x"),
        tlv(0x89, b"x"),
        tlv(0x16, b"ia5"),
    ];
    v.extend([vec![0x82], vec![0x82, 0x05, b'a'], vec![0x9F, 0x22, 0x00], vec![0x87, 0x80, 0, 0], tlv(5, &[])]);
    v
}

pub fn san_sequences(n: usize, o: &Oracle) -> Family {
    let m = san_menu();
    let k = m.len();
    built("name-sequences", &format!("all sequences of 0..={n} of {k} names, valid and not"), 0, o, move |ch| {
        Ok(ext_body(OID_SAN, &tlv(0x30, &sequence_of(ch, n, &m))))
    })
}

pub fn x10(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    let tags = built(
        "tags",
        "every identifier octet with each of 13 contents, first, last or only name",
        0,
        &o,
        |ch| {
            let id = ch.choose(256) as u8;
            let c = [
                &b"abc"[..],
                &[],
                &[0x2A, 0x03],
                &[1, 2, 3, 4],
                &[0x80],
                &[0xFF, 0xFE],
                &[0x2A, 0x86],
                "\u{20ac}".as_bytes(),
                &[0x30, 0x00],
                &[0x05, 0x00],
                &[0x00],
                &[0x81, 0x80, 0x80, 0x80, 0x00],
                &[0x88, 0x37, 0x03],
            ][ch.choose(13)];
            let e = tlv(id, c);
            let body = match ch.choose(3) {
                0 => e,
                1 => cat(&[&tlv(0x82, b"first"), &e]),
                _ => cat(&[&e, &tlv(0x86, b"last")]),
            };
            Ok(ext_body(OID_SAN, &tlv(0x30, &body)))
        },
    );
    let most = t.pick(2, 3);
    let short = built("short-contents", &format!("names with tags 0..=9 in both forms, every content of 0..=2 octets; with the five supported tags, of 0..={most}"), 0, &o, move |ch| {
        let id = [0x80u8, 0xA0][ch.choose(2)] + ch.choose(10) as u8;
        let n = ch.choose(if matches!(id, 0x81 | 0x82 | 0x86 | 0x87 | 0x88) { most + 1 } else { 3 });
        let c: Vec<u8> = (0..n).map(|_| ch.choose(256) as u8).collect();
        Ok(ext_body(OID_SAN, &seq(&[&tlv(id, &c)])))
    });
    let pieces = t.pick(3, 5);
    let texts = built("texts", &format!("mail, DNS and URI names over all sequences of 0..={pieces} of 12 well-formed and malformed pieces"), 0, &o, move |ch| {
        const P: &[&[u8]] = &[
            b"a", b"\0", b" ", "\u{80}".as_bytes(), "\u{800}".as_bytes(), "\u{10000}".as_bytes(), &[0x80], &[0xC0, 0x80], &[0xE2, 0x82],
            &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xFF],
        ];
        let id = *ch.pick(&[0x81u8, 0x82, 0x86]);
        let n = ch.choose(pieces + 1);
        let mut c = vec![];
        for _ in 0..n {
            c.extend_from_slice(ch.pick(P));
        }
        Ok(ext_body(OID_SAN, &seq(&[&tlv(id, &c), &tlv(0x87, &[9])])))
    });
    let good = seq(&[&tlv(0x82, b"ab"), &tlv(0x87, &[1, 2, 3, 4]), &tlv(0x88, &[0x2A, 3])]);
    let many = built("many-names", "255 to 65537 names around powers of two and ten, of one kind (each) or cycling, the last good or malformed", 0, &o, |ch| {
        let n = *ch.pick(BIG_COUNTS);
        let kind = ch.choose(6);
        let mut b = vec![];
        for i in 0..n {
            match if kind == 5 { i % 5 } else { kind } {
                4 => b.extend(tlv(0x88, &crate::refder::oid_encode(&[1, 2, i as u32]))),
                3 => b.extend(tlv(0x87, &(i as u32).to_be_bytes())),
                k => b.extend(tlv([0x81, 0x82, 0x86][k], format!("n{i}").as_bytes())),
            }
        }
        match ch.choose(4) {
            1 => b.extend(tlv(0x82, &[0xFF])),
            2 => b.extend([0x82, 0x05, b'x']),
            3 => b.extend(tlv(0x84, &[0x30, 0x00])),
            _ => {}
        }
        Ok(ext_body(OID_SAN, &tlv(0x30, &b)))
    });
    let counts = built("counts", "every number of names 0..=300, kinds cycling, distinct texts", 0, &o, |ch| {
        let n = ch.choose(301);
        let mut b = vec![];
        for i in 0..n {
            match i % 5 {
                4 => b.extend(tlv(0x88, &oid_encode(&[1, 2, i as u32]))),
                3 => b.extend(tlv(0x87, &(i as u32).to_be_bytes())),
                k => b.extend(tlv([0x81, 0x82, 0x86][k], format!("name {i}").as_bytes())),
            }
        }
        Ok(ext_body(OID_SAN, &tlv(0x30, &b)))
    });
    let m = san_menu();
    let shell = built("container", "two names, the sequence around them distorted in 17 ways, each name any of the menu", 1, &o, move |ch| {
        let body = cat(&[ch.pick(&m), ch.pick(&m)]);
        let mut c = vec![];
        wrap(ch, &mut c, 0x30, &body);
        Ok(ext_body(OID_SAN, &c))
    });
    let whole = oracle(more::exts_of);
    let mut v = vec![
        tags,
        short,
        texts,
        san_sequences(t.pick(3, 4), &o),
        counts,
        many,
        shell,
        ext_sizes(t.pick(200, 1000), &o),
        one_element("elements", OID_SAN, good.clone(), &o),
        content_octets(OID_SAN, vec![good.clone()], &o),
        content_pairs(OID_SAN, vec![good], &o),
        more::identifiers(&[At::RegisteredIds], &whole),
    ];
    v.extend(more::texts(t, Which::Alternatives, &whole));
    v.extend(more::addresses(t, &whole));
    v.extend(all_contents(OID_SAN, t, &[0x00, 0x01, 0x02, 0x03, 0x2A, 0x30, 0x81, 0x87, 0x88], (6, 8), &o));
    v
}

// ------------------------------------------------------------- X11

pub fn x11(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    let p = |k: u32| oid(&[1, 3, 6, 1, 5, 5, 7, 3, k]);
    let ids = built("purposes", "one purpose: last arc 0..=700 in the PKIX arc, any other arc changed by one or doubled, dropped or added; alone, before or after a supported one", 0, &o, move |ch| {
        let base = [1u32, 3, 6, 1, 5, 5, 7, 3];
        let mut a: Vec<u32> = base.to_vec();
        match ch.choose(4) {
            0 => a.push(ch.choose(701) as u32),
            1 => {
                let i = ch.choose(8);
                let d = ch.choose(4);
                let x = a[i] as i64 + [-1, 1, 2, 128][d];
                if x < 0 || (i == 0 && x > 2) || (i == 1 && x > 39) {
                    return Err(Stop::Prune);
                }
                a[i] = x as u32;
                a.push([1, 2, 3, 4, 8, 9][ch.choose(6)]);
            }
            2 => {
                a.remove(2 + ch.choose(6));
                a.push([1, 2, 3, 4, 8, 9][ch.choose(6)]);
            }
            _ => {
                let i = 2 + ch.choose(8);
                a.push([1, 2, 3, 4, 8, 9][ch.choose(6)]);
                let v = ch.choose(10) as u32;
                a.insert(i.min(a.len()), v);
            }
        }
        let e = oid(&a);
        let body = match ch.choose(3) {
            0 => e,
            1 => cat(&[&p(2), &e]),
            _ => cat(&[&e, &p(4)]),
        };
        Ok(ext_body(OID_EKU, &tlv(0x30, &body)))
    });
    let mut menu: Vec<Vec<u8>> = [1, 2, 3, 4, 8, 9].iter().map(|k| p(*k)).collect();
    menu.extend([p(5), p(0), p(10), oid(&[2, 5, 29, 37, 0]), tlv(6, &[]), tlv(6, &[0x2B, 0x86]), tlv(5, &[]), tlv(2, &[1]), vec![6], vec![6, 8, 0x2B], tlv(0x1F, &[])]);
    let deep = t.pick(4, 6);
    let n = menu.len();
    let seqs = built("sequences", &format!("all sequences of 0..={deep} of {n} elements, the six purposes among them"), 0, &o, {
        let menu = menu.clone();
        move |ch| Ok(ext_body(OID_EKU, &tlv(0x30, &sequence_of(ch, deep, &menu))))
    });
    let most = t.pick(7, 9);
    let six = built("repetitions", &format!("all sequences of six purposes of length 0..={most}"), 0, &o, move |ch| {
        let n = ch.choose(most + 1);
        let mut b = vec![];
        for _ in 0..n {
            b.extend_from_slice(ch.pick(&menu[..6]));
        }
        Ok(ext_body(OID_EKU, &tlv(0x30, &b)))
    });
    let many = built("many-purposes", "255 to 65537 purposes around powers of two and ten, of one sort (each) or cycling, the last good or another", 0, &o, |ch| {
        let n = *ch.pick(BIG_COUNTS);
        let kind = ch.choose(7);
        let mut b = vec![];
        for i in 0..n {
            b.extend(oid(&[1, 3, 6, 1, 5, 5, 7, 3, [1, 2, 3, 4, 8, 9][if kind == 6 { i % 6 } else { kind }]]));
        }
        match ch.choose(4) {
            1 => b.extend(oid(&[1, 3, 6, 1, 5, 5, 7, 3, 5])),
            2 => b.extend([6, 8, 0x2B]),
            3 => b.extend([5, 0]),
            _ => {}
        }
        Ok(ext_body(OID_EKU, &tlv(0x30, &b)))
    });
    let counts = built("counts", "every number of purposes 0..=400, cycling", 0, &o, move |ch| {
        let n = ch.choose(401);
        let k = ch.choose(6);
        let b: Vec<u8> = (0..n).flat_map(|i| p([1, 2, 3, 4, 8, 9][(i * (k + 1) + k) % 6])).collect();
        Ok(ext_body(OID_EKU, &tlv(0x30, &b)))
    });
    let shell = built("container", "0, 1 or 2 purposes, the sequence around them distorted in 17 ways", 1, &o, move |ch| {
        let n = ch.choose(3);
        let body: Vec<u8> = (0..n).flat_map(|_| p([1, 2, 3, 4, 8, 9, 7][ch.choose(7)])).collect();
        let mut c = vec![];
        wrap(ch, &mut c, 0x30, &body);
        Ok(ext_body(OID_EKU, &c))
    });
    let good = seq(&[&p(1), &p(8)]);
    let near = std::sync::Arc::new({
        let mut v = more::known_oids();
        [1u32, 2, 3, 4, 8, 9].iter().for_each(|k| v.extend(neighbours(&[1, 3, 6, 1, 5, 5, 7, 3, *k])));
        v.push(vec![]);
        v
    });
    let asked = Family::new("asked", &format!("the purpose of each of {} identifiers built from their arcs, and of each with one more arc of 0..=9 before or behind", near.len()), 0, move || {
        let near = near.clone();
        move |ch: &mut Ch| {
            let mut a = ch.pick(&near).clone();
            match ch.choose(21) {
                0 => {}
                n if n <= 10 => a.push(n as u32 - 1),
                n => a.insert(0, n as u32 - 11),
            }
            ch.note(|| format!("{a:?}"));
            let want = match a[..] {
                [1, 3, 6, 1, 5, 5, 7, 3, k] if matches!(k, 1 | 2 | 3 | 4 | 8 | 9) => Some(k as u8),
                _ => None,
            };
            let got = run("try_from_id", || {
                rx509::x509::ext::ExtendedKeyUsagePurpose::try_from_id(&rx509::der::ASNObjectIdentifier::new(a.clone())).map(|p| purpose_no(&p))
            })?;
            if got != want {
                return bad(format!("{want:?}"), format!("{got:?}"));
            }
            Ok(want.unwrap_or(0) as u64)
        }
    });
    let mut v = all_contents(OID_EKU, t, &[0x00, 0x01, 0x02, 0x06, 0x08, 0x2B, 0x30, 0x80, 0x81], (6, 8), &o);
    v.extend([
        asked,
        ids,
        more::identifiers(&[At::Purposes], &oracle(more::exts_of)),
        seqs,
        six,
        counts,
        many,
        shell,
        one_element("elements", OID_EKU, good.clone(), &o),
        content_octets(OID_EKU, vec![good.clone()], &o),
        content_pairs(OID_EKU, vec![good], &o),
    ]);
    v
}

// ------------------------------------------------------------- X12

fn two_kinds(name: &str, what: &str, o: &Oracle, f: impl Fn(&mut Ch) -> Result<Vec<u8>, Stop> + Clone + Send + Sync + 'static) -> Family {
    built(name, what, 0, o, move |ch| {
        let id = if ch.flip() { OID_ROLE } else { OID_SKI };
        Ok(ext_body(id, &f(ch)?))
    })
}

pub fn x12(t: Tier) -> Vec<Family> {
    let o = oracle(ext_check);
    let alts = alternatives(&tlv(4, &[1, 2]), &[tlv(0x0C, b"Role"), tlv(0x0C, b"R\xc3\xa9"), tlv(4, &[0x04, 0x00])]);
    let n = alts.len();
    let two = two_kinds("elements", &format!("key identifier and role with contents of 0, 1 or 2 of {n} elements, or one wrapped in each container"), &o, move |ch| {
        Ok(match ch.choose(3) {
            0 => ch.pick(&alts).clone(),
            1 => cat(&[ch.pick(&alts), ch.pick(&alts)]),
            _ => tlv(*ch.pick(&[0x30u8, 0x31, 0xA0, 0x04, 0x0C, 0x24]), ch.pick(&alts)),
        })
    });
    let deeper = t == Tier::Thorough;
    let raw = two_kinds("raw", &format!("key identifier and role with every content of 0..={} octets, and of one more behind identifiers 04, 0C and 80", if deeper { 3 } else { 2 }), &o, move |ch| {
        let n = ch.choose(if deeper { 5 } else { 4 });
        Ok((0..n).map(|i| if n == if deeper { 4 } else { 3 } && i == 0 { *ch.pick(&[4u8, 0x0C, 0x80]) } else { ch.choose(256) as u8 }).collect())
    });
    let pieces = t.pick(4, 5);
    let role = built("role-texts", &format!("role text over all sequences of 0..={pieces} of 14 pieces of well-formed and malformed UTF-8, under each string type"), 0, &o, move |ch| {
        const P: &[&[u8]] = &[
            b"a", b"\0", b" ", "\u{80}".as_bytes(), "\u{7ff}".as_bytes(), "\u{800}".as_bytes(), "\u{10ffff}".as_bytes(), &[0x80], &[0xC0, 0x80],
            &[0xE2, 0x82], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x9F], &[0xFF],
        ];
        let tag = *ch.pick(&[0x0Cu8, 0x13, 0x16]);
        let n = ch.choose(pieces + 1);
        let mut c = vec![];
        for _ in 0..n {
            c.extend_from_slice(ch.pick(P));
        }
        Ok(ext_body(OID_ROLE, &tlv(tag, &c)))
    });
    let lists = two_kinds("endings", "a valid value of every size 0..=300 followed by nothing, one octet, a cut element, a null or another value", &o, |ch| {
        let n = ch.choose(301);
        let k = ch.flip();
        let v = if k { tlv(4, &fill(n, 4)) } else { tlv(0x0C, &text(n, 4)) };
        let end: &[u8] = [&[][..], &[0], &[0x30], &[4, 2, 1], &[5, 0], &[4, 0], &[0x0C, 0], &[0xFF]][ch.choose(8)];
        Ok(cat(&[&v, end]))
    });
    vec![
        two,
        raw,
        role,
        lists,
        ext_sizes(t.pick(300, 2000), &o),
        content_octets(OID_SKI, vec![tlv(4, &[1, 2, 3, 4])], &o),
        content_octets(OID_ROLE, vec![tlv(0x0C, b"Op\xc3\xa9")], &o),
        more::wrapped(t.pick(64, 300), true, false, &oracle(more::exts_of)),
    ]
    .into_iter()
    .chain(more::texts(t, Which::Role, &oracle(more::exts_of)))
    .enumerate()
    .map(|(i, mut f)| {
        if f.name == "content-octets" {
            f.name = format!("content-octets-{}", if i == 5 { "key" } else { "role" });
        }
        f
    })
    .collect()
}

// ------------------------------------------------------------- X13

const ALG_FIELDS: Fields = Fields { algs: true, ..NONE };

/// Puts an algorithm identifier element (whole sequence) at one of its three places.
fn alg_at(place: usize, e: &[u8], full: bool) -> Vec<u8> {
    let base = plain_cert(full);
    let spans = element_spans(&base);
    // the three sequences that start with an object identifier and are not attributes
    let algs: Vec<(usize, usize, usize)> = alg_spans(&base, &spans);
    replace_element(&base, algs[place], e)
}

fn alg_spans(base: &[u8], spans: &[(usize, usize, usize)]) -> Vec<(usize, usize, usize)> {
    let r = rx::certificate(base).unwrap();
    let at = |oid: &[u8]| oid.as_ptr() as usize - base.as_ptr() as usize;
    [&r.inner_alg, &r.key_alg, &r.outer_alg]
        .iter()
        .map(|a| {
            let p = at(a.oid);
            // the innermost sequence containing that identifier
            *spans.iter().filter(|s| s.1 <= p && p < s.2 && base[s.0] == 0x30).max_by_key(|s| s.0).unwrap()
        })
        .collect()
}

pub fn x13(t: Tier) -> Vec<Family> {
    let o = oracle(|b| cert_check(b, true, Some(ALG_FIELDS)));
    let key = oracle(|b| cert_check(b, true, Some(Fields { algs: true, plain: true, ..NONE })));
    let alts = alternatives(&oid(&[1, 2, 840, 113549, 1, 1, 1]), &[oid(&[2, 999, 1]), oid(&[1, 3, 101, 112])]);
    let n = alts.len();
    let deep = 2;
    let a1 = alts.clone();
    let parts = built(
        "algorithm-parts",
        &format!("each of the three algorithm identifiers filled with every sequence of 0..={deep} of {n} elements, in the minimal or full certificate"),
        0,
        &o,
        move |ch| {
            let place = ch.choose(3);
            let full = ch.flip();
            let body = sequence_of(ch, deep, &a1);
            Ok(alg_at(place, &tlv(0x30, &body), full))
        },
    );
    let a2: Vec<Vec<u8>> = vec![
        oid(&[1, 2, 3]),
        tlv(5, &[]),
        tlv(2, &[1]),
        tlv(0x30, &[]),
        tlv(0xA0, &[]),
        tlv(0x9E, b"x"),
        tlv(0x1F, &[]),
        vec![5],
        vec![4, 9, 1],
        vec![0],
    ];
    let longest = t.pick(4, 5);
    let long = built("algorithm-longer", &format!("each of the three algorithm identifiers filled with every sequence of 0..={longest} of 10 elements, its sequence plain or distorted in 17 ways"), 1, &o, move |ch| {
        let place = ch.choose(3);
        let body = sequence_of(ch, longest, &a2);
        let mut e = vec![];
        wrap(ch, &mut e, 0x30, &body);
        Ok(alg_at(place, &e, false))
    });
    let oids = near_oids();
    let no = oids.len();
    let ids = built("algorithm-identifiers", &format!("{no} identifiers (named ones and neighbours) at each of the three places, with absent, null or other parameters"), 0, &o, move |ch| {
        let place = ch.choose(3);
        let mut b = oid(ch.pick(&oids));
        b.extend([&[][..], &[5, 0], &[6, 1, 0x2A], &[0x30, 0]][ch.choose(4)]);
        Ok(alg_at(place, &tlv(0x30, &b), false))
    });
    let info_alts = alternatives(&seq(&[&oid(&[1, 3, 101, 112])]), &[tlv(3, &[0, 1]), tlv(3, &[7, 0x80]), tlv(3, &[7]), tlv(3, &[])]);
    let ni = info_alts.len();
    let info = built("key-info-parts", &format!("the key info filled with every sequence of 0..=2 of {ni} elements, or three of ten"), 0, &key, move |ch| {
        let few: Vec<Vec<u8>> = vec![seq(&[&oid(&[1, 2, 3])]), tlv(3, &[0, 5]), tlv(3, &[1, 4]), seq(&[]), tlv(5, &[]), vec![3], tlv(0xA0, &[]), tlv(3, &[]), tlv(0x31, &oid(&[1, 2, 3])), tlv(4, &[0])];
        let body = if ch.flip() {
            cat(&[ch.pick(&few), ch.pick(&few), ch.pick(&few)])
        } else {
            sequence_of(ch, 2, &info_alts)
        };
        let base = plain_cert(ch.flip());
        let spans = element_spans(&base);
        let inner = alg_spans(&base, &spans)[1];
        let outer = *spans.iter().filter(|s| s.1 <= inner.0 && inner.2 < s.2 && base[s.0] == 0x30).max_by_key(|s| s.0).unwrap();
        Ok(replace_element(&base, outer, &tlv(0x30, &body)))
    });
    let octets = built("algorithm-octets", "each of the three algorithm identifiers (with null parameters): every octet any value, every two neighbouring octets any boundary values", 0, &o, |ch| {
        let place = ch.choose(3);
        let mut e = seq(&[&oid(&[1, 2, 840, 113549, 1, 1, 5]), &tlv(5, &[])]);
        let p = ch.choose(e.len());
        if ch.flip() {
            e[p] = ch.choose(256) as u8;
        } else {
            let v: &[u8] = &[0, 1, 2, 5, 6, 0x30, 0x31, 0x7F, 0x80, 0x81, 0xA0, 0xFF];
            e[p] = *ch.pick(v);
            if p + 1 < e.len() {
                e[p + 1] = *ch.pick(v);
            }
        }
        // the surrounding lengths fit the original element
        Ok(alg_at(place, &e, false))
    });
    vec![parts, long, ids, info, octets, more::identifiers(&[At::Algorithms], &o), more::relations(&o),
        more::identities(&o), more::keys(t, &key), more::wrapped(t.pick(64, 300), false, true, &key), cert_sizes(t.pick(140, 600), &key), cert_legal(t.pick(2, 3), &o)]
}

fn near_oids() -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    for (k, _) in KNOWN {
        v.push(k.to_vec());
        let l = k.len() - 1;
        for d in 0..4 {
            let mut m = k.to_vec();
            m[l] = k[l] + d;
            v.push(m.clone());
            m.push(d);
            v.push(m);
        }
        v.push(k[..l].to_vec());
    }
    for a in [0u32, 1, 2] {
        for b in [0u32, 1, 39] {
            v.push(vec![a, b]);
            v.push(vec![a, b, 268435455]);
        }
    }
    v.push(vec![2, 40]);
    v.push(vec![2, 48, 1]);
    v.push(vec![2, 999]);
    v.push(vec![2, 175]);
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------- X14

const OPT_FIELDS: Fields = Fields { version: true, optional: true, ..NONE };

fn tbs_with(version: &[u8], tail: &[u8]) -> Vec<u8> {
    let mut m = plain_menu(false);
    m.version = vec![version.to_vec()];
    m.iuid = vec![tail.to_vec()];
    let mut b = CertBuf::new();
    build_cert(&mut Ch::new(0), &m, &mut b);
    b.out
}

pub fn x14(t: Tier) -> Vec<Family> {
    let o = oracle(|b| cert_check(b, true, Some(OPT_FIELDS)));
    let mut v = optional_parts(t, &o);
    v.push(cert_sizes(t.pick(140, 600), &o));
    v
}

/// The version and the parts after the key info in every shape.
fn optional_parts(t: Tier, o: &Oracle) -> Vec<Family> {
    let ints = built("version-numbers", "version wrapping every integer of 0..=2 octets, and of 3 to 6 octets over boundary octets", 0, o, |ch| {
        let n = ch.choose(7);
        let c: Vec<u8> = (0..n).map(|_| if n <= 2 { ch.choose(256) as u8 } else { *ch.pick(&[0x00u8, 0x01, 0x02, 0x80, 0xFF]) }).collect();
        Ok(tbs_with(&tlv(0xA0, &tlv(2, &c)), &[]))
    });
    let alts = alternatives(&tlv(2, &[2]), &[tlv(2, &[0]), tlv(2, &[1]), tlv(2, &[0, 2])]);
    let n = alts.len();
    let wrapper = built("version-wrapper", &format!("version wrapper in both forms filled with 0, 1 or 2 of {n} elements; the wrapper plain or distorted in 17 ways; every identifier octet in its place"), 1, o, move |ch| {
        if ch.flip() {
            let id = ch.choose(256) as u8;
            let v = tlv(2, &[*ch.pick(&[0u8, 1, 2, 3])]);
            return Ok(tbs_with(&tlv(id, &v), &[]));
        }
        let body = sequence_of(ch, 2, &alts);
        let tag = *ch.pick(&[0xA0u8, 0x80]);
        let mut w = vec![];
        wrap(ch, &mut w, tag, &body);
        Ok(tbs_with(&w, &[]))
    });
    let mut items: Vec<Vec<u8>> = vec![];
    for k in 0..6u8 {
        items.push(tlv(0x80 | k, &[0, 0x50 + k]));
        items.push(tlv(0xA0 | k, &[0, 0x60 + k]));
    }
    items.push(tlv(0x81, &[]));
    items.push(tlv(0x82, &[7]));
    items.push(tlv(0x82, &[9, 1]));
    items.push(tlv(0xA1, &tlv(3, &[0, 1])));
    items.push(tlv(0xA3, &seq(&[])));
    items.push(tlv(5, &[]));
    items.push(tlv(0x30, &[]));
    items.push(tlv(0x1F, &[]));
    items.push(vec![0x81]);
    items.push(vec![0xA3, 0x05, 0x30]);
    items.push(vec![0x9F, 0x01, 0x00]);
    let n = items.len();
    let deep = t.pick(3, 5);
    let tails = built("optional-parts", &format!("all sequences of 0..={deep} of {n} optional, foreign, malformed or cut elements after the key info, with and without version"), 0, o, move |ch| {
        let v = if ch.flip() { tlv(0xA0, &tlv(2, &[2])) } else { vec![] };
        Ok(tbs_with(&v, &sequence_of(ch, deep, &items)))
    });
    let all = built("presence", "version absent or v1..v3; each unique identifier absent, or any of 8 contents in both forms; extensions absent, empty or filled, in both forms", 0, o, |ch| {
        let v = match ch.choose(4) {
            0 => vec![],
            k => tlv(0xA0, &tlv(2, &[k as u8 - 1])),
        };
        let mut tail = vec![];
        const C: &[&[u8]] = &[&[0], &[0, 0xAB], &[4, 0xF0], &[7, 0x80], &[0, 1, 2, 3], &[1], &[8, 0], &[]];
        for t in [1u8, 2] {
            let k = ch.choose(1 + 2 * C.len());
            if k > 0 {
                let form = if (k - 1) % 2 == 0 { 0x80 } else { 0xA0 };
                tail.extend(tlv(form | t, C[(k - 1) / 2]));
            }
        }
        match ch.choose(5) {
            0 => {}
            1 => tail.extend(tlv(0xA3, &[])),
            2 => tail.extend(tlv(0xA3, &all_extensions())),
            3 => tail.extend(tlv(0x83, &seq(&[]))),
            _ => tail.extend(tlv(0xA3, &[0xFF])),
        }
        Ok(tbs_with(&v, &tail))
    });
    let most = t.pick(2, 3);
    let uids = built("unique-identifiers", &format!("each unique identifier with every content of 0..={most} octets, constructed of 0..=2"), 0, o, move |ch| {
        let id = *ch.pick(&[0x81u8, 0x82, 0xA1, 0xA2]);
        let n = ch.choose(if id < 0xA0 { most + 1 } else { 3 });
        let c: Vec<u8> = (0..n).map(|_| ch.choose(256) as u8).collect();
        Ok(tbs_with(&tlv(0xA0, &tlv(2, &[1])), &tlv(id, &c)))
    });
    let ids = built("identifiers", "every identifier octet as first or second optional part, with five contents", 0, o, |ch| {
        let id = ch.choose(256) as u8;
        let c = [&[0u8, 1][..], &[], &[5, 0], &[0x30, 0], &[3, 2, 0, 1]][ch.choose(5)];
        let e = tlv(id, c);
        let tail = match ch.choose(4) {
            0 => e,
            1 => cat(&[&tlv(0x81, &[0, 7]), &e]),
            2 => cat(&[&e, &tlv(0xA3, &seq(&[]))]),
            _ => cat(&[&tlv(0x82, &[0, 7]), &e]),
        };
        Ok(tbs_with(&[], &tail))
    });
    vec![ints, wrapper, tails, all, uids, ids]
}
