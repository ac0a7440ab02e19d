//! P01 and P02: the report of a certificate, and the layout protocol of everything printable.

use super::common::*;
use super::more;
use super::x509::{built, cert_legal, cert_sizes, ext_kinds, ext_sizes, san_sequences, sequence_of};
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::refprint::Page;
use crate::refx509::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::printer::Printable;
use rx509::x509::*;

/// The report line by line against the reference rendering of the decoded values.
fn report_exact(b: &[u8]) -> Step {
    let Ok(Ok(c)) = parse_cert(b) else { return Ok(0) };
    let Ok(want) = guard(|| {
        let mut p = Page::default();
        p.cert(&c);
        p.lines
    }) else {
        return Ok(1); // a value that cannot be read: not a matter of the report
    };
    let got = run("the report", || report(&c))?.lines;
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return bad(
            format!("line {}: {:?}", i + 1, want.get(i)),
            format!("{:?} ({} lines, {} expected)", got.get(i), got.len(), want.len()),
        );
    }
    Ok(2 + got.len() as u64)
}

/// The layout protocol of a report.
fn layout(p: &dyn Printable) -> Step {
    let r = run("the report", || report(p))?;
    match r.fault {
        Some(f) => bad("balanced levels, every line started once and ended once", f),
        None => Ok(2 + r.lines.len() as u64),
    }
}

fn cert_layout(b: &[u8]) -> Step {
    let Ok(Ok(c)) = parse_cert(b) else { return Ok(0) };
    let t = &c.tbs_certificate.value;
    layout(t)?;
    layout(&t.validity)?;
    layout(&t.issuer)?;
    layout(&t.subject)?;
    layout(&t.signature)?;
    layout(&t.subject_public_key_info)?;
    layout(&c.signature_value)?;
    if let Ok(Ok(n)) = guard(|| t.issuer.parse()) {
        layout(&n)?;
    }
    if let Some(x) = &t.extensions {
        if let Ok(Ok(list)) = guard(|| x.parse()) {
            for e in &list {
                layout(e)?;
                layout(&e.content)?;
            }
        }
    }
    layout(&c)
}

/// An oracle over extension bodies from one over certificates.
fn in_cert(o: &Oracle) -> Oracle {
    let o = o.clone();
    oracle(move |b| o(&cert_with_ext(&seq(&[&tlv(0x30, b)]))))
}

fn cert_of(f: impl FnOnce(&mut CertMenu)) -> Vec<u8> {
    let mut m = plain_menu(true);
    f(&mut m);
    let mut b = CertBuf::new();
    build_cert(&mut Ch::new(0), &m, &mut b);
    b.out
}

fn names(o: &Oracle) -> Family {
    let extra: Vec<Vec<u8>> = vec![vec![], rdn(12, 0x0C, b"title"), rdn(3, 5, b""), vec![0xFF], tlv(0x31, &[])];
    built(
        "names",
        "issuer or subject with every subset of the six attributes, in given or reverse order, each string type, in one set or several, followed by nothing, an unrecognised attribute or one of three defects",
        0,
        o,
        move |ch| {
            let who = ch.flip();
            let mut arcs: Vec<u32> = NAME_ARCS.iter().copied().filter(|_| ch.flip()).collect();
            if ch.flip() {
                arcs.reverse();
            }
            let tag = *ch.pick(&[0x0Cu8, 0x13, 0x16]);
            let avas: Vec<Vec<u8>> =
                arcs.iter().map(|a| seq(&[&oid(&[2, 5, 4, *a]), &tlv(tag, format!("text {a}").as_bytes())])).collect();
            let mut n: Vec<u8> = if ch.flip() && !avas.is_empty() {
                tlv(0x31, &avas.concat())
            } else {
                avas.iter().flat_map(|a| tlv(0x31, a)).collect()
            };
            n.extend_from_slice(ch.pick(&extra));
            Ok(cert_of(|m| if who { m.issuer = vec![tlv(0x30, &n)] } else { m.subject = vec![tlv(0x30, &n)] }))
        },
    )
}

fn raw_names(max: usize, o: &Oracle) -> Family {
    built(
        "raw-names",
        &format!("undecodable issuer, subject or both, of every size 1..={max}"),
        0,
        o,
        move |ch| {
            let n = 1 + ch.choose(max);
            let who = ch.choose(3);
            let mut f = fill(n, 9);
            f[0] = 0xFF;
            Ok(cert_of(|m| {
                if who != 1 {
                    m.issuer = vec![tlv(0x30, &f)];
                }
                if who != 0 {
                    f[n - 1] ^= 0x55;
                    m.subject = vec![tlv(0x30, &f)];
                }
            }))
        },
    )
}

fn serials(o: &Oracle) -> Family {
    built("serials", "serial numbers: every content of 1 and 2 octets, every size 3..=40 with four fillings", 0, o, |ch| {
        let c = match ch.choose(3) {
            0 => vec![ch.choose(256) as u8],
            1 => vec![ch.choose(256) as u8, ch.choose(256) as u8],
            _ => {
                let n = 3 + ch.choose(38);
                match ch.choose(4) {
                    0 => vec![0; n],
                    1 => vec![0xFF; n],
                    2 => fill(n, 3),
                    _ => {
                        let mut v = vec![0; n];
                        v[0] = 0x80;
                        v
                    }
                }
            }
        };
        Ok(cert_of(|m| m.serial = vec![tlv(2, &c)]))
    })
}

fn key_usages(o: &Oracle) -> Family {
    built("key-usages", "key usage bit strings: every content of 0..=1 octets and every pair of octets, padding 0 and 7", 0, o, |ch| {
        let n = ch.choose(3);
        let pad = if n > 0 && ch.flip() { 7 } else { 0 };
        let mut c = vec![pad];
        for _ in 0..n {
            c.push(ch.choose(256) as u8);
        }
        Ok([oid(OID_KU), tlv(4, &tlv(3, &c))].concat())
    })
}

fn constraints(o: &Oracle) -> Family {
    built("basic-constraints", "CA absent, false or true; path length absent or every content of 1 and 2 octets or of 14 longer ones; criticality absent, false, true", 0, o, |ch| {
        let mut b = vec![];
        match ch.choose(3) {
            0 => {}
            1 => b.extend(tlv(1, &[0])),
            _ => b.extend(tlv(1, &[0xFF])),
        }
        match ch.choose(4) {
            0 => {}
            1 => b.extend(tlv(2, &[ch.choose(256) as u8])),
            2 => b.extend(tlv(2, &[ch.choose(256) as u8, ch.choose(256) as u8])),
            _ => {
                let k = 3 + ch.choose(2);
                let first = *ch.pick(&[0u8, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x12]);
                let mut c = fill(k, 1);
                c[0] = first;
                b.extend(tlv(2, &c));
            }
        }
        let mut e = oid(OID_BC);
        match ch.choose(3) {
            0 => {}
            1 => e.extend(tlv(1, &[0])),
            _ => e.extend(tlv(1, &[0xFF])),
        }
        e.extend(tlv(4, &tlv(0x30, &b)));
        Ok(e)
    })
}

fn purposes(n: usize, o: &Oracle) -> Family {
    let menu: Vec<Vec<u8>> = [1u32, 2, 3, 4, 8, 9].iter().map(|p| oid(&[1, 3, 6, 1, 5, 5, 7, 3, *p])).collect();
    built("purposes", &format!("extended key usages: all sequences of 0..={n} of the six purposes"), 0, o, move |ch| {
        let l = sequence_of(ch, n, &menu);
        Ok([oid(OID_EKU), tlv(4, &tlv(0x30, &l))].concat())
    })
}

fn ext_sequences(n: usize, o: &Oracle) -> Family {
    let mut items: Vec<Vec<u8>> = ext_kinds().into_iter().map(|(id, c)| ext_of(id, Some(0xFF), &c)).collect();
    items.push(ext_of(OID_KU, None, &tlv(3, &[0])));
    items.push(ext_of(OID_SAN, None, &seq(&[])));
    items.push(ext_of(OID_SAN, None, &seq(&[&tlv(0x87, &[10, 0, 0, 1]), &tlv(0x82, b"after"), &tlv(0x87, &[])])));
    items.push(ext_of(&[1, 2, 3], None, b""));
    items.push(ext_of(&[2, 5, 4, 3], Some(0), &fill(33, 1)));
    items.push(ext_of(OID_KU, None, &[]));
    items.push(ext_of(OID_EKU, None, &seq(&[&oid(&[1, 2, 3])])));
    items.push(vec![0x30]);
    let k = items.len();
    built(
        "extension-lists",
        &format!("certificates with all lists of 0..={n} extensions over {k} (every kind, empty ones, three undecodable ones)"),
        0,
        o,
        move |ch| Ok(cert_with_ext(&tlv(0x30, &sequence_of(ch, n, &items)))),
    )
}

fn common(t: Tier, o: &Oracle) -> Vec<Family> {
    let e = in_cert(o);
    let mut v = vec![
        cert_legal(t.pick(2, 3), o),
        cert_sizes(t.pick(130, 1500), o),
        names(o),
        raw_names(t.pick(100, 600), o),
        serials(o),
        key_usages(&e),
        constraints(&e),
        purposes(t.pick(3, 5), &e),
        san_sequences(t.pick(2, 3), &e),
        ext_sizes(t.pick(70, 600), &e),
        ext_sequences(t.pick(3, 4), o),
        cert_octets(o),
        cert_elements(o),
    ];
    v.extend(more::everything(t, o));
    if t == Tier::Thorough {
        v.push(cert_edits(o));
        v.push(cert_wild(2, o));
    }
    v
}

pub fn p01(t: Tier) -> Vec<Family> {
    common(t, &oracle(report_exact))
}

/// Every kind of name, including those decoding never yields.
fn any_name(ch: &mut Ch) -> GeneralName<'static> {
    match ch.choose(12) {
        0 => GeneralName::OtherName(&[1, 2]),
        1 => GeneralName::Rfc822Name("a@b"),
        2 => GeneralName::DnsName(""),
        3 => GeneralName::X400Address,
        4 => GeneralName::DirectoryName,
        5 => GeneralName::EdiPartyName,
        6 => GeneralName::UniformResourceIdentifier("x:y"),
        7 => GeneralName::IpAddress(&[]),
        8 => GeneralName::IpAddress(&[127, 0, 0, 1]),
        9 => GeneralName::IpAddress(&[7; 33]),
        10 => GeneralName::RegisteredId(ASNObjectIdentifier::new(vec![1, 2, 3])),
        _ => GeneralName::RegisteredId(ASNObjectIdentifier::new(vec![2, 5, 4, 3])),
    }
}

fn alone() -> Family {
    static BYTES: [u8; 200] = [0xA5; 200];
    Family::new(
        "standalone",
        "values made by hand: octets and bit strings of 0..=200 octets, names of every kind, alternative names with 0..=3 of them, all 64 attribute subsets, all 512 key usages, constraints, purposes, roles, algorithms, extensions around each",
        0,
        || {
            |ch: &mut Ch| -> Step {
                let wrap = |x: SpecificExtension| -> Step {
                    layout(&x)?;
                    layout(&Extension::new(ASNObjectIdentifier::new(vec![2, 5, 29, 15]), true, x))
                };
                match ch.choose(12) {
                    0 => layout(&&BYTES[..ch.choose(201)]),
                    1 => {
                        let pad = ch.choose(8) as u8;
                        let n = ch.choose(201);
                        if n == 0 && pad > 0 {
                            return Err(Stop::Prune);
                        }
                        layout(&ASNBitString::new(pad, &BYTES[..n]))
                    }
                    2 => layout(&any_name(ch)),
                    3 => {
                        let n = ch.choose(4);
                        wrap(SubjectAlternativeName { names: (0..n).map(|_| any_name(ch)).collect() }.into())
                    }
                    4 => {
                        let mut f = || if ch.flip() { Some("v") } else { None };
                        layout(&RelativeDistinguishedName {
                            country_name: f(),
                            state_or_province_unit_name: f(),
                            locality_name: f(),
                            organization: f(),
                            organizational_unit_name: f(),
                            common_name: f(),
                        })
                    }
                    5 => {
                        let mut f = || ch.flip();
                        wrap(
                            KeyUsage {
                                digital_signature: f(),
                                content_commitment: f(),
                                key_encipherment: f(),
                                data_encipherment: f(),
                                key_agreement: f(),
                                key_cert_sign: f(),
                                crl_sign: f(),
                                encipher_only: f(),
                                decipher_only: f(),
                            }
                            .into(),
                        )
                    }
                    6 => wrap(
                        BasicConstraints {
                            ca: ch.flip(),
                            path_length_constraint: *ch.pick(&[None, Some(0), Some(-1), Some(i32::MAX), Some(i32::MIN)]),
                        }
                        .into(),
                    ),
                    7 => {
                        use ExtendedKeyUsagePurpose::*;
                        let n = ch.choose(4);
                        let list = (0..n)
                            .map(|_| match ch.choose(6) {
                                0 => ServerAuth,
                                1 => ClientAuth,
                                2 => CodeSigning,
                                3 => EmailProtection,
                                4 => TimeStamping,
                                _ => OCSPSigning,
                            })
                            .collect();
                        wrap(ExtendedKeyUsage { ext_key_usages: list }.into())
                    }
                    8 => wrap(ModbusRole { role: *ch.pick(&["", "x", "two words"]) }.into()),
                    9 => wrap(SubjectKeyIdentifier { key_identifier: &BYTES[..ch.choose(201)] }.into()),
                    10 => wrap(SpecificExtension::Unknown(&BYTES[..ch.choose(201)])),
                    _ => {
                        let a = AlgorithmIdentifier::new(
                            ASNObjectIdentifier::new(ch.pick(&[vec![1, 2], vec![2, 5, 4, 3], vec![]]).clone()),
                            if ch.flip() { Some(ASNType::Null) } else { None },
                        );
                        layout(&a)?;
                        layout(&Name { inner: &BYTES[..ch.choose(201)] })
                    }
                }
            }
        },
    )
}

pub fn p02(t: Tier) -> Vec<Family> {
    let mut v = vec![alone()];
    v.extend(common(t, &oracle(cert_layout)));
    v
}
