//! Building inputs under the explorer's control.

use crate::engine::Ch;
use crate::refder::oid_encode;
use crate::refx509::*;

pub fn len_octets(n: usize) -> Vec<u8> {
    if n < 0x80 {
        vec![n as u8]
    } else {
        let b = n.to_be_bytes();
        let b: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
        let mut v = vec![0x80 | b.len() as u8];
        v.extend(b);
        v
    }
}

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(c.len() + 6);
    v.push(tag);
    v.extend(len_octets(c.len()));
    v.extend_from_slice(c);
    v
}

pub fn put_tlv(out: &mut Vec<u8>, tag: u8, c: &[u8]) {
    out.push(tag);
    let n = c.len();
    if n < 0x80 {
        out.push(n as u8);
    } else {
        out.extend(len_octets(n));
    }
    out.extend_from_slice(c);
}

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}

pub fn set(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x31, &parts.concat())
}

pub fn oid(arcs: &[u32]) -> Vec<u8> {
    tlv(6, &oid_encode(arcs))
}

pub const TAGS: &[u8] = &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x16, 0x17, 0x18, 0x30, 0x31, 0x80, 0xA0];

pub const UTC: &[u8] = b"990102052345Z";
pub const GEN: &[u8] = b"20990102052345Z";

/// One valid content for every decodable kind.
pub fn sample(tag: u8) -> Vec<u8> {
    match tag {
        0x01 => vec![0xFF],
        0x02 => vec![0x05],
        0x03 => vec![0x00, 0xA5],
        0x04 => vec![0xDE, 0xAD],
        0x05 => vec![],
        0x06 => vec![0x2A, 0x03],
        0x0C => "\u{e9}x".as_bytes().to_vec(),
        0x13 => b"Ab".to_vec(),
        0x16 => b"c@d".to_vec(),
        0x17 => UTC.to_vec(),
        0x18 => GEN.to_vec(),
        _ => vec![],
    }
}

/// Valid elements of every kind.
pub fn good_elements() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = TAGS.iter().map(|t| tlv(*t, &sample(*t))).collect();
    v.push(tlv(0x01, &[0]));
    v.push(tlv(0x02, &[0]));
    v.push(tlv(0x02, &[1]));
    v.push(tlv(0x02, &[2]));
    v.push(tlv(0x02, &[0xFF]));
    v.push(tlv(0x02, &[1, 2, 3, 4, 5]));
    v.push(tlv(0x03, &[0]));
    v.push(tlv(0x03, &[3, 0xF8]));
    v.push(tlv(0x04, &[]));
    v.push(tlv(0x0C, &[]));
    v.push(seq(&[&tlv(5, &[])]));
    v.push(set(&[&tlv(5, &[])]));
    for t in [0xA1u8, 0xA2, 0xA3, 0xA4, 0x81, 0x82, 0x83, 0xBE] {
        v.push(tlv(t, &tlv(2, &[1])));
    }
    v.push(tlv(0xA3, &seq(&[])));
    v.push(tlv(0x81, &[0, 0x5A]));
    v.push(tlv(0x82, &[0, 0x5B]));
    v.push(tlv(0xA0, &tlv(2, &[0])));
    v.push(tlv(0xA0, &tlv(2, &[1])));
    v.push(tlv(0xA0, &tlv(2, &[2])));
    v
}

/// Elements that must be rejected wherever they are read.
pub fn bad_elements() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    // unsupported identifiers
    for id in [0x00u8, 0x07, 0x0A, 0x10, 0x11, 0x14, 0x1E, 0x1F, 0x22, 0x24, 0x25, 0x40, 0x61, 0xC0, 0xE0, 0xFF] {
        v.push(tlv(id, &[]));
    }
    v.push(vec![0x9F, 0x01, 0x00]);
    v.push(vec![0xBF, 0x01, 0x00]);
    v.push(vec![0xBF, 0x03, 0x02, 0x05, 0x00]);
    // bad contents
    v.push(tlv(1, &[]));
    v.push(tlv(1, &[1]));
    v.push(tlv(1, &[0, 0]));
    v.push(tlv(2, &[]));
    v.push(tlv(3, &[]));
    v.push(tlv(3, &[8, 0]));
    v.push(tlv(3, &[7]));
    v.push(tlv(5, &[0]));
    v.push(tlv(6, &[]));
    v.push(tlv(6, &[0x2A, 0x81]));
    v.push(tlv(6, &[0x2A, 0x81, 0x81, 0x81, 0x81, 0x01]));
    v.push(tlv(0x0C, &[0xC3]));
    v.push(tlv(0x13, &[0xFF]));
    v.push(tlv(0x16, &[0x80]));
    v.push(tlv(0x17, b"991302052345Z"));
    v.push(tlv(0x17, b"990102052345"));
    v.push(tlv(0x17, b"990102052345ZZ"));
    v.push(tlv(0x18, b"19690102052345Z"));
    v.push(tlv(0x18, UTC));
    // bad lengths
    v.push(vec![0x04, 0x80, 0x00, 0x00]);
    v.push(vec![0x04, 0xFF]);
    v.push(vec![0x04, 0x81, 0x01, 0xAA]);
    v.push(vec![0x04, 0x82, 0x00, 0x01, 0xAA]);
    v.push(vec![0x04, 0x85, 0, 0, 0, 0, 1, 0xAA]);
    v
}

/// Incomplete elements (only rejected when nothing follows).
pub fn cut_elements() -> Vec<Vec<u8>> {
    vec![
        vec![0x02],
        vec![0x30],
        vec![0x02, 0x05, 0x01],
        vec![0x30, 0x81],
        vec![0x30, 0x82, 0x01],
        vec![0x04, 0x84, 0xFF, 0xFF, 0xFF, 0xFF],
        vec![0x31, 0x7F],
        vec![0xA3, 0x02, 0x30],
    ]
}

/// Alternatives for one element position; the first is the default.
pub fn alternatives(default: &[u8], extra: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![default.to_vec(), vec![]];
    v.extend(extra.iter().cloned());
    v.push(cat(&[default, default]));
    v.push(cat(&[default, &tlv(5, &[])]));
    v.push(cat(&[&tlv(5, &[]), default]));
    v.extend(good_elements());
    v.extend(bad_elements());
    v.extend(cut_elements());
    let mut out: Vec<Vec<u8>> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// Wraps `body` in a constructed (or other) element; deviations distort header or edges.
pub fn wrap(ch: &mut Ch, out: &mut Vec<u8>, tag: u8, body: &[u8]) {
    match ch.dev(18) {
        0 => put_tlv(out, tag, body),
        1 => put_tlv(out, tag ^ 0x20, body),
        2 => put_tlv(out, tag ^ 0x01, body),
        3 => {
            out.push(tag);
            out.extend(len_octets(body.len() + 1));
            out.extend_from_slice(body);
        }
        4 => {
            out.push(tag);
            out.extend(len_octets(body.len().saturating_sub(1)));
            out.extend_from_slice(body);
        }
        5 => {
            // padded length
            out.push(tag);
            let l = len_octets(body.len());
            if l.len() == 1 {
                out.extend([0x81, l[0]]);
            } else {
                out.push(l[0] + 1);
                out.push(0);
                out.extend(&l[1..]);
            }
            out.extend_from_slice(body);
        }
        6 => {
            out.extend([tag, 0x80]);
            out.extend_from_slice(body);
            out.extend([0, 0]);
        }
        7 => {
            out.extend([tag, 0x85, 0]);
            out.extend((body.len() as u32).to_be_bytes());
            out.extend_from_slice(body);
        }
        8 => put_tlv(out, tag, &cat(&[body, &[5, 0]])),
        9 => put_tlv(out, tag, &cat(&[body, &[0]])),
        10 => put_tlv(out, tag, &body[..body.len().saturating_sub(1)]),
        11 => put_tlv(out, tag, &[]),
        12 => {
            out.extend([tag, 0xFF]);
            out.extend_from_slice(body);
        }
        13 => put_tlv(out, tag, &cat(&[&[5, 0], body])),
        14 => {
            put_tlv(out, tag, body);
            put_tlv(out, tag, body);
        }
        15 => {}
        16 => put_tlv(out, tag, &cat(&[body, &[0x30]])),
        17 => put_tlv(out, tag, &cat(&[body, &[0x02, 0x05, 0x01]])),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------- certificates

/// The parts of a certificate; `slots` are the element positions that can deviate.
pub struct CertMenu {
    pub version: Vec<Vec<u8>>,
    pub serial: Vec<Vec<u8>>,
    pub oid: Vec<Vec<u8>>,
    pub params: Vec<Vec<u8>>,
    pub issuer: Vec<Vec<u8>>,
    pub subject: Vec<Vec<u8>>,
    pub nb: Vec<Vec<u8>>,
    pub na: Vec<Vec<u8>>,
    pub key_oid: Vec<Vec<u8>>,
    pub key_params: Vec<Vec<u8>>,
    pub key: Vec<Vec<u8>>,
    pub iuid: Vec<Vec<u8>>,
    pub suid: Vec<Vec<u8>>,
    pub ext: Vec<Vec<u8>>,
    pub out_oid: Vec<Vec<u8>>,
    pub out_params: Vec<Vec<u8>>,
    pub sig: Vec<Vec<u8>>,
    /// deviate the sequences' headers and edges as well
    pub wraps: bool,
}

pub fn rdn(arc: u32, tag: u8, text: &[u8]) -> Vec<u8> {
    set(&[&seq(&[&oid(&[2, 5, 4, arc]), &tlv(tag, text)])])
}

pub fn name_of(cn: &[u8]) -> Vec<u8> {
    seq(&[&rdn(6, 0x13, b"DE"), &rdn(10, 0x0C, b"Acme"), &rdn(3, 0x0C, cn)])
}

pub fn ext_of(arcs: &[u32], critical: Option<u8>, content: &[u8]) -> Vec<u8> {
    let mut b = oid(arcs);
    if let Some(c) = critical {
        b.extend(tlv(1, &[c]));
    }
    b.extend(tlv(4, content));
    tlv(0x30, &b)
}

/// A list with one extension of each supported kind and an unknown one.
pub fn all_extensions() -> Vec<u8> {
    use crate::refx509::*;
    seq(&[
        &ext_of(OID_SKI, None, &tlv(4, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20])),
        &ext_of(OID_KU, Some(0xFF), &tlv(3, &[5, 0xA0])),
        &ext_of(
            OID_SAN,
            None,
            &seq(&[
                &tlv(0x82, b"example.org"),
                &tlv(0x81, b"a@b.c"),
                &tlv(0x86, b"http://x/"),
                &tlv(0x87, &[127, 0, 0, 1]),
                &tlv(0x88, &[0x2A, 0x03, 0x04]),
            ]),
        ),
        &ext_of(OID_BC, Some(0xFF), &seq(&[&tlv(1, &[0xFF]), &tlv(2, &[3])])),
        &ext_of(
            OID_EKU,
            None,
            &seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 1]), &oid(&[1, 3, 6, 1, 5, 5, 7, 3, 9])]),
        ),
        &ext_of(OID_ROLE, None, &tlv(0x0C, b"Operator")),
        &ext_of(&[1, 2, 3, 4], None, &[0xCA, 0xFE]),
    ])
}

fn one(x: Vec<u8>) -> Vec<Vec<u8>> {
    vec![x]
}

/// Default-only menu: minimal v1 certificate (`full` = false) or v3 with everything.
pub fn plain_menu(full: bool) -> CertMenu {
    CertMenu {
        version: one(if full { tlv(0xA0, &tlv(2, &[2])) } else { vec![] }),
        serial: one(tlv(2, &[0x11, 0x22])),
        oid: one(oid(&[1, 2, 840, 113549, 1, 1, 5])),
        params: one(tlv(5, &[])),
        issuer: one(name_of(b"Issuer")),
        subject: one(name_of(b"Subject")),
        nb: one(tlv(0x17, b"120822052654Z")),
        na: one(tlv(0x18, b"20510821052655Z")),
        key_oid: one(oid(&[1, 2, 840, 113549, 1, 1, 1])),
        key_params: one(tlv(5, &[])),
        key: one(tlv(3, &[0, 1, 2, 3])),
        iuid: one(if full { tlv(0x81, &[0, 0x11]) } else { vec![] }),
        suid: one(if full { tlv(0x82, &[4, 0x20]) } else { vec![] }),
        ext: one(if full { tlv(0xA3, &all_extensions()) } else { vec![] }),
        out_oid: one(oid(&[1, 3, 101, 112])),
        out_params: one(vec![]),
        sig: one(tlv(3, &[0, 9, 8, 7, 6])),
        wraps: false,
    }
}

/// Every element position may take any alternative, every sequence may be distorted.
pub fn wild_menu(full: bool) -> CertMenu {
    let p = plain_menu(full);
    let a = |v: &Vec<Vec<u8>>, extra: &[Vec<u8>]| alternatives(&v[0], extra);
    let vers: Vec<Vec<u8>> = [0u8, 1, 2, 3, 0xFF].iter().map(|v| tlv(0xA0, &tlv(2, &[*v]))).collect();
    CertMenu {
        version: a(&p.version, &vers),
        serial: a(&p.serial, &[]),
        oid: a(&p.oid, &[]),
        params: a(&p.params, &[]),
        issuer: a(&p.issuer, &[]),
        subject: a(&p.subject, &[]),
        nb: a(&p.nb, &[]),
        na: a(&p.na, &[]),
        key_oid: a(&p.key_oid, &[]),
        key_params: a(&p.key_params, &[]),
        key: a(&p.key, &[]),
        iuid: a(&p.iuid, &[tlv(0x81, &[0, 1]), tlv(0xA1, &[0, 1]), tlv(0x81, &[])]),
        suid: a(&p.suid, &[tlv(0x82, &[0, 1]), tlv(0xA2, &[0, 1]), tlv(0x82, &[])]),
        ext: a(&p.ext, &[tlv(0xA3, &seq(&[])), tlv(0x83, &seq(&[])), tlv(0xA3, &[])]),
        out_oid: a(&p.out_oid, &[]),
        out_params: a(&p.out_params, &[]),
        sig: a(&p.sig, &[]),
        wraps: true,
    }
}

/// Where the pieces of the last built certificate went.
pub struct CertBuf {
    pub out: Vec<u8>,
    tbs: Vec<u8>,
    tmp: Vec<u8>,
    body: Vec<u8>,
}

impl CertBuf {
    pub fn new() -> Self {
        CertBuf { out: Vec::new(), tbs: Vec::new(), tmp: Vec::new(), body: Vec::new() }
    }
}

fn put_wrapped(ch: &mut Ch, wraps: bool, out: &mut Vec<u8>, tag: u8, body: &[u8]) {
    if wraps {
        wrap(ch, out, tag, body)
    } else {
        put_tlv(out, tag, body)
    }
}

/// Builds a certificate, each part by one deviation point.
pub fn build_cert(ch: &mut Ch, m: &CertMenu, b: &mut CertBuf) {
    let w = m.wraps;
    b.tbs.clear();
    b.tbs.extend_from_slice(ch.vary(&m.version));
    b.tbs.extend_from_slice(ch.vary(&m.serial));
    b.tmp.clear();
    b.tmp.extend_from_slice(ch.vary(&m.oid));
    b.tmp.extend_from_slice(ch.vary(&m.params));
    put_wrapped(ch, w, &mut b.tbs, 0x30, &b.tmp);
    b.tbs.extend_from_slice(ch.vary(&m.issuer));
    b.tmp.clear();
    b.tmp.extend_from_slice(ch.vary(&m.nb));
    b.tmp.extend_from_slice(ch.vary(&m.na));
    put_wrapped(ch, w, &mut b.tbs, 0x30, &b.tmp);
    b.tbs.extend_from_slice(ch.vary(&m.subject));
    b.tmp.clear();
    b.tmp.extend_from_slice(ch.vary(&m.key_oid));
    b.tmp.extend_from_slice(ch.vary(&m.key_params));
    b.body.clear();
    put_wrapped(ch, w, &mut b.body, 0x30, &b.tmp);
    b.body.extend_from_slice(ch.vary(&m.key));
    put_wrapped(ch, w, &mut b.tbs, 0x30, &b.body);
    b.tbs.extend_from_slice(ch.vary(&m.iuid));
    b.tbs.extend_from_slice(ch.vary(&m.suid));
    b.tbs.extend_from_slice(ch.vary(&m.ext));
    b.body.clear();
    put_wrapped(ch, w, &mut b.body, 0x30, &b.tbs);
    b.tmp.clear();
    b.tmp.extend_from_slice(ch.vary(&m.out_oid));
    b.tmp.extend_from_slice(ch.vary(&m.out_params));
    put_wrapped(ch, w, &mut b.body, 0x30, &b.tmp);
    b.body.extend_from_slice(ch.vary(&m.sig));
    b.out.clear();
    put_wrapped(ch, w, &mut b.out, 0x30, &b.body);
}

/// A certificate with the given extensions tag content.
pub fn cert_with_ext(raw: &[u8]) -> Vec<u8> {
    let mut m = plain_menu(true);
    m.ext = one(tlv(0xA3, raw));
    let mut ch = Ch::new(0);
    let mut b = CertBuf::new();
    build_cert(&mut ch, &m, &mut b);
    b.out
}

pub fn plain_cert(full: bool) -> Vec<u8> {
    let mut b = CertBuf::new();
    build_cert(&mut Ch::new(0), &plain_menu(full), &mut b);
    b.out
}

/// Element sizes around every representation boundary.
pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 47, 48, 63, 64, 65, 100, 112, 119, 126, 127, 128, 129, 130, 191,
    200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535,
    65536, 65537, 70000,
];

pub fn fill(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u32).wrapping_mul(167).wrapping_add(salt as u32 * 31 + 7) as u8).collect()
}

pub fn text(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i as u32 * 7 + salt as u32) % 26) as u8).collect()
}

// ------------------------------------------------------------- base documents

pub const REAL_CERTS: &[(&str, &[u8])] = &[
    ("512b-rsa", include_bytes!("/repo/certs/512b-rsa-example-cert.der")),
    ("generalized-time", include_bytes!("/repo/certs/cert_with_generalized_time.der")),
    ("ed25519", include_bytes!("/repo/certs/ed25519-example-cert.der")),
    ("google-root", include_bytes!("/repo/certs/google_root_cert.cer")),
];

pub fn base_certs() -> Vec<Vec<u8>> {
    let mut v = vec![plain_cert(false), plain_cert(true)];
    v.extend(REAL_CERTS.iter().map(|(_, c)| c.to_vec()));
    v
}

/// The smallest certificate.
pub fn tiny_cert() -> Vec<u8> {
    let alg = seq(&[&tlv(6, &[0x2A])]);
    let name = seq(&[]);
    let t = tlv(0x17, b"700101000000Z");
    let tbs = seq(&[
        &tlv(2, &[1]),
        &alg,
        &name,
        &seq(&[&t, &t]),
        &name,
        &seq(&[&alg, &tlv(3, &[0])]),
    ]);
    seq(&[&tbs, &alg, &tlv(3, &[0])])
}

// ------------------------------------------------------------- pieces of names and extensions

/// Items of each kind of list: well-formed first, then defects.
pub fn list_items(kind: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = match kind {
        0 => vec![
            ext_of(OID_KU, None, &tlv(3, &[7, 0x80])),
            ext_of(&[1, 2, 3], Some(0xFF), b"raw"),
            ext_of(OID_SKI, None, &tlv(4, &[9])),
            ext_of(OID_BC, Some(0), &seq(&[])),
            // defective inside
            ext_of(OID_KU, None, &tlv(3, &[])),
            ext_of(OID_SKI, None, &cat(&[&tlv(4, &[9]), &[5, 0]])),
            ext_of(OID_EKU, None, &cat(&[&seq(&[])[..1], &[3, 6, 1]])),
            ext_of(OID_SAN, None, &seq(&[&tlv(0x82, b"a"), &[0x82]])),
            seq(&[&oid(&[1, 2, 3])]),
            seq(&[&oid(&[1, 2, 3]), &tlv(4, &[]), &tlv(4, &[])]),
        ],
        1 => vec![
            tlv(0x81, b"a@b"),
            tlv(0x82, b"host"),
            tlv(0x86, b"u:r"),
            tlv(0x87, &[1, 2, 3, 4]),
            tlv(0x88, &[0x2A, 0x03]),
            tlv(0x82, &[]),
            tlv(0x82, &[0xFF]),
            tlv(0x88, &[0x2A, 0x83]),
            tlv(0x80, b"o"),
            tlv(0xA4, &seq(&[])),
        ],
        2 => vec![
            oid(&[1, 3, 6, 1, 5, 5, 7, 3, 1]),
            oid(&[1, 3, 6, 1, 5, 5, 7, 3, 2]),
            oid(&[1, 3, 6, 1, 5, 5, 7, 3, 9]),
            oid(&[1, 3, 6, 1, 5, 5, 7, 3, 5]),
            oid(&[2, 5, 29, 37, 0]),
            tlv(6, &[]),
            tlv(6, &[0x2B, 0x86]),
        ],
        3 => vec![
            rdn(3, 0x0C, b"cn"),
            rdn(6, 0x13, b"DE"),
            rdn(99, 0x0C, b"other"),
            set(&[&seq(&[&oid(&[2, 5, 4, 10]), &tlv(0x0C, b"o")]), &seq(&[&oid(&[2, 5, 4, 11]), &tlv(0x16, b"ou")])]),
            set(&[]),
            set(&[&seq(&[&oid(&[2, 5, 4, 8]), &tlv(0x0C, b"st")]), &[0x30]]),
            set(&[&seq(&[&oid(&[2, 5, 4, 8]), &tlv(0x0C, b"st")]), &[0x30, 5, 6]]),
            set(&[&seq(&[&oid(&[2, 5, 4, 8]), &tlv(0x0C, b"st"), &[5, 0]])]),
            set(&[&seq(&[&oid(&[2, 5, 4, 8])])]),
            set(&[&tlv(5, &[])]),
        ],
        _ => vec![
            seq(&[&oid(&[2, 5, 4, 3]), &tlv(0x0C, b"cn")]),
            seq(&[&oid(&[2, 5, 4, 7]), &tlv(0x13, b"loc")]),
            seq(&[&oid(&[2, 5, 4, 99]), &tlv(0x02, &[1])]),
            seq(&[&oid(&[2, 5, 4, 11]), &tlv(0x02, &[1])]),
            seq(&[&oid(&[2, 5, 4, 11])]),
            seq(&[&oid(&[2, 5, 4, 11]), &tlv(0x0C, b"x"), &[0x05]]),
        ],
    };
    v.extend([tlv(5, &[]), tlv(0x30, &[]), tlv(0x31, &[]), tlv(2, &[1]), tlv(0x1F, &[]), vec![0x00], vec![0x01, 0x01, 0x05], vec![0x04, 0x80]]);
    v.extend(cut_elements());
    v.extend([vec![0x06, 0x05, 0x2B], vec![0x82, 0x02, b'a'], vec![0x30, 0x03, 0x06, 0x01], vec![0x31, 0x04, 0x30, 0x02, 0x06]]);
    v
}

pub fn ava(arcs: &[u32], value: &[u8]) -> Vec<u8> {
    seq(&[&oid(arcs), value])
}

pub fn ext_body(id: &[u32], content: &[u8]) -> Vec<u8> {
    cat(&[&oid(id), &tlv(4, content)])
}

/// Valid contents of each supported extension.
pub fn content_goods() -> Vec<(&'static [u32], Vec<Vec<u8>>)> {
    vec![
        (OID_SKI, vec![tlv(4, &[1, 2, 3, 4])]),
        (OID_KU, vec![tlv(3, &[1, 0x86]), tlv(3, &[7, 0xFF, 0x80]), tlv(3, &[0])]),
        (OID_SAN, vec![seq(&[&tlv(0x82, b"a.b"), &tlv(0x81, b"c@d"), &tlv(0x87, &[1, 2, 3, 4]), &tlv(0x88, &[0x2A, 3])])]),
        (OID_BC, vec![seq(&[&tlv(1, &[0xFF]), &tlv(2, &[1])]), seq(&[&tlv(2, &[1, 2, 3, 4])]), seq(&[])]),
        (OID_EKU, vec![seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 3]), &oid(&[1, 3, 6, 1, 5, 5, 7, 3, 9])])]),
        (OID_ROLE, vec![tlv(0x0C, b"Op\xc3\xa9")]),
    ]
}

/// All positions of all elements of a DER document, containers first.
pub fn element_spans(b: &[u8]) -> Vec<(usize, usize, usize)> {
    // (start, content start, end), depth first
    let mut out = vec![];
    let mut todo = vec![(0usize, b.len())];
    while let Some((mut p, end)) = todo.pop() {
        while p < end {
            let Ok((v, used)) = crate::refder::element(&b[p..end]) else { break };
            let (_, lo) = crate::refder::length(&b[p + 1..]).unwrap();
            out.push((p, p + 1 + lo, p + used));
            if v.inside().is_some() {
                todo.push((p + 1 + lo, p + used));
            }
            p += used;
        }
    }
    out.sort();
    out
}

/// Rebuilds `b` with the element at `at` replaced, enclosing lengths adjusted.
pub fn replace_element(b: &[u8], at: (usize, usize, usize), new: &[u8]) -> Vec<u8> {
    fn go(b: &[u8], base: usize, at: (usize, usize, usize), new: &[u8], out: &mut Vec<u8>) {
        let mut p = 0;
        while p < b.len() {
            let (v, used) = crate::refder::element(&b[p..]).expect("base documents are well formed");
            let (s, e) = (base + p, base + p + used);
            if (s, e) == (at.0, at.2) {
                out.extend_from_slice(new);
            } else if s <= at.0 && at.2 <= e {
                let (_, lo) = crate::refder::length(&b[p + 1..]).unwrap();
                let mut inner = vec![];
                if v.inside().is_some() {
                    go(&b[p + 1 + lo..p + used], base + p + 1 + lo, at, new, &mut inner);
                }
                put_tlv(out, b[p], &inner);
            } else {
                out.extend_from_slice(&b[p..p + used]);
            }
            p += used;
        }
    }
    let mut out = vec![];
    go(b, 0, at, new, &mut out);
    out
}

/// Object identifiers one small step away from `k`, `k` itself included: each arc
/// changed by a little, by any power of two or in any one bit; arcs left out,
/// doubled, swapped, turned round or put before, between or behind.
pub fn neighbours(k: &[u32]) -> Vec<Vec<u32>> {
    let mut v = vec![k.to_vec()];
    for i in 0..k.len() {
        let mut put = |x: i64| {
            let mut m = k.to_vec();
            if let Ok(x) = u32::try_from(x) {
                m[i] = x;
                v.push(m);
            }
        };
        for d in [-40i64, -3, -2, -1, 1, 2, 3, 40, 80, 100, 1000, 10000, 65535] {
            put(k[i] as i64 + d);
        }
        for bit in 0..28 {
            put(k[i] as i64 ^ (1 << bit));
            put(k[i] as i64 + (1 << bit));
        }
        put(0);
        put(268435455);
    }
    for i in 0..k.len() {
        let mut m = k.to_vec();
        m.remove(i);
        v.push(m);
        let mut m = k.to_vec();
        m.insert(i, k[i]);
        v.push(m);
        if i + 1 < k.len() {
            let mut m = k.to_vec();
            m.swap(i, i + 1);
            v.push(m);
        }
        for x in [0, 1, 127, 128] {
            let mut m = k.to_vec();
            m.insert(i + 1, x);
            v.push(m);
        }
        v.push(k[..=i].to_vec());
    }
    v.push(k.iter().rev().copied().collect());
    for head in [&[0u32][..], &[1], &[2], &[0, 0], &[1, 3], &[2, 16], &[2, 100, 3], k] {
        v.push([head, k].concat());
    }
    for tail in [&[0u32, 0][..], &[1, 1], &[268435455], &[2, 5, 29, 15]] {
        v.push([k, tail].concat());
    }
    // those that have an encoding within four octets per subidentifier
    v.retain(|m| {
        m.len() >= 2
            && m[0] <= 2
            && (m[0] == 2 || m[1] < 40)
            && m[1] <= 268435455 - 80
            && m.iter().all(|x| *x <= 268435455)
    });
    v.sort();
    v.dedup();
    v
}
