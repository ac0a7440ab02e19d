//! Input spaces shared by several properties, each parametrised by an oracle.

use crate::engine::{Ch, Family, Step, Stop};
use crate::gen::*;
use std::sync::Arc;

pub type Oracle = Arc<dyn Fn(&[u8]) -> Step + Send + Sync>;

pub fn oracle(f: impl Fn(&[u8]) -> Step + Send + Sync + 'static) -> Oracle {
    Arc::new(f)
}

/// All byte strings of at most `n` octets.
pub fn bytes_upto(n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    Family::new("bytes", &format!("all byte strings of 0..={n} octets"), 0, move || {
        let o = o.clone();
        let mut buf = vec![0u8; n];
        move |ch: &mut Ch| {
            let len = ch.choose(n + 1);
            for b in buf.iter_mut().take(len) {
                *b = ch.choose(256) as u8;
            }
            ch.saw(&buf[..len]);
            o(&buf[..len])
        }
    })
}

/// All strings of at most `n` symbols over an alphabet of octets.
pub fn alphabet(name: &str, alpha: &'static [u8], n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(name, &format!("all strings of 0..={n} octets over the {} octets {:02x?}", alpha.len(), alpha), 0, move || {
        let o = o.clone();
        let mut buf = vec![0u8; n];
        move |ch: &mut Ch| {
            let len = ch.choose(n + 1);
            for b in buf.iter_mut().take(len) {
                *b = *ch.pick(alpha);
            }
            ch.saw(&buf[..len]);
            o(&buf[..len])
        }
    })
}

/// Octets that matter at DER level: supported identifiers, small and boundary lengths, values.
pub const DER_ALPHA: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x17, 0x30, 0x31, 0x7F, 0x80, 0x81, 0x82, 0xA0, 0xBF, 0xFF,
];
pub const DER_ALPHA_SMALL: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x05, 0x30, 0x81, 0xA0, 0xFF];
pub const DER_ALPHA_TINY: &[u8] = &[0x00, 0x01, 0x02, 0x04, 0x30];

/// One element with every content of at most `n` octets.
pub fn contents(name: &str, tags: &'static [u8], n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(name, &format!("identifiers {tags:02x?} with every content of 0..={n} octets"), 0, move || {
        let o = o.clone();
        let mut buf = vec![0u8; n + 2];
        move |ch: &mut Ch| {
            buf[0] = *ch.pick(tags);
            let len = ch.choose(n + 1);
            buf[1] = len as u8;
            for b in buf[2..2 + len].iter_mut() {
                *b = ch.choose(256) as u8;
            }
            ch.saw(&buf[..2 + len]);
            o(&buf[..2 + len])
        }
    })
}

/// One element, content = background with one octet changed: every size, position and value.
pub fn patterns(name: &str, tags: &'static [u8], max: usize, backgrounds: &'static [u8], o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        name,
        &format!("identifiers {tags:02x?}, every size 0..={max}, uniform backgrounds {backgrounds:02x?}, every single octet position set to every value"),
        0,
        move || {
            let o = o.clone();
            let mut buf = Vec::new();
            move |ch: &mut Ch| {
                let tag = *ch.pick(tags);
                let len = ch.choose(max + 1);
                let bg = *ch.pick(backgrounds);
                buf.clear();
                buf.push(tag);
                buf.extend(len_octets(len));
                let start = buf.len();
                buf.resize(start + len, bg);
                if len > 0 {
                    let pos = ch.choose(len);
                    buf[start + pos] = ch.choose(256) as u8;
                }
                ch.saw(&buf);
                o(&buf)
            }
        },
    )
}

/// One element of every listed size with several fillings, followed by a sibling or not.
pub fn sizes(name: &str, tags: &'static [u8], upto: usize, o: &Oracle) -> Family {
    let o = o.clone();
    let mut list: Vec<usize> = (0..=upto).collect();
    list.extend(SIZES.iter().filter(|s| **s > upto));
    let list = Arc::new(list);
    Family::new(
        name,
        &format!("identifiers {tags:02x?}, every content size 0..={upto} and boundary sizes to 70000, 5 fillings, alone / before / after a sibling"),
        0,
        move || {
            let o = o.clone();
            let list = list.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(tags);
                let n = *ch.pick(&list);
                let c = match ch.choose(5) {
                    0 => vec![0u8; n],
                    1 => vec![0xFF; n],
                    2 => fill(n, 1),
                    3 => text(n, 2),
                    _ => vec![0x01; n],
                };
                let e = tlv(tag, &c);
                let b = match ch.choose(3) {
                    0 => e,
                    1 => cat(&[&e, &[0x05, 0x00]]),
                    _ => cat(&[&[0x02, 0x01, 0x07], &e, &[0x01, 0x01, 0xFF]]),
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// One element whose content itself looks like an element.
pub fn element_contents(name: &str, tags: &'static [u8], max: usize, o: &Oracle) -> Family {
    const INNER: &[u8] = &[0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0C, 0x13, 0x17, 0x18, 0x30, 0x31, 0x80, 0xA0, 0x82, 0x24];
    let o = o.clone();
    Family::new(
        name,
        &format!(
            "identifiers {tags:02x?} holding what looks like an element of each of {} identifiers with 0..={max} octets of three fillings: exact, one octet short, one or two over, doubly wrapped, two in a row, behind a zero octet; alone or before a sibling",
            INNER.len()
        ),
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(tags);
                let inner = *ch.pick(INNER);
                let n = ch.choose(max + 1);
                let c = match ch.choose(3) {
                    0 => vec![0u8; n],
                    1 => vec![0xFF; n],
                    _ => text(n, 1),
                };
                let e = tlv(inner, &c);
                let e = match ch.choose(7) {
                    0 => e,
                    1 => e[..e.len() - 1].to_vec(),
                    2 => cat(&[&e, &[0]]),
                    3 => cat(&[&e, &[5, 0]]),
                    4 => tlv(tag, &e),
                    5 => cat(&[&e, &e]),
                    _ => cat(&[&[0], &e]),
                };
                let mut b = tlv(tag, &e);
                if ch.flip() {
                    b.extend([1, 1, 0xFF]);
                }
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

// ------------------------------------------------------------- trees

pub struct TreeMenu {
    pub leaves: Vec<Vec<u8>>,
    pub boxes: Vec<u8>,
    pub defects: Vec<Vec<u8>>,
}

pub fn tree_menu() -> TreeMenu {
    TreeMenu {
        leaves: vec![
            tlv(5, &[]),
            tlv(2, &[5]),
            tlv(6, &[0x2A, 0x03]),
            tlv(4, &[0x30, 0x00]),
        ],
        boxes: vec![0x30, 0x31, 0xA1, 0x82],
        defects: {
            let mut d = vec![vec![0x1F, 0x00], tlv(1, &[2]), vec![0x04, 0x80], vec![0x02], vec![0x30, 0x03, 0x05, 0x00]];
            d.push(tlv(2, &[]));
            d
        },
    }
}

/// A forest of at most `budget` nodes; defects at any sibling position cost a deviation.
fn forest(ch: &mut Ch, m: &TreeMenu, budget: &mut usize, out: &mut Vec<u8>) {
    loop {
        if !m.defects.is_empty() {
            let d = ch.dev(1 + m.defects.len());
            if d > 0 {
                out.extend_from_slice(&m.defects[d - 1]);
            }
        }
        if *budget == 0 {
            return;
        }
        let k = ch.choose(1 + m.leaves.len() + m.boxes.len());
        if k == 0 {
            return;
        }
        *budget -= 1;
        if k <= m.leaves.len() {
            out.extend_from_slice(&m.leaves[k - 1]);
        } else {
            let tag = m.boxes[k - 1 - m.leaves.len()];
            let mut inner = Vec::new();
            forest(ch, m, budget, &mut inner);
            put_tlv(out, tag, &inner);
        }
    }
}

pub fn trees(name: &str, m: fn() -> TreeMenu, nodes: usize, defects: u32, o: &Oracle) -> Family {
    let o = o.clone();
    let x = m();
    Family::new(
        name,
        &format!(
            "all forests of 0..={nodes} elements over {} leaf kinds and {} container kinds, with up to {defects} of {} defects at any positions",
            x.leaves.len(),
            x.boxes.len(),
            x.defects.len()
        ),
        defects,
        move || {
            let o = o.clone();
            let m = m();
            move |ch: &mut Ch| {
                let mut out = Vec::with_capacity(64);
                let mut budget = nodes;
                forest(ch, &m, &mut budget, &mut out);
                ch.saw(&out);
                o(&out)
            }
        },
    )
}

/// Chains of containers of every depth, with siblings before/after at each level.
pub fn depth_sweep(name: &str, depths: Vec<usize>, o: &Oracle) -> Family {
    let o = o.clone();
    let what = format!("chains of nested containers, {} depths up to {}, 4 container patterns, 3 cores", depths.len(), depths.iter().max().unwrap());
    Family::new(name, &what, 0, move || {
        let o = o.clone();
        let depths = depths.clone();
        move |ch: &mut Ch| {
            let d = *ch.pick(&depths);
            let pat: &[u8] = [&[0x30u8][..], &[0x31], &[0xA0, 0x30], &[0x81, 0x31, 0x30, 0xBE]][ch.choose(4)];
            let core: &[u8] = [&[][..], &[0x05, 0x00], &[0x1F]][ch.choose(3)];
            // built inside out, back to front
            let mut rev: Vec<u8> = core.iter().rev().copied().collect();
            for i in (0..d).rev() {
                let l = len_octets(rev.len());
                rev.extend(l.iter().rev());
                rev.push(pat[i % pat.len()]);
            }
            rev.reverse();
            ch.saw(&rev);
            o(&rev)
        }
    })
}

/// Many siblings at top level or in one container.
pub fn fan_sweep(name: &str, upto: usize, o: &Oracle) -> Family {
    let o = o.clone();
    let mut list: Vec<usize> = (0..=upto).collect();
    list.extend([1000, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 65537].iter().filter(|x| **x > upto));
    let what = format!("0..={upto} and selected counts up to 65537 of siblings, at top level or in a container, distinct values, ending well or with a defect");
    Family::new(name, &what, 0, move || {
        let o = o.clone();
        let list = list.clone();
        move |ch: &mut Ch| {
            let n = *ch.pick(&list);
            let kind = ch.choose(3);
            let inside = ch.choose(3);
            let tail = ch.choose(3);
            let mut b = Vec::with_capacity(n * 5);
            for i in 0..n {
                match kind {
                    0 => put_tlv(&mut b, 2, &(i as u16).to_be_bytes()),
                    1 => put_tlv(&mut b, 0x30, &[5, 0]),
                    _ => put_tlv(&mut b, 4, &[i as u8]),
                }
            }
            match tail {
                1 => b.push(0x02),
                2 => b.extend([0x01, 0x01, 0x07]),
                _ => {}
            }
            let b = match inside {
                0 => b,
                1 => tlv(0x30, &b),
                _ => cat(&[&tlv(0x31, &b), &[5, 0]]),
            };
            ch.saw(&b);
            o(&b)
        }
    })
}

// ------------------------------------------------------------- certificates

/// Both templates, up to `k` deviations anywhere: other elements, distorted sequences.
pub fn cert_wild(k: u32, o: &Oracle) -> Family {
    let o = o.clone();
    let menus = Arc::new([wild_menu(false), wild_menu(true)]);
    let per: usize = menus[1].serial.len();
    Family::new(
        "cert-deviations",
        &format!("two certificate templates, up to {k} deviations over 17 element positions (about {per} alternatives each: missing, doubled, every kind of valid element, invalid, truncated) and 7 sequences (17 header or edge distortions each)"),
        k,
        move || {
            let o = o.clone();
            let menus = menus.clone();
            let mut b = CertBuf::new();
            move |ch: &mut Ch| {
                let m = &menus[ch.choose(2)];
                build_cert(ch, m, &mut b);
                ch.saw(&b.out);
                o(&b.out)
            }
        },
    )
}

/// Certificates varied by every single-octet substitution.
pub fn cert_octets(o: &Oracle) -> Family {
    let o = o.clone();
    let certs = Arc::new(base_certs());
    Family::new(
        "cert-octets",
        "two synthetic and the four repository certificates, every octet replaced by every value",
        0,
        move || {
            let o = o.clone();
            let certs = certs.clone();
            let mut b = Vec::new();
            move |ch: &mut Ch| {
                let c = ch.pick(&certs);
                b.clear();
                b.extend_from_slice(c);
                let p = ch.choose(b.len());
                b[p] = ch.choose(256) as u8;
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// Two octets replaced at once, in the minimal certificate.
pub fn cert_octet_pairs(values: &'static [u8], o: &Oracle) -> Family {
    let o = o.clone();
    let cert = tiny_cert();
    Family::new(
        "cert-octet-pairs",
        &format!("the smallest certificate ({} octets), every pair of octets replaced by every pair of {} values", cert.len(), values.len()),
        0,
        move || {
            let o = o.clone();
            let cert = cert.clone();
            let mut b = Vec::new();
            move |ch: &mut Ch| {
                b.clear();
                b.extend_from_slice(&cert);
                let p = ch.choose(b.len());
                if p + 1 >= b.len() {
                    return Err(Stop::Prune);
                }
                let q = p + 1 + ch.choose(b.len() - p - 1);
                b[p] = *ch.pick(values);
                b[q] = *ch.pick(values);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// Truncations, extensions, deletions, insertions and duplications of octets.
pub fn cert_edits(o: &Oracle) -> Family {
    let o = o.clone();
    let certs = Arc::new(base_certs());
    Family::new(
        "cert-edits",
        "the six base certificates: every prefix, every suffix, every octet appended or prepended, every octet deleted, every octet doubled, every insertion of each of 14 octets at every place",
        0,
        move || {
            let o = o.clone();
            let certs = certs.clone();
            move |ch: &mut Ch| {
                let c = ch.pick(&certs);
                let n = c.len();
                let b = match ch.choose(7) {
                    0 => c[..ch.choose(n + 1)].to_vec(),
                    1 => c[ch.choose(n + 1)..].to_vec(),
                    2 => cat(&[c, &[ch.choose(256) as u8]]),
                    3 => cat(&[&[ch.choose(256) as u8], c]),
                    4 => {
                        let p = ch.choose(n);
                        cat(&[&c[..p], &c[p + 1..]])
                    }
                    5 => {
                        let p = ch.choose(n);
                        cat(&[&c[..=p], &c[p..]])
                    }
                    _ => {
                        let p = ch.choose(n + 1);
                        let v = *ch.pick(&[0x00u8, 0x01, 0x02, 0x05, 0x06, 0x30, 0x31, 0x7F, 0x80, 0x81, 0x82, 0xA0, 0xA3, 0xFF]);
                        cat(&[&c[..p], &[v], &c[p..]])
                    }
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// Contents of an element put among others.
const JOINED: &[&[u8]] = &[&[], &[2, 1, 2], &[0x30, 3, 2, 1, 2], &[0xFF]];

/// Every element of the base certificates replaced by every alternative, lengths adjusted, and
/// identifiers replaced by all 256 values.
pub fn cert_elements(o: &Oracle) -> Family {
    let o = o.clone();
    let certs: Vec<(Vec<u8>, Vec<(usize, usize, usize)>)> = base_certs()
        .into_iter()
        .map(|c| {
            let s = element_spans(&c);
            (c, s)
        })
        .collect();
    let certs = Arc::new(certs);
    let alts = Arc::new(alternatives(&[5, 0], &[]));
    Family::new(
        "cert-elements",
        &format!("every element at any depth of the six base certificates: replaced by each of {} alternatives, deleted, doubled, swapped with its successor, wrapped in each container, given each of the 256 identifiers, or joined before or behind by an element of each of the 256 identifiers with each of {} contents (enclosing lengths adjusted)", alts.len(), JOINED.len()),
        0,
        move || {
            let o = o.clone();
            let certs = certs.clone();
            let alts = alts.clone();
            move |ch: &mut Ch| {
                let (c, spans) = ch.pick(&certs);
                let i = ch.choose(spans.len());
                let at = spans[i];
                let me = &c[at.0..at.2];
                let b = match ch.choose(6) {
                    5 => {
                        // a stranger among its siblings
                        let behind = ch.flip();
                        let t = ch.choose(256) as u8;
                        let new = tlv(t, ch.pick(JOINED));
                        replace_element(c, at, &if behind { cat(&[me, &new]) } else { cat(&[&new, me]) })
                    }
                    0 => replace_element(c, at, ch.pick(&alts)),
                    1 => replace_element(c, at, &cat(&[me, me])),
                    2 => {
                        // swap with the following sibling
                        let Some(next) = spans.iter().find(|s| s.0 == at.2) else { return Err(Stop::Prune) };
                        let mut b = c.clone();
                        let nx = c[next.0..next.2].to_vec();
                        b.splice(at.0..next.2, cat(&[&nx, me]));
                        b
                    }
                    3 => {
                        let t = *ch.pick(&[0x30u8, 0x31, 0xA0, 0xA1, 0xA2, 0xA3, 0x04, 0x80, 0x81, 0x82, 0x83]);
                        replace_element(c, at, &tlv(t, me))
                    }
                    _ => {
                        let mut b = c.clone();
                        b[at.0] = ch.choose(256) as u8;
                        b
                    }
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}
