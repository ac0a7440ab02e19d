//! D02..D11: the element walk and the values of single elements.

use super::common::*;
use super::Tier;
use crate::engine::{bad, Ch, Family, Stop};
use crate::gen::*;
use crate::refder::*;
use crate::sut::*;
use rx509::der::{ASNInteger, ASNObjectIdentifier, ASNType, Identifier, ObjectIdentifier, PC, TagClass};
use std::sync::Arc;

type Extra = fn(&ASNType, &Val) -> Chk;

fn walk_oracle(look: Look, extra: Extra) -> Oracle {
    oracle(move |b| {
        let mut w = Walk::new(b);
        let r = walk(b, &mut w, look, &mut |a, v| extra(a, v))?;
        Ok(walk_class(&r))
    })
}

fn nothing(_: &ASNType, _: &Val) -> Chk {
    Ok(())
}

fn structure(look: Look, t: Tier) -> Vec<Family> {
    let o = walk_oracle(look, nothing);
    let depths: Vec<usize> = (0..=300).chain([400, 511, 512, 513, 1000, 1023, 1024, 1025, 2000]).collect();
    let mut v = vec![
        bytes_upto(3, &o),
        alphabet("alphabet", DER_ALPHA, t.pick(5, 6), &o),
        alphabet("alphabet-small", DER_ALPHA_SMALL, t.pick(7, 8), &o),
        alphabet("alphabet-tiny", DER_ALPHA_TINY, t.pick(9, 11), &o),
        trees("trees", tree_menu, t.pick(4, 5), t.pick(1, 2), &o),
        trees("trees-deep", deep_menu, t.pick(6, 8), 1, &o),
        depth_sweep("depths", depths, &o),
        fan_sweep("siblings", t.pick(300, 2000), &o),
        sizes("sizes", TAGS, t.pick(200, 600), &o),
        contents("contents", TAGS, 2, &o),
        element_contents("element-contents", TAGS, t.pick(20, 300), &o),
        cert_elements(&o),
        cert_edits(&o),
        cert_octets(&o),
        super::more::marked(&o),
    ];
    if t == Tier::Thorough {
        v.push(patterns("patterns", TAGS, 140, &[0x00, 0x30, 0x61], &o));
        v.push(cert_octet_pairs(&[0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x30, 0x31, 0x7F, 0x80, 0x81, 0xA0, 0xFF], &o));
    }
    v
}

fn deep_menu() -> TreeMenu {
    TreeMenu { leaves: vec![tlv(5, &[])], boxes: vec![0x30, 0x31, 0xA3], defects: vec![vec![0x24, 0x00], vec![0x05]] }
}

pub fn d02(t: Tier) -> Vec<Family> {
    structure(Look::Content, t)
}

pub fn d04(t: Tier) -> Vec<Family> {
    structure(Look::Kinds, t)
}

// ------------------------------------------------------------- lengths

fn length_forms(t: Tier) -> Family {
    let max: usize = t.pick(1 << 17, (1 << 24) + 300);
    lengths("every-length", format!("length 0..={max}"), max, move |ch| {
        // two choices keep the trees balanced
        let hi = ch.choose(max / 512 + 1);
        hi * 512 + ch.choose(512)
    })
}

/// Lengths past those of `length_forms`, with their contents there.
fn long_lengths(t: Tier) -> Family {
    let d = t.pick(2, 5);
    let mut all: Vec<usize> = Vec::new();
    let top = t.pick(26, 28);
    for p in 17..=top {
        for mid in [1usize << p, 3 << (p - 1), (1 << p) + 0x1234] {
            all.extend(mid - d..=mid + d);
        }
    }
    all.retain(|n| *n <= (1 << top) + 300);
    let what = format!("length of {} between 2^17 and 2^{top} + {d} (each power of two, the middle between two and another, and {d} either side)", all.len());
    lengths("long-lengths", what, (1 << top) + 300, move |ch| *ch.pick(&all))
}

/// Octet strings of the lengths that `pick` gives, in every length form, over one shared zeroed
/// buffer.
fn lengths(name: &str, what: String, max: usize, pick: impl Fn(&mut Ch) -> usize + Clone + Send + Sync + 'static) -> Family {
    let o = walk_oracle(Look::Content, nothing);
    Family::new(
        name,
        &format!("octet string of every {what}: shortest form and every padded form up to five length octets; one octet short, exact, or with a sibling after it; alone or in an exactly fitting sequence"),
        0,
        move || {
            let o = o.clone();
            let pick = pick.clone();
            let base = 32;
            let mut buf = vec![0u8; base + max + 8];
            move |ch: &mut Ch| {
                let n = pick(ch);
                if n > max {
                    return Err(Stop::Prune);
                }
                let k = ch.choose(6); // length octets after the first
                let short = len_octets(n);
                let need = if n < 128 { 0 } else { short.len() - 1 };
                if k < need {
                    return Err(Stop::Prune);
                }
                let mut h = vec![0x04u8];
                if k == 0 {
                    h.push(n as u8);
                } else {
                    h.push(0x80 | k as u8);
                    let be = (n as u64).to_be_bytes();
                    h.extend(&be[8 - k..]);
                }
                let rest = ch.choose(3);
                let nested = ch.flip();
                let start = base - h.len();
                buf[start..base].copy_from_slice(&h);
                let mut end = base + n;
                match rest {
                    0 => {
                        if n == 0 {
                            return Err(Stop::Prune);
                        }
                        end -= 1;
                    }
                    1 => {}
                    _ => {
                        buf[end..end + 2].copy_from_slice(&[5, 0]);
                        end += 2;
                    }
                }
                let mut s = start;
                if nested {
                    let l = len_octets(end - start);
                    s = start - l.len() - 1;
                    buf[s] = 0x30;
                    buf[s + 1..start].copy_from_slice(&l);
                }
                ch.saw(&buf[s..end.min(s + 40)]);
                ch.note(|| format!("length {n}, {} octets in all", end - s));
                let r = o(&buf[s..end]);
                if rest == 2 {
                    buf[base + n..base + n + 2].fill(0);
                }
                r
            }
        },
    )
}

fn length_heads(o: &Oracle) -> Family {
    let o = o.clone();
    const TAIL: &[u8] = &[0, 1, 2, 5, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
    Family::new(
        "length-heads",
        "six identifiers, every first length octet, up to five following octets each of nine values, then up to 300 octets",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let mut b = vec![*ch.pick(&[0x04u8, 0x30, 0xA1, 0x02, 0x80, 0x0C])];
                let first = ch.choose(256) as u8;
                b.push(first);
                let k = (first & 0x7F) as usize;
                if first >= 0x80 {
                    for _ in 0..k.min(4) {
                        b.push(*ch.pick(TAIL));
                    }
                    if k > 4 {
                        // more octets than allowed: fill up with zeros then a small length
                        b.extend(std::iter::repeat(0).take(k - 4));
                    }
                }
                let after = *ch.pick(&[0usize, 1, 2, 3, 127, 128, 129, 255, 256, 257, 300]);
                b.extend(std::iter::repeat(1).take(after));
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn length_bounds(max: usize, o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "container-bounds",
        &format!("container of every content size 0..={max} holding an element that claims every length 0..={max}+6 in shortest and padded form, five container kinds, one or two levels, with and without octets after the container"),
        0,
        move || {
            let o = o.clone();
            let mut inner = Vec::new();
            let mut b = Vec::new();
            move |ch: &mut Ch| {
                let a = ch.choose(max + 1);
                let claim = ch.choose(max + 7);
                let form = ch.choose(2);
                let tag = *ch.pick(&[0x30u8, 0x31, 0xA0, 0x9E]);
                let deep = ch.choose(2);
                let itag = *ch.pick(&[0x04u8, 0x30]);
                let after = ch.flip();
                inner.clear();
                inner.push(itag);
                let l = len_octets(claim);
                if form == 0 {
                    inner.extend(&l);
                } else if l.len() == 1 {
                    inner.extend([0x81, l[0]]);
                } else {
                    inner.push(l[0] + 1);
                    inner.push(0);
                    inner.extend(&l[1..]);
                }
                inner.resize(a.max(inner.len()), 0);
                inner.truncate(a);
                if itag == 0x30 {
                    // fill with nulls so that a walk inside can go on
                    let h = 1 + l.len();
                    if form == 0 && a > h {
                        for (i, x) in inner[h..].iter_mut().enumerate() {
                            *x = if i % 2 == 0 { 5 } else { 0 };
                        }
                    }
                }
                b.clear();
                put_tlv(&mut b, tag, &inner);
                if after {
                    b.extend([5, 0, 5, 0, 5, 0, 5, 0]);
                }
                if deep == 1 {
                    let x = std::mem::take(&mut b);
                    put_tlv(&mut b, 0x30, &x);
                    if after {
                        b.extend([5, 0]);
                    }
                }
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn huge_claims(o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "huge-claims",
        "claims around every power of two to 2^32 (each -2..=+2), in 1..=8 length octets, three identifiers, alone or nested, with 0..=3 octets of content",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let p = ch.choose(33);
                let d = ch.choose(5) as i64 - 2;
                let v = (1i64 << p) + d;
                if v < 0 {
                    return Err(Stop::Prune);
                }
                let k = 1 + ch.choose(8);
                let be = (v as u64).to_be_bytes();
                if be[..8 - k].iter().any(|x| *x != 0) {
                    return Err(Stop::Prune);
                }
                let tag = *ch.pick(&[0x04u8, 0x30, 0x80]);
                let mut b = vec![tag, 0x80 | k as u8];
                b.extend(&be[8 - k..]);
                b.extend(std::iter::repeat(5).take(ch.choose(4)));
                if ch.flip() {
                    b = cat(&[&tlv(0x31, &b), &[5, 0, 5, 0]]);
                }
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

pub fn d03(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Content, nothing);
    let mut v = vec![
        length_forms(t),
        long_lengths(t),
        length_heads(&o),
        length_bounds(t.pick(140, 300), &o),
        huge_claims(&o),
        alphabet("alphabet", DER_ALPHA, t.pick(5, 6), &o),
        sizes("sizes", TAGS, t.pick(300, 1200), &o),
        cert_edits(&o),
    ];
    if t == Tier::Thorough {
        v.push(cert_octets(&o));
        v.push(bytes_upto(3, &o));
    }
    v
}

// ------------------------------------------------------------- single values

const PLAIN: &[u8] = &[1, 2, 4, 5];

fn in_containers(name: &str, els: Vec<Vec<u8>>, o: &Oracle) -> Family {
    let o = o.clone();
    let els = Arc::new(els);
    Family::new(
        name,
        &format!("each of {} elements at top level, after a sibling, and inside sequence, set, context tag and two levels", els.len()),
        0,
        move || {
            let o = o.clone();
            let els = els.clone();
            move |ch: &mut Ch| {
                let e = ch.pick(&els).clone();
                let b = match ch.choose(7) {
                    0 => e,
                    1 => cat(&[&[2, 1, 9], &e]),
                    2 => cat(&[&e, &[1, 1, 0]]),
                    3 => tlv(0x30, &e),
                    4 => tlv(0x31, &cat(&[&[5, 0], &e])),
                    5 => tlv(0xA5, &e),
                    _ => tlv(0x30, &cat(&[&tlv(0x84, &e), &[4, 0]])),
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

pub fn d05(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Values, nothing);
    let els: Vec<Vec<u8>> = PLAIN
        .iter()
        .flat_map(|t| {
            let mut v = vec![tlv(*t, &[])];
            for x in 0..=255u8 {
                v.push(tlv(*t, &[x]));
            }
            for x in [0u8, 1, 0x7F, 0x80, 0xFF] {
                for y in [0u8, 1, 0x7F, 0x80, 0xFF] {
                    v.push(tlv(*t, &[x, y]));
                }
            }
            v
        })
        .collect();
    let mut v = vec![
        element_contents("element-contents", PLAIN, t.pick(300, 1000), &o),
        contents("contents", PLAIN, 2, &o),
        contents("contents-3", if t == Tier::Quick { &[1, 2] } else { PLAIN }, 3, &o),
        in_containers("places", els, &o),
        patterns("patterns", PLAIN, t.pick(40, 140), &[0x00, 0xFF], &o),
        sizes("sizes", PLAIN, t.pick(600, 5000), &o),
    ];
    if t == Tier::Thorough {
        v.push(patterns("patterns-2", &[2, 4], 300, &[0x01, 0x80], &o));
    }
    v
}

// ------------------------------------------------------------- integers

fn int_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::Integer(i), Val::Int(c)) = (a, v) {
        int_is(&i.value, c)?;
    }
    Ok(())
}

fn int_is(i: &ASNInteger, c: &[u8]) -> Chk {
    let want = int_value(c);
    let got = i.as_i32().map(|x| x as i64);
    chk(got == want, || format!("{} converts to {:?}", show(c), want), || format!("{:?}", got))?;
    let text = i.to_string();
    let want = int_text(c);
    chk(text == want, || format!("{} renders as {}", show(c), want), || text.clone())
}

fn int_direct(name: &str, what: &str, values: &'static [&'static [u8]], text: bool) -> Family {
    // one octet list per position; an empty list means all 256
    Family::new(name, what, 0, move || {
        let mut buf = Vec::new();
        move |ch: &mut Ch| {
            buf.clear();
            for l in values {
                buf.push(if l.is_empty() { ch.choose(256) as u8 } else { *ch.pick(l) });
            }
            ch.saw(&buf);
            let r = guard(|| {
                if text {
                    int_is(&ASNInteger::new(&buf), &buf)
                } else {
                    let want = int_value(&buf);
                    let got = ASNInteger::new(&buf).as_i32().map(|x| x as i64);
                    chk(got == want, || format!("{} converts to {:?}", show(&buf), want), || format!("{:?}", got))
                }
            });
            match r {
                Ok(c) => need(c)?,
                Err(p) => return bad("conversion finishes", p),
            }
            Ok(buf.len() as u64)
        }
    })
}

const EDGE: &[u8] = &[0x00, 0x01, 0x7F, 0x80, 0x81, 0xFF];

pub fn d06(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Kinds, int_extra);
    let mut v = vec![
        element_contents("element-contents", &[2], t.pick(300, 2000), &o),
        contents("contents", &[2], 2, &o),
        int_direct("one-octet", "every integer of one octet", &[&[]], true),
        int_direct("two-octets", "every integer of two octets", &[&[], &[]], true),
        int_direct("three-octets", "every integer of three octets", &[&[], &[], &[]], true),
        int_direct("four-octets-a", "four octets: first and second any, others boundary", &[&[], &[], EDGE, EDGE], true),
        int_direct("four-octets-b", "four octets: first boundary, second and third any", &[EDGE, &[], &[], EDGE], true),
        int_direct("four-octets-c", "four octets: third and fourth any", &[EDGE, EDGE, &[], &[]], true),
        int_direct("five-octets", "five octets: last any, others boundary", &[EDGE, EDGE, EDGE, EDGE, &[]], true),
        int_direct("eight-octets", "eight octets, each boundary", &[EDGE, EDGE, EDGE, EDGE, EDGE, &[0, 0x7F, 0x80], &[0, 0xFF], &[0, 1, 0xFF]], true),
        patterns("patterns", &[2], t.pick(40, 300), &[0x00, 0xFF, 0x0A], &o),
        sizes("sizes", &[2], t.pick(600, 5000), &o),
    ];
    if t == Tier::Thorough {
        v.push(int_direct("four-octets", "every integer of four octets, its number", &[&[], &[], &[], &[]], false));
    }
    v
}

// ------------------------------------------------------------- bit strings

fn bits_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::BitString(b), Val::Bits(pad, oct)) = (a, v) {
        let b = &b.value;
        let n = oct.len() * 8 - *pad as usize;
        chk(b.size() == n, || format!("{n} bits"), || format!("{}", b.size()))?;
        chk(
            match b.octets() {
                Some(o) => *pad == 0 && same(o, oct),
                None => *pad != 0,
            },
            || format!("octets {}", if *pad == 0 { show(oct) } else { "none".into() }),
            || format!("{:?}", b.octets().map(show)),
        )?;
        // every bit, then nothing more; a second iteration gives the same
        for round in 0..2 {
            let mut it = b.iter();
            for k in 0..n {
                let want = (oct[k / 8] >> (7 - k % 8)) & 1 == 1;
                let got = it.next();
                chk(got == Some(want), || format!("bit {k} of {n} is {want} (iteration {round})"), || format!("{:?}", got))?;
            }
            for _ in 0..9 {
                let got = it.next();
                chk(got.is_none(), || format!("no bit after {n}"), || format!("{:?}", got))?;
            }
            if n > 4096 {
                break;
            }
        }
        chk(b.iter().count() == n, || format!("{n} bits iterated"), || format!("{}", b.iter().count()))?;
        if n > 9 && n < 4096 {
            // skipping part of the bits leaves the others alone
            let got: Vec<bool> = b.iter().skip(9).collect();
            let want: Vec<bool> = (9..n).map(|k| (oct[k / 8] >> (7 - k % 8)) & 1 == 1).collect();
            chk(got == want, || format!("bits after the ninth {:?}", want), || format!("{:?}", got))?;
        }
    }
    Ok(())
}

fn bit_sizes(t: Tier, o: &Oracle) -> Family {
    let o = o.clone();
    let mut list: Vec<usize> = (0..=t.pick(300, 2000)).collect();
    list.extend([4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 70000]);
    let list = Arc::new(list);
    Family::new(
        "bit-sizes",
        "bit strings of every octet count to 300 (2000) and selected to 70000, every padding count 0..=9, four fillings, padding bits kept as filled",
        0,
        move || {
            let o = o.clone();
            let list = list.clone();
            move |ch: &mut Ch| {
                let n = *ch.pick(&list);
                let pad = ch.choose(10) as u8;
                let mut c = vec![pad];
                c.extend(match ch.choose(4) {
                    0 => vec![0u8; n],
                    1 => vec![0xFF; n],
                    2 => fill(n, 9),
                    _ => vec![0x80; n],
                });
                let b = tlv(3, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// What an operation on an iterator shows.
#[derive(PartialEq, Debug)]
enum Seen {
    Bit(Option<bool>),
    Place(Option<usize>),
    Bits(Vec<bool>),
    Number(usize),
    Truth(bool),
}

const STEPS: usize = 14;
const ENDS: usize = 12;

/// An operation that leaves the iterator for more.
fn step<I: Iterator<Item = bool>>(it: &mut I, k: usize) -> Seen {
    match k {
        0 => Seen::Bit(it.next()),
        1 => Seen::Bit(it.nth(0)),
        2 => Seen::Bit(it.nth(1)),
        3 => Seen::Bit(it.nth(7)),
        4 => Seen::Bit(it.nth(8)),
        5 => Seen::Bit(it.nth(100)),
        6 => Seen::Place(it.position(|b| b)),
        7 => Seen::Bit(it.find(|b| !*b)),
        8 => Seen::Truth(it.any(|b| b)),
        9 => Seen::Truth(it.all(|b| b)),
        10 => Seen::Bits(it.by_ref().take(3).collect()),
        11 => Seen::Bits(it.by_ref().take_while(|b| *b).collect()),
        12 => Seen::Bits(it.by_ref().skip_while(|b| *b).take(1).collect()),
        // the bounds it promises hold for what is left
        _ => {
            let (low, high) = it.size_hint();
            let left: Vec<bool> = it.by_ref().collect();
            match low <= left.len() && high.map_or(true, |h| h >= left.len()) {
                true => Seen::Bits(left),
                false => Seen::Number(low),
            }
        }
    }
}

/// An operation that uses the iterator up.
fn end<I: Iterator<Item = bool>>(it: I, k: usize) -> Seen {
    match k {
        0 => Seen::Bits(it.collect()),
        1 => Seen::Number(it.count()),
        2 => Seen::Bit(it.last()),
        3 => Seen::Bits(it.step_by(3).collect()),
        4 => Seen::Bits(it.skip(5).collect()),
        5 => Seen::Number(it.fold(1, |a, b| (a * 2 + b as usize) % 1_000_003)),
        6 => {
            let mut v = vec![];
            it.for_each(|b| v.push(b));
            Seen::Bits(v)
        }
        7 => Seen::Bit(it.max()),
        8 => Seen::Bit(it.reduce(|a, b| a != b)),
        9 => Seen::Bits(it.enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect()),
        10 => {
            let mut it = it.peekable();
            let first = it.peek().copied();
            Seen::Bits(first.into_iter().chain(it).collect())
        }
        _ => Seen::Number(it.filter(|b| *b).count()),
    }
}

/// Every way of going through the bits agrees with going through a list of them.
fn iterations(t: Tier) -> Family {
    let sizes: Vec<usize> = (0..=9).chain([16, 17]).collect();
    let most = t.pick(2, 3);
    Family::new(
        "iterations",
        &format!(
            "bit strings of {} sizes, padding 0, 1, 3 or 7, five fillings; all sequences of up to {most} of {STEPS} iterator operations, then one of {ENDS} that uses the iterator up",
            sizes.len()
        ),
        0,
        move || {
            let sizes = sizes.clone();
            move |ch: &mut Ch| {
                let n = *ch.pick(&sizes);
                let pad = if n == 0 { 0 } else { *ch.pick(&[0u8, 1, 3, 7]) };
                let octets = match ch.choose(5) {
                    0 => vec![0u8; n],
                    1 => vec![0xFF; n],
                    2 => vec![0x80; n],
                    3 => vec![0x01; n],
                    _ => fill(n, 5),
                };
                let bits: Vec<bool> = (0..n * 8 - pad as usize).map(|k| octets[k / 8] >> (7 - k % 8) & 1 == 1).collect();
                let mut c = vec![pad];
                c.extend(&octets);
                let b = tlv(3, &c);
                ch.saw(&b);
                let mut ops = vec![];
                for _ in 0..ch.choose(most + 1) {
                    ops.push(ch.choose(STEPS));
                }
                let last = ch.choose(ENDS);
                ch.note(|| format!("iterator operations {ops:?}, then {last}"));
                let mut it = bits.iter().copied();
                let mut want: Vec<Seen> = ops.iter().map(|k| step(&mut it, *k)).collect();
                want.push(end(it, last));
                let mut got = vec![];
                let r = guard(|| {
                    rx509::der::parse_all(&b, &mut OnBits(&mut |x| {
                        let mut it = x.iter();
                        got.extend(ops.iter().map(|k| step(&mut it, *k)));
                        got.push(end(it, last));
                    }))
                });
                need(chk(matches!(r, Ok(Ok(()))), || "decodes".into(), || "does not".into()))?;
                need(chk(got == want, || format!("{want:?}"), || format!("{got:?}")))?;
                Ok(last as u64)
            }
        },
    )
}

struct OnBits<'f>(&'f mut dyn FnMut(&rx509::der::ASNBitString));

impl rx509::der::ParseHandler for OnBits<'_> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, asn: &ASNType) {
        if let ASNType::BitString(b) = asn {
            (self.0)(&b.value);
        }
    }
    fn on_error(&mut self, _: &rx509::der::ASNError) {}
}

pub fn d07(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Kinds, bits_extra);
    let els: Vec<Vec<u8>> = (0..=255u16)
        .flat_map(|p| {
            let p = p as u8;
            vec![tlv(3, &[p]), tlv(3, &[p, 0xA5]), tlv(3, &[p, 0x01, 0x80])]
        })
        .chain([tlv(3, &[])])
        .collect();
    vec![
        element_contents("element-contents", &[3], t.pick(300, 2000), &o),
        contents("contents", &[3], t.pick(2, 3), &o),
        contents_first("contents-3", &[0, 1, 2, 3, 4, 5, 6, 7], 2, &o),
        in_containers("places", els, &o),
        bit_sizes(t, &o),
        iterations(t),
        patterns("patterns", &[3], t.pick(70, 140), &[0x00, 0x07, 0x03], &o),
    ]
}

/// Bit strings with the given padding counts and every content of exactly `n` octets.
fn contents_first(name: &str, firsts: &'static [u8], n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(name, &format!("bit strings with padding {firsts:?} and every {n} octets"), 0, move || {
        let o = o.clone();
        move |ch: &mut Ch| {
            let mut c = vec![*ch.pick(firsts)];
            for _ in 0..n {
                c.push(ch.choose(256) as u8);
            }
            let b = tlv(3, &c);
            ch.saw(&b);
            o(&b)
        }
    })
}

// ------------------------------------------------------------- object identifiers

fn oid_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::ObjectIdentifier(i), Val::Oid(c)) = (a, v) {
        let got = i.value.values();
        chk(oid_same(c, got), || format!("arcs {:?}", oid_arcs(c)), || format!("{:?}", got))?;
        let want = oid_text(&oid_arcs(c));
        let text = i.value.to_string();
        chk(text == want, || format!("renders as {}", want), || text.clone())?;
    }
    Ok(())
}

fn oid_arcs_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::ObjectIdentifier(i), Val::Oid(c)) = (a, v) {
        let got = i.value.values();
        chk(oid_same(c, got), || format!("arcs {:?}", oid_arcs(c)), || format!("{:?}", got))?;
    }
    Ok(())
}

/// Subidentifier encodings around every boundary, well-formed or not.
fn subids() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for x in [0u32, 1, 2, 3, 39, 40, 41, 79, 80, 81, 119, 120, 127, 128, 129, 840, 16383, 16384, 16385, 113549, 2097151, 2097152, 268435455] {
        let e = oid_encode(&[0, 0, x]);
        v.push(e[1..].to_vec());
    }
    // padded, over-long, unfinished
    v.push(vec![0x80, 0x01]);
    v.push(vec![0x80, 0x80, 0x80, 0x01]);
    v.push(vec![0x80, 0x80, 0x80, 0x80, 0x01]);
    v.push(vec![0x81, 0x80, 0x80, 0x80, 0x00]);
    v.push(vec![0xFF, 0xFF, 0xFF, 0xFF, 0x7F]);
    v.push(vec![0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]);
    v.push(vec![0x81]);
    v.push(vec![0xFF, 0xFF, 0xFF]);
    v.push(vec![0xFF, 0xFF, 0xFF, 0xFF]);
    v
}

fn oid_chains(n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    let subs = Arc::new(subids());
    Family::new(
        "subidentifiers",
        &format!("all chains of 0..={n} of {} subidentifier encodings around every boundary, padded, over-long and unfinished ones included", subs.len()),
        0,
        move || {
            let o = o.clone();
            let subs = subs.clone();
            move |ch: &mut Ch| {
                let k = ch.choose(n + 1);
                let mut c = vec![];
                for _ in 0..k {
                    c.extend_from_slice(ch.pick(&subs));
                }
                let b = tlv(6, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// The known identifiers and their neighbours.
pub fn near_known() -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    for (k, _) in KNOWN {
        v.extend(neighbours(k));
        for last in 0..=130u32 {
            let mut m = k.to_vec();
            *m.last_mut().unwrap() = last;
            v.push(m.clone());
            m.push(last);
            v.push(m);
            let mut m = k.to_vec();
            m.push(last);
            v.push(m);
        }
    }
    v.retain(|m| m.len() >= 2 && m[0] <= 2 && (m[0] == 2 || m[1] < 40));
    v.sort();
    v.dedup();
    v
}

fn oid_near(o: &Oracle) -> Family {
    let o = o.clone();
    let near = Arc::new(near_known());
    Family::new(
        "near-names",
        &format!("the ten named identifiers and {} neighbours (each arc changed by a little, a power of two or a bit, dropped, doubled, swapped, put before, between or behind), alone and nested", near.len() - KNOWN.len()),
        0,
        move || {
            let o = o.clone();
            let near = near.clone();
            move |ch: &mut Ch| {
                let m = ch.pick(&near);
                let e = tlv(6, &oid_encode(m));
                let b = if ch.flip() { seq(&[&e, &[5, 0]]) } else { e };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn oid_counts(t: Tier, o: &Oracle) -> Family {
    let o = o.clone();
    let max = t.pick(400, 3000);
    Family::new(
        "arc-counts",
        &format!("every number of arcs 2..={max}, and 257 to 65539 around powers of two and ten, five shapes of subidentifier, good or unfinished end"),
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let n = if ch.flip() { *ch.pick(super::x509::BIG_COUNTS) } else { ch.choose(max - 1) };
                let shape = ch.choose(5);
                let mut c = vec![0x2A];
                for i in 0..n {
                    match shape {
                        0 => c.push((i % 128) as u8),
                        1 => c.extend([0x81, (i % 128) as u8]),
                        2 => c.extend([0xFF, 0xFF, 0xFF, 0x7F]),
                        3 => c.push(0),
                        _ => c.extend(&[&[0x01u8][..], &[0x86, 0x48], &[0x86, 0xF7, 0x0D]][i % 3].to_vec()),
                    }
                }
                if ch.flip() {
                    c.push(0x80);
                }
                let b = tlv(6, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn oid_wide(first: bool, lead: &'static [u8], o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        if first { "first-subidentifier-4" } else { "subidentifier-4" },
        &format!("four-octet subidentifiers, {} position: first octet from {} values, the others any", if first { "first" } else { "third" }, lead.len()),
        0,
        move || {
            let o = o.clone();
            let mut b = vec![];
            move |ch: &mut Ch| {
                b.clear();
                b.extend(if first { &[6u8, 4][..] } else { &[6u8, 6, 0x2A, 0x03][..] });
                b.push(*ch.pick(lead));
                b.push(0x80 | ch.choose(128) as u8);
                b.push(0x80 | ch.choose(128) as u8);
                b.push(ch.choose(128) as u8);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// Identifiers built from arcs rather than decoded: kept and rendered the same way.
fn oid_built(t: Tier) -> Family {
    let deep = t.pick(3, 5);
    let arcs: &'static [u32] = t.pick(
        &[0, 1, 2, 9, 10, 40, 100, 128, 113549, 999_999_999, 1 << 28, 1 << 31, u32::MAX],
        &[0, 1, 2, 5, 9, 10, 39, 40, 99, 100, 128, 1000, 65536, 113549, 999_999_999, 1_000_000_000, 1 << 28, 1 << 31, u32::MAX - 1, u32::MAX],
    );
    let near = Arc::new(near_known());
    Family::new(
        "built",
        &format!("identifiers built from all lists of 0..={deep} arcs of {} values, and from the named ones and {} neighbours", arcs.len(), near.len() - KNOWN.len()),
        0,
        move || {
            let near = near.clone();
            move |ch: &mut Ch| {
                let v: Vec<u32> = if ch.flip() {
                    ch.pick(&near).clone()
                } else {
                    (0..ch.choose(deep + 1)).map(|_| *ch.pick(arcs)).collect()
                };
                ch.note(|| format!("{v:?}"));
                let want = oid_text(&v);
                let (kept, text, inside) = run("an identifier of given arcs", || {
                    let o = ASNObjectIdentifier::new(v.clone());
                    (o.values() == &v[..] && o.clone() == o, format!("{o}"), format!("{}", ObjectIdentifier::asn(o.clone())))
                })?;
                if !kept || text != want || inside != format!("ObjectIdentifier: {want}") {
                    return bad(format!("its arcs and {want:?}"), format!("{kept}, {text:?} and {inside:?}"));
                }
                Ok(v.len() as u64)
            }
        },
    )
}

pub fn d08(t: Tier) -> Vec<Family> {
    static ALL: [u8; 128] = {
        let mut a = [0u8; 128];
        let mut i = 0;
        while i < 128 {
            a[i] = 0x80 | i as u8;
            i += 1;
        }
        a
    };
    let o = walk_oracle(Look::Kinds, oid_extra);
    let oa = walk_oracle(Look::Kinds, oid_arcs_extra);
    let few: &'static [u8] = &[0x80, 0x81, 0xFF];
    vec![
        element_contents("element-contents", &[6], t.pick(300, 2000), &o),
        contents("contents", &[6], t.pick(2, 3), &o),
        contents("contents-3", &[6], 3, &oa),
        oid_chains(t.pick(3, 4), &o),
        oid_near(&o),
        oid_built(t),
        oid_counts(t, &o),
        oid_wide(true, t.pick(few, &ALL), &oa),
        oid_wide(false, t.pick(few, &ALL), &oa),
        patterns("patterns", &[6], t.pick(30, 100), &[0x01, 0x81, 0x7F], &o),
    ]
}

// ------------------------------------------------------------- text

const TEXTS: &[u8] = &[0x0C, 0x13, 0x16];

fn text_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::UTF8String(x), Val::Utf8(y)) = (a, v) {
        let t = x.value;
        return chk(same(t.as_bytes(), y), || show(y), || show(t.as_bytes()));
    }
    if let (ASNType::PrintableString(x), Val::Printable(y)) = (a, v) {
        let t = x.value;
        return chk(same(t.as_bytes(), y), || show(y), || show(t.as_bytes()));
    }
    if let (ASNType::IA5String(x), Val::Ia5(y)) = (a, v) {
        let t = x.value;
        return chk(same(t.as_bytes(), y), || show(y), || show(t.as_bytes()));
    }
    Ok(())
}

const CONT: &[u8] = &[0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xED, 0xFF];

fn text_four(t: Tier, o: &Oracle) -> Family {
    let o = o.clone();
    let full = t == Tier::Thorough;
    Family::new(
        "four-octets",
        if full {
            "three string types, lead octets E0..=FF, three following octets: any, any, boundary"
        } else {
            "three string types, lead octets C0..=FF, three following octets of 14 boundary values, behind 0, 1, 7 or 16 ASCII octets, before none, one or two more"
        },
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(TEXTS);
                let mut c;
                if full {
                    c = vec![0xE0 + ch.choose(32) as u8];
                    c.push(ch.choose(256) as u8);
                    c.push(ch.choose(256) as u8);
                    c.push(*ch.pick(CONT));
                } else {
                    c = vec![b'x'; *ch.pick(&[0usize, 1, 7, 16])];
                    c.push(0xC0 + ch.choose(64) as u8);
                    for _ in 0..3 {
                        c.push(*ch.pick(CONT));
                    }
                }
                let tail: &[u8] = [&[][..], b"y", &[0xC3, 0xA9]][ch.choose(3)];
                c.extend(tail);
                let b = tlv(tag, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn text_mixes(n: usize, o: &Oracle) -> Family {
    let o = o.clone();
    const PIECES: &[&[u8]] = &[
        b"a",
        b"\0",
        b"\n",
        b"\x7f",
        "\u{80}".as_bytes(),
        "\u{7ff}".as_bytes(),
        "\u{800}".as_bytes(),
        "\u{d7ff}".as_bytes(),
        "\u{ffff}".as_bytes(),
        "\u{feff}".as_bytes(),
        "\u{10000}".as_bytes(),
        "\u{10ffff}".as_bytes(),
        &[0x80],
        &[0xC0, 0x80],
        &[0xC3],
        &[0xE0, 0x80, 0x80],
        &[0xED, 0xA0, 0x80],
        &[0xE2, 0x82],
        &[0xF0, 0x80, 0x80, 0x80],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xF0, 0x9F, 0x98],
        &[0xFF],
    ];
    Family::new(
        "pieces",
        &format!("three string types, all sequences of 0..={n} of {} pieces: characters of every width and every kind of malformed sequence", PIECES.len()),
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(TEXTS);
                let k = ch.choose(n + 1);
                let mut c = vec![];
                for _ in 0..k {
                    c.extend_from_slice(ch.pick(PIECES));
                }
                let b = tlv(tag, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// A fault behind and before well-formed text of any length.
fn text_faults(max: usize, o: &Oracle) -> Family {
    const FAULTS: &[&[u8]] = &[
        &[0x80],
        &[0xBF],
        &[0xC0, 0x80],
        &[0xC1, 0xBF],
        &[0xC3],
        &[0xC3, 0x28],
        &[0xE0, 0x80, 0x80],
        &[0xE0, 0x9F, 0xBF],
        &[0xE2, 0x82],
        &[0xE2, 0x28, 0xA1],
        &[0xED, 0xA0, 0x80],
        &[0xED, 0xBF, 0xBF],
        &[0xF0, 0x80, 0x80, 0x80],
        &[0xF0, 0x8F, 0xBF, 0xBF],
        &[0xF0, 0x9F, 0x98],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xF5, 0x80, 0x80, 0x80],
        &[0xFE],
        &[0xFF],
        &[0xFF, 0xFE],
        // none
        &[],
        "\u{7FF}".as_bytes(),
        "\u{FFFD}".as_bytes(),
        "\u{10FFFF}".as_bytes(),
        "\u{FEFF}".as_bytes(),
        &[0],
    ];
    const BEFORE: &[&str] = &["a", "\u{e9}", "\u{20ac}", "\u{10348}", "\0"];
    let o = o.clone();
    Family::new(
        "faults-behind-text",
        &format!("{} malformed and six well-formed pieces behind 0..={max} octets of text of one of {} characters and before 0, 1, 7, 8 or 100 ASCII letters, under each string identifier", FAULTS.len() - 6, BEFORE.len()),
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(TEXTS);
                let unit = ch.pick(BEFORE).as_bytes();
                let n = ch.choose(max + 1);
                if n % unit.len() != 0 {
                    return Err(Stop::Prune);
                }
                let mut c = unit.repeat(n / unit.len());
                c.extend_from_slice(ch.pick(FAULTS));
                c.resize(c.len() + *ch.pick(&[0usize, 1, 7, 8, 100]), b'z');
                let b = tlv(tag, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

pub fn d09(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Kinds, text_extra);
    vec![
        element_contents("element-contents", TEXTS, t.pick(300, 1000), &o),
        contents("contents", TEXTS, 2, &o),
        contents("contents-3", if t == Tier::Quick { &[0x0C] } else { TEXTS }, 3, &o),
        text_four(t, &o),
        text_mixes(t.pick(4, 5), &o),
        text_faults(t.pick(300, 2000), &o),
        patterns("patterns", TEXTS, t.pick(70, 200), &[0x61], &o),
        sizes("sizes", TEXTS, t.pick(600, 3000), &o),
    ]
}

// ------------------------------------------------------------- times

fn put2(out: &mut Vec<u8>, v: usize) {
    out.push(b'0' + (v / 10) as u8);
    out.push(b'0' + (v % 10) as u8);
}

fn time_dates(gen: bool, clocks: &'static [&'static [u8]], o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        if gen { "generalized-dates" } else { "utc-dates" },
        &format!("every {} year, month 00..=99 and day 00..=99 at {} times of day", if gen { "four-digit" } else { "two-digit" }, clocks.len()),
        0,
        move || {
            let o = o.clone();
            let mut b = Vec::new();
            move |ch: &mut Ch| {
                b.clear();
                b.extend(if gen { [0x18, 15] } else { [0x17, 13] });
                if gen {
                    put2(&mut b, ch.choose(100));
                }
                put2(&mut b, ch.choose(100));
                put2(&mut b, ch.choose(100));
                put2(&mut b, ch.choose(100));
                b.extend_from_slice(ch.pick(clocks));
                b.push(b'Z');
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn time_clocks(dates: &'static [&'static [u8]], o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "clocks",
        &format!("every hour, minute and second 00..=99 on {} dates", dates.len()),
        0,
        move || {
            let o = o.clone();
            let mut b = Vec::new();
            move |ch: &mut Ch| {
                b.clear();
                let d = *ch.pick(dates);
                b.extend([if d.len() == 6 { 0x17 } else { 0x18 }, d.len() as u8 + 7]);
                b.extend_from_slice(d);
                for _ in 0..3 {
                    put2(&mut b, ch.choose(100));
                }
                b.push(b'Z');
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

const TIMES: &[&[u8]] =
    &[b"990102052345Z", b"20990102052345Z", b"000229235959Z", b"19700101000000Z", b"491231235959Z", b"500101000000Z"];

fn time_edits(t: Tier, o: &Oracle) -> Family {
    let o = o.clone();
    const V: &[u8] = b"0129Z/:+-. zA\0\xFF";
    let two = t == Tier::Thorough;
    Family::new(
        "malformed",
        "six times under both identifiers: every octet replaced by every value, deleted, doubled; every octet inserted anywhere; every prefix; 26 endings; pairs of octets replaced by 15 values",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(&[0x17u8, 0x18]);
                let base = *ch.pick(TIMES);
                let n = base.len();
                let mut c = base.to_vec();
                match ch.choose(7) {
                    0 => {
                        let p = ch.choose(n);
                        c[p] = ch.choose(256) as u8;
                    }
                    1 => {
                        c.remove(ch.choose(n));
                    }
                    2 => {
                        let p = ch.choose(n);
                        c.insert(p, c[p]);
                    }
                    3 => {
                        let p = ch.choose(n + 1);
                        c.insert(p, ch.choose(256) as u8);
                    }
                    4 => c.truncate(ch.choose(n + 1)),
                    5 => {
                        const ENDS: &[&[u8]] = &[
                            b"", b"Z", b"ZZ", b"Z ", b"Z\0", b" Z", b"z", b"+0000", b"-0000", b"+0100", b"+00", b".0Z", b".5Z",
                            b",5Z", b"0Z", b"00Z", b".Z", b"Z0", b"Z00", b"ZA", b"\0", b"Z+0000", b"GMT", b"UTC", b"Z\xff", b"Z.5",
                        ];
                        c.truncate(n - 1);
                        c.extend_from_slice(ch.pick(ENDS));
                    }
                    _ => {
                        let p = ch.choose(n - 1);
                        let q = if two { p + 1 + ch.choose(n - p - 1) } else { p + 1 };
                        c[p] = *ch.pick(V);
                        c[q] = *ch.pick(V);
                    }
                }
                let e = tlv(tag, &c);
                let b = if ch.flip() { seq(&[&e, &[5, 0]]) } else { e };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn time_lengths(o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "digit-counts",
        "both identifiers, 0..=80 of one digit or of a repeated pair, then nothing, Z or a digit after Z",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let tag = *ch.pick(&[0x17u8, 0x18]);
                let n = ch.choose(81);
                let a = b'0' + ch.choose(10) as u8;
                let d = b'0' + ch.choose(10) as u8;
                let mut c: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { a } else { d }).collect();
                c.extend([&b""[..], b"Z", b"Z0"][ch.choose(3)]);
                let b = tlv(tag, &c);
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

pub fn d10(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Values, nothing);
    const QUICK: &[&[u8]] = &[b"000000"];
    const SOME: &[&[u8]] = &[b"000000", b"235959", b"120000", b"010203", b"235960", b"240000"];
    const DATES: &[&[u8]] = &[
        b"700101", b"991231", b"000229", b"490228", b"500301", b"19700101", b"20000229", b"21000228", b"99991231", b"20380119", b"21060207",
    ];
    vec![
        time_dates(false, SOME, &o),
        time_dates(true, if t == Tier::Quick { QUICK } else { SOME }, &o),
        time_clocks(DATES, &o),
        time_edits(t, &o),
        time_lengths(&o),
        contents("contents", &[0x17, 0x18], 2, &o),
    ]
}

// ------------------------------------------------------------- identifiers

fn id_parts() -> Family {
    Family::new("identifier-parts", "Identifier::from for every octet", 0, || {
        |ch: &mut Ch| {
            let b = ch.choose(256) as u8;
            ch.saw(&[b]);
            let r = run("Identifier::from", || Identifier::from(b))?;
            let class = match r.class {
                TagClass::Universal => 0,
                TagClass::Application => 1,
                TagClass::ContextSpecific => 2,
                TagClass::Private => 3,
            };
            let form = match r.pc {
                PC::Primitive => 0,
                PC::Constructed => 1,
            };
            let want = (b / 64, (b / 32) % 2, b % 32);
            if (class, form, r.tag) != want {
                return bad(format!("class, form, number {:?}", want), format!("{:?}", r));
            }
            Ok(b as u64)
        }
    })
}

/// Every identifier with contents that suit some type, at every kind of place.
fn id_places(o: &Oracle) -> Family {
    let o = o.clone();
    let mut bodies: Vec<Vec<u8>> = TAGS.iter().map(|t| sample(*t)).collect();
    bodies.extend([vec![0], vec![0xFF], vec![1, 1, 0], tlv(5, &[]), vec![0x1F, 0], vec![0x30, 0]]);
    bodies.sort();
    bodies.dedup();
    let bodies = Arc::new(bodies);
    Family::new(
        "identifiers",
        &format!("every identifier octet with each of {} contents, at nine places: top level, after and before siblings, in each kind of container and deeper", bodies.len()),
        0,
        move || {
            let o = o.clone();
            let bodies = bodies.clone();
            move |ch: &mut Ch| {
                let id = ch.choose(256) as u8;
                let e = tlv(id, ch.pick(&bodies));
                let b = match ch.choose(9) {
                    0 => e,
                    1 => cat(&[&[2, 1, 3], &e]),
                    2 => cat(&[&e, &[2, 1, 3]]),
                    3 => tlv(0x30, &e),
                    4 => tlv(0x31, &e),
                    5 => tlv(0xA0, &e),
                    6 => tlv(0x9E, &cat(&[&[5, 0], &e])),
                    7 => seq(&[&set(&[&tlv(0xBE, &e), &[5, 0]]), &[5, 0]]),
                    _ => cat(&[&seq(&[]), &e, &[5, 0]]),
                };
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

fn id_multi(o: &Oracle) -> Family {
    let o = o.clone();
    Family::new(
        "multi-octet",
        "identifiers of number 31 in every class and form followed by every two octets, and by number octets of 1..=5 groups with a well-formed rest; at top level and in a container",
        0,
        move || {
            let o = o.clone();
            move |ch: &mut Ch| {
                let id = *ch.pick(&[0x1Fu8, 0x3F, 0x5F, 0x7F, 0x9F, 0xBF, 0xDF, 0xFF]);
                let mut b = vec![id];
                if ch.flip() {
                    b.push(ch.choose(256) as u8);
                    b.push(ch.choose(256) as u8);
                } else {
                    let n = 1 + ch.choose(5);
                    for _ in 1..n {
                        b.push(*ch.pick(&[0x80u8, 0x81, 0xFF]));
                    }
                    b.push(*ch.pick(&[0u8, 1, 2, 3, 0x1F, 0x7F]));
                    b.extend([&[0u8][..], &[2, 5, 0], &[1, 0xFF]][ch.choose(3)]);
                }
                if ch.flip() {
                    b = tlv(0x30, &b);
                }
                ch.saw(&b);
                o(&b)
            }
        },
    )
}

/// Identifier replaced at places the schema-level decoders read.
fn id_schema() -> Family {
    let cert = plain_cert(true);
    let spans = Arc::new(element_spans(&cert));
    let name = cat(&[&rdn(6, 0x13, b"DE"), &rdn(3, 0x0C, b"x"), &rdn(99, 0x0C, b"y")]);
    let nspans = Arc::new(element_spans(&name));
    let exts: Vec<Vec<u8>> = {
        let all = all_extensions();
        let l = element_spans(&all);
        // the sequences right inside the list
        let mut v = vec![];
        let mut p = l[0].1;
        while p < all.len() {
            let (_, used) = element(&all[p..]).unwrap();
            let (_, lo) = length(&all[p + 1..]).unwrap();
            v.push(all[p + 1 + lo..p + used].to_vec());
            p += used;
        }
        v
    };
    let exts = Arc::new(exts);
    Family::new(
        "identifiers-in-schemas",
        "every identifier octet at every element of a full certificate, of a name, of each supported extension, of the extension contents, and at each name of an alternative name list",
        0,
        move || {
            let (cert, spans, name, nspans, exts) = (cert.clone(), spans.clone(), name.clone(), nspans.clone(), exts.clone());
            move |ch: &mut Ch| {
                let which = ch.choose(4);
                match which {
                    0 => {
                        let at = ch.pick(&spans).0;
                        let mut b = cert.clone();
                        b[at] = ch.choose(256) as u8;
                        ch.saw(&b);
                        cert_check(&b, true, None)
                    }
                    1 => {
                        let at = ch.pick(&nspans).0;
                        let mut b = name.clone();
                        b[at] = ch.choose(256) as u8;
                        ch.saw(&b);
                        name_check(&b)
                    }
                    2 => {
                        let mut b = ch.pick(&exts).clone();
                        // positions of elements in the extension and in its octet string
                        let mut at: Vec<usize> = vec![];
                        for s in element_spans(&b) {
                            at.push(s.0);
                            if b[s.0] == 4 {
                                at.extend(element_spans(&b[s.1..s.2]).iter().map(|x| x.0 + s.1));
                            }
                        }
                        let p = *ch.pick(&at);
                        b[p] = ch.choose(256) as u8;
                        ch.saw(&b);
                        ext_check(&b)
                    }
                    _ => {
                        let id = ch.choose(256) as u8;
                        let c = [&b"a.b"[..], &[], &[0x2A], &[1, 2, 3, 4]][ch.choose(4)];
                        let raw = seq(&[&ext_of(crate::refx509::OID_SAN, None, &seq(&[&tlv(0x82, b"x"), &tlv(id, c)]))]);
                        let b = cert_with_ext(&raw);
                        ch.saw(&b);
                        exts_check(&b)
                    }
                }
            }
        },
    )
}

pub fn d11(t: Tier) -> Vec<Family> {
    let o = walk_oracle(Look::Kinds, tag_extra);
    vec![
        id_parts(),
        id_places(&o),
        id_multi(&o),
        id_schema(),
        bytes_upto(t.pick(2, 3), &o),
        alphabet("alphabet", &[0x00, 0x02, 0x05, 0x1F, 0x30, 0x3F, 0x80, 0x9E, 0x9F, 0xA0, 0xBF, 0xC0], t.pick(5, 6), &o),
        cert_elements(&o),
    ]
}

fn tag_extra(a: &ASNType, v: &Val) -> Chk {
    if let (ASNType::ExplicitTag(x), Val::Tag(n, _)) = (a, v) {
        chk(x.value.value == *n, || format!("context tag {n}"), || format!("{}", x.value.value))?;
    }
    Ok(())
}

