//! D12: element values know their type, give their content to it alone, and equal what says the same.
//! S03: the current instant.

use super::common::*;
use super::Tier;
use crate::engine::{bad, Ch, Family, Step, Stop};
use crate::gen::*;
use crate::outside;
use crate::refder::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::Certificate;
use std::sync::Arc;

/// Looks at the first element of a walk only.
struct First<'f>(bool, &'f mut dyn FnMut(&ASNType));

impl ParseHandler for First<'_> {
    fn begin_constructed(&mut self) {}
    fn end_constructed(&mut self) {}
    fn on_type(&mut self, asn: &ASNType) {
        if !std::mem::replace(&mut self.0, true) {
            (self.1)(asn);
        }
    }
    fn on_error(&mut self, _: &ASNError) {}
}

fn with_first(b: &[u8], f: &mut dyn FnMut(&ASNType)) {
    let _ = parse_all(b, &mut First(false, f));
}

fn says_same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Oid(x), Val::Oid(y)) => oid_arcs(x) == oid_arcs(y),
        _ => a == b,
    }
}

/// Two elements, each in memory of its own.
fn pair(a: &[u8], b: &[u8]) -> Step {
    let (Ok((va, _)), Ok((vb, _))) = (element(a), element(b)) else { return Err(Stop::Prune) };
    let want = says_same(&va, &vb);
    let other = b.to_vec();
    let mut r: Result<u64, (String, String)> = Ok(0);
    let p = guard(|| {
        with_first(a, &mut |x| {
            with_first(&other, &mut |y| {
                let is = |w: bool| if w { "equal" } else { "different" };
                let both = || format!("{} and {}", show_asn(x), show_asn(y));
                let mut judge = |what: &str, got: bool, want: bool| {
                    if got != want && r.is_ok() {
                        r = Err((format!("{what}: {} for {}", is(want), both()), is(got).into()));
                    }
                };
                judge("the elements", x == y, want);
                judge("the elements, the other way round", y == x, want);
                judge("the elements by !=", !(x != y), want);
                judge("an element and itself", x == x && y == y, true);
                judge("the types", x.get_id() == y.get_id(), va.kind() == vb.kind());
                match (x, y) {
                    (ASNType::Integer(x), ASNType::Integer(y)) => judge("the integers", x.value == y.value && x == y, want),
                    (ASNType::BitString(x), ASNType::BitString(y)) => judge("the bit strings", x.value == y.value && x == y, want),
                    (ASNType::ObjectIdentifier(x), ASNType::ObjectIdentifier(y)) => {
                        judge("the identifiers", x.value == y.value, want);
                        judge("an identifier and its copy", x.value.clone() == x.value, true);
                        judge("the copies", x.value.clone() == y.value.clone(), want);
                    }
                    (ASNType::UTCTime(x), ASNType::UTCTime(y)) => judge("the times", x == y, want),
                    (ASNType::ExplicitTag(x), ASNType::ExplicitTag(y)) => judge("the tags", x.value == y.value, want),
                    _ => {}
                }
                if let Ok(n) = &mut r {
                    *n = 1 + want as u64;
                }
            })
        })
    });
    match (p, r) {
        (Err(p), _) => bad("comparing finishes", p),
        (_, Err((e, a))) => bad(e, a),
        (_, Ok(0)) => Err(Stop::Prune), // not decoded: not a matter of comparing
        (_, Ok(n)) => Ok(n * 100 + va.kind() as u64),
    }
}

fn menu() -> Vec<Vec<u8>> {
    let mut v = good_elements();
    for t in [2u8, 3, 4, 6, 0x0C, 0x13, 0x16, 0x30, 0x31, 0x80, 0x81, 0xA0, 0xA1, 0xBE] {
        let c: &[&[u8]] = match t {
            2 => &[&[0, 1], &[1], &[0xFF], &[0xFF, 0xFF], &[0x7F], &[0x80], &[0, 0x80], &[1, 0, 0, 0, 0], &[1, 0, 0, 0, 1], &[0, 0, 0, 0, 0]],
            3 => &[&[0], &[0, 0], &[0, 0x80], &[1, 0x80], &[2, 0x80], &[7, 0x80], &[0, 0x80, 0], &[0, 0, 0x80], &[7, 0, 0x80]],
            6 => &[&[0x2A, 3], &[0x2A, 3, 0], &[0x2A], &[0x2B, 3], &[0x2A, 0x80, 3], &[0x2A, 0x83, 0], &[0x55, 4, 3], &[0x55, 4, 6], &[0x88, 0x37, 3]],
            0x0C | 0x13 | 0x16 => &[b"", b"a", b"A", b"a ", b" a", b"ab", b"b", b"aa", b"*", b"\0", b"a\0", "\u{e9}".as_bytes(), "e\u{301}".as_bytes(), b"DE"],
            _ => &[&[], &[5, 0], &[5, 0, 5, 0], &[2, 1, 1], &[2, 1, 2], &[4, 0], &[0x0C, 0]],
        };
        v.extend(c.iter().map(|c| tlv(t, c)));
    }
    for s in ["161014162253Z", "161014162254Z", "700101000000Z", "491231235959Z", "500101000000Z"] {
        v.push(tlv(0x17, s.as_bytes()));
    }
    for s in ["20161014162253Z", "20161014162254Z", "19700101000000Z", "20491231235959Z", "20500101000000Z", "99991231235959Z"] {
        v.push(tlv(0x18, s.as_bytes()));
    }
    v.sort();
    v.dedup();
    v
}

fn pairs(name: &str, what: &str, make: impl Fn(&mut Ch) -> Result<(Vec<u8>, Vec<u8>), Stop> + Send + Sync + 'static) -> Family {
    let make = Arc::new(make);
    Family::new(name, what, 0, move || {
        let make = make.clone();
        move |ch: &mut Ch| {
            let (a, b) = make(ch)?;
            ch.saw(&a);
            ch.note(|| format!("compared with {}", show(&b)));
            pair(&a, &b)
        }
    })
}

const WRAPPERS: &[(&str, Kind)] = &[
    ("Boolean", Kind::Bool),
    ("Integer", Kind::Int),
    ("PrintableString", Kind::Printable),
    ("IA5String", Kind::Ia5),
    ("UTF8String", Kind::Utf8),
    ("Sequence", Kind::Seq),
    ("Set", Kind::Set),
    ("ObjectIdentifier", Kind::Oid),
    ("OctetString", Kind::Octets),
    ("BitString", Kind::Bits),
    ("UtcTime", Kind::Time),
    ("ExplicitTag", Kind::Tag),
];

/// What extracting as wrapper `w` gives, in the reference's terms; the wrapper's id.
fn extract<'a>(w: usize, a: ASNType<'a>, v: &Val<'a>) -> (Option<bool>, ASNTypeId) {
    match w {
        0 => (Boolean::get_value(a).map(|x| *v == Val::Bool(x)), Boolean::get_id()),
        1 => (Integer::get_value(a).map(|x| *v == Val::Int(x.bytes)), Integer::get_id()),
        2 => (PrintableString::get_value(a).map(|x| *v == Val::Printable(x.as_bytes())), PrintableString::get_id()),
        3 => (IA5String::get_value(a).map(|x| *v == Val::Ia5(x.as_bytes())), IA5String::get_id()),
        4 => (UTF8String::get_value(a).map(|x| *v == Val::Utf8(x.as_bytes())), UTF8String::get_id()),
        5 => (Sequence::get_value(a).map(|x| *v == Val::Seq(x)), Sequence::get_id()),
        6 => (Set::get_value(a).map(|x| *v == Val::Set(x)), Set::get_id()),
        7 => (
            ObjectIdentifier::get_value(a).map(|x| if let Val::Oid(c) = v { x.values() == oid_arcs(c) } else { false }),
            ObjectIdentifier::get_id(),
        ),
        8 => (OctetString::get_value(a).map(|x| *v == Val::Octets(x)), OctetString::get_id()),
        9 => (BitString::get_value(a).map(|x| if let Val::Bits(p, c) = v { bits_same(&x, (*p, c)) } else { false }), BitString::get_id()),
        10 => (UtcTime::get_value(a).map(|x| *v == Val::Time(x.value)), UtcTime::get_id()),
        _ => (ExplicitTag::get_value(a).map(|x| *v == Val::Tag(x.value, x.contents)), ExplicitTag::get_id()),
    }
}

/// The same value put together by hand.
fn by_hand<'a>(v: &Val<'a>) -> Option<ASNType<'a>> {
    let text = |c: &'a [u8]| std::str::from_utf8(c).unwrap();
    Some(match *v {
        Val::Bool(x) => Boolean::asn(x),
        Val::Int(c) => Integer::asn(ASNInteger::new(c)),
        Val::Printable(c) => PrintableString::asn(text(c)),
        Val::Ia5(c) => IA5String::asn(text(c)),
        Val::Utf8(c) => UTF8String::asn(text(c)),
        Val::Seq(c) => Sequence::asn(c),
        Val::Set(c) => Set::asn(c),
        Val::Oid(c) => ObjectIdentifier::asn(ASNObjectIdentifier::new(oid_arcs(c))),
        Val::Octets(c) => OctetString::asn(c),
        Val::Bits(p, c) => BitString::asn(ASNBitString::new(p, c)),
        Val::Time(s) => UtcTime::asn(s),
        Val::Tag(n, c) => ExplicitTag::asn(ASNExplicitTag::new(n, c)),
        Val::Null => return None,
    })
}

fn extraction(name: &str, what: &str, make: impl Fn(&mut Ch) -> Result<Vec<u8>, Stop> + Send + Sync + 'static) -> Family {
    let what = format!("{what}, decoded as parameters of the key's algorithm or put together by hand, extracted as each of {} types", WRAPPERS.len());
    let make = Arc::new(make);
    Family::new(name, &what, 0, move || {
        let make = make.clone();
        move |ch: &mut Ch| {
            let e = make(ch)?;
            let w = ch.choose(WRAPPERS.len());
            let hand = ch.flip();
            let cert = super::more::cert_of(false, |m| m.key_params = vec![e.clone()]);
            ch.saw(&cert);
            let Ok((v, _)) = element(&e) else { return Err(Stop::Prune) };
            let kind = v.kind();
            let r = run("extraction", || {
                let a = if hand { by_hand(&v)? } else { Certificate::parse(&cert).ok()?.tbs_certificate.value.subject_public_key_info.algorithm.parameters? };
                let own = a.get_id();
                // equal to the one made the other way
                let twin = by_hand(&v).map(|b| a == b);
                let (got, id) = extract(w, a, &v);
                Some((got, id == own, twin))
            })?;
            let Some((got, same_id, twin)) = r else { return Err(Stop::Prune) };
            let (name, wk) = WRAPPERS[w];
            let mine = wk == kind;
            if got != mine.then_some(true) {
                return bad(
                    if mine { format!("{name} yields the content of {}", show(&e)) } else { format!("{name} yields nothing for {}", show(&e)) },
                    match got {
                        None => "nothing",
                        Some(true) => "its content",
                        Some(false) => "another content",
                    },
                );
            }
            if same_id != mine {
                return bad(format!("{name} and {} {} the same type", show(&e), if mine { "name" } else { "do not name" }), "otherwise");
            }
            if twin == Some(false) {
                return bad(format!("{} equals the value made by hand", show(&e)), "different");
            }
            Ok(w as u64 * 2 + mine as u64)
        }
    })
}

fn instants() -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for k in 0..64 {
        let p = 1u64 << k;
        v.extend([p - 1, p, p.wrapping_add(1)]);
    }
    v.extend([u64::MAX, u64::MAX - 1, 253402300799, 253402300800, 946684800, 2524608000, 86400, 86399]);
    v.sort();
    v.dedup();
    v
}

fn time_order() -> Family {
    let list = instants();
    Family::new("instants", &format!("all pairs of {} instants, compared in six ways", list.len()), 0, move || {
        let list = list.clone();
        move |ch: &mut Ch| {
            let (a, b) = (*ch.pick(&list), *ch.pick(&list));
            ch.note(|| format!("{a} and {b}"));
            let r = run("comparing", || {
                let (x, y) = (UtcTime::from_seconds_since_epoch(a), UtcTime { value: b });
                let copy = x;
                (x.value, [x == y, x < y, x <= y, x > y, x >= y, x != y], x.partial_cmp(&y), copy == x)
            })?;
            let want = (a, [a == b, a < b, a <= b, a > b, a >= b, a != b], a.partial_cmp(&b), true);
            if r != want {
                return bad(format!("{want:?}"), format!("{r:?}"));
            }
            Ok((a < b) as u64 * 2 + (a > b) as u64)
        }
    })
}

/// Both types of time, put together by hand around every instant.
fn time_types() -> Family {
    let list = instants();
    Family::new("time-types", &format!("both types of time with {} instants, each pair of them", list.len()), 0, move || {
        let list = list.clone();
        move |ch: &mut Ch| {
            let (a, b) = (*ch.pick(&list), *ch.pick(&list));
            let (p, q) = (ch.flip(), ch.flip());
            ch.note(|| format!("{a} ({}) and {b} ({})", p as u8, q as u8));
            let make = |g: bool, s: u64| if g { ASNType::GeneralizedTime(UtcTime { value: s }) } else { ASNType::UTCTime(UtcTime { value: s }) };
            let r = run("comparing", || {
                let (x, y) = (make(p, a), make(q, b));
                let ids = [x.get_id() == ASNTypeId::GeneralizedTime, x.get_id() == ASNTypeId::UTCTime];
                (x == y, ids, UtcTime::get_value(x).map(|t| t.value), Sequence::get_value(y).is_none())
            })?;
            let want = (p == q && a == b, [p, !p], (!p).then_some(a), true);
            if r != want {
                return bad(format!("{want:?}"), format!("{r:?}"));
            }
            Ok(p as u64 * 2 + q as u64)
        }
    })
}

fn identifier_pairs() -> Family {
    Family::new("identifier-pairs", "all pairs of identifier octets, equal exactly when the octets are", 0, || {
        |ch: &mut Ch| {
            let (a, b) = (ch.choose(256) as u8, ch.choose(256) as u8);
            ch.saw(&[a, b]);
            let r = run("Identifier::from", || {
                let (x, y) = (Identifier::from(a), Identifier::from(b));
                let class = match y.class {
                    TagClass::Universal => TagClass::Universal,
                    TagClass::Application => TagClass::Application,
                    TagClass::ContextSpecific => TagClass::ContextSpecific,
                    TagClass::Private => TagClass::Private,
                };
                let form = match y.pc {
                    PC::Primitive => PC::Primitive,
                    PC::Constructed => PC::Constructed,
                };
                (x == y, x.class == y.class, x.pc == y.pc, Identifier::new(class, form, y.tag) == y)
            })?;
            let want = (a == b, a >> 6 == b >> 6, a >> 5 & 1 == b >> 5 & 1, true);
            if r != want {
                return bad(format!("{want:?}"), format!("{r:?}"));
            }
            Ok((a == b) as u64)
        }
    })
}

fn error_pairs() -> Family {
    let mut list: Vec<Vec<u8>> = bad_elements().into_iter().chain(cut_elements()).collect();
    for k in 2..=9u8 {
        list.push(tlv(1, &vec![0; k as usize]));
        list.push(tlv(5, &vec![0; k as usize]));
        list.push(tlv(3, &[k * 8, 0]));
        list.push(tlv(3, &[k]));
        list.push(tlv(1, &[k]));
        list.push(tlv(0x0C, &[&vec![b'a'; k as usize][..], &[0xFF]].concat()));
        list.push(tlv(0x0C, &[&vec![b'a'; k as usize][..], &[0xE2, 0x82]].concat()));
        list.push([vec![4, 0x80 + k], vec![1; k as usize]].concat());
        list.push(vec![4, 0x81, k]);
        list.push([&[4, 0x82, 0, k][..], &vec![0; k as usize]].concat());
    }
    let inside: Vec<Vec<u8>> = list.iter().map(|e| tlv(0x30, e)).collect();
    list.extend(inside);
    list.sort();
    list.dedup();
    Family::new("errors", &format!("all pairs of {} defects, the errors equal exactly when their texts are", list.len()), 0, move || {
        let list = list.clone();
        move |ch: &mut Ch| {
            let a = ch.pick(&list).clone();
            let b = ch.pick(&list).clone();
            ch.saw(&a);
            ch.note(|| format!("compared with {}", show(&b)));
            let r = run("comparing errors", || {
                let (mut f, mut g) = (|_: &ASNType| {}, |_: &ASNType| {});
                let x = parse_all(&a, &mut First(true, &mut f)).err()?;
                let y = parse_all(&b, &mut First(true, &mut g)).err()?;
                Some((x == y, y == x, x == x, format!("{x}"), format!("{y}")))
            })?;
            let Some((e1, e2, own, x, y)) = r else { return Err(Stop::Prune) };
            if !own || e1 != e2 || e1 != (x == y) {
                return bad(format!("{} for {x:?} and {y:?}", if x == y { "equal" } else { "different" }), format!("equal: {e1}, the other way round: {e2}, with itself: {own}"));
            }
            Ok(e1 as u64)
        }
    })
}

const ALL_TAGS: [u8; 17] = [1, 2, 3, 4, 5, 6, 0x0C, 0x13, 0x16, 0x30, 0x31, 0x80, 0x81, 0x9E, 0xA0, 0xA1, 0xBE];

pub fn d12(t: Tier) -> Vec<Family> {
    let list = menu();
    let n = list.len();
    let longest = t.pick(40, 130);
    vec![
        pairs("pairs", &format!("all ordered pairs of {n} elements of every type"), move |ch| Ok((ch.pick(&list).clone(), ch.pick(&list).clone()))),
        pairs("octet-pairs", "all pairs of one-octet contents, and of two octets after a common one, of nine types", move |ch| {
            let t = *ch.pick(&[2u8, 3, 4, 6, 0x0C, 0x30, 0x31, 0x81, 0xA1]);
            let front: &[u8] = match (t, ch.flip()) {
                (3, false) => &[0],
                (3, true) => &[0, 0x5A],
                (_, false) => &[],
                (_, true) => &[0x2A],
            };
            let (a, b) = (ch.choose(256) as u8, ch.choose(256) as u8);
            Ok((tlv(t, &cat(&[front, &[a]])), tlv(t, &cat(&[front, &[b]]))))
        }),
        pairs("other-types", "contents of 0..=6 octets over 01 05 under each pair of types", move |ch| {
            let n = ch.choose(7);
            let c: Vec<u8> = (0..n).map(|_| *ch.pick(&[0x01u8, 0x05])).collect();
            Ok((tlv(*ch.pick(&ALL_TAGS), &c), tlv(*ch.pick(&ALL_TAGS), &c)))
        }),
        pairs(
            "changes",
            &format!("contents of every size 0..={longest} of nine types, against the same with any octet changed in three ways, left out, doubled or swapped with the next, and the same"),
            move |ch| {
                let t = *ch.pick(&[2u8, 3, 4, 6, 0x0C, 0x13, 0x16, 0x30, 0xA2]);
                let n = ch.choose(longest + 1);
                let c: Vec<u8> = (0..n).map(|k| b'A' + (k * 7 % 26) as u8).collect();
                let mut d = c.clone();
                if n > 0 {
                    let at = ch.choose(n);
                    match ch.choose(7) {
                        0 => d[at] ^= 1,
                        1 => d[at] ^= 0x20,
                        2 => d[at] ^= 0x40,
                        3 => drop(d.remove(at)),
                        4 => d.insert(at, c[at]),
                        5 if at + 1 < n => d.swap(at, at + 1),
                        _ => {}
                    }
                }
                let front: &[u8] = if t == 3 { &[0] } else { &[] };
                Ok((tlv(t, &cat(&[front, &c])), tlv(t, &cat(&[front, &d]))))
            },
        ),
        pairs("times", "all pairs of 72 instants in each format that can write them, the instants at most a second, minute, hour, day, month or year apart among them", move |ch| {
            let one = |ch: &mut Ch| {
                let y = *ch.pick(&[1970u32, 1999, 2000, 2049]);
                let mo = 1 + ch.choose(2);
                let d = 1 + ch.choose(3);
                let s = *ch.pick(&["000000", "000001", "000100"]);
                if ch.flip() {
                    tlv(0x17, format!("{:02}{mo:02}{d:02}{s}Z", y % 100).as_bytes())
                } else {
                    tlv(0x18, format!("{y:04}{mo:02}{d:02}{s}Z").as_bytes())
                }
            };
            Ok((one(ch), one(ch)))
        }),
        extraction("extraction", &format!("each of {n} elements"), {
            let list = menu();
            move |ch| Ok(ch.pick(&list).clone())
        }),
        extraction("extraction-contents", "contents of 0 or 1 octets, of 2 to 4 over 00 01 02 2A 41 FF, and of every size to 140, of every type", |ch| {
            let t = *ch.pick(&ALL_TAGS);
            let c: Vec<u8> = match ch.choose(6) {
                0 => vec![],
                1 => vec![ch.choose(256) as u8],
                5 => vec![if t == 3 { 0 } else { *ch.pick(b"A\x01") }; 5 + ch.choose(136)],
                n => (0..n).map(|_| *ch.pick(&[0u8, 1, 2, 0x2A, 0x41, 0xFF])).collect(),
            };
            Ok(tlv(t, &c))
        }),
        extraction(
            "extraction-times",
            "the first and the last second of every day of 1970, 1999, 2000, 2049 and 2050, and of the first and last day of every month of every year to 2110 and of eight later ones, in each format",
            |ch| {
                let (y, m) = if ch.flip() {
                    (*ch.pick(&[1970u64, 1999, 2000, 2049, 2050]), 1 + ch.choose(12))
                } else {
                    let k = ch.choose(141 + 8);
                    (*[2399u64, 2400, 3000, 4000, 8000, 9600, 9998, 9999].get(k.wrapping_sub(141)).unwrap_or(&(1970 + k as u64)), 1 + ch.choose(12))
                };
                let d = match ch.choose(31) {
                    0 => 1,
                    k if [1970, 1999, 2000, 2049, 2050].contains(&y) => 1 + k,
                    k if k > 26 => 1 + k,
                    _ => return Err(Stop::Prune),
                };
                let s = *ch.pick(&["000000", "000001", "235959"]);
                Ok(if ch.flip() {
                    tlv(0x18, format!("{y:04}{m:02}{d:02}{s}Z").as_bytes())
                } else if (1970..2050).contains(&y) {
                    tlv(0x17, format!("{:02}{m:02}{d:02}{s}Z", y % 100).as_bytes())
                } else {
                    return Err(Stop::Prune);
                })
            },
        ),
        time_types(),
        time_order(),
        identifier_pairs(),
        error_pairs(),
    ]
}

// ---------------------------------------------------------------- S03

/// Seconds and nanoseconds the system clock may show.
fn clocks() -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    for k in 0..40 {
        let p = 1i64 << k;
        v.extend([p - 1, p, p + 1, -p]);
    }
    for y in 1970..2400i64 {
        let days: i64 = (1970..y).map(|x| if leap(x as u32) { 366 } else { 365 }).sum();
        v.extend([days * 86400 - 1, days * 86400, days * 86400 + 59 * 86400]);
    }
    v.extend([253402300799, 253402300800]);
    v.sort();
    v.dedup();
    v
}

const NANOS: &[i64] = &[0, 1, 999, 1_000_000, 499_999_999, 500_000_000, 999_999_999];

fn now_at(clock: [i64; 2]) -> Result<Option<u64>, Stop> {
    let r = run("UtcTime::now", || {
        outside::show_clock(Some(clock));
        let r = UtcTime::now().ok().map(|x| x.value);
        outside::show_clock(None);
        r
    });
    outside::show_clock(None);
    r
}

fn judge_now(clock: [i64; 2], got: Option<u64>) -> Result<(), Stop> {
    let want = (clock[0] >= 0).then_some(clock[0] as u64);
    if got != want {
        return bad(format!("{want:?} when the clock shows {}.{:09}", clock[0], clock[1]), format!("{got:?}"));
    }
    Ok(())
}

pub fn s03(t: Tier) -> Vec<Family> {
    let list = clocks();
    let few: Vec<[i64; 2]> = vec![[0, 0], [1, 0], [1, 999_999_999], [1_700_000_000, 1], [1_700_000_000, 999_999_999], [1_700_000_001, 0], [2_147_483_648, 0], [4_294_967_296, 5], [-1, 0], [-5, 999_999_999]];
    let long = t.pick(4, 6);
    vec![
        Family::new("clocks", &format!("the clock at each of {} seconds (powers of two, years, before 1970) with each of {} fractions", list.len(), NANOS.len()), 0, {
            let list = list.clone();
            move || {
                let list = list.clone();
                move |ch: &mut Ch| {
                    let c = [*ch.pick(&list), *ch.pick(NANOS)];
                    ch.note(|| format!("clock {c:?}"));
                    judge_now(c, now_at(c)?)?;
                    Ok((c[0] >= 0) as u64)
                }
            }
        }),
        Family::new("days", "the clock at the first and last second of each day of 1970 to 2200", 0, move || {
            move |ch: &mut Ch| {
                let d = ch.choose(84_000) as i64;
                let c = if ch.flip() { [d * 86400, 0] } else { [d * 86400 + 86399, 999_999_999] };
                ch.note(|| format!("clock {c:?}"));
                judge_now(c, now_at(c)?)?;
                Ok(0)
            }
        }),
        Family::new("histories", &format!("all sequences of 1..={long} of {} clock readings, running forward, backward or standing still", few.len()), 0, {
            let few = few.clone();
            move || {
                let few = few.clone();
                move |ch: &mut Ch| {
                    let n = 1 + ch.choose(long);
                    let mut h = 0u64;
                    for _ in 0..n {
                        let c = *ch.pick(&few);
                        ch.note(|| format!("clock {c:?}"));
                        judge_now(c, now_at(c)?)?;
                        h = h * 2 + (c[0] >= 0) as u64;
                    }
                    Ok(h + (n as u64) * 1000)
                }
            }
        }),
        Family::new("validity", "a validity of each pair of seven instants judged by the clock at each second around them with each fraction", 0, move || {
            move |ch: &mut Ch| {
                let at = |k: usize| [0u64, 1, 86400, 1_709_164_799, 1_709_164_800, 2_524_607_999, 2_524_608_000][k];
                let text = |s: u64| -> Vec<u8> {
                    let list: [&[u8]; 7] = [b"19700101000000Z", b"19700101000001Z", b"19700102000000Z", b"20240228235959Z", b"20240229000000Z", b"20491231235959Z", b"20500101000000Z"];
                    let k = (0..7).find(|k| at(*k) == s).unwrap();
                    tlv(0x18, list[k])
                };
                let (a, b) = (at(ch.choose(7)), at(ch.choose(7)));
                let near = at(ch.choose(7));
                let c = [near as i64 + ch.choose(3) as i64 - 1, *ch.pick(NANOS)];
                let cert = super::more::cert_of(false, |m| (m.nb, m.na) = (vec![text(a)], vec![text(b)]));
                ch.saw(&cert);
                ch.note(|| format!("clock {c:?}"));
                let r = run("judging validity", || {
                    let x = Certificate::parse(&cert).ok()?;
                    outside::show_clock(Some(c));
                    let r = UtcTime::now().ok().map(|n| x.tbs_certificate.value.validity.is_valid(n));
                    outside::show_clock(None);
                    Some(r)
                });
                outside::show_clock(None);
                let Some(got) = r? else { return Err(Stop::Prune) };
                let want = (c[0] >= 0).then(|| a <= c[0] as u64 && c[0] as u64 <= b);
                if got != want {
                    return bad(format!("{want:?} for {a}..={b} at {}.{:09}", c[0], c[1]), format!("{got:?}"));
                }
                Ok(want.map_or(2, |x| x as u64))
            }
        }),
    ]
}
