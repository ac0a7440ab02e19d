//! Reference model of DER decoding, written from X.690 as narrowed by the property statements.
//! Deliberately plain; shares no code with rx509.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Bool,
    Seq,
    Set,
    Int,
    Printable,
    Ia5,
    Utf8,
    Null,
    Time,
    Bits,
    Octets,
    Oid,
    Tag,
    /// no kind the statements know
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Val<'a> {
    Bool(bool),
    Seq(&'a [u8]),
    Set(&'a [u8]),
    Int(&'a [u8]),
    Printable(&'a [u8]),
    Ia5(&'a [u8]),
    Utf8(&'a [u8]),
    Null,
    Time(u64),
    /// padding bits, octets
    Bits(u8, &'a [u8]),
    Octets(&'a [u8]),
    /// content octets
    Oid(&'a [u8]),
    Tag(u8, &'a [u8]),
}

/// Why an input is rejected: the kind of defect and its offending value.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Cause {
    BoolLen(usize),
    BoolVal(u8),
    /// input ends inside something required
    End,
    IntEmpty,
    NullLen(usize),
    Id(u8),
    Indefinite,
    Reserved,
    LenCount(u8),
    LenPadded(u8, usize),
    OidLong,
    Utf8(String),
    Time,
    BitUnused(u8),
    BitEmpty(u8),
    // schema level
    Type(Kind, Kind),
    Trailing(Kind),
    IntBig(usize),
    Version(i64),
    Oid(Vec<u32>),
    Tag(u8),
    /// several defects in one part, none of them clearly first
    Several,
}

impl<'a> Val<'a> {
    pub fn kind(&self) -> Kind {
        match self {
            Val::Bool(_) => Kind::Bool,
            Val::Seq(_) => Kind::Seq,
            Val::Set(_) => Kind::Set,
            Val::Int(_) => Kind::Int,
            Val::Printable(_) => Kind::Printable,
            Val::Ia5(_) => Kind::Ia5,
            Val::Utf8(_) => Kind::Utf8,
            Val::Null => Kind::Null,
            Val::Time(_) => Kind::Time,
            Val::Bits(..) => Kind::Bits,
            Val::Octets(_) => Kind::Octets,
            Val::Oid(_) => Kind::Oid,
            Val::Tag(..) => Kind::Tag,
        }
    }

    pub fn inside(&self) -> Option<&'a [u8]> {
        match self {
            Val::Seq(x) | Val::Set(x) | Val::Tag(_, x) => Some(x),
            _ => None,
        }
    }
}

/// What the identifier octet selects.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sel {
    Bool,
    Int,
    Bits,
    Octets,
    Null,
    Oid,
    Utf8,
    Printable,
    Ia5,
    UtcTime,
    GenTime,
    Seq,
    Set,
    Tag(u8),
}

pub fn select(id: u8) -> Option<Sel> {
    Some(match id {
        0x01 => Sel::Bool,
        0x02 => Sel::Int,
        0x03 => Sel::Bits,
        0x04 => Sel::Octets,
        0x05 => Sel::Null,
        0x06 => Sel::Oid,
        0x0C => Sel::Utf8,
        0x13 => Sel::Printable,
        0x16 => Sel::Ia5,
        0x17 => Sel::UtcTime,
        0x18 => Sel::GenTime,
        0x30 => Sel::Seq,
        0x31 => Sel::Set,
        0x80..=0x9E => Sel::Tag(id - 0x80),
        0xA0..=0xBE => Sel::Tag(id - 0xA0),
        _ => return None,
    })
}

/// (length, octets used)
pub fn length(b: &[u8]) -> Result<(usize, usize), Cause> {
    let first = *b.first().ok_or(Cause::End)?;
    if first < 0x80 {
        return Ok((first as usize, 1));
    }
    let k = first - 0x80;
    match k {
        0 => return Err(Cause::Indefinite),
        127 => return Err(Cause::Reserved),
        1..=4 => {}
        _ => return Err(Cause::LenCount(k)),
    }
    if b.len() < 1 + k as usize {
        return Err(Cause::End);
    }
    let mut v: u64 = 0;
    for x in &b[1..1 + k as usize] {
        v = v * 256 + *x as u64;
    }
    let shortest = if v < 128 {
        0
    } else if v < 1 << 8 {
        1
    } else if v < 1 << 16 {
        2
    } else if v < 1 << 24 {
        3
    } else {
        4
    };
    if shortest != k {
        return Err(Cause::LenPadded(k, v as usize));
    }
    Ok((v as usize, 1 + k as usize))
}

/// First element of `b` and the number of octets it occupies.
pub fn element(b: &[u8]) -> Result<(Val<'_>, usize), Cause> {
    let id = *b.first().ok_or(Cause::End)?;
    let sel = select(id).ok_or(Cause::Id(id))?;
    let (len, used) = length(&b[1..])?;
    let start = 1 + used;
    if b.len() - start < len {
        return Err(Cause::End);
    }
    let c = &b[start..start + len];
    Ok((content(sel, c)?, start + len))
}

pub fn content(sel: Sel, c: &[u8]) -> Result<Val<'_>, Cause> {
    Ok(match sel {
        Sel::Bool => {
            if c.len() != 1 {
                return Err(Cause::BoolLen(c.len()));
            }
            if c[0] != 0 && c[0] != 255 {
                return Err(Cause::BoolVal(c[0]));
            }
            Val::Bool(c[0] == 255)
        }
        Sel::Int => {
            if c.is_empty() {
                return Err(Cause::IntEmpty);
            }
            Val::Int(c)
        }
        Sel::Bits => {
            if c.is_empty() {
                return Err(Cause::End);
            }
            if c[0] >= 8 {
                return Err(Cause::BitUnused(c[0]));
            }
            if c.len() == 1 && c[0] > 0 {
                return Err(Cause::BitEmpty(c[0]));
            }
            Val::Bits(c[0], &c[1..])
        }
        Sel::Octets => Val::Octets(c),
        Sel::Null => {
            if !c.is_empty() {
                return Err(Cause::NullLen(c.len()));
            }
            Val::Null
        }
        Sel::Oid => {
            oid_ok(c)?;
            Val::Oid(c)
        }
        Sel::Utf8 => {
            text_ok(c)?;
            Val::Utf8(c)
        }
        Sel::Printable => {
            text_ok(c)?;
            Val::Printable(c)
        }
        Sel::Ia5 => {
            text_ok(c)?;
            Val::Ia5(c)
        }
        Sel::UtcTime => Val::Time(time(c, false).ok_or(Cause::Time)?),
        Sel::GenTime => Val::Time(time(c, true).ok_or(Cause::Time)?),
        Sel::Seq => Val::Seq(c),
        Sel::Set => Val::Set(c),
        Sel::Tag(n) => Val::Tag(n, c),
    })
}

// ------------------------------------------------------------- identifiers

fn oid_ok(c: &[u8]) -> Result<(), Cause> {
    if c.is_empty() {
        return Err(Cause::End);
    }
    // a subidentifier is a run of octets with the top bit set closed by one without
    let mut run = 0;
    for x in c {
        run += 1;
        if *x & 0x80 == 0 {
            run = 0;
        } else if run == 4 {
            return Err(Cause::OidLong);
        }
    }
    if run > 0 {
        return Err(Cause::End);
    }
    Ok(())
}

/// Arcs of valid identifier content.
pub fn oid_arcs(c: &[u8]) -> Vec<u32> {
    let mut out = vec![];
    let mut acc: u32 = 0;
    for x in c {
        acc = acc * 128 + (*x % 128) as u32;
        if *x < 128 {
            if out.is_empty() {
                if acc < 40 {
                    out.extend([0, acc]);
                } else if acc < 80 {
                    out.extend([1, acc - 40]);
                } else {
                    out.extend([2, acc - 80]);
                }
            } else {
                out.push(acc);
            }
            acc = 0;
        }
    }
    out
}

/// Compares arcs without allocating.
pub fn oid_same(c: &[u8], arcs: &[u32]) -> bool {
    let mut i = 0;
    let mut acc: u32 = 0;
    let mut first = true;
    for x in c {
        acc = acc * 128 + (*x % 128) as u32;
        if *x < 128 {
            if first {
                let a = (acc / 40).min(2);
                if arcs.len() < 2 || arcs[0] != a || arcs[1] != acc - 40 * a {
                    return false;
                }
                i = 2;
                first = false;
            } else {
                if i >= arcs.len() || arcs[i] != acc {
                    return false;
                }
                i += 1;
            }
            acc = 0;
        }
    }
    i == arcs.len()
}

pub const KNOWN: &[(&[u32], &str)] = &[
    (&[2, 5, 4, 3], "Common Name"),
    (&[2, 5, 4, 6], "Country Name"),
    (&[2, 5, 4, 7], "Locality Name"),
    (&[2, 5, 4, 8], "State or Province Name"),
    (&[2, 5, 4, 10], "Organization Name"),
    (&[2, 5, 4, 11], "Organizational Unit Name"),
    (&[1, 2, 840, 113549, 1, 9, 1], "Email Address"),
    (&[1, 2, 840, 113549, 1, 1, 1], "RSA Encryption"),
    (&[1, 2, 840, 113549, 1, 1, 5], "SHA1 with RSA Signature"),
    (&[1, 3, 101, 112], "Ed25519 Signature"),
];

pub fn oid_text(arcs: &[u32]) -> String {
    if let Some((_, name)) = KNOWN.iter().find(|(k, _)| *k == arcs) {
        return name.to_string();
    }
    arcs.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(".")
}

/// Minimal encoding of arcs (content octets).
pub fn oid_encode(arcs: &[u32]) -> Vec<u8> {
    let mut out = vec![];
    let mut put = |mut v: u64| {
        let mut tmp = vec![(v % 128) as u8];
        v /= 128;
        while v > 0 {
            tmp.push((v % 128) as u8 | 0x80);
            v /= 128;
        }
        tmp.reverse();
        out.extend(tmp);
    };
    put(arcs[0] as u64 * 40 + arcs[1] as u64);
    for a in &arcs[2..] {
        put(*a as u64);
    }
    out
}

// ------------------------------------------------------------- numbers

pub fn int_value(c: &[u8]) -> Option<i64> {
    if c.is_empty() || c.len() > 4 {
        return None;
    }
    let mut v: i64 = 0;
    for x in c {
        v = v * 256 + *x as i64;
    }
    if c[0] >= 128 {
        v -= 1i64 << (8 * c.len());
    }
    Some(v)
}

pub fn hex_line(c: &[u8], lower: bool) -> String {
    c.iter()
        .map(|x| if lower { format!("{:02x}", x) } else { format!("{:02X}", x) })
        .collect::<Vec<_>>()
        .join(":")
}

pub fn int_text(c: &[u8]) -> String {
    match int_value(c) {
        Some(v) => v.to_string(),
        None => hex_line(c, false),
    }
}

// ------------------------------------------------------------- text

/// Well-formed UTF-8 per Unicode table 3-7.
pub fn utf8(c: &[u8]) -> bool {
    let mut i = 0;
    while i < c.len() {
        let b0 = c[i];
        let (n, lo, hi) = match b0 {
            0x00..=0x7F => {
                i += 1;
                continue;
            }
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        if i + n >= c.len() {
            return false;
        }
        if c[i + 1] < lo || c[i + 1] > hi {
            return false;
        }
        for k in 2..=n {
            if c[i + k] & 0xC0 != 0x80 {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

fn text_ok(c: &[u8]) -> Result<(), Cause> {
    if utf8(c) {
        Ok(())
    } else {
        // only the wording of the position comes from the standard library
        Err(Cause::Utf8(core::str::from_utf8(c).unwrap_err().to_string()))
    }
}

// ------------------------------------------------------------- time

/// Days from 1970-01-01 to January 1st of each year 1970..=10000, by counting up.
fn year_starts() -> &'static [u32; 8031] {
    use std::sync::OnceLock;
    static T: OnceLock<[u32; 8031]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 8031];
        for y in 1..8031 {
            t[y] = t[y - 1] + if leap(1970 + y as u32 - 1) { 366 } else { 365 };
        }
        t
    })
}

pub fn leap(y: u32) -> bool {
    if y % 400 == 0 {
        true
    } else if y % 100 == 0 {
        false
    } else {
        y % 4 == 0
    }
}

pub fn month_days(y: u32, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

pub fn time(c: &[u8], generalized: bool) -> Option<u64> {
    let n = if generalized { 14 } else { 12 };
    if c.len() != n + 1 || c[n] != b'Z' {
        return None;
    }
    let mut d = [0u32; 14];
    for i in 0..n {
        if !c[i].is_ascii_digit() {
            return None;
        }
        d[i] = (c[i] - 48) as u32;
    }
    let y = if generalized {
        d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3]
    } else {
        let yy = d[0] * 10 + d[1];
        if yy < 50 {
            2000 + yy
        } else {
            1900 + yy
        }
    };
    let r = &d[n - 10..];
    let (mo, da, h, mi, s) =
        (r[0] * 10 + r[1], r[2] * 10 + r[3], r[4] * 10 + r[5], r[6] * 10 + r[7], r[8] * 10 + r[9]);
    if y < 1970 || mo < 1 || mo > 12 || da < 1 || da > month_days(y, mo) || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    let mut days = year_starts()[y as usize - 1970];
    for m in 1..mo {
        days += month_days(y, m);
    }
    days += da - 1;
    Some(((days as u64 * 24 + h as u64) * 60 + mi as u64) * 60 + s as u64)
}

// ------------------------------------------------------------- walking

#[derive(Debug, Clone, PartialEq)]
pub enum Ev<'a> {
    Elem(Val<'a>),
    Enter,
    Leave,
    Defect(Cause),
    Done,
}

/// The element walk as an explicit state machine: ends of the open containers and a position.
pub struct Walk<'a> {
    b: &'a [u8],
    pos: usize,
    ends: Vec<usize>,
    enter: Option<&'a [u8]>,
    over: Option<Result<(), Cause>>,
}

impl<'a> Walk<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Walk { b, pos: 0, ends: vec![b.len()], enter: None, over: None }
    }

    pub fn reset(&mut self, b: &'a [u8]) {
        self.b = b;
        self.pos = 0;
        self.ends.clear();
        self.ends.push(b.len());
        self.enter = None;
        self.over = None;
    }

    pub fn depth(&self) -> usize {
        self.ends.len() - 1
    }

    pub fn next(&mut self) -> Ev<'a> {
        match &self.over {
            Some(Ok(())) => return Ev::Done,
            Some(Err(_)) => return Ev::Done,
            None => {}
        }
        if let Some(c) = self.enter.take() {
            // content ends where the element ends
            let end = self.pos;
            self.pos = end - c.len();
            self.ends.push(end);
            return Ev::Enter;
        }
        let end = *self.ends.last().unwrap();
        if self.pos == end {
            self.ends.pop();
            if self.ends.is_empty() {
                self.ends.push(end);
                self.over = Some(Ok(()));
                return Ev::Done;
            }
            return Ev::Leave;
        }
        let b = self.b;
        match element(&b[self.pos..end]) {
            Ok((v, used)) => {
                self.pos += used;
                self.enter = v.inside();
                Ev::Elem(v)
            }
            Err(c) => {
                self.over = Some(Err(c.clone()));
                Ev::Defect(c)
            }
        }
    }

    pub fn finished(&self) -> Option<&Result<(), Cause>> {
        self.over.as_ref()
    }
}
