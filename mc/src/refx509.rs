//! Reference model of certificate, name and extension decoding (RFC 5280 as narrowed by the
//! property statements). Works on refder only.

use crate::refder::*;

pub type Bits<'a> = (u8, &'a [u8]);

#[derive(Debug, Clone, PartialEq)]
pub struct Alg<'a> {
    pub oid: &'a [u8],
    pub params: Option<Val<'a>>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Cert<'a> {
    pub tbs: &'a [u8],
    pub version: u8,
    pub serial: &'a [u8],
    pub inner_alg: Alg<'a>,
    pub issuer: &'a [u8],
    pub not_before: u64,
    pub not_after: u64,
    pub subject: &'a [u8],
    pub key_alg: Alg<'a>,
    pub key: Bits<'a>,
    pub issuer_uid: Option<Bits<'a>>,
    pub subject_uid: Option<Bits<'a>>,
    pub extensions: Option<&'a [u8]>,
    pub outer_alg: Alg<'a>,
    pub signature: Bits<'a>,
}

/// Reads elements one after another.
pub struct Cur<'a> {
    pub b: &'a [u8],
}

type R<T> = Result<T, Cause>;

impl<'a> Cur<'a> {
    pub fn at_end(&self) -> bool {
        self.b.is_empty()
    }

    pub fn any(&mut self) -> R<Val<'a>> {
        let (v, n) = element(self.b)?;
        self.b = &self.b[n..];
        Ok(v)
    }

    pub fn of(&mut self, k: Kind) -> R<Val<'a>> {
        let v = self.any()?;
        if v.kind() != k {
            return Err(Cause::Type(k, v.kind()));
        }
        Ok(v)
    }

    pub fn seq(&mut self) -> R<&'a [u8]> {
        Ok(self.of(Kind::Seq)?.inside().unwrap())
    }

    pub fn oid(&mut self) -> R<&'a [u8]> {
        match self.of(Kind::Oid)? {
            Val::Oid(c) => Ok(c),
            _ => unreachable!(),
        }
    }

    pub fn bits(&mut self) -> R<Bits<'a>> {
        match self.of(Kind::Bits)? {
            Val::Bits(u, c) => Ok((u, c)),
            _ => unreachable!(),
        }
    }

    pub fn int(&mut self) -> R<&'a [u8]> {
        match self.of(Kind::Int)? {
            Val::Int(c) => Ok(c),
            _ => unreachable!(),
        }
    }

    pub fn octets(&mut self) -> R<&'a [u8]> {
        match self.of(Kind::Octets)? {
            Val::Octets(c) => Ok(c),
            _ => unreachable!(),
        }
    }

    pub fn time(&mut self) -> R<u64> {
        match self.of(Kind::Time)? {
            Val::Time(t) => Ok(t),
            _ => unreachable!(),
        }
    }

    /// What comes next, judged by the identifier octet alone.
    pub fn ahead(&self) -> R<Option<Sel>> {
        match self.b.first() {
            None => Ok(None),
            Some(id) => Ok(Some(select(*id).ok_or(Cause::Id(*id))?)),
        }
    }

    pub fn end(&mut self) -> R<()> {
        if self.at_end() {
            return Ok(());
        }
        let v = self.any()?;
        Err(Cause::Trailing(v.kind()))
    }
}

fn whole<'a, T>(b: &'a [u8], f: impl FnOnce(&mut Cur<'a>) -> R<T>) -> R<T> {
    let mut c = Cur { b };
    let v = f(&mut c)?;
    c.end()?;
    Ok(v)
}

fn alg(b: &[u8]) -> R<Alg<'_>> {
    whole(b, |c| {
        let oid = c.oid()?;
        let params = if c.at_end() { None } else { Some(c.any()?) };
        Ok(Alg { oid, params })
    })
}

fn version(c: &mut Cur) -> R<u8> {
    match c.ahead()? {
        Some(Sel::Tag(0)) => {
            let inner = c.any()?.inside().unwrap();
            let mut w = Cur { b: inner };
            let n = w.int()?;
            let r = match int_value(n) {
                None => Err(Cause::IntBig(n.len())),
                Some(v @ 0..=2) => Ok(v as u8 + 1),
                Some(v) => Err(Cause::Version(v)),
            };
            match (w.end(), r) {
                (Err(_), Err(_)) => Err(Cause::Several),
                (Err(e), Ok(_)) => Err(e),
                (Ok(()), r) => r,
            }
        }
        _ => Ok(1),
    }
}

fn unique_id<'a>(c: &mut Cur<'a>, tag: u8) -> R<Option<Bits<'a>>> {
    if c.ahead()? != Some(Sel::Tag(tag)) {
        return Ok(None);
    }
    let inner = c.any()?.inside().unwrap();
    match content(Sel::Bits, inner)? {
        Val::Bits(u, b) => Ok(Some((u, b))),
        _ => unreachable!(),
    }
}

fn tbs(b: &[u8]) -> R<Cert<'_>> {
    whole(b, |c| {
        let version = version(c)?;
        let serial = c.int()?;
        let inner_alg = alg(c.seq()?)?;
        let issuer = c.seq()?;
        let (not_before, not_after) = whole(c.seq()?, |c| Ok((c.time()?, c.time()?)))?;
        let subject = c.seq()?;
        let (key_alg, key) = whole(c.seq()?, |c| Ok((alg(c.seq()?)?, c.bits()?)))?;
        let issuer_uid = unique_id(c, 1)?;
        let subject_uid = unique_id(c, 2)?;
        let extensions = match c.ahead()? {
            Some(Sel::Tag(3)) => c.any()?.inside(),
            _ => None,
        };
        Ok(Cert {
            tbs: b,
            version,
            serial,
            inner_alg,
            issuer,
            not_before,
            not_after,
            subject,
            key_alg,
            key,
            issuer_uid,
            subject_uid,
            extensions,
            outer_alg: Alg { oid: &[], params: None },
            signature: (0, &[]),
        })
    })
}

pub fn certificate(b: &[u8]) -> R<Cert<'_>> {
    whole(b, |c| {
        whole(c.seq()?, |c| {
            let mut cert = tbs(c.seq()?)?;
            cert.outer_alg = alg(c.seq()?)?;
            cert.signature = c.bits()?;
            Ok(cert)
        })
    })
}

// ------------------------------------------------------------- names

/// C, ST, L, O, OU, CN
pub type NameFields<'a> = [Option<&'a [u8]>; 6];

pub const NAME_ARCS: [u32; 6] = [6, 8, 7, 10, 11, 3];

pub fn name(b: &[u8]) -> R<NameFields<'_>> {
    let mut out: NameFields = [None; 6];
    let mut c = Cur { b };
    while !c.at_end() {
        let set = c.of(Kind::Set)?.inside().unwrap();
        let mut s = Cur { b: set };
        loop {
            let ava = s.seq()?; // an empty set ends here
            whole(ava, |c| {
                let oid = oid_arcs(c.oid()?);
                let v = c.any()?;
                let Some(i) = (0..6).find(|i| oid == [2, 5, 4, NAME_ARCS[*i]]) else {
                    return Ok(());
                };
                let text = match v {
                    Val::Ia5(t) | Val::Printable(t) | Val::Utf8(t) => t,
                    _ if out[i].is_some() => return Err(Cause::Several),
                    other => return Err(Cause::Type(Kind::Printable, other.kind())),
                };
                if out[i].is_some() {
                    return Err(Cause::Oid(oid));
                }
                out[i] = Some(text);
                Ok(())
            })?;
            if s.at_end() {
                break;
            }
        }
    }
    Ok(out)
}

// ------------------------------------------------------------- extensions

#[derive(Debug, Clone, PartialEq)]
pub enum Gn<'a> {
    Mail(&'a [u8]),
    Dns(&'a [u8]),
    Uri(&'a [u8]),
    Ip(&'a [u8]),
    Rid(&'a [u8]),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Content<'a> {
    Ski(&'a [u8]),
    Ku([bool; 9]),
    San(Vec<Gn<'a>>),
    Bc(bool, Option<i64>),
    Eku(Vec<u8>),
    Role(&'a [u8]),
    Unknown(&'a [u8]),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Ext<'a> {
    pub oid: &'a [u8],
    pub critical: bool,
    pub content: Content<'a>,
}

pub const OID_SKI: &[u32] = &[2, 5, 29, 14];
pub const OID_KU: &[u32] = &[2, 5, 29, 15];
pub const OID_SAN: &[u32] = &[2, 5, 29, 17];
pub const OID_BC: &[u32] = &[2, 5, 29, 19];
pub const OID_EKU: &[u32] = &[2, 5, 29, 37];
pub const OID_ROLE: &[u32] = &[1, 3, 6, 1, 4, 1, 50316, 802, 1];
pub const OID_PURPOSE: &[u32] = &[1, 3, 6, 1, 5, 5, 7, 3];

/// the one sequence that is all of `b`, element by element
fn only_seq<T>(b: &[u8]) -> R<&[u8]> {
    whole(b, |c| c.seq())
}

pub fn extension(b: &[u8]) -> R<Ext<'_>> {
    whole(b, |c| {
        let oid = c.oid()?;
        let critical = match c.ahead()? {
            Some(Sel::Bool) => matches!(c.any()?, Val::Bool(true)),
            _ => false,
        };
        let raw = c.octets()?;
        let arcs = oid_arcs(oid);
        let content = match &arcs[..] {
            x if x == OID_SKI => Content::Ski(whole(raw, |c| c.octets())?),
            x if x == OID_KU => {
                let (pad, b) = whole(raw, |c| c.bits())?;
                let n = b.len() * 8 - pad as usize;
                let mut f = [false; 9];
                for (i, f) in f.iter_mut().enumerate() {
                    *f = i < n && (b[i / 8] >> (7 - i % 8)) & 1 == 1;
                }
                Content::Ku(f)
            }
            x if x == OID_SAN => {
                let mut c = Cur { b: only_seq::<()>(raw)? };
                let mut names = vec![];
                while !c.at_end() {
                    let Val::Tag(n, t) = c.of(Kind::Tag)? else { unreachable!() };
                    names.push(match n {
                        1 => Gn::Mail(as_text(t)?),
                        2 => Gn::Dns(as_text(t)?),
                        6 => Gn::Uri(as_text(t)?),
                        7 => Gn::Ip(t),
                        8 => {
                            crate::refder::content(Sel::Oid, t)?;
                            Gn::Rid(t)
                        }
                        _ => return Err(Cause::Tag(n)),
                    });
                }
                Content::San(names)
            }
            x if x == OID_BC => whole(only_seq::<()>(raw)?, |c| {
                let ca = match c.ahead()? {
                    Some(Sel::Bool) => matches!(c.any()?, Val::Bool(true)),
                    _ => false,
                };
                let path = match c.ahead()? {
                    Some(Sel::Int) => {
                        let n = c.int()?;
                        match int_value(n) {
                            None if c.end().is_err() => return Err(Cause::Several),
                            None => return Err(Cause::IntBig(n.len())),
                            v => v,
                        }
                    }
                    _ => None,
                };
                Ok(Content::Bc(ca, path))
            })?,
            x if x == OID_EKU => {
                let mut c = Cur { b: only_seq::<()>(raw)? };
                let mut list = vec![];
                while !c.at_end() {
                    let a = oid_arcs(c.oid()?);
                    match a.split_last() {
                        Some((last @ (1 | 2 | 3 | 4 | 8 | 9), head)) if head == OID_PURPOSE => list.push(*last as u8),
                        _ => return Err(Cause::Oid(a)),
                    }
                }
                Content::Eku(list)
            }
            x if x == OID_ROLE => match whole(raw, |c| c.of(Kind::Utf8))? {
                Val::Utf8(t) => Content::Role(t),
                _ => unreachable!(),
            },
            _ => Content::Unknown(raw),
        };
        Ok(Ext { oid, critical, content })
    })
}

fn as_text(t: &[u8]) -> R<&[u8]> {
    content(Sel::Ia5, t)?;
    Ok(t)
}

pub fn extensions(raw: &[u8]) -> R<Vec<Ext<'_>>> {
    let mut c = Cur { b: only_seq::<()>(raw)? };
    let mut out = vec![];
    while !c.at_end() {
        out.push(extension(c.seq()?)?);
    }
    Ok(out)
}
