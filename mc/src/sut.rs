//! Calls into the real rx509 and comparison of what it returns with the reference model.

use crate::engine::{bad, panic_text, Stop};
use crate::refder::*;
use crate::refx509 as rx;
use rx509::der::{parse_all, ASNBitString, ASNError, ASNInteger, ASNObjectIdentifier, ASNType, ParseHandler};
use rx509::x509::ext::{Extension, GeneralName, SpecificExtension};
use rx509::x509::{AlgorithmIdentifier, Certificate, Name, RelativeDistinguishedName, Version};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static WHERE: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            WHERE.with(|w| *w.borrow_mut() = loc);
        } else {
            old(info);
        }
    }));
}

/// Payload with which a recording handler leaves the walk early after a mismatch.
struct Leave;

/// Runs code under test; a panic in it becomes an Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(outer));
    r.map_err(|e| {
        if e.is::<Leave>() {
            "left".to_string()
        } else {
            format!("panic: {} at {}", panic_text(&*e), WHERE.with(|w| w.borrow().clone()))
        }
    })
}

/// As `guard`, a panic being a violation.
pub fn run<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Stop> {
    guard(f).map_err(|p| Stop::Bad(format!("{what} finishes with a value or an error"), p))
}

pub type Chk = Result<(), (String, String)>;

pub fn chk(ok: bool, expected: impl FnOnce() -> String, actual: impl FnOnce() -> String) -> Chk {
    if ok {
        Ok(())
    } else {
        Err((expected(), actual()))
    }
}

pub fn need(c: Chk) -> Result<(), Stop> {
    c.map_err(|(e, a)| Stop::Bad(e, a))
}

/// Same bytes; cheap when it is the same memory.
#[inline]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    (a.as_ptr() == b.as_ptr() && a.len() == b.len()) || a == b
}

/// The very same memory.
#[inline]
pub fn place(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && (a.as_ptr() == b.as_ptr() || a.is_empty())
}

pub fn show(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 48 {
        s += &format!("..({} octets)", b.len());
    }
    s
}

pub fn show_asn(a: &ASNType) -> String {
    let mut s = format!("{:?}", a);
    if s.len() > 300 {
        s = s.chars().take(300).collect::<String>() + "...";
    }
    s
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Oid(c) => format!("Oid({:?})", oid_arcs(c)),
        v => {
            let s = format!("{:?}", v);
            if s.len() > 300 {
                s.chars().take(300).collect::<String>() + "..."
            } else {
                s
            }
        }
    }
}

// ------------------------------------------------------------- values

/// Bit string content as seen through the public accessors.
pub fn bits_same(b: &ASNBitString, want: (u8, &[u8])) -> bool {
    let (pad, oct) = want;
    if b.size() != oct.len() * 8 - pad as usize {
        return false;
    }
    match b.octets() {
        Some(o) => pad == 0 && same(o, oct),
        None => {
            if pad == 0 {
                return false;
            }
            // only reachable bit by bit
            let n = oct.len() * 8 - pad as usize;
            let mut k = 0;
            for bit in b.iter() {
                if k >= n || bit != ((oct[k / 8] >> (7 - k % 8)) & 1 == 1) {
                    return false;
                }
                k += 1;
            }
            k == n
        }
    }
}

#[allow(unreachable_patterns)]
pub fn asn_kind(a: &ASNType) -> Kind {
    match a {
        ASNType::Boolean(_) => Kind::Bool,
        ASNType::Sequence(_) => Kind::Seq,
        ASNType::Set(_) => Kind::Set,
        ASNType::Integer(_) => Kind::Int,
        ASNType::PrintableString(_) => Kind::Printable,
        ASNType::IA5String(_) => Kind::Ia5,
        ASNType::UTF8String(_) => Kind::Utf8,
        ASNType::Null => Kind::Null,
        ASNType::UTCTime(_) => Kind::Time,
        ASNType::GeneralizedTime(_) => Kind::Time,
        ASNType::BitString(_) => Kind::Bits,
        ASNType::OctetString(_) => Kind::Octets,
        ASNType::ObjectIdentifier(_) => Kind::Oid,
        ASNType::ExplicitTag(_) => Kind::Tag,
        _ => Kind::Other,
    }
}

pub fn asn_same(a: &ASNType, v: &Val) -> bool {
    match (a, v) {
        (ASNType::Boolean(x), Val::Bool(y)) => x.value == *y,
        (ASNType::Sequence(x), Val::Seq(y)) => same(x.value, y),
        (ASNType::Set(x), Val::Set(y)) => same(x.value, y),
        (ASNType::Integer(x), Val::Int(y)) => same(x.value.bytes, y),
        (ASNType::PrintableString(x), Val::Printable(y)) => same(x.value.as_bytes(), y),
        (ASNType::IA5String(x), Val::Ia5(y)) => same(x.value.as_bytes(), y),
        (ASNType::UTF8String(x), Val::Utf8(y)) => same(x.value.as_bytes(), y),
        (ASNType::Null, Val::Null) => true,
        (ASNType::UTCTime(x), Val::Time(y)) => x.value == *y,
        (ASNType::BitString(x), Val::Bits(p, y)) => bits_same(&x.value, (*p, y)),
        (ASNType::OctetString(x), Val::Octets(y)) => same(x.value, y),
        (ASNType::ObjectIdentifier(x), Val::Oid(y)) => oid_same(y, x.value.values()),
        (ASNType::ExplicitTag(x), Val::Tag(n, y)) => x.value.value == *n && same(x.value.contents, y),
        _ => false,
    }
}

/// Same content octets, as far as a value of that kind exposes them (kinds are equal).
pub fn asn_content(a: &ASNType, v: &Val) -> bool {
    match v {
        Val::Bool(_) | Val::Null | Val::Time(_) | Val::Oid(_) => true,
        Val::Bits(p, y) => match a {
            ASNType::BitString(x) => *p != 0 || x.value.octets().is_some_and(|o| same(o, y)),
            _ => false,
        },
        _ => asn_same(a, v),
    }
}

/// The slices an element borrows are the very region that encodes it.
pub fn asn_in_place(a: &ASNType, v: &Val) -> bool {
    match (a, v) {
        (ASNType::Sequence(x), Val::Seq(y)) => place(x.value, y),
        (ASNType::Set(x), Val::Set(y)) => place(x.value, y),
        (ASNType::Integer(x), Val::Int(y)) => place(x.value.bytes, y),
        (ASNType::PrintableString(x), Val::Printable(y)) => place(x.value.as_bytes(), y),
        (ASNType::IA5String(x), Val::Ia5(y)) => place(x.value.as_bytes(), y),
        (ASNType::UTF8String(x), Val::Utf8(y)) => place(x.value.as_bytes(), y),
        (ASNType::BitString(x), Val::Bits(p, y)) => *p != 0 || x.value.octets().is_some_and(|o| place(o, y)),
        (ASNType::OctetString(x), Val::Octets(y)) => place(x.value, y),
        (ASNType::ExplicitTag(x), Val::Tag(_, y)) => place(x.value.contents, y),
        _ => true,
    }
}

pub fn int_same(i: &ASNInteger, c: &[u8]) -> bool {
    same(i.bytes, c)
}

pub fn oid_is(o: &ASNObjectIdentifier, c: &[u8]) -> bool {
    oid_same(c, o.values())
}

// ------------------------------------------------------------- walks

#[derive(Clone, Copy, PartialEq)]
pub enum Look {
    /// kind and value of every element
    Values,
    /// kind and delimited content, not what a value means
    Content,
    /// kinds only: the protocol
    Kinds,
    /// values in place
    Place,
}

struct Lockstep<'w, 'a, 'x> {
    walk: &'w mut Walk<'a>,
    look: Look,
    extra: &'x mut dyn FnMut(&ASNType, &Val) -> Chk,
    diff: Option<(String, String)>,
    errors: u32,
    error_text: String,
    after_error: bool,
    elems: u64,
}

impl Lockstep<'_, '_, '_> {
    fn differ(&mut self, expected: String, actual: String) {
        if self.diff.is_none() {
            self.diff = Some((expected, actual));
        }
        std::panic::resume_unwind(Box::new(Leave));
    }

    fn step(&mut self, got: &dyn Fn() -> String, want_enter: bool) {
        if self.errors > 0 {
            self.differ("no callback after the error".into(), got());
        }
        let e = self.walk.next();
        let ok = match e {
            Ev::Enter => want_enter,
            Ev::Leave => !want_enter,
            _ => false,
        };
        if !ok {
            self.differ(format!("{:?}", e), got());
        }
    }
}

impl ParseHandler for Lockstep<'_, '_, '_> {
    fn begin_constructed(&mut self) {
        self.step(&|| "enter".into(), true)
    }
    fn end_constructed(&mut self) {
        self.step(&|| "leave".into(), false)
    }
    fn on_type(&mut self, asn: &ASNType) {
        if self.errors > 0 {
            self.differ("no callback after the error".into(), show_asn(asn));
        }
        self.elems += 1;
        match self.walk.next() {
            Ev::Elem(v) => {
                let ok = match self.look {
                    Look::Values => asn_same(asn, &v),
                    Look::Content => asn_kind(asn) == v.kind() && asn_content(asn, &v),
                    Look::Kinds => asn_kind(asn) == v.kind(),
                    Look::Place => asn_kind(asn) != v.kind() || asn_in_place(asn, &v),
                };
                if !ok {
                    self.differ(show_val(&v), show_asn(asn));
                }
                if let Err((e, a)) = (self.extra)(asn, &v) {
                    self.differ(e, a);
                }
            }
            other => self.differ(format!("{:?}", other), show_asn(asn)),
        }
    }
    fn on_error(&mut self, err: &ASNError) {
        if self.errors > 0 {
            self.differ("a single error callback".into(), format!("another: {}", err));
        }
        match self.walk.next() {
            Ev::Defect(_) => {}
            other => self.differ(format!("{:?}", other), format!("error: {}", err)),
        }
        self.errors += 1;
        self.error_text = err.to_string();
        self.after_error = true;
    }
}

pub struct Walked {
    pub elems: u64,
    pub cause: Option<Cause>,
    pub error_text: Option<String>,
}

/// Walks `bytes` with the real code in lockstep with the reference walk.
pub fn walk<'a>(
    bytes: &'a [u8],
    w: &mut Walk<'a>,
    look: Look,
    extra: &mut dyn FnMut(&ASNType, &Val) -> Chk,
) -> Result<Walked, Stop> {
    w.reset(bytes);
    let mut h = Lockstep {
        walk: w,
        look,
        extra,
        diff: None,
        errors: 0,
        error_text: String::new(),
        after_error: false,
        elems: 0,
    };
    let r = guard(|| parse_all(bytes, &mut h));
    let Lockstep { diff, errors, error_text, elems, walk: w, .. } = h;
    if let Some((e, a)) = diff {
        return bad(e, a);
    }
    let r = match r {
        Ok(r) => r,
        Err(p) => return bad(format!("walk continues with {:?}", w.next()), p),
    };
    match r {
        Ok(()) => {
            let e = w.next();
            if e != Ev::Done {
                return bad(format!("{:?}", e), "walk ended with success");
            }
            if errors != 0 {
                return bad("no error callback on success", format!("error callback: {}", error_text));
            }
            match w.finished() {
                Some(Ok(())) => Ok(Walked { elems, cause: None, error_text: None }),
                other => bad(format!("{:?}", other), "walk ended with success"),
            }
        }
        Err(err) => {
            if errors != 1 {
                return bad(
                    format!("exactly one error callback before returning an error; {:?}", w.next()),
                    format!("{} error callbacks, returned {}", errors, err),
                );
            }
            let text = err.to_string();
            if text != error_text {
                return bad(format!("returned error equals the reported one ({})", error_text), text);
            }
            match w.finished() {
                Some(Err(c)) => Ok(Walked { elems, cause: Some(c.clone()), error_text: Some(text) }),
                other => bad(format!("{:?}", other), format!("walk failed: {}", text)),
            }
        }
    }
}

pub fn no_extra(_: &ASNType, _: &Val) -> Chk {
    Ok(())
}

/// Full comparison of a walk; outcome class for the explorer.
pub fn walk_exact<'a>(bytes: &'a [u8], w: &mut Walk<'a>) -> Result<u64, Stop> {
    let r = walk(bytes, w, Look::Values, &mut no_extra)?;
    Ok(walk_class(&r))
}

pub fn walk_class(r: &Walked) -> u64 {
    r.elems * 1000 + r.cause.as_ref().map(cause_class).unwrap_or(0)
}

pub fn cause_class(c: &Cause) -> u64 {
    match c {
        Cause::BoolLen(n) => 1000 + *n as u64,
        Cause::BoolVal(b) => 2000 + *b as u64,
        Cause::End => 1,
        Cause::IntEmpty => 2,
        Cause::NullLen(n) => 3000 + (*n as u64 & 255),
        Cause::Id(b) => 4000 + *b as u64,
        Cause::Indefinite => 3,
        Cause::Reserved => 4,
        Cause::LenCount(b) => 5000 + *b as u64,
        Cause::LenPadded(k, _) => 6000 + *k as u64,
        Cause::OidLong => 5,
        Cause::Utf8(s) => 7000 + s.len() as u64,
        Cause::Time => 6,
        Cause::BitUnused(b) => 8000 + *b as u64,
        Cause::BitEmpty(b) => 8500 + *b as u64,
        Cause::Type(a, b) => 9000 + (*a as u64) * 16 + *b as u64,
        Cause::Trailing(k) => 9500 + *k as u64,
        Cause::IntBig(n) => 9600 + (*n as u64 & 63),
        Cause::Version(v) => 9700 + (*v as u64 & 63),
        Cause::Oid(o) => 9800 + (o.len() as u64 & 63),
        Cause::Tag(t) => 9900 + *t as u64,
        Cause::Several => 7,
    }
}

// ------------------------------------------------------------- certificates

pub fn version_no(v: Version) -> u8 {
    match v {
        Version::V1 => 1,
        Version::V2 => 2,
        Version::V3 => 3,
    }
}

pub fn alg_same(a: &AlgorithmIdentifier, r: &rx::Alg) -> bool {
    oid_is(&a.algorithm, r.oid)
        && match (&a.parameters, &r.params) {
            (None, None) => true,
            (Some(x), Some(y)) => asn_same(x, y),
            _ => false,
        }
}

pub fn show_alg(r: &rx::Alg) -> String {
    format!("{:?} {}", oid_arcs(r.oid), r.params.as_ref().map(show_val).unwrap_or("no parameters".into()))
}

pub fn opt_bits_same(a: &Option<ASNBitString>, r: &Option<(u8, &[u8])>) -> bool {
    match (a, r) {
        (None, None) => true,
        (Some(x), Some(y)) => bits_same(x, *y),
        _ => false,
    }
}

/// Which fields of a certificate a property looks at.
#[derive(Clone, Copy)]
pub struct Fields {
    pub version: bool,
    pub plain: bool,
    pub algs: bool,
    pub optional: bool,
    pub times: bool,
}

pub const ALL_FIELDS: Fields = Fields { version: true, plain: true, algs: true, optional: true, times: true };

/// Compares the decoded fields with the reference.
pub fn cert_fields(c: &Certificate, r: &rx::Cert, f: Fields) -> Chk {
    let t = &c.tbs_certificate.value;
    if f.version {
        chk(version_no(t.version) == r.version, || format!("version v{}", r.version), || format!("{:?}", t.version))?;
    }
    if f.plain {
        chk(int_same(&t.serial_number, r.serial), || format!("serial {}", show(r.serial)), || format!("{:?}", t.serial_number))?;
        chk(same(t.issuer.inner, r.issuer), || format!("issuer {}", show(r.issuer)), || show(t.issuer.inner))?;
        chk(same(t.subject.inner, r.subject), || format!("subject {}", show(r.subject)), || show(t.subject.inner))?;
        chk(
            bits_same(&t.subject_public_key_info.subject_public_key, r.key),
            || format!("key {} {}", r.key.0, show(r.key.1)),
            || format!("{:?}", t.subject_public_key_info.subject_public_key),
        )?;
        chk(
            bits_same(&c.signature_value, r.signature),
            || format!("signature {} {}", r.signature.0, show(r.signature.1)),
            || format!("{:?}", c.signature_value),
        )?;
    }
    if f.times {
        chk(t.validity.not_before.value == r.not_before, || format!("not before {}", r.not_before), || format!("{:?}", t.validity))?;
        chk(t.validity.not_after.value == r.not_after, || format!("not after {}", r.not_after), || format!("{:?}", t.validity))?;
    }
    if f.algs {
        chk(alg_same(&t.signature, &r.inner_alg), || format!("inner algorithm {}", show_alg(&r.inner_alg)), || format!("{:?}", t.signature))?;
        chk(
            alg_same(&t.subject_public_key_info.algorithm, &r.key_alg),
            || format!("key algorithm {}", show_alg(&r.key_alg)),
            || format!("{:?}", t.subject_public_key_info.algorithm),
        )?;
        chk(
            alg_same(&c.signature_algorithm, &r.outer_alg),
            || format!("outer algorithm {}", show_alg(&r.outer_alg)),
            || format!("{:?}", c.signature_algorithm),
        )?;
    }
    if f.optional {
        chk(opt_bits_same(&t.issuer_unique_id, &r.issuer_uid), || format!("issuer unique id {:?}", r.issuer_uid), || format!("{:?}", t.issuer_unique_id))?;
        chk(opt_bits_same(&t.subject_unique_id, &r.subject_uid), || format!("subject unique id {:?}", r.subject_uid), || format!("{:?}", t.subject_unique_id))?;
        chk(
            t.extensions.is_some() == r.extensions.is_some(),
            || format!("extensions present: {}", r.extensions.is_some()),
            || format!("{}", t.extensions.is_some()),
        )?;
    }
    Ok(())
}

pub fn parse_cert(b: &[u8]) -> Result<Result<Certificate<'_>, ASNError>, String> {
    guard(|| Certificate::parse(b))
}

/// Accept/reject agreement, and the given fields when both accept.
pub fn cert_check(b: &[u8], verdict: bool, fields: Option<Fields>) -> Result<u64, Stop> {
    let want = rx::certificate(b);
    let got = parse_cert(b);
    match (&want, &got) {
        (Ok(r), Ok(Ok(c))) => {
            if let Some(f) = fields {
                let g = guard(|| cert_fields(c, r, f));
                match g {
                    Ok(x) => need(x)?,
                    Err(p) => return bad("certificate fields can be read", p),
                }
            }
            Ok(1_000_000 + r.version as u64)
        }
        (Err(c), Ok(Err(_))) => Ok(cause_class(c)),
        (Ok(_), Ok(Err(e))) if verdict => bad("certificate accepted", format!("rejected: {}", e)),
        (Ok(_), Err(p)) => bad("certificate accepted", p.clone()),
        (Err(c), Ok(Ok(_))) if verdict => bad(format!("certificate rejected: {:?}", c), "accepted"),
        (Err(c), Err(p)) if verdict => bad(format!("certificate rejected: {:?}", c), p.clone()),
        _ => Ok(2_000_000),
    }
}

// ------------------------------------------------------------- names and extensions

pub fn name_fields<'a>(n: &RelativeDistinguishedName<'a>) -> [Option<&'a str>; 6] {
    [
        n.country_name,
        n.state_or_province_unit_name,
        n.locality_name,
        n.organization,
        n.organizational_unit_name,
        n.common_name,
    ]
}

pub fn name_check(b: &[u8]) -> Result<u64, Stop> {
    let want = rx::name(b);
    let got = guard(|| {
        let n = Name { inner: b };
        n.parse().map(|x| name_fields(&x).map(|f| f.map(|s| s.as_bytes().to_vec()))).map_err(|e| e.to_string())
    });
    match (want, got) {
        (Ok(w), Ok(Ok(g))) => {
            for i in 0..6 {
                if w[i] != g[i].as_deref() {
                    return bad(
                        format!("name attribute {}: {:?}", rx::NAME_ARCS[i], w[i].map(show)),
                        format!("{:?}", g[i].as_deref().map(show)),
                    );
                }
            }
            Ok(w.iter().enumerate().map(|(i, f)| (f.is_some() as u64) << i).sum::<u64>() + 100_000)
        }
        (Err(c), Ok(Err(_))) => Ok(cause_class(&c)),
        (Ok(w), Ok(Err(e))) => bad(format!("name accepted {:?}", w.map(|f| f.map(show))), format!("rejected: {}", e)),
        (Err(c), Ok(Ok(g))) => {
            bad(format!("name rejected: {:?}", c), format!("accepted {:?}", g.map(|f| f.map(|x| show(&x)))))
        }
        (w, Err(p)) => bad(format!("{:?}", w.map(|f| f.map(|x| x.map(show)))), p),
    }
}

pub fn content_same(s: &SpecificExtension, r: &rx::Content) -> bool {
    match (s, r) {
        (SpecificExtension::SubjectKeyIdentifier(x), rx::Content::Ski(y)) => same(x.key_identifier, y),
        (SpecificExtension::KeyUsage(x), rx::Content::Ku(y)) => {
            [
                x.digital_signature,
                x.content_commitment,
                x.key_encipherment,
                x.data_encipherment,
                x.key_agreement,
                x.key_cert_sign,
                x.crl_sign,
                x.encipher_only,
                x.decipher_only,
            ] == *y
        }
        (SpecificExtension::SubjectAlternativeName(x), rx::Content::San(y)) => {
            x.names.len() == y.len() && x.names.iter().zip(y).all(|(a, b)| gn_same(a, b))
        }
        (SpecificExtension::BasicConstraints(x), rx::Content::Bc(ca, path)) => {
            x.ca == *ca && x.path_length_constraint.map(|v| v as i64) == *path
        }
        (SpecificExtension::ExtendedKeyUsage(x), rx::Content::Eku(y)) => {
            x.ext_key_usages.len() == y.len() && x.ext_key_usages.iter().zip(y).all(|(a, b)| purpose_no(a) == *b)
        }
        (SpecificExtension::ModbusRole(x), rx::Content::Role(y)) => same(x.role.as_bytes(), y),
        (SpecificExtension::Unknown(x), rx::Content::Unknown(y)) => same(x, y),
        _ => false,
    }
}

pub fn purpose_no(p: &rx509::x509::ext::ExtendedKeyUsagePurpose) -> u8 {
    use rx509::x509::ext::ExtendedKeyUsagePurpose::*;
    match p {
        ServerAuth => 1,
        ClientAuth => 2,
        CodeSigning => 3,
        EmailProtection => 4,
        TimeStamping => 8,
        OCSPSigning => 9,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}

pub fn gn_same(a: &GeneralName, b: &rx::Gn) -> bool {
    match (a, b) {
        (GeneralName::Rfc822Name(x), rx::Gn::Mail(y)) => same(x.as_bytes(), y),
        (GeneralName::DnsName(x), rx::Gn::Dns(y)) => same(x.as_bytes(), y),
        (GeneralName::UniformResourceIdentifier(x), rx::Gn::Uri(y)) => same(x.as_bytes(), y),
        (GeneralName::IpAddress(x), rx::Gn::Ip(y)) => same(x, y),
        (GeneralName::RegisteredId(x), rx::Gn::Rid(y)) => oid_is(x, y),
        _ => false,
    }
}

pub fn ext_same(e: &Extension, r: &rx::Ext) -> Chk {
    chk(oid_is(&e.extn_id, r.oid), || format!("extension id {:?}", oid_arcs(r.oid)), || format!("{:?}", e.extn_id))?;
    chk(e.critical == r.critical, || format!("critical {}", r.critical), || format!("{}", e.critical))?;
    chk(content_same(&e.content, &r.content), || format!("{:?}", r.content), || format!("{:?}", e.content))
}

pub fn content_class(c: &rx::Content) -> u64 {
    match c {
        rx::Content::Ski(_) => 1,
        rx::Content::Ku(f) => 512 + f.iter().enumerate().map(|(i, b)| (*b as u64) << i).sum::<u64>(),
        rx::Content::San(n) => 2000 + n.len() as u64,
        rx::Content::Bc(c, p) => 3000 + *c as u64 + 2 * p.is_some() as u64,
        rx::Content::Eku(n) => 4000 + n.len() as u64,
        rx::Content::Role(_) => 5,
        rx::Content::Unknown(_) => 6,
    }
}

/// One extension, given the content of its sequence.
pub fn ext_check(b: &[u8]) -> Result<u64, Stop> {
    let want = rx::extension(b);
    let got = guard(|| Extension::parse(b));
    match (&want, got) {
        (Ok(w), Ok(Ok(g))) => {
            need(guard(|| ext_same(&g, w)).unwrap_or_else(|p| Err(("extension fields can be read".into(), p))))?;
            Ok(100_000 + content_class(&w.content))
        }
        (Err(c), Ok(Err(_))) => Ok(cause_class(c)),
        (Ok(w), Ok(Err(e))) => bad(format!("extension accepted: {:?}", w), format!("rejected: {}", e)),
        (Err(c), Ok(Ok(g))) => bad(format!("extension rejected: {:?}", c), format!("accepted: {:?}", g)),
        (_, Err(p)) => bad(format!("{:?}", want), p),
    }
}

/// The extension list of a certificate whose extensions tag holds `raw` (the certificate is built here).
pub fn exts_check(cert: &[u8]) -> Result<u64, Stop> {
    let Ok(rc) = rx::certificate(cert) else {
        return Err(Stop::Prune);
    };
    let Some(raw) = rc.extensions else { return Err(Stop::Prune) };
    let want = rx::extensions(raw);
    let got = guard(|| -> Result<Chk, String> {
        let c = Certificate::parse(cert).map_err(|e| format!("certificate rejected: {e}"))?;
        let Some(x) = c.tbs_certificate.value.extensions.as_ref() else {
            return Err("extensions absent".into());
        };
        let list = x.parse().map_err(|e| e.to_string())?;
        Ok(match &want {
            Err(c) => Err((format!("extension list rejected: {:?}", c), format!("accepted with {} extensions", list.len()))),
            Ok(w) => (|| {
                chk(list.len() == w.len(), || format!("{} extensions", w.len()), || format!("{}", list.len()))?;
                for (a, b) in list.iter().zip(w) {
                    ext_same(a, b)?;
                }
                Ok(())
            })(),
        })
    });
    match (&want, got) {
        (_, Ok(Ok(c))) => {
            need(c)?;
            Ok(1_000_000 + want.as_ref().map(|w| w.len() as u64).unwrap_or(0))
        }
        (Err(c), Ok(Err(_))) => Ok(cause_class(c)),
        (Ok(w), Ok(Err(e))) => bad(format!("{} extensions", w.len()), format!("rejected: {}", e)),
        (_, Err(p)) => bad(format!("{:?}", want.as_ref().map(|w| w.len())), p),
    }
}

// ------------------------------------------------------------- reports

/// Records a report and watches the layout protocol.
#[derive(Default)]
pub struct Recorder {
    level: i64,
    open: bool,
    current: String,
    pub lines: Vec<crate::refprint::Line>,
    pub fault: Option<String>,
    /// what a console would show
    pub shown: String,
}

impl Recorder {
    fn fault(&mut self, f: &str) {
        if self.fault.is_none() {
            self.fault = Some(format!("{f} (level {}, after line {:?})", self.level, self.lines.last().map(|l| &l.text)));
        }
    }

    fn put(&mut self, s: std::fmt::Arguments) {
        use std::fmt::Write;
        if !self.open {
            self.fault("text outside a started line");
        }
        let _ = write!(self.current, "{}", s);
        let _ = write!(self.shown, "{}", s);
    }

    fn end_line(&mut self) {
        let text = std::mem::take(&mut self.current);
        self.lines.push(crate::refprint::Line { level: self.level.max(0) as usize, text });
        self.open = false;
        self.shown.push('\n');
    }

    /// The layout verdict once the report is over.
    pub fn finish(&mut self) {
        if self.open {
            self.fault("the report ends inside a line");
        }
        if self.level != 0 {
            self.fault("the report does not end at its first level");
        }
    }
}

impl rx509::x509::printer::LinePrinter for Recorder {
    fn begin_type(&mut self) {
        if self.open {
            self.fault("level opened inside a line");
        }
        self.level += 1;
    }
    fn begin_line(&mut self) {
        if self.open {
            self.fault("a line started twice");
        }
        self.open = true;
        for _ in 0..self.level.max(0) {
            self.shown += "  ";
        }
    }
    fn print_fmt(&mut self, a: &core::fmt::Arguments) {
        self.put(*a)
    }
    fn print_str(&mut self, s: &str) {
        self.put(format_args!("{}", s))
    }
    fn println_fmt(&mut self, a: &core::fmt::Arguments) {
        self.put(*a);
        self.end_line();
    }
    fn println_str(&mut self, s: &str) {
        self.put(format_args!("{}", s));
        self.end_line();
    }
    fn end_type(&mut self) {
        if self.open {
            self.fault("level closed inside a line");
        }
        self.level -= 1;
        if self.level < 0 {
            self.fault("level below its start");
        }
    }
}

pub fn report(p: &dyn rx509::x509::printer::Printable) -> Recorder {
    let mut r = Recorder::default();
    p.print(&mut r);
    r.finish();
    r
}
