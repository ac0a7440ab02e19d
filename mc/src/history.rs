//! Operations, the places of their inputs, and the server that runs histories in pristine processes
//! (S01). Used by `mc` and, with block-level scheduling, by `sched`.

use crate::gen::*;
use crate::refx509::*;
use crate::sut::*;
use rx509::der::*;
use rx509::x509::ext::Extension;
use rx509::x509::printer::{LinePrinter, Printable};
use rx509::x509::{Certificate, Name};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::BufRead;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    Walk,
    Cert,
    Name,
    Ext,
}

pub struct Op {
    pub entry: Entry,
    pub input: Vec<u8>,
    /// few callbacks: takes part in interleavings and deeper histories
    pub core: bool,
    /// one of many: takes part in short histories only
    pub wide: bool,
}

pub fn ops() -> &'static Vec<Op> {
    static OPS: OnceLock<Vec<Op>> = OnceLock::new();
    OPS.get_or_init(|| {
        let mut v = vec![];
        let mut add = |entry, core: bool, input: Vec<u8>| v.push(Op { entry, input, core, wide: false });
        use Entry::*;
        // walks, among them inputs of the same length that differ in one octet
        add(Walk, true, vec![]);
        add(Walk, true, vec![5, 0]);
        add(Walk, true, tlv(2, &[5]));
        add(Walk, true, tlv(2, &[0xFA]));
        add(Walk, true, seq(&[&[5, 0]]));
        add(Walk, true, set(&[&[5, 0]]));
        add(Walk, false, tlv(2, &[1, 2, 3, 4, 5]));
        add(Walk, false, seq(&[&tlv(2, &[1]), &tlv(2, &[2]), &[5, 0]]));
        add(Walk, true, seq(&[&set(&[&tlv(0xA1, &[])]), &[5, 0]]));
        add(Walk, true, tlv(1, &[0xFF]));
        add(Walk, true, tlv(1, &[2]));
        add(Walk, true, seq(&[&tlv(1, &[2]), &[5, 0]]));
        add(Walk, true, vec![0x30, 0x03, 0x05, 0x00]);
        add(Walk, false, vec![0x1F, 0x00]);
        add(Walk, false, tlv(2, &[]));
        add(Walk, false, vec![0x04, 0x80]);
        add(Walk, false, vec![0x04, 0x81, 0x7F]);
        add(Walk, true, oid(&[1, 2, 840, 113549, 1, 1, 1]));
        add(Walk, true, oid(&[1, 3, 101, 112]));
        add(Walk, false, oid(&[2, 5, 4, 3]));
        add(Walk, false, oid(&[1, 2, 840, 113549, 1, 1, 5]));
        add(Walk, true, oid(&[2, 5, 29, 15]));
        add(Walk, true, oid(&[2, 5, 29, 14]));
        add(Walk, false, tlv(6, &[0x88, 0x37, 0x03]));
        add(Walk, false, tlv(6, &[0x2A, 0x88, 0x80, 0x80, 0x80, 0x01]));
        add(Walk, true, tlv(0x0C, b"abc"));
        add(Walk, false, tlv(0x13, b"abc"));
        add(Walk, false, tlv(0x16, b"abd"));
        add(Walk, false, tlv(0x0C, &[0xC3, 0x28]));
        add(Walk, true, tlv(3, &[7, 0x80]));
        add(Walk, true, tlv(3, &[0, 0x80]));
        add(Walk, false, tlv(3, &[9, 0x80]));
        add(Walk, true, tlv(0x17, b"500101000000Z"));
        add(Walk, false, tlv(0x17, b"491231235959Z"));
        add(Walk, false, tlv(0x18, b"20000229120000Z"));
        add(Walk, false, tlv(0x17, b"010229120000Z"));
        add(Walk, true, tlv(0x82, &[5, 0]));
        add(Walk, false, tlv(4, &fill(300, 1)));
        add(Walk, false, tlv(4, &fill(300, 2)));
        add(Walk, false, {
            let mut b = vec![5, 0];
            for _ in 0..40 {
                b = seq(&[&b]);
            }
            b
        });
        // names
        let rdns = |list: &[(u32, &[u8])]| -> Vec<u8> { list.iter().flat_map(|(a, t)| rdn(*a, 0x13, t)).collect() };
        add(Name, true, rdns(&[(3, b"Alice")]));
        add(Name, true, rdns(&[(3, b"Alicf")]));
        add(Name, true, rdns(&[(10, b"Alice")]));
        add(Name, true, rdns(&[(3, b"A"), (3, b"B")]));
        add(Name, false, rdns(&[(6, b"DE"), (8, b"S"), (7, b"L"), (10, b"O"), (11, b"U"), (3, b"N")]));
        add(Name, false, rdns(&[(3, b"A")])[..5].to_vec());
        add(Name, false, rdn(3, 2, &[1]));
        // extensions
        let e = |arcs: &[u32], c: Option<u8>, content: &[u8]| -> Vec<u8> {
            let b = ext_of(arcs, c, content);
            b[2..].to_vec() // short forms only: the content of the sequence
        };
        add(Ext, true, e(OID_KU, None, &tlv(3, &[5, 0xA0])));
        add(Ext, true, e(OID_KU, None, &tlv(3, &[5, 0x60])));
        add(Ext, true, e(OID_KU, Some(0xFF), &tlv(3, &[7, 0xFF, 0x80])));
        add(Ext, true, e(OID_BC, None, &seq(&[&tlv(1, &[0xFF]), &tlv(2, &[3])])));
        add(Ext, true, e(OID_BC, None, &seq(&[])));
        add(Ext, true, e(OID_BC, None, &seq(&[&tlv(2, &[5])])));
        add(Ext, true, e(OID_EKU, None, &seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 1]), &oid(&[1, 3, 6, 1, 5, 5, 7, 3, 2])])));
        add(Ext, false, e(OID_EKU, None, &seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 3])])));
        add(Ext, false, e(OID_EKU, None, &seq(&[&oid(&[1, 3, 6, 1, 5, 5, 7, 3, 5])])));
        add(Ext, true, e(OID_SAN, None, &seq(&[&tlv(0x82, b"a.b"), &tlv(0x87, &[127, 0, 0, 1]), &tlv(0x88, &[0x2A, 3])])));
        add(Ext, false, e(OID_SAN, None, &seq(&[&tlv(0x86, b"a.b"), &tlv(0x81, b"x@y")])));
        add(Ext, false, e(OID_SAN, None, &seq(&[&tlv(0x84, b"")])));
        add(Ext, false, e(OID_SKI, None, &tlv(4, &[1, 2, 3])));
        add(Ext, false, e(OID_SKI, None, &tlv(4, &[1, 2, 4])));
        add(Ext, false, e(OID_ROLE, None, &tlv(0x0C, b"Operator")));
        add(Ext, true, e(&[1, 2, 3, 4], None, &[0xCA, 0xFE]));
        add(Ext, false, e(&[1, 2, 3, 4], None, &[0xCA, 0xFE])[..7].to_vec());
        // certificates
        let base = base_certs();
        add(Cert, true, tiny_cert());
        add(Cert, true, base[0].clone());
        add(Cert, false, base[1].clone());
        add(Cert, false, base[2].clone());
        add(Cert, false, base[4].clone());
        add(Cert, true, {
            let mut c = base[0].clone();
            *c.last_mut().unwrap() ^= 1;
            c
        });
        add(Cert, false, {
            let mut c = base[1].clone();
            let n = c.len() / 2;
            c[n] ^= 1;
            c
        });
        add(Cert, true, base[0][..base[0].len() - 1].to_vec());
        add(Cert, false, [&base[0][..], &[5, 0]].concat());
        add(Cert, false, crate::gen::cert_with_ext(&seq(&[&ext_of(OID_BC, None, &seq(&[&tlv(2, &[1, 2, 3, 4, 5])]))])));
        wide(&mut v);
        v
    })
}

/// Every kind of element, defect and field once.
fn wide(v: &mut Vec<Op>) {
    use Entry::*;
    let mut seen: std::collections::HashSet<(u8, Vec<u8>)> = v.iter().map(|o| (o.entry as u8, o.input.clone())).collect();
    let mut add = |entry: Entry, input: Vec<u8>| {
        if seen.insert((entry as u8, input.clone())) {
            v.push(Op { entry, input, core: false, wide: true });
        }
    };
    for e in good_elements().into_iter().chain(bad_elements()).chain(cut_elements()) {
        add(Walk, e.clone());
        add(Walk, seq(&[&[5, 0], &e]));
        add(Name, e.clone());
        add(Name, set(&[&seq(&[&oid(&[2, 5, 4, 3]), &e])]));
        add(Ext, ext_body(OID_KU, &e));
        add(Ext, ext_body(OID_SAN, &seq(&[&e])));
        add(Ext, cat(&[&oid(&[1, 2, 3]), &e]));
    }
    for t in [
        &b"991301000000Z"[..], b"990001000000Z", b"990132000000Z", b"990100000000Z", b"990229000000Z", b"960229000000Z", b"990101240000Z",
        b"990101006000Z", b"990101000060Z", b"990101000000z", b"990101000000+", b"990101000000Z0", b"9901010000Z", b"99010100000", b"99010100000aZ",
        b"-90101000000Z", b" 90101000000Z", b"000101000000Z", b"491231235959Z", b"500101000000Z", b"690101000000Z", b"700101000000Z",
    ] {
        add(Walk, tlv(0x17, t));
        add(Walk, tlv(0x18, &cat(&[b"19", t])));
        add(Walk, tlv(0x18, &cat(&[b"20", t])));
    }
    for k in 0..5 {
        for e in list_items(k) {
            match k {
                0 => add(Ext, e.get(2..).unwrap_or(&[]).to_vec()),
                1 => add(Ext, ext_body(OID_SAN, &seq(&[&e]))),
                2 => add(Ext, ext_body(OID_EKU, &seq(&[&e]))),
                3 => add(Name, e),
                _ => add(Name, set(&[&e])),
            }
        }
    }
    for (id, goods) in content_goods() {
        for g in goods {
            add(Ext, ext_body(id, &g));
            add(Ext, ext_body(id, &g[..g.len() - 1]));
            add(Ext, ext_body(id, &cat(&[&g, &[5, 0]])));
        }
    }
    // a full certificate with each part left out, doubled, or of another kind
    let c = plain_cert(true);
    let spans = element_spans(&c);
    for s in spans {
        for new in [vec![], cat(&[&c[s.0..s.2], &c[s.0..s.2]]), tlv(1, &[1]), tlv(2, &[3]), vec![0x24, 0]] {
            add(Cert, replace_element(&c, s, &new));
        }
    }
}

pub fn op_text(i: usize) -> String {
    let o = &ops()[i];
    format!("{:?} of {}", o.entry, show(&o.input))
}

/// Inputs whose look-alikes are tried: the operations that are not many, and long contents of each kind.
pub fn bases() -> &'static Vec<(Entry, Vec<u8>)> {
    static BASES: OnceLock<Vec<(Entry, Vec<u8>)>> = OnceLock::new();
    BASES.get_or_init(|| {
        let mut v: Vec<(Entry, Vec<u8>)> = ops().iter().filter(|o| !o.wide && o.input.len() < 260).map(|o| (o.entry, o.input.clone())).collect();
        use Entry::*;
        let text: Vec<u8> = (0..48).map(|k| b'A' + k % 26).collect();
        v.push((Walk, oid(&[1, 2, 840, 113549, 1, 9, 16, 2, 47, 5, 6, 7, 8, 9, 10])));
        v.push((Walk, oid(&[1, 3, 6, 1, 4, 1, 311, 21, 8, 1234567, 7654321, 11, 12, 13, 14])));
        v.push((Walk, tlv(2, &fill(24, 1))));
        v.push((Walk, cat(&[&tlv(2, &fill(4, 5)), &tlv(2, &fill(4, 5))])));
        v.push((Walk, tlv(3, &cat(&[&[3], &fill(40, 2)[..], &[0x40]]))));
        v.push((Walk, tlv(4, &fill(64, 3))));
        for t in [0x0C, 0x13, 0x16] {
            v.push((Walk, tlv(t, &text)));
            v.push((Walk, cat(&[&tlv(t, &text[..9]), &tlv(t, &text[..9])])));
        }
        v.push((Walk, tlv(0x82, &text)));
        v.push((Walk, seq(&[&tlv(0x17, b"161014162253Z"), &tlv(0x18, b"20161014162253Z")])));
        v.push((Walk, (0..12u8).flat_map(|k| tlv([2, 4, 5, 1][k as usize % 4], &[&[k + 1][..], &[k], &[], &[0xFF]][k as usize % 4].to_vec())).collect()));
        v.push((Name, (0..6u32).flat_map(|k| rdn([6, 8, 7, 10, 11, 3][k as usize], 0x0C, &text[..20])).collect()));
        v.push((Name, (0..5u32).flat_map(|_| rdn(11, 0x13, b"Unit of the organization")).collect()));
        v.push((Ext, ext_body(OID_SAN, &seq(&[&tlv(0x82, b"www.example.org"), &tlv(0x82, b"example.org"), &tlv(0x86, b"http://example.org/"), &tlv(0x81, b"me@example.org"), &tlv(0x87, &[10, 1, 2, 3]), &tlv(0x87, &[0x20; 16]), &tlv(0x88, &[0x2B, 6, 1, 4, 1, 0x82, 0x37, 0x15])]))));
        let eku: Vec<u8> = [1u32, 2, 3, 4, 8, 9].iter().flat_map(|k| oid(&[1, 3, 6, 1, 5, 5, 7, 3, *k])).collect();
        v.push((Ext, ext_body(OID_EKU, &tlv(0x30, &eku))));
        v.push((Ext, ext_body(OID_SKI, &tlv(4, &fill(20, 1)))));
        v.push((Ext, ext_body(OID_ROLE, &tlv(0x0C, &text[..24]))));
        v.push((Ext, ext_body(&[1, 3, 6, 1, 4, 1, 311, 20, 2, 1, 7], &fill(50, 4))));
        for c in base_certs().into_iter().chain([cert_with_ext(&all_extensions()[..])]) {
            v.push((Cert, c));
        }
        v.sort_by_key(|(_, b)| b.len());
        v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
        v
    })
}

/// The ways to change one octet of a base, or to swap two.
pub const TWISTS: &[&str] =
    &["its lowest bit flipped", "bit 5 flipped", "its highest bit flipped", "swapped with the next", "swapped with the next but one", "one more, the next one less", "swapped with the fourth from it"];

pub fn look_alike(base: &[u8], at: usize, twist: usize) -> Option<Vec<u8>> {
    let mut v = base.to_vec();
    match twist {
        0 | 1 | 2 => v[at] ^= [1, 0x20, 0x80][twist],
        5 => {
            let next = v.get_mut(at + 1)?;
            *next = next.wrapping_sub(1);
            v[at] = v[at].wrapping_add(1);
        }
        _ => {
            let to = at + [1, 2, 0, 4][twist - 3];
            if to >= v.len() {
                return None;
            }
            v.swap(at, to);
        }
    }
    (v != base).then_some(v)
}

pub fn core_ops() -> Vec<usize> {
    (0..ops().len()).filter(|i| ops()[*i].core).collect()
}

// ---------------------------------------------------------------- running operations (in the child)

type Hook = Box<dyn FnMut(u64)>;

thread_local! {
    /// called at every callback the code under test makes, with its number
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn point() {
    let k = CALLS.with(|c| c.replace(c.get() + 1));
    // taken out while it runs: nested operations have no hook
    if let Some(mut h) = HOOK.with(|h| h.borrow_mut().take()) {
        h(k);
        HOOK.with(|x| *x.borrow_mut() = Some(h));
    }
}

struct Abandon;

#[derive(Default)]
struct Log(String);

impl ParseHandler for Log {
    fn begin_constructed(&mut self) {
        self.0 += "enter\n";
        point();
    }
    fn end_constructed(&mut self) {
        self.0 += "leave\n";
        point();
    }
    fn on_type(&mut self, a: &ASNType) {
        let _ = writeln!(self.0, "{a} | {a:?}");
        point();
        // conversions, also after whatever happened at the callback
        let _ = writeln!(self.0, "{a} | {a:?}");
        match a {
            ASNType::Integer(i) => {
                let _ = writeln!(self.0, "{:?} {}", i.value.as_i32(), i.value);
            }
            ASNType::BitString(b) => {
                let b = &b.value;
                let _ = write!(self.0, "{} {:?} ", b.size(), b.octets());
                let mut first = b.iter();
                first.next();
                for x in b.iter() {
                    self.0.push(if x { '1' } else { '0' });
                    point();
                }
                for x in first {
                    self.0.push(if x { '1' } else { '0' });
                }
                self.0.push('\n');
            }
            ASNType::ObjectIdentifier(o) => {
                let _ = writeln!(self.0, "{:?} {}", o.value.values(), o.value);
            }
            _ => {}
        }
    }
    fn on_error(&mut self, e: &ASNError) {
        let _ = writeln!(self.0, "error {e} | {e:?}");
        point();
    }
}

#[derive(Default)]
struct Page(String);

impl LinePrinter for Page {
    fn begin_type(&mut self) {
        self.0 += "<";
        point();
    }
    fn begin_line(&mut self) {
        self.0 += "^";
        point();
    }
    fn print_fmt(&mut self, a: &core::fmt::Arguments) {
        let _ = write!(self.0, "{a}");
    }
    fn print_str(&mut self, s: &str) {
        self.0 += s;
    }
    fn println_fmt(&mut self, a: &core::fmt::Arguments) {
        let _ = writeln!(self.0, "{a}");
    }
    fn println_str(&mut self, s: &str) {
        self.0 += s;
        self.0 += "\n";
    }
    fn end_type(&mut self) {
        self.0 += ">";
        point();
    }
}

fn print_into(log: &RefCell<Log>, p: &dyn Printable) {
    let mut page = Page::default();
    p.print(&mut page);
    log.borrow_mut().0 += &page.0;
}

fn execute(entry: Entry, b: &[u8]) -> String {
    let log = RefCell::new(Log::default());
    let r = guard(|| match entry {
        Entry::Walk => {
            let mut h = Log::default();
            let r = parse_all(b, &mut h);
            let l = &mut log.borrow_mut().0;
            *l += &h.0;
            let _ = writeln!(l, "{r:?}");
            if let Err(e) = r {
                let _ = writeln!(l, "{e}");
            }
        }
        Entry::Cert => match Certificate::parse(b) {
            Err(e) => {
                let _ = writeln!(log.borrow_mut().0, "{e} | {e:?}");
            }
            Ok(c) => {
                point();
                let _ = writeln!(log.borrow_mut().0, "{c:?}");
                print_into(&log, &c);
                let t = &c.tbs_certificate.value;
                for n in [&t.issuer, &t.subject] {
                    match n.parse() {
                        Ok(n) => print_into(&log, &n),
                        Err(e) => {
                            let _ = writeln!(log.borrow_mut().0, "{e} | {e:?}");
                        }
                    }
                }
                match t.extensions.as_ref().map(|x| x.parse()) {
                    Some(Ok(l)) => {
                        let _ = writeln!(log.borrow_mut().0, "{l:?}");
                    }
                    Some(Err(e)) => {
                        let _ = writeln!(log.borrow_mut().0, "{e} | {e:?}");
                    }
                    None => {}
                }
            }
        },
        Entry::Name => {
            let n = Name { inner: b };
            match n.parse() {
                Ok(x) => {
                    point();
                    let _ = writeln!(log.borrow_mut().0, "{:?}", name_fields(&x));
                    print_into(&log, &x);
                }
                Err(e) => {
                    let _ = writeln!(log.borrow_mut().0, "{e} | {e:?}");
                }
            }
        }
        Entry::Ext => match Extension::parse(b) {
            Ok(x) => {
                point();
                let _ = writeln!(log.borrow_mut().0, "{x:?}");
                print_into(&log, &x);
            }
            Err(e) => {
                let _ = writeln!(log.borrow_mut().0, "{e} | {e:?}");
            }
        },
    });
    let mut s = log.into_inner().0;
    if let Err(p) = r {
        s += &p;
    }
    s
}

/// Takes every callback and text, keeps nothing (S04).
#[cfg(feature = "blocks")]
mod quiet {
    use super::*;

    pub struct Quiet;

    impl std::fmt::Write for Quiet {
        fn write_str(&mut self, _: &str) -> std::fmt::Result {
            Ok(())
        }
    }

    impl ParseHandler for Quiet {
        fn begin_constructed(&mut self) {}
        fn end_constructed(&mut self) {}
        fn on_type(&mut self, a: &ASNType) {
            let _ = write!(self, "{a}");
            if let ASNType::BitString(b) = a {
                for x in b.value.iter() {
                    std::hint::black_box(x);
                }
            }
        }
        fn on_error(&mut self, e: &ASNError) {
            let _ = write!(self, "{e}");
        }
    }

    impl LinePrinter for Quiet {
        fn begin_type(&mut self) {}
        fn begin_line(&mut self) {}
        fn print_fmt(&mut self, a: &core::fmt::Arguments) {
            let _ = self.write_fmt(*a);
        }
        fn print_str(&mut self, _: &str) {}
        fn println_fmt(&mut self, a: &core::fmt::Arguments) {
            let _ = self.write_fmt(*a);
        }
        fn println_str(&mut self, _: &str) {}
        fn end_type(&mut self) {}
    }

    fn told<T>(r: Result<T, ASNError>) -> Option<T> {
        r.map_err(|e| {
            let _ = write!(Quiet, "{e}");
        })
        .ok()
    }

    pub fn operate(entry: Entry, b: &[u8]) {
        match entry {
            Entry::Walk => {
                told(parse_all(b, &mut Quiet));
            }
            Entry::Cert => {
                if let Some(c) = told(Certificate::parse(b)) {
                    c.print(&mut Quiet);
                    if let Some(x) = &c.tbs_certificate.value.extensions {
                        told(x.parse());
                    }
                }
            }
            Entry::Name => {
                if let Some(n) = told(Name { inner: b }.parse()) {
                    n.print(&mut Quiet);
                }
            }
            Entry::Ext => {
                if let Some(x) = told(Extension::parse(b)) {
                    x.print(&mut Quiet);
                }
            }
        }
    }
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ---------------------------------------------------------------- places

pub const PLACES: &[&str] = &[
    "a fresh allocation of its own",
    "the start of a reused buffer",
    "offset 1 of a reused buffer, amid FF octets",
    "offset 7 of a reused buffer, amid well-formed elements",
    "read-only memory up to the end of a page, an unmapped page behind",
    "read-only memory from the start of a page, an unmapped page before",
    "offset 3 of a reused buffer, followed by a copy of itself",
    "a fresh allocation of another thread",
    "the start of a reused buffer, on another thread",
    "the stack, amid long-form length octets",
    "a fresh allocation of a thread with a name",
    "offset 2 of a reused buffer, on a thread with a name and a large stack",
];

/// Names of threads.
pub const THREADS: &[Option<&str>] = &[
    None,
    Some(""),
    Some("main"),
    Some("worker"),
    Some("worker-1"),
    Some("worker-0"),
    Some("tokio-runtime-worker"),
    Some("rayon"),
    Some("test"),
    Some("debug"),
    Some("tests::it_works"),
    Some("0"),
    Some("1"),
    Some("thread"),
    Some("<unnamed>"),
    Some("a name of a thread that is quite long, longer than sixteen octets, and \u{fc}nusual"),
];

const PAGE: usize = 4096;
const BUF: usize = 1 << 16;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

thread_local! {
    static SHARED: RefCell<Vec<u8>> = RefCell::new(vec![0; BUF]);
    static GUARDED_AREA: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
}

fn area() -> *mut u8 {
    GUARDED_AREA.with(|g| {
        if g.get().is_null() {
            // unmapped page, BUF octets, unmapped page
            let p = unsafe { mmap(std::ptr::null_mut(), BUF + 2 * PAGE, 0, 0x22, -1, 0) };
            assert!(p as isize != -1);
            g.set(unsafe { p.add(PAGE) });
        }
        g.get()
    })
}

/// Runs the operation with its input in the given place; the input must come out unmodified.
fn placed(op: usize, place: usize) -> String {
    let o = &ops()[op];
    put(o.entry, &o.input, place)
}

fn put(entry: Entry, input: &[u8], place: usize) -> String {
    let n = input.len();
    let over = |at: usize, fill: &dyn Fn(&mut [u8])| -> String {
        SHARED.with(|s| {
            let mut s = s.borrow_mut();
            let end = (at + 2 * n + 64).min(BUF);
            fill(&mut s[..end]);
            s[at..at + n].copy_from_slice(input);
            let before = s[..end].to_vec();
            let r = execute(entry, &s[at..at + n]);
            if s[..end] != before[..] {
                return r + "\ninput or its surroundings modified";
            }
            r
        })
    };
    match place {
        1 => over(0, &|_| {}),
        2 => over(1, &|s| s.fill(0xFF)),
        3 => over(7, &|s| {
            for (i, x) in s.iter_mut().enumerate() {
                // 05 00 from every odd position, so also right behind even and odd inputs
                *x = if (i + 7 + n) % 2 == 1 { 5 } else { 0 };
            }
        }),
        4 | 5 => {
            let a = area();
            unsafe {
                assert!(mprotect(a, BUF, 3) == 0);
                std::ptr::write_bytes(a, 0x30, BUF);
                let at = if place == 4 { a.add(BUF - n) } else { a };
                std::ptr::copy_nonoverlapping(input.as_ptr(), at, n);
                assert!(mprotect(a, BUF, 1) == 0);
                execute(entry, std::slice::from_raw_parts(at, n))
            }
        }
        6 => over(3, &|s| {
            if n > 0 {
                for (i, x) in s.iter_mut().enumerate() {
                    *x = input[(i + 2 * n - 3 % n) % n];
                }
            }
        }),
        7 => std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || put(entry, input, 0)).unwrap().join().unwrap()
        }),
        8 => std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, || put(entry, input, 1)).unwrap().join().unwrap()
        }),
        10 => std::thread::scope(|s| {
            let t = std::thread::Builder::new().name("worker-1".into()).stack_size(1 << 20);
            t.spawn_scoped(s, || put(entry, input, 0)).unwrap().join().unwrap()
        }),
        11 => std::thread::scope(|s| {
            let t = std::thread::Builder::new().name("main".into()).stack_size(1 << 26);
            t.spawn_scoped(s, || over(2, &|s| s.fill(0x30))).unwrap().join().unwrap()
        }),
        9 => {
            let mut b = [0x82u8; 2048];
            if n + 64 > b.len() {
                return put(entry, input, 0);
            }
            b[32..32 + n].copy_from_slice(input);
            let before = b;
            let r = execute(entry, &b[32..32 + n]);
            if b != before {
                return r + "\ninput or its surroundings modified";
            }
            r
        }
        _ => {
            let b: Box<[u8]> = input.into();
            let r = execute(entry, &b);
            if *b != *input {
                return r + "\ninput modified";
            }
            r
        }
    }
}

pub const SETTINGS: &[&[(&str, &str)]] = &[
    &[],
    &[("TZ", "America/New_York"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
    &[("TZ", "UTC-14"), ("LANG", "C"), ("NO_COLOR", "1")],
    &[("RUST_BACKTRACE", "1"), ("RUST_LOG", "trace"), ("DEBUG", "1")],
    &[("HOME", "/nonexistent"), ("PATH", ""), ("COLUMNS", "20"), ("TERM", "dumb")],
    &[("SOURCE_DATE_EPOCH", "0"), ("CARGO_MANIFEST_DIR", "/"), ("SSL_CERT_FILE", "/dev/null")],
];

// ---------------------------------------------------------------- two threads, one at a time

struct Sched {
    m: Mutex<(usize, [bool; 2], Vec<u8>, usize)>, // whose turn, done, schedule, position
    cv: Condvar,
}

impl Sched {
    /// At a scheduling point: the schedule names who runs next.
    fn next(g: &mut (usize, [bool; 2], Vec<u8>, usize)) {
        let want = g.2.get(g.3).map(|x| (*x - b'0') as usize);
        g.3 += 1;
        let mut t = want.unwrap_or(g.0);
        if g.1[t] {
            t = 1 - t;
        }
        g.0 = t;
    }
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn yield_at(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        Self::next(&mut g);
        self.cv.notify_all();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] = true;
        Self::next(&mut g);
        self.cv.notify_all();
    }
}

/// Both operations on threads of their own; the schedule decides at every callback who goes on.
fn interleaved(a: usize, b: usize, schedule: &str) -> [String; 2] {
    let mut s = schedule.as_bytes().to_vec();
    let first = if s.is_empty() { b'0' } else { s.remove(0) };
    let sched = Arc::new(Sched { m: Mutex::new(((first - b'0') as usize, [false; 2], s, 0)), cv: Condvar::new() });
    let t: Vec<_> = [a, b]
        .into_iter()
        .enumerate()
        .map(|(me, op)| {
            let sched = sched.clone();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    sched.wait(me);
                    let s2 = sched.clone();
                    fn keep(s: Arc<Sched>, me: usize) -> Hook {
                        Box::new(move |_| s.yield_at(me))
                    }
                    HOOK.with(|h| *h.borrow_mut() = Some(keep(s2, me)));
                    let r = placed(op, 0);
                    HOOK.with(|h| *h.borrow_mut() = None);
                    sched.done(me);
                    r
                })
                .unwrap()
        })
        .collect();
    let mut r = t.into_iter().map(|t| t.join().unwrap());
    [r.next().unwrap(), r.next().unwrap()]
}

// ---------------------------------------------------------------- the server

/// `P` op.place ...        sequence; one outcome per step
/// `E` setting op          with environment variables
/// `R` count op op ...     first op repeated, then the others
/// `B` place list          operations in one process, each against outcomes given as `=hash`
/// `X` op k op             first one abandoned by its handler at callback k
/// `N` op k op             second one run inside callback k of the first
/// `T` op op schedule      two threads
/// `C` op                  number of callbacks
/// `G` e.c.r.f.op ...       each step with the environment, clocks, random octets and files answering as told
/// `H` name.op ...          each step on a thread of that name
/// `L` base at twist       the look-alike alone
/// `M` base at twist       base and look-alike in turn, in a reused buffer and elsewhere
/// `K` op                  number of basic blocks (`sched` only)
/// `W` entry octets        basic blocks, octets allocated, octets copied or compared (`sched` only)
/// `D` op op first n n ..  two threads, switched after so many basic blocks (`sched` only)
fn serve_one(spec: &str, emit: &mut dyn FnMut(String)) {
    let w: Vec<&str> = spec.split(' ').collect();
    let n = |i: usize| -> usize { w[i].parse().unwrap() };
    match w[0] {
        "P" => {
            for s in &w[1..] {
                let (o, p) = s.split_once('.').unwrap();
                emit(placed(o.parse().unwrap(), p.parse().unwrap()));
            }
        }
        "E" => {
            for (k, v) in SETTINGS[n(1)] {
                std::env::set_var(k, v);
            }
            if n(1) > 3 {
                let _ = std::env::set_current_dir("/");
            }
            emit(placed(n(2), 0));
        }
        "R" => {
            let first = placed(n(2), 0);
            let mut last = first.clone();
            for _ in 1..n(1) {
                let r = placed(n(2), 0);
                if r != first {
                    last = r;
                    break;
                }
            }
            emit(last);
            for s in &w[3..] {
                emit(placed(s.parse().unwrap(), 0));
            }
        }
        "B" => {
            // order k over the operations w[3..]: every sequence of k of them occurs
            let (place, k) = (n(1), n(2));
            let list: Vec<(usize, u64)> = w[3..]
                .iter()
                .map(|s| {
                    let (o, h) = s.split_once('=').unwrap();
                    (o.parse().unwrap(), u64::from_str_radix(h, 16).unwrap())
                })
                .collect();
            for (step, i) in de_bruijn(list.len(), k).into_iter().enumerate() {
                let (op, want) = list[i];
                let p = if place == 100 { step % PLACES.len() } else { place };
                let r = placed(op, p);
                if hash(&r) != want {
                    emit(format!("step {step} operation {op}\n{r}"));
                    return;
                }
            }
            emit(String::new());
        }
        "X" => {
            let k = n(2) as u64;
            CALLS.with(|c| c.set(0));
            let quit: Hook = Box::new(move |i| {
                if i == k {
                    std::panic::resume_unwind(Box::new(Abandon));
                }
            });
            HOOK.with(|h| *h.borrow_mut() = Some(quit));
            let _ = placed(n(1), 0);
            HOOK.with(|h| *h.borrow_mut() = None);
            emit(placed(n(3), 0));
        }
        "N" => {
            let (k, inner) = (n(2) as u64, n(3));
            CALLS.with(|c| c.set(0));
            let got = Arc::new(Mutex::new(String::new()));
            let g2 = got.clone();
            let nest: Hook = Box::new(move |i| {
                if i == k {
                    *g2.lock().unwrap() = placed(inner, 0);
                }
            });
            HOOK.with(|h| *h.borrow_mut() = Some(nest));
            let outer = placed(n(1), 0);
            HOOK.with(|h| *h.borrow_mut() = None);
            emit(outer);
            let g = got.lock().unwrap().clone();
            emit(g);
        }
        "T" => {
            let [a, b] = interleaved(n(1), n(2), w[3]);
            emit(a);
            emit(b);
        }
        "C" => {
            CALLS.with(|c| c.set(0));
            let _ = placed(n(1), 0);
            emit(CALLS.with(|c| c.get()).to_string());
        }
        #[cfg(not(feature = "blocks"))]
        "G" => {
            for s in &w[1..] {
                let v: Vec<usize> = s.split('.').map(|x| x.parse().unwrap()).collect();
                crate::outside::set(v[0], v[1], v[2], v[3], v[4]);
                let r = placed(v[5], 0);
                crate::outside::set(0, 0, 0, 0, 0);
                emit(r);
            }
        }
        "H" => {
            for s in &w[1..] {
                let (t, o) = s.split_once('.').unwrap();
                let op: usize = o.parse().unwrap();
                let mut b = std::thread::Builder::new().stack_size(1 << 20);
                if let Some(n) = THREADS[t.parse::<usize>().unwrap()] {
                    b = b.name(n.into());
                }
                emit(std::thread::scope(|s| b.spawn_scoped(s, || placed(op, 0)).unwrap().join().unwrap()));
            }
        }
        "L" | "M" => {
            let (entry, base) = &bases()[n(1)];
            let like = match w[3] {
                "-" => base.clone(),
                _ => look_alike(base, n(2), n(3)).unwrap(),
            };
            if w[0] == "L" {
                emit(put(*entry, &like, 0));
                return;
            }
            for (b, p) in [(base, 1), (&like, 1), (base, 1), (&like, 0), (&like, 1)] {
                emit(put(*entry, b, p));
            }
        }
        #[cfg(feature = "blocks")]
        "K" => {
            let o = n(1);
            emit(crate::blocks::count(|| drop(placed(o, 0))).to_string());
        }
        #[cfg(feature = "blocks")]
        "W" => {
            let b: Vec<u8> = (0..w[2].len() / 2).map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap()).collect();
            let entry = [Entry::Walk, Entry::Cert, Entry::Name, Entry::Ext][n(1)];
            let c = crate::blocks::count(|| drop(guard(|| quiet::operate(entry, &b))));
            emit(format!("{c} {} {}", crate::blocks::allocated(), crate::blocks::copied()));
        }
        #[cfg(feature = "blocks")]
        "D" => {
            let (a, b) = (n(1), n(2));
            let segs: Vec<u64> = w[4..].iter().map(|x| x.parse().unwrap()).collect();
            let [a, b] = crate::blocks::two(n(3), &segs, [Box::new(move || placed(a, 0)), Box::new(move || placed(b, 0))]);
            emit(a);
            emit(b);
        }
        _ => panic!("unknown history {spec}"),
    }
}

/// Sequence over 0..n in which every word of length k occurs (a de Bruijn sequence, unrolled).
fn de_bruijn(n: usize, k: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..n {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let mut a = vec![0; n * k + 1];
    let mut out = vec![];
    db(1, 1, n, k, &mut a, &mut out);
    let head: Vec<usize> = out[..(k - 1).min(out.len())].to_vec();
    out.extend(head);
    out
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

/// The server's main loop; exits when its input ends.
pub fn history_process(_mode: &str) -> i32 {
    install_hook();
    ops();
    bases();
    unsafe {
        prctl(1, 9, 0, 0, 0);
    }
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap_or(0) == 0 {
            return 0;
        }
        let spec = line.trim_end();
        let (verbose, spec) = match spec.strip_prefix('V') {
            Some(s) => (true, s),
            None => (false, spec),
        };
        unsafe {
            let pid = fork();
            if pid < 0 {
                println!("FORK failed");
                return 2;
            }
            if pid == 0 {
                prctl(1, 9, 0, 0, 0);
                // hangs only: the slowest histories take a minute
                alarm(if spec.starts_with(['B', 'V']) { 850 } else { 200 });
                let mut out = String::from("OK");
                serve_one(spec, &mut |s| {
                    out.push('\t');
                    if verbose || spec.starts_with(['C', 'K', 'W']) {
                        out += &escape(&s);
                    } else {
                        let _ = write!(out, "{:016x}", hash(&s));
                    }
                });
                out.push('\n');
                let b = out.as_bytes();
                let mut at = 0;
                while at < b.len() {
                    let k = write(1, b.as_ptr().add(at).cast(), b.len() - at);
                    if k <= 0 {
                        _exit(3);
                    }
                    at += k as usize;
                }
                _exit(0);
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            if st != 0 {
                let s = format!("DIED {st:x}\n");
                write(1, s.as_ptr().cast(), s.len());
            }
        }
    }
}

