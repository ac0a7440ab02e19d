//! Reference rendering of reports from decoded values (public fields), written separately from the
//! library's own printing code.

use crate::refder::{hex_line, int_text, oid_text};
use rx509::der::*;
use rx509::x509::ext::*;
use rx509::x509::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Line {
    pub level: usize,
    pub text: String,
}

#[derive(Default)]
pub struct Page {
    pub lines: Vec<Line>,
    level: usize,
}

impl Page {
    fn line(&mut self, text: impl Into<String>) {
        self.lines.push(Line { level: self.level, text: text.into() });
    }

    fn under(&mut self, head: &str, f: impl FnOnce(&mut Page)) {
        self.line(head);
        self.level += 1;
        f(self);
        self.level -= 1;
    }

    pub fn octets(&mut self, b: &[u8]) {
        for c in b.chunks(16) {
            self.line(hex_line(c, false));
        }
    }

    pub fn bits(&mut self, b: &ASNBitString) {
        if let Some(o) = b.octets() {
            self.octets(o);
        }
    }

    pub fn alg(&mut self, a: &AlgorithmIdentifier) {
        self.line(format!("algorithm: {}", oid_text(a.algorithm.values())));
    }

    pub fn rdn(&mut self, n: &RelativeDistinguishedName) {
        let all = [
            ("C", n.country_name),
            ("ST", n.state_or_province_unit_name),
            ("L", n.locality_name),
            ("O", n.organization),
            ("OU", n.organizational_unit_name),
            ("CN", n.common_name),
        ];
        for (k, v) in all {
            if let Some(v) = v {
                self.line(format!("{k}: {v}"));
            }
        }
    }

    fn name(&mut self, what: &str, n: &Name) {
        match n.parse() {
            Ok(x) => self.under(what, |p| p.rdn(&x)),
            Err(_) => self.under(&format!("{} (raw):", what.trim_end_matches(':')), |p| {
                // the raw octets sit one level deeper
                p.level += 1;
                p.octets(n.inner);
                p.level -= 1;
            }),
        }
    }

    pub fn validity(&mut self, v: &Validity) {
        self.line(format!("not before: {}", v.not_before.value));
        self.line(format!("not after: {}", v.not_after.value));
    }

    pub fn spki(&mut self, s: &SubjectPublicKeyInfo) {
        self.under("algorithm:", |p| p.alg(&s.algorithm));
        self.under("subject public key:", |p| p.bits(&s.subject_public_key));
    }

    pub fn tbs(&mut self, t: &TBSCertificate) {
        self.line(format!(
            "version: {}",
            match t.version {
                Version::V1 => "V1",
                Version::V2 => "V2",
                Version::V3 => "V3",
            }
        ));
        self.line(format!("serial number: {}", int_text(t.serial_number.bytes)));
        self.under("signature:", |p| p.alg(&t.signature));
        self.name("issuer:", &t.issuer);
        self.under("validity:", |p| p.validity(&t.validity));
        self.name("subject:", &t.subject);
        self.under("subject public key info:", |p| p.spki(&t.subject_public_key_info));
        if let Some(b) = &t.issuer_unique_id {
            self.under("issuer unique ID:", |p| p.bits(b));
        }
        if let Some(b) = &t.subject_unique_id {
            self.under("subject unique ID:", |p| p.bits(b));
        }
        if let Some(x) = &t.extensions {
            match x.parse() {
                Ok(list) => {
                    if !list.is_empty() {
                        self.under("Extensions", |p| {
                            for e in &list {
                                p.ext(e);
                            }
                        });
                    }
                }
                Err(e) => self.line(format!("**Error** parsing extensions: {e}")),
            }
        }
    }

    pub fn cert(&mut self, c: &Certificate) {
        self.under("tbs certificate:", |p| p.tbs(&c.tbs_certificate.value));
        self.under("signature algorithm:", |p| p.alg(&c.signature_algorithm));
        self.under("signature value:", |p| p.bits(&c.signature_value));
    }

    pub fn ext(&mut self, e: &Extension) {
        let title = match &e.content {
            SpecificExtension::SubjectKeyIdentifier(_) => "Subject Key Identifier",
            SpecificExtension::KeyUsage(_) => "Key Usage",
            SpecificExtension::SubjectAlternativeName(_) => "Subject Alternative Name",
            SpecificExtension::BasicConstraints(_) => "Basic Constraints",
            SpecificExtension::ExtendedKeyUsage(_) => "Extended Key Usage",
            SpecificExtension::ModbusRole(_) => "Modbus Role",
            SpecificExtension::Unknown(_) => "Unknown",
            #[allow(unreachable_patterns)]
            _ => "?",
        };
        self.under(title, |p| {
            p.line(format!("extension id: {}", oid_text(e.extn_id.values())));
            p.line(format!("critical: {}", if e.critical { "true" } else { "false" }));
            p.content(&e.content);
        });
    }

    pub fn general_name(&mut self, n: &GeneralName) {
        match n {
            GeneralName::Rfc822Name(t) => self.line(format!("RFC822 Name: {t}")),
            GeneralName::DnsName(t) => self.line(format!("DNS Name: {t}")),
            GeneralName::UniformResourceIdentifier(t) => self.line(format!("Uniform Resource Identifier: {t}")),
            GeneralName::IpAddress(o) => self.under("IP Address:", |p| p.octets(o)),
            GeneralName::RegisteredId(i) => self.line(format!("Registered ID: {}", oid_text(i.values()))),
            _ => self.line("Unsupported name type"),
        }
    }

    pub fn content(&mut self, c: &SpecificExtension) {
        match c {
            SpecificExtension::SubjectKeyIdentifier(k) => self.under("key identifier:", |p| p.octets(k.key_identifier)),
            SpecificExtension::KeyUsage(k) => self.under("usages:", |p| {
                let all = [
                    (k.digital_signature, "digital signature"),
                    (k.content_commitment, "content commitment"),
                    (k.key_encipherment, "key encipherment"),
                    (k.data_encipherment, "data encipherment"),
                    (k.key_agreement, "key agreement"),
                    (k.key_cert_sign, "key cert sign"),
                    (k.crl_sign, "crl sign"),
                    (k.encipher_only, "encipher only"),
                    (k.decipher_only, "decipher only"),
                ];
                for (set, text) in all {
                    if set {
                        p.line(text);
                    }
                }
            }),
            SpecificExtension::SubjectAlternativeName(s) => self.under("names:", |p| {
                for n in &s.names {
                    p.general_name(n);
                }
            }),
            SpecificExtension::BasicConstraints(b) => {
                self.line(format!("CA: {}", if b.ca { "true" } else { "false" }));
                if let Some(n) = b.path_length_constraint {
                    self.line(format!("Path Length Contraint: {n}"));
                }
            }
            SpecificExtension::ExtendedKeyUsage(u) => self.under("usages:", |p| {
                for x in &u.ext_key_usages {
                    p.line(match crate::sut::purpose_no(x) {
                        1 => "ServerAuth",
                        2 => "ClientAuth",
                        3 => "CodeSigning",
                        4 => "EmailProtection",
                        8 => "TimeStamping",
                        9 => "OCSPSigning",
                        _ => "?",
                    });
                }
            }),
            SpecificExtension::ModbusRole(r) => self.line(format!("role: {}", r.role)),
            SpecificExtension::Unknown(raw) => self.under("raw content:", |p| p.octets(raw)),
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

/// Text as a console shows it: two blanks per level.
pub fn console(lines: &[Line]) -> String {
    let mut s = String::new();
    for l in lines {
        for _ in 0..l.level {
            s += "  ";
        }
        s += &l.text;
        s.push('\n');
    }
    s
}

/// What the program prints for one element.
pub fn element_text(a: &ASNType) -> String {
    match a {
        ASNType::Boolean(x) => format!("Boolean: {}", if x.value { "true" } else { "false" }),
        ASNType::Sequence(_) => "Sequence".into(),
        ASNType::Set(_) => "Set".into(),
        ASNType::Integer(x) => format!("Integer: {}", int_text(x.value.bytes)),
        ASNType::PrintableString(x) => format!("PrintableString: {}", x.value),
        ASNType::IA5String(x) => format!("IA5String: {}", x.value),
        ASNType::UTF8String(x) => format!("UTF8String: {}", x.value),
        ASNType::Null => "Null".into(),
        ASNType::UTCTime(x) => format!("UTCTime: {}", x.value),
        ASNType::GeneralizedTime(x) => format!("GeneratlizedTime: {}", x.value),
        ASNType::BitString(_) => "BitString".into(),
        ASNType::OctetString(_) => "OctetString".into(),
        ASNType::ObjectIdentifier(x) => format!("ObjectIdentifier: {}", oid_text(x.value.values())),
        ASNType::ExplicitTag(x) => format!("[{}]", x.value.value),
        #[allow(unreachable_patterns)]
        _ => "?".into(),
    }
}
