From 9444ea9e73dbac11580913bc227028ca2e3ff748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 01/12] fix: decode every key usage bit, not only the last one
 into the first flag

---
 rx509/src/x509/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index f7a4e09..86a8b8b 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -185,7 +185,7 @@ impl KeyUsage {
                 8 => key_usage.decipher_only = bit,
                 _ => {}
             }
-            offset += offset;
+            offset += 1;
         }
         Ok(key_usage)
     }
-- 
2.43.0


From 67e2707d4832c4e25edfc9a26d0db09d3f3d7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 02/12] fix: a truncated last element of a list is an error,
 not the end of the list

---
 rx509/src/der/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 0d78e35..72b98d3 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -432,11 +432,12 @@ impl<'a> Parser<'a> {
     pub(crate) fn expect_or_end<T: ASNWrapperType<'a>>(
         &mut self,
     ) -> Result<Option<T::Item>, ASNErrorVariant> {
-        match self.expect::<T>() {
-            Ok(value) => Ok(Some(value)),
-            Err(ASNErrorVariant::EndOfStream) => Ok(None),
-            Err(err) => Err(err),
+        // a truncated element is an error, only the absence of any element is the end
+        if self.reader.is_empty() {
+            return Ok(None);
         }
+
+        Ok(Some(self.expect::<T>()?))
     }
 
     pub(crate) fn expect_any(&mut self) -> Result<ASNType<'a>, ASNErrorVariant> {
-- 
2.43.0


From 138ba2db820a60f779554aa30cc69ac089007b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 03/12] fix: reject an empty bit string with unused bits

---
 rx509/src/der/parser.rs | 5 +++++
 rx509/src/der/types.rs  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 72b98d3..83486b2 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -155,6 +155,11 @@ fn parse_bit_string(contents: &[u8]) -> ASNResult {
         return Err(ASNErrorVariant::BitStringUnusedBitsTooLarge(unused_bits));
     }
 
+    // there can't be any unused bits if there are no octets to contain them
+    if unused_bits > 0 && contents.len() == 1 {
+        return Err(ASNErrorVariant::UnusedBitsInEmptyBitString(unused_bits));
+    }
+
     Ok(BitString::asn(ASNBitString::new(
         unused_bits,
         &contents[1..],
diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index 63870dc..fb02939 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -623,6 +623,7 @@ pub(crate) enum ASNErrorVariant {
     BadUTF8(core::str::Utf8Error),
     BadUTCTime,
     BitStringUnusedBitsTooLarge(u8),
+    UnusedBitsInEmptyBitString(u8),
     // these errors relate to schemas
     UnexpectedType(ASNTypeId, ASNTypeId), // the expected type followed by the actual type
     ExpectedEnd(ASNTypeId),               // type present instead of end
@@ -682,6 +683,9 @@ impl core::fmt::Display for ASNErrorVariant {
                 "Bit string w/ unused bits outside range [0..7]: {}",
                 unused
             ),
+            ASNErrorVariant::UnusedBitsInEmptyBitString(unused) => {
+                write!(f, "Empty bit string w/ non-zero unused bits: {}", unused)
+            }
             ASNErrorVariant::EndOfStream => {
                 f.write_str("Consumed all input before parsing required fields")
             }
-- 
2.43.0


From 4362c2490cf70595c0a35fb08936ca094c88bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 04/12] fix: decode negative and four octet integers as i32

---
 rx509/src/der/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rx509/src/der/types.rs b/rx509/src/der/types.rs
index fb02939..9efdedf 100644
--- a/rx509/src/der/types.rs
+++ b/rx509/src/der/types.rs
@@ -53,7 +53,7 @@ impl Identifier {
 }
 
 impl<'a> ASNInteger<'a> {
-    const VALID_I32_LENGTHS: core::ops::Range<usize> = 1usize..4usize;
+    const VALID_I32_LENGTHS: core::ops::RangeInclusive<usize> = 1usize..=4usize;
 
     pub fn new(bytes: &'a [u8]) -> ASNInteger {
         ASNInteger { bytes }
@@ -65,7 +65,11 @@ impl<'a> ASNInteger<'a> {
             return None;
         }
 
-        let mut acc: i32 = 0;
+        // the contents are in two's complement, the top bit of the first octet is the sign
+        let mut acc: i32 = match self.bytes.first() {
+            Some(byte) if *byte & 0x80 != 0 => -1,
+            _ => 0,
+        };
         for byte in self.bytes {
             acc <<= 8;
             acc |= *byte as i32;
-- 
2.43.0


From 2a5ed20aed03e62560d99bde51959479a6865321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 05/12] fix: decode the first two arcs of an object identifier
 from its first subidentifier

---
 rx509/src/der/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 83486b2..909529f 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -195,10 +195,14 @@ fn parse_object_identifier(contents: &[u8]) -> ASNResult {
 
     let mut items: Vec<u32> = Vec::new();
 
-    let first_byte = reader.read_byte()?;
-
-    items.push((first_byte / 40) as u32);
-    items.push((first_byte % 40) as u32);
+    // the first subidentifier holds the first two arcs, only the third root has more than 40
+    let (root, second) = match parse_one(&mut reader)? {
+        first @ 0..=39 => (0, first),
+        first @ 40..=79 => (1, first - 40),
+        first => (2, first - 80),
+    };
+    items.push(root);
+    items.push(second);
 
     while !reader.is_empty() {
         items.push(parse_one(&mut reader)?);
-- 
2.43.0


From 46bcf2933e7ac5e4067e99d7e878400cb01a1a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 06/12] fix: reject trailing characters in a time

---
 rx509/src/der/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 909529f..d104167 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -130,7 +130,7 @@ fn parse_time(contents: &[u8], time_type: TimeType) -> ASNResult {
     let time_zone = reader
         .read_byte()
         .map_err(|_| ASNErrorVariant::BadUTCTime)?;
-    if time_zone != b'Z' {
+    if time_zone != b'Z' || !reader.is_empty() {
         return Err(ASNErrorVariant::BadUTCTime);
     }
 
-- 
2.43.0


From dbbf14adbf16c148bacae2dc3bd00942f8df005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 07/12] fix: reject trailing elements in algorithm identifiers,
 extensions and version

---
 rx509/src/der/parser.rs |  4 +++-
 rx509/src/x509/ext.rs   |  7 +++----
 rx509/src/x509/mod.rs   | 12 ++++++------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index d104167..2d067e6 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -363,7 +363,9 @@ impl<'a> Parser<'a> {
         match self.get_optional_explicit_tag(tag)? {
             Some(tag) => {
                 let mut parser = Parser::new(tag.contents);
-                Ok(Some(parser.expect::<T>()?))
+                let value = parser.expect::<T>()?;
+                parser.expect_end()?;
+                Ok(Some(value))
             }
             None => Ok(None),
         }
diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 86a8b8b..3c99d1e 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -124,8 +124,7 @@ pub struct SubjectKeyIdentifier<'a> {
 
 impl<'a> SubjectKeyIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<SubjectKeyIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let key_identifier = parser.expect::<OctetString>()?;
+        let key_identifier = Parser::parse_all(input, |parser| parser.expect::<OctetString>())?;
         Ok(SubjectKeyIdentifier { key_identifier })
     }
 }
@@ -157,8 +156,7 @@ pub struct KeyUsage {
 
 impl KeyUsage {
     fn parse(input: &[u8]) -> Result<KeyUsage, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-        let bit_string = parser.expect::<BitString>()?;
+        let bit_string = Parser::parse_all(input, |parser| parser.expect::<BitString>())?;
 
         let mut key_usage = KeyUsage {
             digital_signature: false,
@@ -339,6 +337,7 @@ impl BasicConstraints {
         let mut parser = Parser::unwrap_outer_sequence(input)?;
         let ca = parser.get_optional_or_default::<Boolean>(false)?;
         let constraint = parser.get_optional::<Integer>()?;
+        parser.expect_end()?;
         let constraint = match constraint {
             Some(value) => match value.as_i32() {
                 Some(value) => Ok(Some(value)),
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 4a1d470..94d5449 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -394,12 +394,12 @@ impl<'a> Certificate<'a> {
 
 impl<'a> AlgorithmIdentifier<'a> {
     fn parse(input: &[u8]) -> Result<AlgorithmIdentifier, ASNErrorVariant> {
-        let mut parser = Parser::new(input);
-
-        Ok(AlgorithmIdentifier::new(
-            parser.expect::<ObjectIdentifier>()?,
-            parser.expect_any_or_end()?,
-        ))
+        Parser::parse_all(input, |parser| {
+            Ok(AlgorithmIdentifier::new(
+                parser.expect::<ObjectIdentifier>()?,
+                parser.expect_any_or_end()?,
+            ))
+        })
     }
 
     pub fn new(algorithm: ASNObjectIdentifier, parameters: Option<ASNType>) -> AlgorithmIdentifier {
-- 
2.43.0


From be4da183eac0373d2cd3fa91a5eb8f8f6f2c086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 08/12] fix: don't recurse on nested input in parse_all

---
 rx509/src/der/parse_all.rs | 48 +++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/rx509/src/der/parse_all.rs b/rx509/src/der/parse_all.rs
index b57017a..2af6842 100644
--- a/rx509/src/der/parse_all.rs
+++ b/rx509/src/der/parse_all.rs
@@ -9,38 +9,38 @@ pub trait ParseHandler {
 }
 
 pub fn parse_all(input: &[u8], handler: &mut dyn ParseHandler) -> Result<(), ASNError> {
-    for result in Parser::new(input) {
-        match result {
-            Err(err) => {
+    // the nesting depth is controlled by the input, so keep track of the
+    // types being parsed explicitly rather than on the call stack
+    let mut outer: Vec<Parser> = Vec::new();
+    let mut current = Parser::new(input);
+
+    loop {
+        match current.next() {
+            Some(Err(err)) => {
                 let err = err.into();
                 handler.on_error(&err);
                 return Err(err);
             }
-            Ok(asn) => {
+            Some(Ok(asn)) => {
                 handler.on_type(&asn);
-                match asn {
-                    ASNType::Sequence(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::ExplicitTag(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value.contents, handler)?;
-                        handler.end_constructed();
-                    }
-                    ASNType::Set(wrapper) => {
-                        handler.begin_constructed();
-                        parse_all(wrapper.value, handler)?;
-                        handler.end_constructed();
-                    }
-                    _ => (),
-                }
+                let contents = match asn {
+                    ASNType::Sequence(wrapper) => wrapper.value,
+                    ASNType::ExplicitTag(wrapper) => wrapper.value.contents,
+                    ASNType::Set(wrapper) => wrapper.value,
+                    _ => continue,
+                };
+                handler.begin_constructed();
+                outer.push(std::mem::replace(&mut current, Parser::new(contents)));
             }
+            None => match outer.pop() {
+                Some(parser) => {
+                    handler.end_constructed();
+                    current = parser;
+                }
+                None => return Ok(()),
+            },
         }
     }
-
-    Ok(())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4252e284c8c545064b1c9472cb89a925121bc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 09/12] fix: unique identifiers are implicitly tagged bit
 strings

---
 rx509/src/x509/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index 94d5449..d9fc34c 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -459,9 +459,10 @@ impl<'a> TBSCertificate<'a> {
         ) -> Result<Option<ASNBitString<'a>>, ASNErrorVariant> {
             // TODO: check minimum version
             match parser.get_optional_explicit_tag(tag)? {
-                Some(tag) => Parser::parse_all(tag.contents, |parser| {
-                    Ok(Some(parser.expect::<BitString>()?))
-                }),
+                // UniqueIdentifier is implicitly tagged
+                Some(tag) => Ok(Some(
+                    Parser::new(tag.contents).parse_implicit::<BitString>()?,
+                )),
                 None => Ok(None),
             }
         }
-- 
2.43.0


From cdc13ecc40c60542662712a4b19efcc75783ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 10/12] fix: reject multi-octet tag numbers in the context
 class

---
 rx509/src/der/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rx509/src/der/parser.rs b/rx509/src/der/parser.rs
index 2d067e6..bc6cddf 100644
--- a/rx509/src/der/parser.rs
+++ b/rx509/src/der/parser.rs
@@ -263,6 +263,9 @@ fn parse_one_type<'a>(reader: &mut Reader<'a>) -> ASNResult<'a> {
 
 fn read_type(id: &Identifier) -> Option<(ASNTypeId, u8)> {
     match id {
+        // tag numbers that don't fit in the identifier octet aren't supported in any class
+        Identifier { tag: 0x1F, .. } => None,
+
         Identifier {
             class: TagClass::Universal,
             pc: PC::Primitive,
-- 
2.43.0


From bcb2c02d0c65235e1cf9de7d46a9e547f8a613ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 11/12] fix: begin a line exactly once for each printed line

---
 rx509/src/x509/ext.rs | 8 ++++++--
 rx509/src/x509/mod.rs | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rx509/src/x509/ext.rs b/rx509/src/x509/ext.rs
index 3c99d1e..a4a4d6a 100644
--- a/rx509/src/x509/ext.rs
+++ b/rx509/src/x509/ext.rs
@@ -252,6 +252,12 @@ pub enum GeneralName<'a> {
 
 impl<'a> Printable for GeneralName<'a> {
     fn print(&self, printer: &mut dyn LinePrinter) {
+        // print_type begins its own line
+        if let GeneralName::IpAddress(value) = self {
+            return print_type("IP Address", value, printer);
+        }
+
+        printer.begin_line();
         match self {
             GeneralName::Rfc822Name(value) => {
                 printer.println_fmt(&format_args!("RFC822 Name: {}", value))
@@ -262,7 +268,6 @@ impl<'a> Printable for GeneralName<'a> {
             GeneralName::UniformResourceIdentifier(value) => {
                 printer.println_fmt(&format_args!("Uniform Resource Identifier: {}", value))
             }
-            GeneralName::IpAddress(value) => print_type("IP Address", value, printer),
             GeneralName::RegisteredId(value) => {
                 printer.println_fmt(&format_args!("Registered ID: {}", value))
             }
@@ -313,7 +318,6 @@ impl<'a> Printable for SubjectAlternativeName<'a> {
         printer.println_str("names:");
         printer.begin_type();
         for name in &self.names {
-            printer.begin_line();
             name.print(printer);
         }
         printer.end_type();
diff --git a/rx509/src/x509/mod.rs b/rx509/src/x509/mod.rs
index d9fc34c..30592bc 100644
--- a/rx509/src/x509/mod.rs
+++ b/rx509/src/x509/mod.rs
@@ -144,6 +144,7 @@ impl<'a> Printable for TBSCertificate<'a> {
                     }
                 }
                 Err(err) => {
+                    printer.begin_line();
                     printer.println_fmt(&format_args!("**Error** parsing extensions: {}", err));
                 }
             }
-- 
2.43.0


From 8e723b308ae5162f685c1ef2a2e3dc928acb6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 12/12] fix: accept arguments that aren't UTF-8

---
 decoder/src/main.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/decoder/src/main.rs b/decoder/src/main.rs
index 2027dcc..eb1cd84 100644
--- a/decoder/src/main.rs
+++ b/decoder/src/main.rs
@@ -1,6 +1,7 @@
 mod der_printer;
 
 use std::env;
+use std::ffi::{OsStr, OsString};
 use std::fs::File;
 use std::io::prelude::*;
 use std::process;
@@ -9,7 +10,7 @@ use rx509::der::parse_all;
 use rx509::x509::printer::{ConsoleLinePrinter, Printable};
 use rx509::x509::Certificate;
 
-fn get_bytes(file: &str) -> Result<Vec<u8>, std::io::Error> {
+fn get_bytes(file: &OsStr) -> Result<Vec<u8>, std::io::Error> {
     let mut f = File::open(file)?;
     let mut vec: Vec<u8> = Vec::new();
     f.read_to_end(&mut vec)?;
@@ -33,18 +34,19 @@ pub fn main() -> Result<(), std::io::Error> {
         Ok(())
     }
 
-    let args: Vec<String> = env::args().collect();
+    // file names aren't necessarily UTF-8
+    let args: Vec<OsString> = env::args_os().collect();
 
     if args.len() != 3 {
         eprintln!("requires exactly 2 arguments: decoder <--der | --certs> <filename>");
         process::exit(-1);
     }
 
-    match args[1].as_str() {
-        "--der" => parse_der(&get_bytes(&args[2])?),
-        "--certs" => parse_x509(&get_bytes(&args[2])?),
-        unknown => {
-            eprintln!("Unknown flag: {}", unknown);
+    match args[1].to_str() {
+        Some("--der") => parse_der(&get_bytes(&args[2])?),
+        Some("--certs") => parse_x509(&get_bytes(&args[2])?),
+        _ => {
+            eprintln!("Unknown flag: {}", args[1].to_string_lossy());
             process::exit(-1);
         }
     }
-- 
2.43.0

