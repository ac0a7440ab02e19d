#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (the statements live here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

R = "rx509/src/der/"; X = "rx509/src/x509/"
PA, TY, CA, OI, RD, PL = R+"parser.rs", R+"types.rs", R+"calendar.rs", R+"oid.rs", R+"reader.rs", R+"parse_all.rs"
XM, XE, XP = X+"mod.rs", X+"ext.rs", X+"printer.rs"
DM, DP = "decoder/src/main.rs", "decoder/src/der_printer.rs"
WALK = "der::parse_all with a recording ParseHandler"
CERT = "x509::Certificate::parse"

p("D01", "No byte string crashes or hangs the decoder",
  "Every decoding entry point (element walk, certificate, extension and name decoding), and every accessor, iterator, text rendering and report on what it returned, finishes with a value or an error for every byte string. None of them panics, overflows the stack however deeply the input nests, or fails to terminate.",
  ["inputs"], "all byte strings, all nesting depths, all entry points and everything callable on their results",
  "The tests feed four well-formed certificates and a few dozen hand-written fragments; a crash needs one malformed input out of all byte strings, typically in a corner (empty bit string with padding, nesting of tens of thousands) no sample contains.",
  [PA, TY, PL, RD, CA, XM, XE, XP],
  [("Reader: bounds-checked cursor", RD), ("parse_all: walk without native recursion", PL), ("parse_bit_string: padding only with content", PA), ("calendar: checked ranges before unreachable!()", CA)],
  [WALK, CERT, "x509::ext::Extension::parse", "Name::parse", "Extensions::parse", "Printable::print", "Display/Debug"])

p("D02", "The element walk reports exactly the elements the bytes encode",
  "Walking a byte string reports, in document order and depth first, precisely the elements the bytes encode: each with the type its identifier selects and the content its length delimits, descending into sequences, sets and context tags and into nothing else. A successful walk leaves no byte of the input outside the header or content of a reported element.",
  ["inputs"], "all byte strings: every combination of element types, sizes, counts and nesting",
  "The two walk tests only assert that two certificates give no error; what was reported, and in what order, is never looked at.",
  [PL, PA, RD, TY],
  [("parse_all", PL), ("Parser::next / parse_one_type", PA), ("Reader::take", RD)], [WALK])

p("D03", "Lengths are definite, minimal, bounded and stay inside their container",
  "An element is accepted only if its length is in definite form, uses the unique shortest encoding of at most four length octets, and fits wholly inside the enclosing element or input; its content is then exactly that many octets. Every other length (indefinite, reserved, padded, five or more length octets, or reaching past the end of the enclosing element) is rejected.",
  ["inputs"], "all length octet sequences, all content sizes, all element kinds and all enclosing boundaries",
  "Unit tests check one or two values per length-octet count on a private function; the property covers every value, every boundary between forms and the interplay with the surrounding buffer.",
  [PA, RD], [("parse_length", PA), ("get_contents / Reader::take", PA)], [WALK, CERT])

p("D04", "Walk callbacks are well nested and stop at the first error",
  "For every input the callbacks of the element walk form a well-nested sequence: an enter callback directly follows the report of each sequence, set or context tag, and its matching leave callback comes once that element's content has been walked. On success every enter has its leave and no error is reported; on failure the error callback is invoked exactly once, as the very last callback, carrying the same error the walk returns, after every element preceding the defect was reported.",
  ["inputs", "histories"], "all inputs, seen as the sequence of callbacks they trigger, with a defect at every possible place",
  "The tests use a handler whose callbacks are all empty, so no callback order is ever observed.",
  [PL, DP], [("parse_all event emission", PL)], [WALK],
  [dict(name="open containers", meaning="containers entered and not yet left", where=PL)])

p("D05", "Booleans, nulls, integers and octet strings decode strictly and exactly",
  "A boolean is accepted only with the single content octet 00 (false) or FF (true), a null only with empty content, an integer only with at least one content octet, and an octet string with any content. Accepted integers and octet strings expose exactly their content octets.",
  ["inputs"], "all content octet strings of the four types",
  "No test exercises boolean, null or octet-string decoding on its own, and the certificates contain a single boolean value.",
  [PA, TY], [("parse_boolean, parse_null, parse_integer", PA)], [WALK])

p("D06", "Integers convert to the two's-complement number they encode",
  "An integer of one to four content octets converts to exactly the signed 32-bit number those octets denote in two's complement, and an integer of any other size converts to no number. Its text rendering is that number in decimal, or otherwise all its octets in upper-case two-digit hex joined by colons.",
  ["inputs"], "all integer contents: all 2^8+2^16+2^24+2^32 convertible ones and all longer sizes",
  "No test calls the conversion or the rendering at all; sign, size limits and octet order are unobserved.",
  [TY], [("ASNInteger::as_i32", TY), ("Display for ASNInteger", TY)],
  ["ASNInteger::as_i32", "Display", "Certificate version and path length", "certificate report"])

p("D07", "Bit strings yield exactly their significant bits",
  "A bit string is accepted exactly when its content starts with a padding count of 0 to 7 that is 0 if no octet follows. It then has eight bits per following octet minus the padding, iterating yields exactly those bits most-significant first, and it offers its octets (all those following the count) exactly when the padding is 0.",
  ["inputs"], "all bit-string contents: all padding counts, sizes and bit patterns",
  "No test looks at a decoded bit string; the certificates only hold unpadded keys and signatures, plus key-usage bits nobody checks.",
  [PA, TY], [("parse_bit_string", PA), ("ASNBitString::size/iter/octets", TY)], [WALK, "ASNBitString accessors"])

p("D08", "Object identifiers decode to their arcs and render faithfully",
  "Object identifier content decodes to arcs in base 128, its first subidentifier giving two arcs (first arc 0, 1 or 2; second below 40 unless the first is 2); empty content, an unfinished subidentifier, or one longer than four octets is rejected. It renders as the arcs in decimal joined by dots, except that the ten identifiers for common name, country, locality, state or province, organization, organizational unit, e-mail address, RSA encryption, SHA1-with-RSA and Ed25519 render as their fixed names.",
  ["inputs"], "all identifier contents: all arcs up to 28 bits, all arc counts, all continuation-bit patterns",
  "Two identifiers are decoded in tests; arc boundaries, the two-arcs-in-one rule beyond 2.x small, and near misses of known names are not.",
  [PA, TY, OI], [("parse_object_identifier", PA), ("get_oid / Display", OI)], [WALK, "ASNObjectIdentifier::values", "Display"])

p("D09", "Text strings are accepted exactly when valid UTF-8 and decoded verbatim",
  "A UTF8, printable or IA5 string is accepted exactly when its content is well-formed UTF-8. The decoded text is byte for byte the content and is reported under its own string type.",
  ["inputs"], "all string contents of the three types",
  "Tests contain only plain ASCII strings inside certificates and never look at the decoded text.",
  [PA, TY], [("parse_string", PA)], [WALK, "Name::parse", "SAN and role decoding"])

p("D10", "Times decode to the exact instant and only well-formed times decode",
  "UTC time YYMMDDhhmmssZ (years 50-99 meaning 19xx, 00-49 meaning 20xx) and generalized time YYYYMMDDhhmmssZ decode to the exact number of non-leap seconds since 1970-01-01T00:00:00Z in the Gregorian calendar, both as the one UTC time value type. Content is rejected whenever it is not exactly such digits followed by a final Z, names a date or time of day that does not exist, or precedes 1970.",
  ["inputs"], "all dates 1970-9999, all times of day, all malformed digit strings",
  "Six instants are tested; century leap rules, month ends, every-day continuity and every malformed variant are not.",
  [PA, CA, TY], [("parse_time / read_two_digits", PA), ("time_from_ymdhms_utc", CA)], [WALK, "Validity"])

p("D11", "Only supported identifiers are decoded; others are rejected, never reread",
  "An identifier octet denotes class (top two bits), primitive or constructed form (next bit) and number (low five bits). Only the eleven supported universal primitive types (boolean, integer, bit string, octet string, null, object identifier, UTF8, printable and IA5 string, UTC and generalized time), constructed sequence and set, and context tags 0 to 30 are decoded, with the context tag number preserved; any other identifier, including every multi-octet one, is rejected wherever an element is read.",
  ["inputs"], "all 256 identifier octets in every element position and nesting",
  "Two unsupported identifiers are tested; the other identifiers, and the positions reached through certificate decoding, are not.",
  [PA, TY], [("Identifier::from", TY), ("read_type", PA)], [WALK, "Identifier::from", CERT])

p("X01", "Certificate fields are exactly what is encoded at their position",
  "For every accepted certificate each exposed field (serial number, inner and outer algorithm, issuer, validity bounds, subject, public key, unique identifiers, signature value) is exactly the value encoded at that field's position, never that of a neighbour or of another encoding.",
  ["inputs"], "all well-formed certificates: all field values, sizes and combinations of optional parts",
  "The four certificate tests only check that decoding succeeds; no field value is compared.",
  [XM], [("Certificate::parse", XM), ("parse_tbs_cert field order", XM)], [CERT])

p("X02", "A certificate is accepted exactly when its structure is complete and ordered",
  "A byte string is accepted as a certificate exactly when it is one sequence, with nothing after it, holding the to-be-signed sequence, an algorithm identifier and a bit string, the former holding the X.509 fields in their standard order. Any missing, extra, reordered or wrongly typed element in those sequences, in an algorithm identifier, the version wrapper, the validity, the key info or a unique identifier, and any truncation or trailing byte, causes rejection; the contents of names and extensions are not judged until they are decoded themselves.",
  ["inputs"], "all byte strings, in particular all one- and few-step deviations from well-formed certificates",
  "No test decodes a malformed certificate.",
  [XM, PA], [("Parser::parse_all / expect_end", PA), ("parse_tbs_cert", XM)], [CERT])

p("X03", "No list element is ever silently dropped",
  "Decoding an extension list, a subject alternative name, an extended key usage, a name or a multi-valued name attribute either returns every encoded element in order or reports an error. A truncated, malformed or trailing part, at any position and any depth, never leads to a shortened or partial success.",
  ["inputs"], "all list contents and all truncation or corruption points in them",
  "No test decodes extensions or names at all, let alone damaged ones; a dropped tail would look like success.",
  [XE, XM, PA], [("expect_or_end ends only at the real end", PA)], ["Extensions::parse", "Extension::parse", "Name::parse"])

p("X04", "Raw bytes and borrowed values lie exactly in the caller's input",
  "The raw bytes exposed for the to-be-signed part are exactly the content octets of that sequence, in place in the caller's buffer. Every byte or text slice exposed by decoding (integers, bit and octet strings, names, texts, nested contents) is the very region of the caller's input that encodes it.",
  ["inputs"], "all accepted inputs, at any address and inside any larger buffer",
  "No test looks at the raw bytes, which only matter when a signature is checked over them.",
  [XM, PA, TY], [("Constructed::new(input, ..)", XM)], [CERT, WALK])

p("X05", "Names map each attribute to its own field, once",
  "Decoding a name fills country, state or province, locality, organization, organizational unit and common name exactly with the text of the attribute bearing that identifier, in whatever order, set grouping and supported string type it appears, and leaves absent ones empty. A second occurrence of any of these, one that is not text, an empty set, or a malformed attribute is an error; other attribute types are ignored.",
  ["inputs", "histories"], "all sequences of name attributes and their groupings",
  "No test decodes a name.",
  [XM], [("RelativeDistinguishedName::parse / parse_single", XM)], ["Name::parse"],
  [dict(name="filled name fields", meaning="attributes already seen in this name", where=XM)])

p("X06", "A certificate is valid exactly from not-before to not-after inclusive",
  "Decoding keeps the two validity times in their places and as the instants they encode, in either time format each. An instant is reported valid exactly when it is neither earlier than not-before nor later than not-after, both ends included, and never when not-after precedes not-before.",
  ["inputs"], "all pairs of bounds and all instants around them",
  "The validity test function is never called by a test.",
  [XM, TY], [("Validity::is_valid", XM), ("Validity::parse", XM)], ["Validity::is_valid", CERT])

p("X07", "Each extension keeps its identifier, criticality and matching content",
  "A decoded extension exposes exactly its encoded identifier and its criticality, which is false when absent, and content decoded by the rules of precisely the extension type that identifier names; an identifier not among the six supported ones gives its raw content octets unchanged. Missing, extra or wrongly typed parts are rejected, and an extension list preserves number and order.",
  ["inputs"], "all extension encodings and all identifiers, including near misses of the supported ones",
  "No test decodes an extension.",
  [XE], [("Extension::parse dispatch", XE), ("Extensions::parse", XE)], ["Extension::parse", "Extensions::parse"])

p("X08", "Key usage flags equal the encoded bits",
  "Key usage content decodes to nine flags where flag i (digital signature, content commitment, key encipherment, data encipherment, key agreement, certificate signing, CRL signing, encipher only, decipher only) is set exactly when bit i of the encoded bit string is present and set; further bits are ignored. Content that is not exactly one valid bit string is rejected.",
  ["inputs"], "all bit strings as key usage content",
  "No test reads a flag.",
  [XE], [("KeyUsage::parse", XE)], ["Extension::parse"])

p("X09", "Basic constraints report CA status and path length exactly",
  "Basic constraints content is exactly one sequence of an optional boolean followed by an optional integer; the CA flag is that boolean or false, and the path length constraint is that integer's number or absent. Any other element, order, or trailing content, and an integer beyond 32 bits, is rejected.",
  ["inputs"], "all basic-constraints contents",
  "No test reads CA status or path length, on which trust decisions rest.",
  [XE], [("BasicConstraints::parse", XE)], ["Extension::parse"])

p("X10", "Subject alternative names keep kind, text and order",
  "Subject alternative name content is exactly one sequence of context-tagged names, decoded in order as mail (1), DNS (2), URI (6), address (7) or registered identifier (8), each with exactly its content as text, octets or arcs. A name of any other tag, invalid text or identifier, or anything malformed or trailing makes decoding fail; no name is skipped, altered or attributed to another kind.",
  ["inputs"], "all sequences of general names",
  "No test decodes an alternative name.",
  [XE, PA], [("SubjectAlternativeName::parse", XE), ("parse_implicit", PA)], ["Extension::parse"])

p("X11", "Extended key usage lists exactly the encoded purposes",
  "Extended key usage content is exactly one sequence of object identifiers, decoded in order to server authentication, client authentication, code signing, e-mail protection, time stamping and OCSP signing (purposes 1, 2, 3, 4, 8, 9 of the PKIX arc), repetitions included. Any other identifier, element type, or malformed or trailing content makes decoding fail, so no purpose is ever added, dropped or confused.",
  ["inputs"], "all sequences of purposes, and near misses of the six identifiers",
  "No test decodes an extended key usage.",
  [XE], [("ExtendedKeyUsage::parse / try_from_id", XE)], ["Extension::parse", "ExtendedKeyUsagePurpose::try_from_id"])

p("X12", "Key identifier and Modbus role are exactly their one encoded value",
  "A subject key identifier extension decodes exactly when its content is one octet string and exposes that string's octets; a Modbus role extension decodes exactly when its content is one valid UTF8 string and exposes that text. Missing, wrongly typed, malformed or trailing content is rejected.",
  ["inputs"], "all contents of the two extensions",
  "No test decodes either.",
  [XE], [("SubjectKeyIdentifier::parse", XE), ("ModbusRole::parse", XE)], ["Extension::parse"])

p("X13", "Algorithm identifiers and key info expose identifier, parameters and key",
  "Each of the three algorithm identifiers in a certificate is exactly one object identifier optionally followed by one element of any supported type, exposed as such (absent and null parameters stay distinct); the public key info is exactly an algorithm identifier and a bit string. Anything else in these sequences causes rejection.",
  ["inputs"], "all algorithm identifiers and key infos in all three positions",
  "Tests decode four common algorithm identifiers and compare none.",
  [XM], [("AlgorithmIdentifier::parse", XM), ("SubjectPublicKeyInfo::parse", XM)], [CERT])

p("X14", "Version and optional certificate parts are recognised by their tags",
  "The version is v1 when its context tag 0 is absent and v1, v2 or v3 when it wraps exactly the integer 0, 1 or 2, anything else being rejected. Issuer and subject unique identifiers (context tags 1 and 2, implicitly tagged bit strings) and the extensions (context tag 3) are each present exactly when encoded, in that order and at most once; absent stays absent, and no optional part is mistaken for another.",
  ["inputs"], "all combinations of presence, order, repetition and content of the optional parts",
  "The sample certificates contain no unique identifiers and only v1 or v3; no test reads these fields.",
  [XM, PA], [("parse_version, parse_optional_bitstring, parse_extensions", XM), ("get_optional_explicit_tag", PA)], [CERT])

p("P01", "The certificate report states every decoded value faithfully and in order",
  "The report of a certificate lists, under the proper headings and in certificate order, every decoded value: version, serial number, algorithm identifiers (their parameters excepted), issuer and subject attributes, validity, key, signature and unique identifiers (when a whole number of octets), and every extension with its identifier, criticality and content; octets appear completely as upper-case hex, sixteen per line. Names that do not decode are shown as raw octets and undecodable extensions as an error, without affecting the rest of the report.",
  ["inputs"], "all certificates, including those whose names or extensions do not decode",
  "No test prints a certificate.",
  [XM, XE, XP], [("Printable implementations", XM+", "+XE), ("print_type", XP)], ["Printable::print with a recording LinePrinter"])

p("P02", "Report layout calls are balanced and every line starts exactly once",
  "For every printable value the calls to the printer are balanced: every opened level is closed, the level never falls below its start, and the report ends at the level it began. Every line of output is started exactly once before its text and ended exactly once, so each line is indented by its own level and by nothing else.",
  ["inputs", "histories"], "all printable values and the whole sequence of layout calls each produces",
  "No test drives a printer.",
  [XM, XE, XP], [("begin_type/begin_line/println discipline", XP)], ["recording LinePrinter", "ConsoleLinePrinter output"],
  [dict(name="indent", meaning="current nesting level", where=XP)])

p("P03", "The decoder program prints what the library decodes",
  "For every file, the program in element mode prints one line per element at its nesting depth with its value (and octet-aligned bit strings in hex) up to the first defect, and in certificate mode the certificate report; a defect is described on standard error. No file content makes it crash, and wrong arguments or an unreadable file end it with a failure status.",
  ["inputs", "configurations"], "all file contents in both modes, and all argument lists",
  "The program has no tests.",
  [DM, DP, XP], [("main", DM), ("ParsePrinter", DP), ("ConsoleLinePrinter", XP)], ["decoder --der FILE", "decoder --certs FILE"])

p("S01", "Decoding depends on nothing but the bytes",
  "The outcome of any decoding, conversion or report depends only on the input bytes: it is the same whatever was decoded before, on the same or another thread, however often, wherever the bytes lie in memory, and whatever surrounds them. Inputs are never modified.",
  ["histories", "inputs"], "all sequences of operations, buffer placements and repetitions",
  "Each test makes one call in a fresh place; none chains decodings or reuses a buffer.",
  [PL, PA, XM, XE, TY], [("no shared state; borrowed input only", PA)], [WALK, CERT, "Extension::parse", "Name::parse", "Printable::print"])

p("S02", "An error describes the first defect in the input",
  "Every rejection carries an error whose text identifies the kind of the first defect met when reading the input in order, together with the offending value (octet, size, type, number or identifier) where that kind has one. Different kinds of defect never give the same text, and the same defect always gives the same one.",
  ["inputs"], "all rejected inputs of all entry points, including inputs with several defects",
  "Tests compare a dozen errors of private functions; error texts and errors of certificate or extension decoding are never looked at.",
  [TY, PA, XM, XE], [("ASNErrorVariant and its Display", TY)], ["Display of the returned error"])

p("D12", "Decoded values keep their type, give their content to it alone, and equal what says the same",
  "Every decoded element reports exactly the type it was decoded as; extracting it as that type gives its content, and extracting it as any other type gives nothing. Two decoded values are equal exactly when they have the same type and the same content (integers, bit strings, octets, identifiers, texts, tags and their numbers, containers by their octets; times by the instant, whichever format wrote it), wherever their octets lie; times order as their instants do, identifier octets are equal exactly when the octets are, and two errors are equal exactly when they have the same text.",
  ["inputs"], "all pairs of decoded elements, all elements with all types, all pairs of times, identifier octets and errors",
  "Tests compare a few values built by hand with one decoding each; unequal values, other types and the ordering of times are never tried.",
  [TY, OI], [("derived PartialEq/PartialOrd, ASNType::get_id, ASNWrapperType", TY)], ["==, <, get_id and from_asn_type on decoded elements"])

p("P04", "The console printer writes every line at its level and every text as it is",
  "For every sequence of calls in which no level is ended that was not begun, a console printer, new or default, writes to standard output exactly two spaces per open level at every begun line, every text and every formatted text unchanged, and one line end after each call that ends a line; nothing else is written, in the order of the calls. Each printer has levels of its own, starting at none.",
  ["histories", "inputs"], "all sequences of printer calls, all texts and characters, all depths, several printers at once",
  "No test drives the console printer, and a wrong level shows only after a particular sequence of calls.",
  [XP], [("ConsoleLinePrinter", XP)], ["standard output of a process calling ConsoleLinePrinter"],
  [dict(name="indent", meaning="current nesting level", where=XP)])

p("S03", "The current instant is the system clock's, in whole seconds, every time",
  "UtcTime::now gives the number of whole seconds since the start of 1970 that the system clock shows at that moment, fractions cut off, and an error when the clock shows an earlier time. It reads the clock anew at each call, whatever it showed before, so that judging a certificate's validity by it agrees with the clock to the second.",
  ["histories", "inputs"], "all clock readings and all sequences of readings, forward, backward or standing still",
  "Tests cannot set the clock, so none looks at the value or at a second reading.",
  [TY, XM], [("UtcTime::now", TY), ("Validity::is_valid", XM)], ["UtcTime::now and Validity::is_valid under a clock shown by the harness"])

p("S04", "Work and memory grow no faster than the input",
  "The work of decoding an input, of formatting everything decoded and of printing its report, and the memory asked for meanwhile, are bounded by a constant per octet of the input plus a fixed amount: neither repeating nor nesting elements, nor long contents, nor lists of names, purposes or extensions make them grow faster than the input, and a claimed length costs nothing beyond the octets that are there.",
  ["inputs"], "all inputs at all sizes, repeated and nested elements of every kind and all claimed lengths",
  "The tests decode small inputs and measure nothing; quadratic work shows only on inputs nobody has in a test.",
  [PL, PA, RD, TY, XM, XE], [("parse_all's stack, Parser, Reader", PL+", "+PA), ("list decoding", XM+", "+XE)], [WALK, CERT, "basic blocks and allocations counted in a build for it"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
