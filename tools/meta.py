#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run after editing them)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

ANY_BYTES = "every octet string (any length, any nesting) given to every decoding entry point of every supported type"
MODEL = "Trusts the independent reference model (harness/src/model.rs), written from X.680/X.690 and the crate documentation; inputs are sampled by seeded generators, not enumerated."

prop("C01", "Decoding and using arbitrary input never panics, aborts or hangs",
 "Whatever octets are given to any decoding function, it returns a value or an error: it never panics, overflows, aborts, exhausts the stack or fails to terminate. The same holds for every accessor, conversion, formatter, iterator, comparison and encoder applied to a value decoded from such octets.",
 ["inputs"], ANY_BYTES + ", followed by every accessor, formatter, conversion, iterator and encoder of the decoded value",
 "The tests decode a few hundred chosen inputs; a panic hides behind one length, tag, nesting or content value among all octet strings.",
 ["src/ber/parser.rs", "src/header.rs", "src/asn1_types/*.rs", "src/traits.rs", "src/error.rs"],
 [("header and length parsing", "src/header.rs, src/ber/parser.rs"), ("content decoders", "src/asn1_types"), ("errors instead of panics", "src/error.rs")],
 ["return value or unwinding of every public entry point", "exit status and CPU time of the monitored process"],
 "runtime monitoring: panic/overflow/abort/hang monitor over generated, mutated and structurally edited inputs",
 "Overflow checks and debug assertions are on; crashes and hangs are confirmed in a separate process. " + MODEL)

prop("C02", "Decoding consumes exactly one object and ignores what follows",
 "A decoder that succeeds consumes exactly the octets of the first object of the input and returns the rest unchanged, as the tail of the input at its true position. The outcome does not depend on the octets that follow the object.",
 ["inputs"], ANY_BYTES + ", with every possible continuation",
 "Tests check the remainder for few inputs, mostly with nothing following; the property speaks of every object followed by every tail.",
 ["src/ber/parser.rs", "src/header.rs", "src/traits.rs", "src/input.rs", "src/asn1_types/any.rs"],
 [("content extraction", "src/ber/parser.rs"), ("remainder returned by each parser trait", "src/traits.rs, src/from_ber.rs, src/from_der.rs")],
 ["remaining input (bytes, address, span) returned by every decoding function"],
 "differential runtime monitoring of framing; metamorphic suffix replacement",
 MODEL)

prop("C03", "Truncated input is reported as incomplete, and only truncated input",
 "Decoding a proper prefix of a valid object never succeeds, and for every type decoded from one object it is reported as incomplete input rather than as malformed. A complete object is never reported as incomplete, and when a number of missing octets is given it is at least one and never more than what is really missing.",
 ["inputs"], "every valid encoding of every supported type, cut at every position",
 "Tests cut a handful of inputs; incompleteness must be right at every cut of every object, as streaming users wait for more data because of it.",
 ["src/ber/parser.rs", "src/header.rs", "src/error.rs", "src/input.rs", "src/traits.rs"],
 [("take on short input", "src/input.rs"), ("length and end-of-contents handling", "src/ber/parser.rs"), ("mapping of errors", "src/error.rs")],
 ["kind of error (incomplete or not) and its size hint, for every entry point"],
 "differential runtime monitoring at every cut position",
 "A part cut short inside a complete composite object may be called either way. " + MODEL)

prop("C04", "Identifier and length octets are decoded exactly and encoded minimally",
 "Every identifier (class, constructed bit, tag number up to 32 bits) and every length (definite up to the address space, or indefinite) is decoded to exactly the value its octets express, and values that cannot be represented are rejected. Encoders write them in the unique shortest form, announce their size exactly, and header predicates, content extraction and length arithmetic agree with them.",
 ["inputs"], "all classes, tag numbers and lengths; all octet strings as headers; all supported types as encoders of headers",
 "Tests use tags below 31 and a few lengths; multi-octet tags, padded and huge lengths, and overflow at the limits need exhaustive boundaries.",
 ["src/header.rs", "src/ber/parser.rs", "src/length.rs", "src/tag.rs", "src/class.rs", "src/to_ber.rs", "src/to_ber/*.rs"],
 [("header parsing", "src/header.rs"), ("identifier and length writers", "src/to_ber/*.rs"), ("length arithmetic", "src/length.rs")],
 ["decoded header fields and raw octets", "written header octets and counts"],
 "runtime monitoring against a reference header codec; boundary-exhaustive plus random workload",
 MODEL)

prop("C05", "Indefinite lengths end at their own end-of-contents, to bounded depth",
 "In BER mode an object of indefinite length ends exactly at the end-of-contents marker that belongs to it, whatever is nested in it, and its content is what precedes the marker. A missing marker, a primitive object of indefinite length, or nesting beyond the documented limit is an error, and DER decoding rejects indefinite lengths.",
 ["inputs"], "every nesting of definite and indefinite objects (depth up to and past the limit), including contents that look like markers",
 "Tests have a few indefinite objects; the marker search must be right for every nesting and every content that contains zero octets.",
 ["src/ber/parser.rs", "src/header.rs", "src/asn1_types/end_of_content.rs"],
 [("end-of-contents search with recursion limit", "src/ber/parser.rs")],
 ["accepted content, consumed octets and errors of every entry point"],
 "differential runtime monitoring over generated nestings of definite/indefinite forms",
 MODEL)

prop("C06", "Encoding a value and decoding it again gives the same value",
 "For every value of every supported type, encoding it (BER or DER) succeeds and decoding the result with any decoder of that type that admits the encoding gives an equal value, consuming all the octets written.",
 ["inputs"], "every value reachable by decoding generated canonical and non-canonical encodings of every supported type, with both encoders and every decoder",
 "Round trips are tested for single values; errors hide at sign bits, length boundaries, empty values, fractions, exponents, multi-octet tags.",
 ["src/to_ber.rs", "src/to_der.rs", "src/asn1_types/*.rs", "src/to_ber/*.rs"],
 [("encoders of each type", "src/asn1_types"), ("decoders of each type", "src/asn1_types")],
 ["decoded value before and after the round trip"],
 "runtime monitoring: encode/decode round trip on every entry point",
 "Times with an offset are compared as the same instant, which is what is written. " + MODEL)

prop("C07", "Announced lengths equal what is written, also with failing writers",
 "For every value, the announced content and total lengths, the returned counts and the octets really written agree, header and content written separately add up to the whole, and all ways of encoding give the same octets. With a writer that writes partially, is interrupted or fails, the encoder either delivers everything and says so, or returns an error having written a prefix of the encoding.",
 ["inputs", "fault_sequences"], "every value of every supported type; every position at which the writer fails, every chunk size, interruptions",
 "Tests compare lengths for few values and never use a failing writer.",
 ["src/to_ber.rs", "src/to_der.rs", "src/length.rs", "src/to_ber/*.rs", "src/asn1_types/*.rs", "derive/src/*.rs"],
 [("length functions of each type", "src/asn1_types"), ("generic header/content composition", "src/to_ber.rs, src/to_der.rs")],
 ["counts returned, octets received by the writer"],
 "runtime monitoring with fault-injecting writers and length-accounting oracle",
 MODEL)

prop("C08", "DER encodings are canonical",
 "The DER encoder writes, for every value of every supported type, the one encoding that DER prescribes. In particular decoding a canonical encoding and encoding the value again reproduces the same octets, and equal values have equal encodings.",
 ["inputs"], "every value of every supported type, obtained from canonical and non-canonical encodings",
 "Signatures and hashes depend on this for all values; tests compare a few encodings with constants.",
 ["src/to_der.rs", "src/asn1_types/*.rs", "derive/src/*.rs"],
 [("DER encoders of each type", "src/asn1_types"), ("ordering of sets", "src/asn1_types/set.rs, src/asn1_types/set")],
 ["octets written by the DER encoder"],
 "differential runtime monitoring against a reference DER encoder; identity on canonical input",
 "Open deviations of the library are listed in known_findings.txt. " + MODEL)

prop("C09", "DER decoders reject encodings that are not DER",
 "A DER decoder accepts no object whose encoding violates the DER restrictions: indefinite lengths, constructed strings, integers with superfluous octets, booleans other than 00 or FF, non-zero unused bits, non-canonical times or reals, and it accepts every encoding that satisfies them.",
 ["inputs"], "every valid BER encoding of every value that is not the DER encoding, at every nesting level, through every DER entry point",
 "Tests sample single violations on single types; each restriction must hold in each type and each entry point.",
 ["src/asn1_types/*.rs", "src/traits.rs", "src/header.rs", "derive/src/*.rs"],
 [("DER constraint checks", "src/asn1_types"), ("DER parsers", "src/asn1_types, src/from_der.rs")],
 ["acceptance by the DER entry points"],
 "differential runtime monitoring with non-canonical encodings of known values",
 "Deviations which the crate's own tests demand are listed in known_findings.txt. " + MODEL)

prop("C10", "INTEGER, ENUMERATED, BOOLEAN and NULL decode and convert exactly",
 "Integers decode to exactly the number their octets express for every width, out-of-range numbers are rejected rather than truncated, and conversions between machine integers, big integers and constants preserve the number or fail. Booleans, enumerated and null values likewise decode only from well-formed contents, to exactly the value written.",
 ["inputs"], "all contents up to 20 octets and beyond, all machine widths, all conversion functions",
 "Tests use a few numbers per width; off-by-one at the limits of each width and sign needs all of them.",
 ["src/asn1_types/integer.rs", "src/asn1_types/enumerated.rs", "src/asn1_types/boolean.rs", "src/asn1_types/null.rs", "src/const_int.rs", "impl/src/lib.rs"],
 [("integer conversions", "src/asn1_types/integer.rs"), ("constant builder", "src/const_int.rs")],
 ["decoded numbers, conversion results"],
 "differential runtime monitoring against arbitrary-precision reference arithmetic",
 MODEL)

prop("C11", "BIT STRING and OCTET STRING hold exactly the bits and octets sent",
 "Bit and octet strings decode to exactly the bits or octets of the encoding, primitive or in segments, and malformed unused-bit counts or segments are rejected. Their accessors and constructors (length, single bits, slices) agree with those bits, and encoding writes them back.",
 ["inputs"], "all bit and octet strings, all segmentations, all constructor arguments",
 "Tests use a few strings; segmentation, unused bits and unaligned slices multiply beyond them.",
 ["src/asn1_types/bitstring.rs", "src/asn1_types/octetstring.rs", "src/ber/*.rs"],
 [("segment reassembly", "src/ber, src/asn1_types"), ("bit accessors", "src/asn1_types/bitstring.rs")],
 ["decoded bits/octets, accessor results, written octets"],
 "differential runtime monitoring against reference bit strings",
 MODEL)

prop("C12", "Character strings hold the text sent, within their character sets",
 "Every restricted character string type accepts exactly the contents its character set and encoding allow and yields that text, whether primitive or in segments. Encoding the text gives back octets of that type which decode to the same text.",
 ["inputs"], "all contents for the twelve string types; every single octet and every character exhaustively",
 "Tests try a few valid and invalid strings; character sets are per-octet facts about every string.",
 ["src/asn1_types/strings.rs", "src/asn1_types/strings/*.rs"],
 [("character set tests", "src/asn1_types/strings/*.rs"), ("UTF-16/UTF-32 conversions", "src/asn1_types/strings/bmpstring.rs, universalstring.rs")],
 ["acceptance, text, written octets"],
 "differential runtime monitoring; exhaustive single characters and octets, sampled strings",
 "T.61, Videotex, Graphic and General strings are taken as the crate documents them. " + MODEL)

prop("C13", "Object identifiers keep their components through every representation",
 "An object identifier (absolute or relative) built from components, text or octets has exactly those components in every other representation: octets, iterators, text, constants. Malformed octets, component lists and texts are rejected or reported as not representable, and prefix tests compare whole components.",
 ["inputs"], "all component lists (64-bit and beyond), all content octets, all texts",
 "Tests check familiar OIDs; large components, the joint first component, zero padding and relative forms are unbounded.",
 ["src/asn1_types/oid.rs", "impl/src/lib.rs"],
 [("component encoding", "src/asn1_types/oid.rs"), ("compile-time constants", "impl/src/lib.rs")],
 ["components, text, octets of the identifier"],
 "differential runtime monitoring against arbitrary-precision component lists",
 MODEL)

prop("C14", "UTCTime and GeneralizedTime denote exactly the instant written",
 "A time string is accepted exactly when it is well formed, with components in range, and yields exactly the components, fraction and zone written; conversions to instants and timestamps, adjusted years and texts agree with the calendar. Encoding writes the same instant in the canonical form or fails, never a different one.",
 ["inputs"], "all time contents: all dates from year 0 to 9999, fractions, offsets, malformed strings",
 "Tests use some dates; leap years, offsets crossing midnight or year boundaries, fractions and the two-digit pivot are many.",
 ["src/asn1_types/utctime.rs", "src/asn1_types/generalizedtime.rs", "src/datetime.rs"],
 [("time parsing", "src/datetime.rs, utctime.rs, generalizedtime.rs"), ("conversion to UTC", "src/datetime.rs")],
 ["components, instants, written octets"],
 "differential runtime monitoring against an own proleptic Gregorian calendar",
 MODEL)

prop("C15", "REAL values decode and encode to exactly the nearest number",
 "Every REAL encoding (special values, decimal forms, binary in base 2, 8 or 16 with any scale and exponent form) decodes to the double nearest to the number it denotes (mantissas beyond 53 bits being held as the nearest double, and singles being the double rounded again, as documented), and malformed ones are rejected. Values built from floating-point numbers, or from mantissa, base and exponent, are encoded as exactly that number.",
 ["inputs"], "all finite, infinite and special floating-point values; all content octets",
 "Tests check few numbers; rounding, long exponents, subnormals and scale factors need the whole range.",
 ["src/asn1_types/real.rs", "src/asn1_types/real/*.rs"],
 [("binary and decimal decoding", "src/asn1_types/real.rs"), ("exponent and mantissa encoding", "src/asn1_types/real.rs")],
 ["bit patterns of decoded values; written octets"],
 "differential runtime monitoring against exact dyadic/decimal reference arithmetic",
 MODEL)

prop("C16", "Tagged values carry exactly the declared tag, and nothing else in it",
 "An explicitly tagged value is accepted only as a constructed object with the declared class and number containing a valid inner object, an implicitly tagged one only as the inner content under the declared identifier. Encoding writes exactly that identifier, and every way of decoding tagged values (types, parsers, builders, optional forms, helper functions) agrees.",
 ["inputs"], "all classes, tag numbers, inner types and contents; every tagged entry point",
 "Tests use a few tags below 31 with well-formed content.",
 ["src/asn1_types/tagged.rs", "src/asn1_types/tagged/*.rs", "src/to_ber.rs", "src/to_der.rs"],
 [("tagged decoders", "src/asn1_types/tagged/*.rs"), ("tagged encoders", "src/to_ber.rs, src/to_der.rs")],
 ["acceptance, inner value, written octets"],
 "differential runtime monitoring of all tagged entry points",
 "That universal/other classes are ignored by untagged types is the finding listed under C25. " + MODEL)

prop("C17", "Derived SEQUENCE and SET codecs follow the declared structure",
 "A decoder derived for a structure accepts exactly the sequences of fields the declaration describes (order, tags, optional and default fields; elements after the last declared field are ignored, as documented) and fills every field with the value of its own component. The derived encoder writes exactly the present fields in order, with their tags.",
 ["inputs", "programs"], "all values and all structural edits of encodings of structures with every combination of field attributes",
 "Tests cover a few structures with valid input; missing, repeated, reordered and surplus components are combinatorial.",
 ["derive/src/*.rs", "src/asn1_types/sequence.rs", "src/asn1_types/set.rs"],
 [("generated decoders and encoders", "derive/src")],
 ["field values, acceptance, written octets"],
 "differential runtime monitoring of derived types under structural edits",
 MODEL)

prop("C18", "Derived CHOICE, ENUMERATED and newtype codecs pick the right alternative",
 "A derived choice decodes an object as the alternative whose identifier it carries and rejects all other identifiers; a derived enumeration accepts exactly its declared values; a derived newtype behaves as its inner type. Encoding writes the identifier of the alternative held.",
 ["inputs", "programs"], "all identifiers and contents, for choices with universal, explicit and implicit alternatives, enumerations and aliases",
 "Tests decode the declared alternatives, not the space of other identifiers and contents.",
 ["derive/src/*.rs", "src/asn1_types/choice.rs", "src/asn1_types/enumerated.rs"],
 [("generated choice, enumerated and alias code", "derive/src")],
 ["alternative and value decoded, acceptance, written octets"],
 "differential runtime monitoring of derived types",
 MODEL)

prop("C19", "Collections and iterators yield every element once, in order, or an error",
 "Lists, arrays, tuples, sets, raw sequences and their iterators yield exactly the elements of the encoding, each once and in order, and end with an error (once) when an element is malformed: elements are never skipped, repeated, invented or silently dropped. Container methods and conversions keep the elements.",
 ["inputs", "histories"], "all element lists and edits of them, all entry points and iterators, all sequences of container operations",
 "Tests iterate over well-formed short lists.",
 ["src/asn1_types/sequence.rs", "src/asn1_types/sequence/*.rs", "src/asn1_types/set.rs", "src/asn1_types/set/*.rs", "src/asn1_types/iterator.rs"],
 [("iterators", "src/asn1_types/iterator.rs, src/asn1_types/sequence/iterator.rs"), ("containers", "src/asn1_types/sequence, src/asn1_types/set")],
 ["elements and errors yielded"],
 "differential runtime monitoring with element-conservation oracle",
 MODEL)

prop("C20", "Whatever a DER decoder accepts, the BER decoder accepts with the same value",
 "Every input accepted by a DER decoder of a type is accepted by the BER decoder of that type, with the same value and the same number of octets consumed.",
 ["inputs"], ANY_BYTES,
 "Two code paths per type must agree on every input; tests run them on separate inputs.",
 ["src/asn1_types/*.rs", "src/traits.rs", "derive/src/*.rs"],
 [("BER and DER parsers of each type", "src/asn1_types")],
 ["value and consumption of both modes"],
 "runtime monitoring: BER/DER differential",
 "No model needed: the two modes are compared with one another.")

prop("C21", "All entry points of a type agree",
 "For one type and one mode, decoding from a slice, from a positioned input, by conversion from a generic object, as an optional or as raw content accept the same inputs with the same value and consumption.",
 ["inputs"], ANY_BYTES,
 "Each type has up to six entry points with separate code; tests call one or two of them per input.",
 ["src/traits.rs", "src/asn1_types/*.rs", "src/from_ber.rs", "src/from_der.rs", "derive/src/*.rs"],
 [("blanket and per-type implementations of the decoding traits", "src/traits.rs, src/asn1_types")],
 ["value, consumption and acceptance per entry point"],
 "runtime monitoring: entry points differential",
 "Deviations that the crate's own tests demand are listed in known_findings.txt.")

prop("C22", "Owned copies equal the original and outlive the input",
 "The owned ('static) copy of any decoded value is equal to the original in value, rendering and encoding, and stays so after the input buffer is overwritten and freed.",
 ["inputs", "programs"], "all values of all types with owned copies, including derived structures and choices with every field kind",
 "Tests copy one or two values; every field of every derived shape must be copied.",
 ["src/tostatic.rs", "derive/src/tostatic.rs", "src/header.rs", "src/asn1_types/oid.rs"],
 [("owned copy implementations", "src/tostatic.rs"), ("derived owned copies", "derive/src/tostatic.rs")],
 ["value, rendering and encoding before and after"],
 "runtime monitoring: copy, overwrite and free the buffer, compare",
 "The crate forbids unsafe code, so dangling is excluded by the compiler; the check decides equality.")

prop("C23", "Equality, ordering, hashing and cloning are consistent",
 "For all values of a type, equality is reflexive, symmetric and transitive, equal values have equal hashes, clones equal their originals, and where an order is defined it is total, antisymmetric, transitive and consistent with equality. Two values decoded from equal encodings are equal, and values that differ are not.",
 ["inputs"], "all pairs and triples of values of every type with these operations",
 "Hash maps and sets of decoded values rely on these laws for all values; tests compare constants.",
 ["src/header.rs", "src/asn1_types/any.rs", "src/asn1_types/oid.rs", "src/asn1_types/*.rs"],
 [("manual equality and hash of headers", "src/header.rs"), ("derived implementations", "src/asn1_types")],
 ["results of comparisons and hashes"],
 "runtime monitoring: algebraic laws over generated values",
 "REAL and floating-point values containing NaN are exempt from reflexivity.")

prop("C24", "Positions reported for remaining input, content and errors are true",
 "Every span reported by the decoders (remaining input, content, header octets, elements of iterators, error locations) designates exactly the octets it comes with, as positions in the original input. Splitting an input at any position gives two adjacent parts with true positions.",
 ["inputs"], ANY_BYTES + ", with a non-zero starting position",
 "Tests check few spans, from position 0.",
 ["src/input.rs", "src/ber/parser.rs", "src/header.rs", "src/error.rs", "src/asn1_types/*.rs"],
 [("positioned input", "src/input.rs"), ("error locations", "src/error.rs")],
 ["spans of returned inputs and errors, compared with the address of their octets"],
 "runtime monitoring: span/address consistency of every returned input",
 "Spans are checked against memory addresses of the octets.")

prop("C25", "Objects with another identifier than the type's are rejected",
 "A decoder of a type rejects every object whose identifier is not one of that type's: wrong tag number, wrong class, primitive where constructed is required, or the reverse.",
 ["inputs"], "all types, all identifiers, at top level and in nested positions",
 "Tests try few wrong tags; the identifier space is 4 classes x 2 forms x 2^32 numbers per type and entry point.",
 ["src/traits.rs", "src/header.rs", "src/asn1_types/*.rs", "derive/src/*.rs"],
 [("tag, class and form assertions", "src/header.rs, src/asn1_types")],
 ["acceptance per identifier"],
 "differential runtime monitoring with re-tagged objects",
 "That the class of universal types is ignored is a finding listed in known_findings.txt. " + MODEL)

prop("C26", "Resources used for decoding are bounded by the size of the input",
 "The memory, time and stack used to decode any input, and to encode the value decoded from it, are bounded by a small function of the input's actual size, whatever lengths, counts or nesting it claims.",
 ["inputs"], "all octet strings, in particular claims of huge lengths, deep nesting, many empty elements, long numbers",
 "Tests never measure; an attacker chooses the worst input.",
 ["src/ber/parser.rs", "src/asn1_types/*.rs"],
 [("bounds from real input size", "src/input.rs"), ("recursion limit", "src/ber/parser.rs")],
 ["bytes allocated (counting allocator), CPU time, stack use"],
 "runtime monitoring with a counting allocator, CPU clock and bounded stacks",
 "Bounds are generous constants: growth by an order of magnitude is what is detected. The time of rendering an object identifier of enormous components as decimal text (quadratic in the big-number library) is not judged.")

prop("C27", "Results do not depend on the cargo features enabled",
 "The library builds under every combination of its optional features, and the same input gives the same result, and a value the same encoding, whichever features it is built with.",
 ["configurations", "inputs"], "feature sets: none, std only, all, and single features; inputs of all types",
 "The tests run with one feature set at a time and compare nothing across them.",
 ["Cargo.toml", "src/lib.rs", "src/asn1_types/*.rs", "src/error.rs"],
 [("conditional code", "cfg(feature) in src")],
 ["transcript of decoding and encoding per configuration"],
 "runtime monitoring: transcripts of one workload across feature builds compared",
 "Eleven feature sets are compared. Functions existing only under some feature, types iterating in random order (hash sets), and the documented text of object identifiers beyond 64 bits without bigint are outside the comparison.")

prop("C28", "Generic objects capture any element exactly",
 "Any element can be captured as a generic object without loss: identifier, raw header and content are those of the input, encoding it again gives an equivalent element with the same identifier and content, converting it to a type of its tag number behaves as decoding that type directly, and it is not converted (TryFrom, relative_oid) to a type of another number.",
 ["inputs"], "all elements of all classes, forms, tag numbers, lengths and contents",
 "Tests capture a few elements; the generic object is what all unknown or deferred data passes through.",
 ["src/asn1_types/any.rs", "src/header.rs"],
 [("generic object", "src/asn1_types/any.rs")],
 ["fields, octets, conversions of the generic object"],
 "differential runtime monitoring of capture, re-encoding and conversions",
 MODEL)

prop("C29", "The reason an error gives is true of the refused input, and conversions keep it",
 "When a decoder refuses an input, the reason it gives is true of that input: a tag, class, form or length form reported as found is found there, a constraint reported as broken is broken there, an integer out of range is reported as negative or too large according to its sign and the type. Converting between the error types of the crate, of nom and of the application (#[error], #[map_err]) changes neither the reason nor, where kept, the position, and the refused component decides which conversion applies.",
 ["inputs"], "all refused inputs of all types; all error values and conversions",
 "Tests compare a few errors; applications decide by the reason (missing data, unsupported, negative, malformed) for any hostile input.",
 ["src/error.rs", "src/asn1_types/integer.rs", "src/header.rs", "src/asn1_types/iterator.rs", "derive/src/container.rs"],
 [("Error, InnerError, BerError and their conversions", "src/error.rs"), ("derived error handling", "derive/src/container.rs")],
 ["variant, fields, position and text of returned errors"],
 "runtime monitoring: every reported reason is tested against the octets of the refused input; round trips of generated errors through all conversions",
 MODEL)

CLAIMED = set(os.popen(f"{ROOT}/target/debug/mon --list").read().split())
with open(f"{ROOT}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="./check.sh --build", checks=[], not_applicable=[],
    notes="All checks: ./check.sh <id> builds the monitors against /repo's working tree (no hooks) and runs one property. VERIF_SEED and VERIF_TIER are honoured. known_findings.txt lists the open findings and the repaired defects.")
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
            technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="The monitor of this property is not built yet."))
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
