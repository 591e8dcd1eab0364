#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

S = "src/cesr/core/"
INP = ["inputs"]
ROWS = []


def P(id, title, statement, text, why, files, mech, observe, over=INP, hook=None):
    ROWS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                     anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}))


P("C01", "A primitive's text and binary encodings are the CESR ones and give it back",
  "For every code in the primitive code table and every raw value of the length that code demands, the text and the binary encoding are exactly those CESR prescribes: code, then size for variable codes, then zero lead bytes, then the raw, in URL-safe Base64 with the pre-pad bits inside the code. "
  "Parsing either encoding, whether or not other bytes follow it, gives back the same code, size and raw and reports exactly the encoding's own length. A raw that is too short for the code is refused, and bytes beyond the needed raw are not encoded.",
  "all 49 codes x all raw values (variable sizes up to the bound, plus sizes at the small/large code boundary) x up to a few bytes of following data",
  "the tests encode a handful of fixed raws for a few codes; the table has 49 codes and the raw is arbitrary",
  [S + "matter/mod.rs", S + "matter/tables.rs", S + "util.rs"],
  [("Matter::new_with_code_and_raw / infil / binfil", S + "matter/mod.rs"), ("sizage and hardage tables", S + "matter/tables.rs")],
  ["qb64, qb64b, qb2, full_size, code, size, raw of any primitive"])
P("C02", "Parsing a primitive accepts only canonical encodings and never panics",
  "Given any text or any binary string, parsing a primitive either refuses it with an error or accepts a prefix of it which is exactly what the parsed primitive re-encodes to, in text and in binary. "
  "In particular an unknown code, a character outside the URL-safe Base64 alphabet (padding '=' included), non-zero pad bits or lead bytes, and material shorter than the code demands are refused. No input makes it panic.",
  "all texts and binaries that start with any table code and have the code's length or up to two less, one window of three arbitrary UTF-8 bytes inside, and all short texts/binaries whatsoever",
  "tests try a few malformed strings; the guarantee is about every string a network peer can send",
  [S + "matter/mod.rs", S + "util.rs"],
  [("Matter::new_with_qb64 / exfil, new_with_qb2 / bexfil", S + "matter/mod.rs"), ("b64 helpers", S + "util.rs")],
  ["result of new_with_qb64 / new_with_qb64b / new_with_qb2 and the primitive's re-encoding"])
P("C03", "Indexed signatures encode as CESR prescribes and round-trip",
  "For every indexed-signature code, index, other index and raw that the code can carry, the text and binary encodings are exactly the CESR ones and parsing either gives back the same code, index, other index and raw, with or without following bytes. "
  "An index or other index that the code cannot carry (too large; an other index on a current-only code; differing indices on a code that has just one) is refused, never truncated.",
  "all indexer codes x all u32 indices/ondices x all raws",
  "tests sample one or two indices per code; boundaries differ per code and per direction",
  [S + "indexer/mod.rs", S + "indexer/tables.rs", S + "siger.rs"],
  [("Indexer::new_with_code_and_raw / infil / binfil / exfil / bexfil", S + "indexer/mod.rs"), ("sizage", S + "indexer/tables.rs")],
  ["qb64, qb2, code, index, ondex, raw of Siger / Indexer"])
P("C04", "Parsing an indexed signature accepts only canonical encodings, no panic",
  "Given any text or binary string, parsing an indexed signature either refuses it with an error or accepts a prefix of it which is exactly what the parsed value re-encodes to, in text and in binary. "
  "Unknown codes, foreign characters, non-zero pad bits or lead bytes and short material are refused, and no input makes it panic.",
  "all texts and binaries that start with any indexer code with lengths around the code's, and all short texts/binaries",
  "tests try a few malformed strings only",
  [S + "indexer/mod.rs", S + "util.rs"],
  [("Indexer::exfil, Indexer::bexfil", S + "indexer/mod.rs")],
  ["result of Siger::new_with_qb64 / qb64b / qb2 and its re-encoding"])
P("C05", "Count codes carry exactly their count, round-trip, and parse strictly",
  "For every counter code and every count that fits its digits, the text and binary encodings are exactly the CESR ones and parsing gives back the same code and count; a count that does not fit is refused. "
  "Given any text or binary string, parsing a counter either refuses it with an error or accepts a prefix that re-encodes to itself, and never panics. A semantic version packs into one Base64 digit per number, missing numbers being zero, and numbers of 64 or more or other text are refused.",
  "all counter codes x all u32 counts, all texts/binaries starting with a counter code or short, all version triples below 64",
  "tests cover a couple of counts per code",
  [S + "counter/mod.rs", S + "counter/tables.rs", S + "util.rs"],
  [("Counter::new_with_code_and_count / infil / binfil / exfil / bexfil", S + "counter/mod.rs")],
  ["qb64, qb2, count, code of Counter; sem_ver_str"])
P("C06", "A typed primitive never holds a code outside its class",
  "A verification key, digest, indexed or unindexed signature, seed, salt, sequence number, number, date-time, Base64 text, path, self-addressing digest or identifier prefix object can be obtained through its own constructors only with a code of its own class, whichever of raw, text, text bytes or binary it is built from; anything else is refused with an error. Every code of its class is accepted and keeps its code and raw.",
  "all table codes x all raws x all construction routes of every typed primitive",
  "tests refuse one or two wrong codes on one route",
  [S + "verfer.rs", S + "diger.rs", S + "siger.rs", S + "cigar.rs", S + "seqner.rs", S + "number.rs", S + "dater.rs", S + "bexter.rs", S + "salter.rs", S + "saider.rs", "src/signing/signer.rs", "src/prefexing/prefixer.rs", "src/pathing/pather.rs"],
  [("new and validate_code of every typed primitive", S)],
  ["Ok/Err of every constructor"])
P("C07", "Sequence numbers and numbers encode exactly their integer",
  "For every 128-bit integer, a number or sequence number built from it (as integer, lower- or upper-case hex) reports that integer and its canonical hex, and carries the big-endian value in its raw; a number picks the shortest code that can hold the value. Parsing its text, binary or raw gives back the same integer, text that is not hex is refused, and a number is positive exactly when it is not zero.",
  "all u128 values x all number codes x all construction routes",
  "tests use a few small integers and code boundaries",
  [S + "number.rs", S + "seqner.rs"],
  [("Number::new, Seqner::new", S + "number.rs")],
  ["num, numh, sn, snh, code, raw, qb64"])
P("C08", "Base64 text primitives hold exactly their text",
  "For every URL-safe Base64 text (up to the bound, and not of a length divisible by four starting with 'A'), a Base64 text primitive built from it encodes as CESR prescribes and reads back exactly that text through text, binary and raw routes. Text with any other character is refused.",
  "all texts up to 12 characters over all byte values",
  "tests use a few strings; lead size depends on length modulo four",
  [S + "bexter.rs"], [("Bexter::new, rawify, derawify", S + "bexter.rs")], ["bext, qb64, raw"])
P("C09", "Path primitives keep their elements, relations, and resolve what they name",
  "A path built from a list of non-empty Base64 elements (no '-') reads back as that list and as the text joining them, through text, binary and raw. Its root is the first elements, stripping a root gives the remaining elements when the path starts with the root and the path unchanged otherwise, and a path starts with another exactly when its text does. Resolving a path in a document gives the value that following its labels and indices names, and an error when there is none; it never panics. The tail a path names in an event is the digest text there or the compact JSON of the map or list there, and anything else is an error.",
  "all element lists up to 3 x 3 characters, all pairs of such lists, resolution over a document with symbolic labels and indices",
  "tests use four fixed paths",
  ["src/pathing/pather.rs"], [("Pather::new, root, strip, starts_with, resolve", "src/pathing/pather.rs")], ["path, bext, root, strip, starts_with, resolve, tail"])
P("C10", "Date-times survive encoding exactly",
  "A date-time text made of digits and the separators of RFC 3339 with microseconds and offset reads back as exactly that text, as bytes and as text, through text, binary and raw encodings, and its encoding is the CESR one: the code followed by the text with ':' '.' '+' written 'c' 'd' 'p'. Text that is shorter or has other characters than Base64 and those separators is refused.",
  "all 32-character date-time shaped texts (digits, sign, separators symbolic)",
  "tests use three fixed times",
  [S + "dater.rs"], [("Dater::new, dts", S + "dater.rs")], ["dts, dtsb, qb64, raw"])
P("C11", "A signing threshold is met exactly when the signed weights reach it",
  "A numeric threshold n of at least one is satisfied by a list of signer indices exactly when at least n distinct indices are given. A weighted threshold is satisfied exactly when in every clause the exact rational sum of the weights of the distinct given indices belonging to that clause is at least one, whatever the order or repetition of the indices; indices beyond the weights never satisfy it.",
  "all index lists up to the bound for families of numeric and (nested) weighted thresholds including symbolic weight choices",
  "tests evaluate a few index lists; order, duplicates and out-of-range indices matter",
  [S + "tholder.rs"], [("Tholder::satisfy, satisfy_numeric, satisfy_many_weighted", S + "tholder.rs")], ["Tholder::satisfy"])
P("C12", "A signing threshold is validated and keeps its meaning through its encodings",
  "A threshold expression is accepted exactly when it is a hex number of at most 32 bits, or one or more lists of weights that are 0, 1 or a fraction between 0 and 1 with every list summing to at least one; everything else, including malformed text, is refused with an error and no panic. The weights (in lowest terms), clauses, size and number reported are those of the expression, and its encoded form is the CESR one. The threshold rebuilt from its encoded form or its expression form is the same.",
  "all short hex texts, all short weight texts, families of weighted lists",
  "tests try some valid expressions and few malformed ones",
  [S + "tholder.rs", S + "number.rs", S + "bexter.rs"], [("Tholder::process, process_weighted, limen", S + "tholder.rs")], ["Tholder::new, sith, limen, num, size, thold"])
P("C13", "Version strings carry kind, version and size exactly, and nothing else is read",
  "For every known protocol, version and size that fits, the version string written reads back as the same protocol, version, serialisation kind and size; what is unknown or does not fit is refused, and so is reading any text that is not exactly of that form with a known protocol and kind. "
  "Sniffing a message gives what the first version string that starts in its first 13 bytes says, whatever follows, and refuses messages without one. Sizing a document sets its version string's size to the length of its serialisation, leaves every other field alone, and refuses unsupported versions. No input panics.",
  "all protocol texts, version pairs and sizes; all ASCII texts up to 20 characters; version strings and arbitrary texts at any offset in the first bytes of a message; small documents",
  "tests use one or two version strings",
  [S + "common.rs"], [("versify, deversify, sniff, sizeify", S + "common.rs")], ["versify, deversify, sniff, sizeify"])
P("C14", "A loaded event is exactly its bytes: size, digest and fields",
  "A key event loaded from bytes holds exactly the first bytes its version string's size counts, its fields are those of that message, and its digest is the one its digest field states; bytes behind are left alone. An event built from fields is their compact JSON with the version string's size made right. Loading the bytes of an event gives an equal event. The digest so stated verifies the event it was computed for, and no event with a field changed. A message which does not fit its stated size, is of another protocol, kind or version, or whose digest field is missing, is no digest, or is one with another code than the one asked for (the default one if none is) is refused. Its pretty form is the indented JSON of its fields cut at the last character that ends within the given size (1024 bytes by default). The accessors for keys, witnesses, next digests, thresholds, sequence number, first-seen number and identifier read what the fields say.",
  "event skeletons with symbolic field values, sizes and trailing bytes",
  "tests load a few fixed events",
  [S + "serder.rs", S + "sadder.rs", S + "common.rs"], [("Serder::new, Sadder::inhale / exhale", S + "sadder.rs")], ["Serder::raw, size, ked, said, pre, verfers, digers, tholder, sner, est"])
P("C15", "No message bytes make loading panic",
  "Whatever bytes are given, loading an event or credential from them returns a value or an error; it never panics, and the accessors of a loaded message which can return an error return a value or an error, whatever fields the message has, lacks, or has with another type. Reading an event's type, identifier or sequence number, or a credential's issuer or schema, which is missing or no text is an error.",
  "messages with a symbolic version string, symbolic short JSON bodies, and event skeletons where each field is missing or of another JSON type",
  "tests load only well-formed messages",
  [S + "serder.rs", S + "creder.rs", S + "sadder.rs", S + "common.rs", "src/data.rs"], [("error returns in inhale, loads, accessors", S + "sadder.rs")], ["Serder::new_with_raw, Creder::new_with_raw and accessors"])
P("C16", "Self-addressing digests bind every field of the document",
  "Computing a document's self-addressing digest fills the label with the digest of the document serialised with that label replaced by placeholder characters of the digest's length (and with the version string's size made right when there is one), leaving every other field alone. Verifying accepts the document with its computed digest, and, when asked to check that the label holds the digest and the version string is right, rejects it after any change of the digest, the version string or any digested field; fields declared as ignored do not matter (beyond their share of a stated size). A document without the label, something that is no document, or a code that is not a digest's is refused.",
  "documents with symbolic labels and values, all digest codes, any change of a byte of a field or of the digest",
  "tests tamper with one field of a fixed document",
  [S + "saider.rs", S + "common.rs", S + "matter/tables.rs"], [("Saider::saidify, derive, verify", S + "saider.rs")], ["Saider::saidify, Saider::verify"])
P("C17", "Digests verify exactly the data they were made from",
  "A digest made from data with any digest code verifies that data and, hashes being ideal, no other. Comparing two digests says equal for equal digests, and for digests with different codes exactly when both verify the given data.",
  "all digest codes, all data up to 8 bytes, all pairs of codes",
  "tests use one fixed message per code",
  [S + "diger.rs", "src/cesr/crypto/hash.rs"], [("Diger::new, verify, compare", S + "diger.rs"), ("hash::digest", "src/cesr/crypto/hash.rs")], ["Diger::verify, Diger::compare"],
  hook="keride::verif::hash")
P("C18", "A signature verifies under exactly the key and message it was made with",
  "For each signing suite, a signature made by a signer, indexed or not, carries the code of that suite and transferability, the requested indices and the signer's verification key, and verifies the signed message; signatures being ideal, it verifies no other message and under no other key, and a wrong-suite key or a malformed signature yields false or an error, never true and never a panic. A signer rebuilt from its seed has the same verification key.",
  "all seeds and messages up to 8 bytes, all suites, all indices, transferable or not",
  "tests sign one message per suite",
  ["src/signing/signer.rs", S + "verfer.rs", S + "siger.rs", S + "cigar.rs", "src/cesr/crypto/sign.rs"], [("Signer::sign_indexed / sign_unindexed", "src/signing/signer.rs"), ("Verfer::verify", S + "verfer.rs"), ("sign::*", "src/cesr/crypto/sign.rs")], ["Signer::sign_*, Verfer::verify"],
  hook="keride::verif::sign")
P("C19", "An identifier prefix is bound to its inception event",
  "A prefix derived from an inception event is, for basic codes, the event's only signing key and, for self-addressing codes, the digest of the event with its identifier (and digest) fields blanked. Verifying a prefix against an event accepts what was derived and rejects any other prefix, an event that, where asked, does not name the prefix as its identifier, and the event after any change of a bound field: its keys for basic codes, every field but identifier, digest and stated size for self-addressing ones. A non-transferable basic prefix is derived only from events without next keys, witnesses or anchors, and never verifies an event with next keys. An event that does not have what the code needs is refused.",
  "inception and delegated inception skeletons with symbolic keys, digests and values, all prefix codes, any change of a field",
  "tests derive from a few fixed events",
  ["src/prefexing/prefixer.rs"], [("Prefixer::new, derive, verify", "src/prefexing/prefixer.rs")], ["Prefixer::new, verify"])
P("C20", "Derived keys depend on salt, path, tier and length, and on nothing else",
  "A key stretched from a salt is Argon2id applied to the path and the salt at the tier's own cost parameters and the asked length (32 bytes for signing seeds of every suite); an absent path is the empty one, an absent tier the salter's own, no stem or index matters beyond the path they spell, temporary means minimal cost, and unknown tiers, codes that are no seeds and sizes below four are refused. A row of signers derives its n-th key with the path followed by the start plus n in hexadecimal; a salty creator derives its n-th key with its own stem, else the given stem, else the prefix index in hexadecimal, followed by the rotation index and the key index plus n in hexadecimal. Both give the asked count, codes and transferability; new salts are drawn fresh.",
  "all salts, all paths up to 3 bytes, all tiers, symbolic index values and counts up to 3",
  "tests compare a few fixed derivations",
  [S + "salter.rs", "src/signify/creating.rs", "src/cesr/crypto/salt.rs"], [("Salter::stretch, signer, signers", S + "salter.rs"), ("SaltyCreator::create", "src/signify/creating.rs")], ["Salter::signer, Creator::create"],
  hook="keride::verif::salt")
P("C21", "Documents survive JSON both ways, in field order",
  "A document built from nested maps, lists, strings, numbers, booleans and null serialises to compact JSON with fields in insertion order and correct escapes, and parsing that JSON gives an equal document. Any text is read as the JSON document it spells (all integers of 64 bits signed as integers, larger ones and numbers with a fraction or exponent as floats to within rounding; the last of repeated fields in the first one's place) or refused if it is not JSON or shorter than the stated size; only the stated size is read. Reading a value as a type it does not have is an error; parsing never panics.",
  "value trees to depth 3 with symbolic strings, keys, integers and shapes; all short texts and escapes",
  "tests use one fixed document",
  ["src/data.rs", S + "common.rs"], [("Value::to_json, From<serde_json::Value>, dat!", "src/data.rs")], ["Value::to_json, loads, dumps"], hook="keride::verif::{loads,dumps}")
P("C22", "Base64 integer helpers are exact inverses and refuse what does not fit",
  "Writing an integer that fits in Base64 with a given number of digits gives its big-endian base-64 digits, and reading them back gives the integer; every text is read as the big-endian base-64 number it spells or refused if a character is foreign or the value does not fit. Packing a code text of up to eight characters into bytes and unpacking it gives it back, and slicing out leading sextets of a binary gives its leading bits, or an error when it is too short.",
  "all u32/u64 values and lengths, all texts up to 12 bytes, all binaries up to 9 bytes",
  "tests check a handful of values",
  [S + "util.rs"], [("u32_to_b64, u64_to_b64, b64_to_u32, b64_to_u64, code_b64_to_b2, code_b2_to_b64, nab_sextets", S + "util.rs")], ["the helper functions"], hook="keride::verif::util")
P("C23", "Signed messages carry exactly the given attachments, correctly framed",
  "A signed message is the event's bytes followed by its attachments: indexed signatures framed by their count and, when a seal is given, preceded by a count of one group of its kind and the seal (its identifier alone when it stands for the last establishment event, else its identifier, its sequence number as a CESR primitive and its digest); then witness signatures framed by their count; then, framed by their count, couples of each non-transferable key with its signature. Everything attached is in the order given and encodes exactly as it does alone. Without any signature (an empty list counts as none), with a couple with a transferable key, or with a seal whose sequence number is no number, there is an error. A receipt is an event of its kind that has the identifier, sequence number and digest of the event it is for.",
  "all combinations of up to 2 indexed signatures, 2 witness signatures, 2 couples with symbolic material and indices, seals of all kinds with symbolic material; up to 66 signatures of a kind",
  "tests build a few fixed messages",
  ["src/messaging.rs", "src/receipting.rs", "src/seal.rs"], [("messagize", "src/messaging.rs"), ("receipt", "src/receipting.rs")], ["messagize, receipt"], hook="keride::verif::{messagize,receipt,Seal}")
P("C24", "Codes are classified as what they are",
  "Every code in the tables is reported transferable exactly when it is not one of the codes CESR marks non-transferable, and digestive exactly when it is a digest code, independently of the raw and of the route it was built by. The full size reported is the one CESR's table gives the code.",
  "all table codes x all raws",
  "tests check a few codes",
  [S + "matter/mod.rs", S + "matter/tables.rs"], [("transferable, digestive", S + "matter/mod.rs")], ["transferable, digestive, full_size"])
P("C25", "A credential is bound to its self-addressing digest",
  "A credential loaded from bytes holds exactly the first bytes its version string's size counts, and has the digest, issuer, schema, subject, status and chains its fields state; one built from fields is their compact JSON with the size made right. The digest computed for a credential verifies it, and no credential with a field changed. A message whose version string does not say it is a credential, which does not fit its stated size, or whose digest field is missing or is no digest with the code asked for (the default one if none is) is refused.",
  "credential skeletons with symbolic field values and any one-byte change of a field",
  "tests load a fixed credential",
  [S + "creder.rs", S + "sadder.rs"], [("Creder::new, said, accessors", S + "creder.rs")], ["Creder::new_with_raw, crd, issuer, schema, subject"])
P("C26", "The cryptographic back ends compute the standard functions",
  "Hashing, key stretching, signing and verifying compute the functions their standards define, for every input.",
  "all inputs of the hash, KDF and signature crates", "tests use known-answer vectors",
  ["src/cesr/crypto/hash.rs", "src/cesr/crypto/sign.rs", "src/cesr/crypto/salt.rs"], [("third-party crates", "Cargo.toml")], ["digest, sign, verify"])
P("C27", "The WebAssembly bindings expose the same behaviour as the library",
  "Every operation offered to JavaScript gives the result the library operation gives, and turns every library error into a JavaScript error.",
  "all calls of the wasm package", "there are no tests of the bindings",
  ["wasm/src/lib.rs"], [("wasm-bindgen wrappers", "wasm/src")], ["JavaScript API"])

NA = {
    "C26": "Solver-based checking cannot decide equality of BLAKE2/3, SHA-2/3, Argon2, Ed25519 or ECDSA with their standards within reach; the checks replace these crates with ideal stand-ins and decide everything around them (C16-C20).",
    "C27": "The wasm crate is outside the workspace, its wasm-bindgen dependency is not available offline, and its wrappers run only inside a JavaScript engine, so its code cannot be compiled, let alone encoded, here.",
}
LEVEL = ("Every value of the symbolic inputs within the bounds (see evidence: bounds, outside_bounds) is covered by solver verdicts over keride's own compiled code; counterexamples are replayed natively before they are reported. "
         "Trusted: the executor's IR semantics (sampled paths are replayed natively on every run), Z3, and ideal stand-ins for hash/signature/KDF/random crates.")


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for r in ROWS:
            assert len(r["title"]) <= 80, r["title"]
            f.write(json.dumps(r) + "\n")
    hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--grep=^verif hook"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    checks, na = [], []
    for r in ROWS:
        i = r["id"]
        if i in props.PROPS:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique="symbolic execution of keride's LLVM IR with Z3 (bounded), counterexamples replayed natively",
                               level="model_checking", level_note=LEVEL))
        else:
            na.append(dict(property=i, reason=NA.get(i, "No check built yet.")))
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="cfg keride_verif", enable="RUSTFLAGS='--cfg keride_verif' (check.py sets it when it compiles the harness crate with its path dependency on /repo)", source_commits=hooks),
             checks=checks, not_applicable=na,
             notes="Every check compiles keride from /repo's working tree; see DESIGN.md.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks;", "not applicable:", [x["property"] for x in na])


main()
