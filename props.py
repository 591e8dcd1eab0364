"""What each check explores: harnesses, parameters, bounds."""

COMMON_ASSUMPTIONS = [
    "rustc/LLVM IR semantics as implemented by the executor (validated per run by native replay of sampled paths and a self-test of the term layer against Z3)",
    "hash, signature, KDF and random sources are ideal stand-ins with the crates' interfaces; regex is a re-implementation over regex-syntax",
    "Z3 verdicts",
]


def J(name, entry, reach=(), secs=600, paths=2_000_000, **params):
    return dict(name=name, entry=entry, reach=list(reach), secs=secs, paths=paths, params=params)


PROPS = {}


def prop(pid, features, bounds, outside, assumptions=()):
    def deco(f):
        PROPS[pid] = dict(features=features, bounds=bounds, outside=outside, assumptions=list(assumptions), jobs=f)
        return f
    return deco


def thorough(t):
    return t == "thorough"


@prop("C01", "mcodec",
      "all table codes; raw (and up to 2 surplus raw bytes) fully symbolic; variable-size raws of 0..13 bytes symbolic plus 12284..12289 bytes (first 6 symbolic) at the small/large code boundary; 0 or 1 following bytes",
      "other variable sizes, more following bytes")
def _(t):
    r = ["encoded", "parsed back"]
    js = [J(f"fixed{a}", "h_fixed", r, lo=a, hi=a + 10, extra=2, more=1) for a in (0, 10, 20, 30)]
    js.append(J("var", "h_var", r, lo=0, n=14, sym=1000, extra=2))
    js += [J(f"varbig{a}", "h_var", r, lo=a, n=2, sym=6, extra=1, _maxsteps=100000000) for a in (12284, 12286, 12288)]
    return js


@prop("C02", "mcodec",
      "per code: every ASCII text of the code's full length plus one, and up to two shorter; three arbitrary bytes of UTF-8 in each of 5 windows; every binary of the code's length, one more, one less; every UTF-8 text and every binary of at most 8 bytes; variable sizes whose material fits in 14 (text) or 18 (binary) characters",
      "several non-ASCII characters far apart; longer variable material")
def _(t):
    r = ["accepted", "refused"]
    js = [J(f"ctext{a}", "h_ctext", r, lo=a, n=5, var=14, win=0) for a in range(0, 50, 5)]
    js += [J(f"cwin{a}", "h_ctext", r, lo=a, n=10, var=14, win=5) for a in range(0, 50, 10)]
    js += [J(f"cbin{a}", "h_cbin", r, lo=a, n=10, var=18) for a in range(0, 50, 10)]
    js += [J(f"cany{n}", "h_cany", ["refused"], lo=n, n=1) for n in range(0, 9)]
    js += [J(f"bany{n}", "h_bany", ["refused"], lo=n, n=1) for n in range(0, 9)]
    return js


@prop("C03", "icodec",
      "every indexer code; all u32 indices and other indices (or none); raw (and one surplus byte) fully symbolic; the variable-size code with 0..5 and 4094..4096 quadlets; 0 or 2 following bytes",
      "other variable sizes; the other index of the variable-size code, which its encoding does not carry")
def _(t):
    js = [J(f"fixed{c}", "h_ifixed", ["encoded", "parsed back", "refused"], code=c, extra=2, more=1) for c in range(19) if c != 16]
    js += [J("var", "h_ivar", ["encoded", "parsed back", "refused"], lo=0, n=6, extra=2, more=1)]
    js += [J("varbig", "h_ivar", ["encoded", "parsed back", "refused"], lo=4094, n=3, extra=0, more=0, _maxsteps=200000000)]
    return js


@prop("C04", "icodec",
      "per code: every ASCII text of the code's full length plus one and up to two shorter; three arbitrary bytes of UTF-8 in each of 5 windows; every binary of the code's length, one more, one less; every UTF-8 text and every binary of at most 8 bytes; variable material of up to 10 characters",
      "several non-ASCII characters far apart; longer variable material")
def _(t):
    r = ["accepted", "refused"]
    js = []
    for c in range(19):
        js.append(J(f"itext{c}", "h_itext", r, code=c, var=10, win=0))
        js.append(J(f"iwin{c}", "h_itext", r, code=c, var=10, win=5))
        js.append(J(f"ibin{c}", "h_ibin", r, code=c, var=8))
    js += [J(f"iany{n}", "h_iany", ["refused"], n=n) for n in range(0, 9)]
    js += [J(f"ibany{n}", "h_ibany", ["refused"], n=n) for n in range(0, 9)]
    return js


@prop("C05", "small",
      "all 15 counter codes; all u32 counts by every route, 2 following bytes; every text (ASCII or UTF-8) and binary with a counter code of the full length plus one or two, down to two shorter; every text of at most 8 bytes and binary of at most 8; all u8 version triples and every ASCII version text of at most 6 characters without '+'",
      "longer version texts")
def _(t):
    js = [J("count", "h_count", ["encoded", "parsed back", "refused"], extra=2)]
    js += [J("cttext", "h_cttext", ["accepted", "refused"]), J("ctbin", "h_ctbin", ["accepted", "refused"])]
    js += [J(f"ctany{n}", "h_ctany", ["refused"], n=n) for n in range(9)]
    js += [J(f"ctbany{n}", "h_ctbany", ["refused"], n=n) for n in range(9)]
    js += [J("semver", "h_semver", ["packed", "refused"])]
    js += [J(f"semstr{n}", "h_semstr", ["packed", "refused"] if n else ["packed"], n=n) for n in range(7)]
    return js


@prop("C16", "digs",
      "documents of 2..4 fields with symbolic texts of 1..3 characters, a nested object and list, with or without a version string (either protocol), labels d, $id and q first or later, with 0 or 1 ignored fields; digest codes E, 0E (thorough: all nine; made and verified with all nine); changes: a text to any other of up to 4 printable characters, the digest to any other text of its length or one less, a nested text or number, a field removed, added, renamed, moved, or the version string; any raw as digest; 50 table codes and unknown ones",
      "texts with JSON escapes; longer documents; hash collisions (ideal hashes)")
def _(t):
    js = [J("codes", "h_digcode", ["made", "refused"], label=0)]
    for c in range(9) if thorough(t) else (0, 6):
        for l in range(3):
            if l == 0 or c == 0 or thorough(t) and c == 6:
                js.append(J(f"tamper{c}-{l}", "h_tamper", ["changed"], code=c, label=l))
                js.append(J(f"said{c}-{l}", "h_saidify", ["digested", "verified"], code=c, label=l))
                js.append(J(f"other{c}-{l}", "h_saidother", ["verified", "refused"], code=c, label=l))
    js += [J(f"any{l}", "h_saidify", ["digested", "verified"], code=99, label=l) for l in range(3)]
    return js


@prop("C17", "digs",
      "nine digest codes by five routes; data of 0..6 (thorough: 0..12) symbolic bytes against other data of the same lengths; any raw as digest; every pair of codes compared, each side any raw or the digest of 2 symbolic bytes",
      "longer data; hash collisions (ideal hashes)")
def _(t):
    n = 12 if thorough(t) else 6
    return [J("verify", "h_diger", ["verified", "same data", "other data"], n=n), J("raw", "h_digraw", ["verified", "refused"], n=n), J("compare", "h_compare", ["equal", "different"]), J("codes", "h_digcode", ["made", "refused"])]


@prop("C18", "sign",
      "three signing suites; all seeds, transferable or not, by five routes, from text or at random; messages of 0..4 (thorough: 0..8) symbolic bytes against other messages of the same lengths and other keys; all u32 index and other index pairs, by index only or both; signatures of ten lengths up to 128 symbolic bytes, keys of all bytes, keys of other suites",
      "real curve arithmetic (ideal signatures: a key verifies exactly what its seed signed); longer messages")
def _(t):
    js = []
    for k in range(3):
        js += [J(f"sign{k}", "h_sign", ["verified", "same key", "other key"], suite=k, n=8 if thorough(t) else 4),
               J(f"indexed{k}", "h_indexed", ["signed", "refused"], suite=k, n=3),
               J(f"badsig{k}", "h_badsig", ["verified", "not verified", "refused"], suite=k),
               J(f"badkey{k}", "h_badkey", ["verified", "not verified", "refused"], suite=k)]
    return js + [J("cross", "h_cross", ["refused"]), J("random", "h_random", ["two seeds", "verified"]), J("seed", "h_seed", ["made", "refused"])]


@prop("C19", "prefix",
      "six basic codes: events of every incepting kind and three others, 0..2 keys of the same or another code with all raws, next keys, witnesses and anchors absent, empty or filled as text, list, object or null, i symbolic, absent or the key; every raw as prefix; self-addressing codes E and 0E (thorough: all nine): events with symbolic texts, keys, next digests and seals, every other prefix, eight kinds of change; malformed events with wrong-typed or missing v, t, k, i",
      "longer events; hash collisions (ideal hashes); the declared size and the digest field of an event, which prefix verification recomputes or ignores")
def _(t):
    js = [J(f"basic{c}-{o}", "h_basic", ["derived"] if c % 2 and o else ["derived", "refused"], code=c, other=o) for c in range(6) for o in range(2)]
    js += [J(f"check{c}", "h_basicverify", ["verified", "refused"], code=c) for c in range(6)]
    for c in range(9) if thorough(t) else (0, 6):
        js += [J(f"digest{c}", "h_digest", ["derived"], code=c), J(f"change{c}", "h_change", ["changed"], code=c)]
    return js + [J("bad", "h_badevent", ["derived", "refused"])]


@prop("C20", "salt",
      "every 16-byte salt by four routes and five own tiers; every path up to 3 bytes of text (for signers up to 2 Base64 characters), sizes 0, 3, 4, 16, 32, 33, 64, 100 and default, every tier or none, temporary or not; every tier text up to 5 characters; every code as seed; rows of up to 3 signers from any u32 start; creators with stems up to 2 characters, three lists of codes and any u16 prefix, rotation and key index (one symbolic at a time); every ASCII text of 0, 6, 12, 18 or 24 characters as salt",
      "longer paths and rows; the strength and memory use of Argon2id, which is ideal here")
def _(t):
    js = [J("stretch", "h_stretch", ["stretched", "refused"], n=3), J("tier", "h_tier", ["known", "unknown"]), J("signer", "h_signer", ["derived"])]
    js += [J("code", "h_code", ["seed", "other"])] + [J(f"signers{w}", "h_signers", ["derived"], wide=w) for w in (0, 1)]
    js += [J(f"create{s}", "h_create", ["created"], shape=s) for s in range(4)] + [J("newsalt", "h_newsalt", ["random"])]
    return js


@prop("C21", "json",
      "every text of 0..3 (thorough: 4) bytes of UTF-8 as value, of 2 as key; integers with any 8 bits (and the low 16) against any others alike; nine floats; every native integer of 8 to 64 bits, flag and text made a value and back; fields of any one-character label set in place; documents of five shapes to depth 3 with leaves of every kind and symbolic texts and keys, also repeated keys; every text of 0..3 bytes read, every text of up to 4 characters between quotes, every \\u escape and every pair of them after dB (thorough: or d8), every text of 5 (thorough: 6) characters of three alphabets, every integer of up to 3, 9 or 12 digits and those 1000 around the largest of 63 and 64 bits",
      "other floats (their digits are chosen by serde_json); longer texts; integers beyond 64 bits signed, which are read as floats")
def _(t):
    n = 6 if thorough(t) else 5
    r = ["loaded", "refused"]
    js = [J(f"string{n}", "h_string", ["kept"], n=n, **{"as": 0}) for n in range(5 if thorough(t) else 4)] + [J(f"string2-{a}", "h_string", ["kept"], n=2, **{"as": a}) for a in (1, 2)]
    js += [J(f"integer{s}", "h_integer", ["kept"], shift=s, bits=8) for s in range(0, 64, 8)] + [J("integer", "h_integer", ["kept"], shift=0, bits=16)]
    js += [J("float", "h_float", ["kept"]), J("macro", "h_macro", ["read"]), J("convert", "h_convert", ["same"]), J("place", "h_place", ["first", "second", "new"])] + [J(f"tree{s}", "h_tree", ["kept"], shape=s, strings=1) for s in range(5)]
    js += [J(f"text{n}", "h_text", r if n else ["refused"], n=n, alphabet=0, quoted=0, more=1) for n in range(4)]
    js += [J(f"quoted{n}", "h_text", r, n=n, alphabet=0, quoted=1, more=0) for n in range(1, 5)]
    js += [J(f"some{a}", "h_text", r, n=n, alphabet=a, quoted=0, more=0) for a in (1, 3, 4)] + [J("some2", "h_text", r, n=n, alphabet=2, quoted=1, more=0)]
    js += [J(f"escape{p}", "h_escape", r, pair=p, more=0) for p in ((0, 1, 2) if thorough(t) else (0, 1))]
    js += [J(f"digits{n}", "h_digits", r if n > 1 else ["loaded"], n=n, front=0) for n in (1, 2, 3, 9, 12)]
    js += [J(f"digits-{f}", "h_digits", [["loaded", "too large"], ["too large"], ["too large"]][f - 1], n=3, front=f) for f in (1, 2, 3)]
    return js


@prop("C22", "small",
      "all u32 with 0..9 digits, all u64 with 1..11 digits, where the integer fits; every ASCII text up to 12 characters (every UTF-8 text up to 6 bytes) read; every code text of 1..8 characters packed and unpacked with 0 or 2 following bytes; leading sextets (0..13) and characters (0..8) of every binary up to 10 bytes; every char",
      "longer texts; integers wider than the digits asked for")
def _(t):
    js = [J("int32", "h_int32", ["written", "read"])]
    js += [J(f"int64-{n}", "h_int64", ["written", "read"], len=n) for n in range(1, 12)]
    js += [J(f"read{n}", "h_read", ["read", "refused"] if n else ["read"], n=n) for n in range(13)]
    js += [J("digit", "h_digit", ["digit", "not a digit"])]
    js += [J(f"pack{n}", "h_pack", ["packed", "refused"], n=n, more=2) for n in range(1, 9)]
    js += [J(f"nab{n}", "h_nab", ["sliced"] if n else [], n=n) for n in range(11)]
    return js


@prop("C06", "prims",
      "12 typed primitives x all 50 table codes x 4 routes with the whole raw symbolic (variable sizes: 10..12 bytes); signatures with every indexer code x 4 routes; computing constructors of nine primitives with every table code and five others; raws of 11 lengths without a code or with 9 non-codes",
      "other raw lengths of variable codes; ECDSA seeds that are not valid scalars may be refused")
def _(t):
    js = []
    for ty in range(12):
        js += [J(f"class{ty}-{lo}", "h_class", ["refused"] + (["accepted"] if False else []), type=ty, lo=lo, n=min(25, 50 - lo)) for lo in (0, 25)]
        js.append(J(f"classraw{ty}", "h_class_raw", ["refused"], type=ty))
    js += [J(f"value{ty}", "h_class_value", ["accepted"] + ([] if ty in (7, 8) else ["refused"]), type=ty) for ty in (1, 2, 4, 5, 6, 7, 8, 9, 10)]
    js.append(J("siger", "h_siger", ["accepted", "refused"]))
    return js


@prop("C07", "prims",
      "all u128 integers by every route of Number and Seqner; all raws of the four number codes; hex texts of up to 32 digits of either case (8 symbolic digits after 0, 12 or 24 zeros, and up to 32 symbolic lower/upper-case digits); all UTF-8 texts up to 5 bytes as hex; 33-digit texts",
      "hex texts starting with '+'")
def _(t):
    js = [J("num", "h_num", ["encoded", "parsed back"]), J("numhex", "h_numhex", ["hex"]), J("numraw", "h_numraw", ["read"]), J("seq", "h_seq", ["read"])]
    js += [J(f"hex{z}-{n}", "h_hex", ["read"], zeros=z, n=n) for z, n in [(0, 1), (0, 2), (0, 4), (0, 8), (24, 8), (30, 2), (12, 8), (0, 32)]]
    js += [J(f"hexany{n}", "h_hexany", ["done"], n=n) for n in range(6)]
    js += [J("hexlong", "h_hexlong", ["done"])]
    return js


@prop("C08", "prims",
      "every UTF-8 text up to 6 bytes, every ASCII text up to 16 characters, and these with any UTF-8 in four consecutive bytes; encodings compared with CESR and read back by every route and with every small code",
      "longer texts; texts whose length is a multiple of four and that start with 'A' (ambiguous in CESR)")
def _(t):
    return [J(f"bext{n}", "h_bext", ["encoded", "parsed back"] + (["refused"] if n else []), n=n) for n in range(17)]


@prop("C10", "prims",
      "every date-time with arbitrary digits and either sign, by every route; and with one arbitrary character (digit, separator, Base64 letter other than c, d, p, or '~', '!') at any of the 32 positions; texts shorter than 32 characters ending in two arbitrary bytes",
      "longer texts (the rest is cut off); Base64 letters c, d, p in place of separators")
def _(t):
    return ([J("date", "h_date", ["encoded", "read"], lo=32, n=1, routes=1)]
            + [J(f"datefree{a}", "h_date", ["encoded", "read"], lo=a, n=4, routes=0) for a in range(0, 32, 4)]
            + [J("dateshort", "h_dateshort", ["refused"])])


@prop("C24", "prims", "all 50 table codes x 4 routes with the whole raw symbolic (variable sizes: 10..12 bytes); full size of every variable code with ten sizes from 1 to 5000 quadlets", "other raw lengths of variable codes")
def _(t):
    return [J("classify", "h_classify", ["classified"]), J("fullsize", "h_fullsize", ["sized"])]


@prop("C09", "path",
      "lists of up to 3 elements of 1..3 symbolic characters and one integer, by every route; every element of up to 4 bytes of ASCII or UTF-8; every Base64 text up to 7 characters (thorough: 9) as a path; pairs of paths of up to 2 elements of 1..2 characters; resolution of every path of up to 3 elements of 1..2 characters in 3 documents with symbolic labels; places of up to 25 digits, two of them symbolic; tails: digest texts with any one character changed, all digest and three other codes, maps and lists with symbolic texts, every other kind",
      "longer paths; texts longer than a digest as tail; elements containing '-' or a single empty element (their text is that of another list); other documents")
def _(t):
    js = [J("path", "h_path", ["kept"], k=3, l=3)]
    js += [J(f"element{n}", "h_element", ["accepted"] + (["refused"] if n else []), n=n) for n in range(5)]
    js += [J(f"bext{n}", "h_bextpath", ["no path"] + (["path"] if n else []), n=n) for n in range(10 if thorough(t) else 8)]
    js += [J("rel", "h_rel", ["stripped", "kept"], k=2, l=2)]
    js += [J(f"resolve{d}-{n}", "h_resolve", ["found"] + (["nothing there"] if n else []), doc=d, n=n, l=2, label=1) for d in range(3) for n in range(4)]
    js += [J(f"place{d}-{n}", "h_place", ["nothing there", "found"], doc=d, n=n) for d in range(3) for n in (1, 2)]
    return js + [J("tail", "h_tail", ["digest", "no digest", "document", "nothing"])]


@prop("C11", "thold",
      "every u32 threshold and every list of up to 4 u32 indices; 12 weighted thresholds of up to 5 weights by three routes and every threshold of 3 weights from {0,1,1/2,1/3,2/3,3/7} alone or with one of two second clauses, with every list of up to 3 (thorough: 4; the latter: 2) u32 indices; these and two of up to 3 clauses and 8 weights with every set of indices in ascending and descending order",
      "longer index lists; other weights")
def _(t):
    k = 4 if thorough(t) else 3
    r = ["satisfied", "not satisfied", "refused"]
    least = {1: 3, 4: 3, 5: 4, 8: 4, 10: 4}  # members the family needs, where more than two
    js = [J("numeric", "h_numeric", ["satisfied", "not satisfied"], k=4)]
    js += [J(f"weighted{f}", "h_weighted", r if least.get(f, 0) < k else r[1:], family=f, free=0, k=k - 1, bits=0, routes=3, subset=0) for f in range(12)]
    js += [J(f"many{f}", "h_weighted", r if least.get(f, 0) <= k else r[1:], family=f, free=0, k=k, bits=3, routes=3, subset=0) for f in range(12)]
    js += [J(f"all{f}", "h_weighted", r, family=f, free=0, k=max(k, 4), bits=3, routes=1, subset=0) for f in (5, 8, 10)]
    js += [J(f"sets{f}", "h_weighted", r[:2], family=f, free=0, k=0, bits=0, routes=1, subset=1) for f in range(14)]
    js += [J("freesets", "h_weighted", r[:2], family=0, free=3, k=0, bits=0, routes=1, subset=1)]
    js += [J("free", "h_weighted", r, family=0, free=3, k=2, bits=3, routes=1, subset=0)]
    return js


@prop("C12", "thold",
      "14 weighted thresholds by every form, also with reducible fractions; 96 thresholds of up to 12 clauses of up to 31 weights; every i64 number by every form; every text up to 5 bytes (UTF-8) or 8 characters (ASCII) as expression, every text of up to 5 (thorough: 6) characters starting with '['; every text up to 3 bytes (thorough: and every ASCII text of 4) as weight before, after, or behind two, beside one of up to three other weights; every encoded form up to 5 bytes, and with 4 of '0123sacA' after a text code, 3 arbitrary after a number code (thorough: 4 arbitrary and 6 of '0123sacA' after a text code)",
      "weights and numbers with signs; longer texts")
def _(t):
    r = ["accepted", "refused"]
    js = [J("forms", "h_forms", ["kept"]), J("long", "h_long", ["kept"]), J("number", "h_number", r), J("types", "h_types", ["refused"])]
    js += [J(f"text{n}", "h_text", r if n else ["refused"], n=n, list=0) for n in range(9)]
    js += [J(f"list{n}", "h_text", (r if n >= 5 else ["refused"]), n=n, list=1) for n in range(1, 7 if thorough(t) else 6)]
    js += [J(f"weight{n}-{p}", "h_weight", ["refused"] if n in (0, 2) else r, n=n, others=1 if n == 4 else 3, place=p) for p in range(3) for n in range(5 if thorough(t) and p == 0 else 4)]
    js += [J(f"limen{n}", "h_limen", ["refused"], n=n, code=0) for n in range(6)]
    js += [J("limentext4", "h_limen", r, n=4, code=4), J("limenM", "h_limen", r, n=3, code=5)]
    if thorough(t):
        js += [J(f"limenvar-{c}", "h_limen", ["refused"], n=4, code=c) for c in (1, 2, 3)] + [J("limentext6", "h_limen", r, n=6, code=4)]
    return js


@prop("C13", "vers",
      "every protocol text of 3..5 characters, u8 version pair and u32 size written; every ASCII text of up to 20 characters read, every version string with 1..4 or 17 characters before or after it, one two-byte character at any of four places; in messages of 28..34 bytes every 17-character text at 9 offsets in 0..14 with 2 (thorough: 4) arbitrary bytes after it, every version string with 2 arbitrary characters before it, and every window of 3 arbitrary bytes; messages of 1..3 fields with any 17-character text as version and symbolic labels and values sized",
      "messages where a field name or value before the version string has its form; longer messages (only their first 29 bytes matter)")
def _(t):
    js = [J(f"versify{n}", "h_versify", ["written", "read back", "refused"], protocol=n) for n in (3, 4, 5)]
    js += [J(f"read{n}", "h_deversify", ["refused"] + (["read"] if n == 17 else []), n=n, shape=0, at=0, multi=0) for n in range(21)]
    js += [J(f"read{n}at{a}", "h_deversify", ["refused"], n=n, shape=1, at=a, multi=0) for n, a in [(18, 0), (18, 1), (19, 1), (21, 4), (21, 0), (34, 0), (34, 17)]]
    js += [J(f"readmulti{n}-{m}", "h_deversify", ["refused"], n=n, shape=0, at=0, multi=m) for n, m in [(17, 1), (17, 3), (17, 10), (17, 16), (18, 1), (18, 17)]]
    js += [J(f"sniff{a}-{n}", "h_sniff", ["refused"] + (["found"] if n > 28 and a < 13 else []), at=a, n=n, free=0, good=0, after=4 if thorough(t) else 2) for a, n in [(0, 29), (1, 30), (3, 28), (6, 29), (9, 30), (12, 29), (12, 34), (13, 30), (14, 34)]]
    js += [J(f"sniffpre{a}", "h_sniff", ["refused"] + (["found"] if a < 13 else []), at=a, n=33, free=2, good=1, after=2) for a in (2, 7, 12, 13)]
    js += [J(f"any{a}-{n}", "h_sniffany", (["refused"] if a < 23 else []) + (["found"] if n > 28 else []), at=a, n=n, free=3) for a in range(0, 27, 3) for n in ((28, 29, 40) if a == 0 else (30,))]
    js += [J("sizeify", "h_sizeify", ["sized", "refused"], shape=0)]
    return js


def message(a):
    r = ["loaded", "refused"]
    js = [J(f"load{c}", "h_load", ["loaded"], acdc=a, code=c) for c in range(9)]
    js += [J(f"size{h}", "h_size", r if h == 0 else ["refused"], acdc=a, high=h) for h in range(3)]
    js += [J(f"refuse{w}", "h_refuse", (["loaded"] if w in (2, 5) else []) + (["refused"] if w != 5 else []), acdc=a, what=w) for w in range(7)]
    js += [J(f"pretty{n}", "h_pretty", ["shown"], acdc=a, n=n) for n in range(5)]
    js += [J(f"bound{f}", "h_bound", ["unchanged", "changed"], acdc=a, field=f) for f in range(5)]
    return js


@prop("C14", "event",
      "events of 5 shapes and field orders with symbolic digests of all 9 codes and symbolic texts of 1..3 Base64 characters, 0..2 arbitrary bytes behind them, by 3 routes; every stated size from 0 to 255, 256 to 511 and 130816 to 131071; every other version number, 8 odd version strings, 5 kinds, 10 kinds of values in place of version or digest; up to 2 symbolic keys and witnesses of 6 codes and next digests of 9 codes; sequence numbers of up to 4 hexadecimal digits; first-seen numbers of two bytes; 9 kinds and every kind of 3 Base64 characters; 4 forms of thresholds; every replacement of a field by another text of its length; messages of some 5000 bytes refused; indented forms with a text of up to 4 bytes, cut anywhere near it and at both ends",
      "other kinds of serialisation than JSON; larger messages; first-seen numbers with other codes; messages with blanks (their bytes are kept, C15 loads them)", assumptions=["hashes are ideal: distinct inputs give distinct outputs"])
def _(t):
    js = message(0)
    js += [J(f"fields{p}", "h_fields", ["read"], part=p) for p in range(5)]
    return js


@prop("C25", "event",
      "credentials of 4 shapes and field orders with symbolic digests of all 9 codes and symbolic texts of 1..3 Base64 characters, 0..2 arbitrary bytes behind them, by 3 routes; every stated size from 0 to 255, 256 to 511 and 130816 to 131071; every other version number, 8 odd version strings, 5 kinds, 10 kinds of values in place of version or digest; 18 shapes of credentials read; every replacement of a field by another text of its length; messages of some 5000 bytes refused; indented forms with a text of up to 4 bytes, cut anywhere near it and at both ends",
      "other kinds of serialisation than JSON; larger credentials; the subject of a credential without one (reading it panics)", assumptions=["hashes are ideal: distinct inputs give distinct outputs"])
def _(t):
    return message(1) + [J("read", "h_creder", ["read"], acdc=1)]


@prop("C15", "event",
      "14 fields of events and credentials, each missing or with values of 9 kinds (texts of up to 2 printable characters and of 4 Base64 characters); every message of up to 4 bytes, and with every 5 bytes (thorough: 6) after a right version string, and after a right version string and digest, with every accessor called",
      "other bodies; the subject of a credential without one (reading it panics: it cannot return an error)")
def _(t):
    js = [J(f"event{f}", "h_odd", ["read"], acdc=0, field=f) for f in range(9)]
    js += [J(f"acdc{f}", "h_odd", ["read"], acdc=1, field=f) for f in range(5)]
    js += [J(f"bytes{n}", "h_body", ["refused"], acdc=0, head=0, n=n) for n in range(5)]
    for a in (0, 1):
        for n in range(1, 7 if thorough(t) else 6):
            js.append(J(f"body{a}-{n}", "h_body", ["refused"], acdc=a, head=1, n=n))
            js.append(J(f"after{a}-{n}", "h_body", ["loaded", "refused"], acdc=a, head=2, n=n))
    return js


@prop("C23", "msg",
      "none, an empty list, or one or two of: indexed signatures and witness signatures of 12 codes with symbolic material, couples with keys and signatures of 3 codes each with symbolic material; no seal, one of each kind, with symbolic texts and sequence numbers of 1, 4 and 32 hexadecimal digits; up to 66 signatures in a list; transferable keys of 3 codes in any place; every text of up to 3 characters as a seal's sequence number; receipts with identifiers of 1..4 characters, sequence numbers of 1..4 (thorough: and 8, 16, 32) digits, and digests of 9 codes",
      "pipelined messages (keride does not make them); witness signatures with transferable keys (an indexed signature does not hold its key)")
def _(t):
    js = [J(f"message{c}-{s}", "h_message", ["signed", "refused"], code=c, seal=s) for c in range(12) for s in range(4)]
    js += [J(f"many{n}", "h_many", ["signed"], n=n) for n in (1, 5, 30, 63, 64)]
    js += [J("refuse", "h_refuse", ["key refused", "accepted", "number refused", "nothing refused"])]
    js += [J(f"receipt{p}-{d}", "h_receipt", ["made", "refused"], pre=p, digits=d) for p, d in ([(1, 1), (2, 2), (3, 3), (4, 4)] + ([(4, 8), (4, 16), (4, 32)] if thorough(t) else []))]
    return js
