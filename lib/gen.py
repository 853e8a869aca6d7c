"""Random inputs for direction B (recorded traces).  No expectations here:
the specification decides what has to come out."""
import json, os
import harness
from harness import X, SPEC

RULES = None


def rules():
    """The supported Plural-Forms headers, read from the specification."""
    global RULES
    if RULES is None:
        t = open(os.path.join(SPEC, "Plurals.tla")).read()
        t = t[t.index("Supported0 == <<"):t.index(">>", t.index("Supported0 == <<"))]
        RULES = [l.strip().rstrip(",").strip('"') for l in t.splitlines()[1:] if l.strip().startswith('"')]
        RULES = [r.rstrip(" >").rstrip('"') for r in RULES]
        RULES = [r for r in RULES if r]
    return RULES


def lang_data():
    return json.load(open(os.path.join(SPEC, "lang.json")))


WORDS = [b"a", b"b", b"ab", b"File", b"hello world", b"%d file", b"%d files", b"Quit", b"x", b"", b"msgid", b"msgstr", b"# no comment",
         b"fuzzy", b"tab\there", b"nl\n", b"\n", b"quote\"d", b"back\\slash", b"\\n", b"a\\", b"\"", b"caf\xc3\xa9", b"\xe6\x97\xa5\xe6\x9c\xac",
         b"\xf0\x9f\x98\x80", b" lead", b"trail ", b"\a\b\v\r\t", b"'", b"[0]", b"msgstr[0]", b"Plural-Forms:", b"\x01", b"\x7f", b"n\x00l", b"\x00", b"\xc3\xbc", b"@", b"CHARSET"]


def text(rng, allow_empty=True, valid="utf8"):
    k = rng.random()
    if k < 0.6:
        t = rng.choice(WORDS)
    elif k < 0.8:
        t = b" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 5)))
    elif k < 0.9:
        t = bytes(rng.choice(b"abcdefghij \\\"\n\tnrvab0x'") for _ in range(rng.randint(1, 30)))
    elif k < 0.97:
        t = rng.choice(WORDS) + bytes(rng.randint(1, 255) for _ in range(rng.randint(0, 6))) if valid == "any" else "".join(
            chr(rng.choice([0x41, 0xe9, 0x153, 0x20ac, 0x105, 0x430, 0x3b1, 0x65e5, 0x1f600, 0x7ff, 0x800, 0xffff - 2, 0x10000])) for _ in range(rng.randint(1, 8))).encode()
    else:
        t = rng.choice([b"long ", b"0123456789", "é".encode(), b"\\", b"\n"]) * rng.randint(30, 400)
    if not t and not allow_empty:
        t = b"e"
    return t


CTRL = {7: b"\\a", 8: b"\\b", 11: b"\\v", 10: b"\\n", 9: b"\\t", 13: b"\\r", 34: b'\\"', 92: b"\\\\"}


def escape(rng, t, chars=None):
    """chars: optional list of multi-byte units to keep together."""
    out = []
    for u in (chars if chars is not None else [bytes([c]) for c in t]):
        if len(u) == 1 and u[0] in CTRL and (u[0] in (10, 34, 92) or rng.random() < 0.7):
            out.append(CTRL[u[0]])
        else:
            out.append(u)
    return out


def ws(rng):
    return rng.choice([b" ", b"\t", b"  ", b"   ", b"\v", b"\f", b" \t"])


def literal(rng, kw, t, tidy=0.6, chars=None):
    units = escape(rng, t, chars)
    lines = []
    if rng.random() < tidy and len(units) < 60:
        lines = [kw + b' "' + b"".join(units) + b'"']
    else:
        pieces = []
        while units:
            n = rng.randint(1, max(1, min(len(units), 30)))
            pieces.append(b"".join(units[:n]))
            units = units[n:]
        if rng.random() < 0.5 or not pieces:
            pieces.insert(rng.randint(0, len(pieces)) if rng.random() < 0.3 else 0, b"")
        sep = b" " if rng.random() < 0.9 else rng.choice([b"", b"\t", b"  "])
        lines = [kw + sep + b'"' + pieces[0] + b'"']
        for p in pieces[1:]:
            lines.append((ws(rng) if rng.random() < 0.15 else b"") + b'"' + p + b'"')
    if rng.random() < 0.1:
        lines = [l + (ws(rng) if rng.random() < 0.5 else b"") for l in lines]
    return lines


def entry(rng, ids, big5=None):
    """A well-formed entry."""
    L = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        L.append(rng.choice([b"# a comment", b"#: src/x.cpp:12", b"#. extracted", b"#, c-format", b"#| msgid \"old\"", b"#~ msgid \"gone\"", b"#,fuzzyx"[:2] + b" no"]))
    if rng.random() < 0.2:
        L.append(rng.choice([b"#, fuzzy", b"#, c-format, fuzzy", b"#,fuzzy", b"#, fuzzy, no-wrap"]))
        if rng.random() < 0.5:
            rng.shuffle(L)
            L += rng.choice([[], [b"#, c-format"], [b"# and so on"], [b"#"], [b"#, no-wrap", b"#: y.c:2"]])
    if rng.random() < 0.3:
        L += literal(rng, b"msgctxt", rng.choice([b"", b"menu", b"c", b"dialog box", b"a", b"m\x04x"]))
    mid = rng.choice(ids) if rng.random() < 0.85 else text(rng, valid="any")
    L += literal(rng, b"msgid", mid)

    def tr():
        if big5:
            cs = [rng.choice(big5) if rng.random() < 0.7 else bytes([rng.choice(b"ab\\\"\n7 ")]) for _ in range(rng.randint(0, 12))]
            return b"".join(cs), cs
        return (b"" if rng.random() < 0.15 else text(rng)), None
    if rng.random() < 0.35:
        L += literal(rng, b"msgid_plural", rng.choice([mid + b"s", text(rng)]))
        n = rng.choice([1, 2, 2, 2, 3, 3, 4, 6])
        idx = list(range(n))
        if rng.random() < 0.15:
            rng.shuffle(idx)
        if rng.random() < 0.1:
            idx.append(rng.choice([9, 8, 0, 5]))
        if rng.random() < 0.05:
            idx = idx[1:] or [1]
        for i in idx:
            t, c = tr()
            L += literal(rng, b"msgstr[%d]" % i, t, chars=c)
    else:
        t, c = tr()
        L += literal(rng, b"msgstr", t, chars=c)
    return L


CHARSETS = [b"UTF-8"] * 8 + [b"utf-8", b"CHARSET", b"ISO-8859-1", b"iso-8859-15", b"ISO-8859-2", b"KOI8-R", b"ASCII", b"Utf-8", b"UTF8", b"charset", b"NOPE-9"]
BADRULES = ["nplurals=2;", "nplurals=INTEGER; plural=EXPRESSION;", "nplurals=2; plural=n", "", "plural=(n != 1); nplurals=2;", "nplurals=2; plural=(n!=1)@"]


def header(rng, cs=None, rule=None, fuzzy=False):
    fields = [b"Project-Id-Version: x 1.0", b"Language: de", b"MIME-Version: 1.0", b"Content-Transfer-Encoding: 8bit", b"X-Note: Content-Type: text/plain; charset=KOI8-R"]
    rng.shuffle(fields)
    fields = fields[:rng.randint(0, 4)]
    if cs is None:
        cs = rng.choice(CHARSETS)
    if cs != b"-":
        k = rng.random()
        if k < 0.9:
            fields.append(b"Content-Type: text/plain; charset=" + cs)
        elif k < 0.95:
            fields.append(b"Content-Type: text/html; charset=" + cs)
        else:
            fields.append(b"Content-type: text/plain; charset=" + cs)
    if rule is None:
        rule = rng.choice(rules()[:3] * 3 + rules() + BADRULES + ["-"] * 8)
        if rule == rules()[16]:
            rule = rules()[15]  # one of two spellings of equal value
    if rule != "-":
        r = rule.replace(";plural", "; plural") if rng.random() < 0.7 else rule
        if rng.random() < 0.2:
            r = "".join(c + (" " if rng.random() < 0.2 else "") for c in r)
        fields.append(b"Plural-Forms: " + r.encode())
    rng.shuffle(fields)
    t = b"\n".join(fields) + (b"\n" if rng.random() < 0.9 else b"")
    if not fields and rng.random() < 0.5:
        t = b""
    L = [b"# Header"] if rng.random() < 0.5 else []
    if fuzzy or rng.random() < 0.1:
        L.append(b"#, fuzzy")
    L.append(b'msgid ""')
    if rng.random() < 0.7:
        L.append(b'msgstr ""')
        for f in t.split(b"\n"):
            if f:
                L.append(b'"' + b"".join(escape(rng, f + b"\n")) + b'"')
        if not t.endswith(b"\n") and fields:
            L[-1] = L[-1].replace(b"\\n", b"")
    else:
        L += literal(rng, b"msgstr", t, 0.5)
    return L


MALFORMED = [
    [b'msgid "a', b'msgstr "b"'], [b'msgid "m1"'], [b'msgid "m1"', b"", b'msgstr "late"'], [b'msgstr "orphan"'], [b"garbage"],
    [b'msgid "m1"', b"garbage", b'msgstr "b"'], [b'msgid m1', b'msgstr "b"'], [b'msgid "m1"', b'msgstr b'], [b'msgid "m1"', b'msgstr "b'],
    [b'msgid "m1"', b'msgid_plural "p"'], [b'msgid "m1"', b'msgid_plural "p"', b'msgstr "x"'], [b'msgid "m1"', b'msgid_plural "p"', b'msgstr[x] "x"'],
    [b'msgid "m1"', b'msgid_plural "p"', b'msgstr[0] "ok"', b'msgstr[1] "bad'], [b'msgid "m1"', b'msgid_plural "p"', b'msgstr[0] "ok"', b"junk"],
    [b'msgid "m1"', b'msgid_plural "p"', b'msgstr[10] "ok"'], [b'msgid "m1"', b'msgid_plural "p"', b'msgstr[0]'], [b'msgctxt "c"', b'msgstr "b"'],
    [b'msgctxt "c'], [b'msgctxt'], [b'msgid'], [b'msgid '], [b'msgid "'], [b'msgid ""', b'msgstr'], [b'msgid "m1"', b'msgstr "b" junk "c"'],
    [b'msgid "m1" msgstr "b"'], [b'msgid "m1"', b'msgstr "b\\'], [b'msgid "m1"', b'msgstr "b"', b"junk"], [b'"string only"'], [b' msgid "m1"', b'msgstr "b"'],
    [b'msgid "m1"', b'msgstr "b"', b'msgid "m2"', b'msgstr "c"'], [b'msgid "m1"', b'', b'#, fuzzy'], [b'MSGID "m1"', b'MSGSTR "b"'], [b'msgid "m1"', b'msgstr"b"'],
    [b'msgid"m1"', b'msgstr\t"b"'], [b'msgid "m1\\q"', b'msgstr "\\"'], [b'msgid "m1"', b'msgstr "x\\', b'y"'], [b"domain \"d\""], [b'msgid "m1"', b'# comment', b'msgstr "b"'],
    [b'msgid_plural "p"', b'msgstr[0] "x"'], [b'msgid "m1"', b'msgstr[0] "x"'], [b"msgid 'm1'", b"msgstr 'b'"], [b'msgid "m1"', b'msgstr "b"', b'#~ obsolete'],
]


def po_file(rng, ids=None, n=None, with_header=0.8, mal=0.25, cs=None, rule=None, big5=None, mutate=0.1):
    ids = ids or [b"a", b"b", b"m1", b"File", b"%d file", b"hello world", b"caf\xc3\xa9", text(rng, False), text(rng, False)]
    n = (rng.choice([0, 1, 2, 3, 4, 6, 9]) if rng.random() < 0.98 else rng.choice([17, 33, 70, 130])) if n is None else n
    blocks = []
    if big5:
        cs = rng.choice([b"BIG5", b"big5", b"Big5"])
    if rng.random() < with_header or big5:
        blocks.append(header(rng, cs, rule))
    for _ in range(n):
        if rng.random() < mal:
            blocks.append(list(rng.choice(MALFORMED)))
        else:
            blocks.append(entry(rng, ids, big5))
    if rng.random() < 0.03 and len(blocks) > 1:
        blocks.append(header(rng))
    nl = b"\r\n" if rng.random() < 0.12 else b"\n"
    out = b""
    for i, b in enumerate(blocks):
        out += b"".join(l + nl for l in b)
        if i + 1 < len(blocks):
            r = rng.random()
            out += nl if r < 0.78 else nl + nl if r < 0.84 else rng.choice([b"   ", b"\t", b" \t ", b"\v", b"\f", b" "]) + nl if r < 0.93 else b"# between" + nl if r < 0.96 else b""
    if out.endswith(nl) and rng.random() < 0.2:
        out = out[:-len(nl)]
    if rng.random() < 0.1:
        out = b"\xef\xbb\xbf" + out
    if rng.random() < mutate:
        out = mutate_bytes(rng, out)
    return out


def mutate_bytes(rng, t):
    t = bytearray(t)
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        p = rng.randint(0, len(t)) if t else 0
        if k < 0.3 and t:
            del t[p:p + rng.randint(1, 4)]
        elif k < 0.6:
            t[p:p] = bytes([rng.choice(b'"\\\n #m[0]\t\r\x00\xff\x81') if rng.random() < 0.8 else rng.randint(0, 255)])
        elif k < 0.8 and t:
            p = min(p, len(t) - 1)
            t[p] = rng.choice(b'"\\\n #ms[0]9\t\x00\xfe') if rng.random() < 0.8 else rng.randint(0, 255)
        elif k < 0.9:
            t = t[:p]
        else:
            ls = bytes(t).split(b"\n")
            i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
            t = bytearray(b"\n".join(ls))
    return bytes(t)


def parse_line(d, f, ped=1, failat=-1):
    return "parse %d %d %d %s" % (d, ped, failat, X(f))


PADS = [0, 0, 0, 1, 2, 97, 255, 998, 32760, 65530, 65536, 99990, 200000, 1000000]
POPATHS = [b"de.po", b"po/de.po", b"/usr/share/locale/x y/de.po", b"a:7: b/../c.po", b"", b"12", b"..", b"d//e.po", b"C:\\po\\de.po", b"\xc3\xa4.po", b"x" * 300 + b"/y.po", b"po/", b"%s%n.po"]


def named(rng, line):
    """A parse under another name, behind empty lines."""
    return "%s %d %s" % (line, rng.choice(PADS) + rng.randint(0, 9), X(rng.choice(POPATHS)))


COUNTS = [0, 1, 1, 2, 3, 5, 11, 21, 101, 111, 112, 300, -1, -1, -2, 1000000, 1000001, 2**31 - 1, -2**31]


def lookups(rng, d, ids, n, plurals=True):
    L = []
    for _ in range(n):
        i = rng.choice(ids)
        p = i + b"s"
        cnt = rng.choice(COUNTS) if plurals else 1
        c = rng.choice([b"", b"menu", b"c", b"dialog box", b"a"])
        L.append(rng.choice([
            "tr %d %s" % (d, X(i)), "trp %d %s %s %d" % (d, X(i), X(p), cnt),
            "trc %d %s %s" % (d, X(c), X(i)), "trcp %d %s %s %s %d" % (d, X(c), X(i), X(p), cnt)]))
    return L


def parse_session(rng, dcs=None, files=None, failing=0.05, nlook=6, **kw):
    dcs = dcs or rng.choice([b"UTF-8"] * 9 + [b"ISO-8859-1", b"utf-8", b"ISO-8859-15", b"UTF-16LE", b"ASCII"])
    L = ["dict 1 " + X(dcs)]
    if rng.random() < 0.05:
        L.append("setplf 1 %d" % rng.randint(1, 4))
    ids = [b"a", b"b", b"m1", b"File", b"%d file", b"hello world", b"caf\xc3\xa9", text(rng, False), text(rng, False)]
    for _ in range(files or rng.choice([1, 1, 1, 2])):
        f = po_file(rng, ids, **kw)
        fail = rng.randint(0, len(f)) if rng.random() < failing else -1
        l = parse_line(1, f, 0 if rng.random() < 0.15 else 1, fail)
        L.append(named(rng, l) if rng.random() < 0.15 else l)
    L += lookups(rng, 1, ids, nlook)
    return L


def many_session(rng, mal=0.9):
    """Long files, most of their entries malformed."""
    f = po_file(rng, n=rng.choice([12, 25, 40, 70, 110]), mal=mal, mutate=0.0)
    ids = [b"a", b"b", b"m1", b"File"]
    return ["dict 1 " + X(b"UTF-8"), parse_line(1, f, rng.randint(0, 1))] + lookups(rng, 1, ids, 2) + [parse_line(1, b'msgid "a"\nmsgstr "after"\n')] + lookups(rng, 1, ids, 2)


def escape_roundtrip_file(rng, n=6):
    """Entries whose texts are arbitrary bytes without newline problems."""
    L = [b'msgid ""', b'msgstr ""', b'"Content-Type: text/plain; charset=ISO-8859-1\\n"', b""]
    for i in range(n):
        t = bytes(rng.choice(b"ab\\\"\n\t\r\x07\x08\x0b nrvt'\x00") if rng.random() < 0.7 else rng.randint(0, 255) for _ in range(rng.choice([1, 2, 5, 20, 260])))
        if rng.random() < 0.3:
            L += literal(rng, b"msgctxt", bytes(rng.randint(1, 255) for _ in range(3)))
        L += literal(rng, b"msgid", b"k%d" % i if rng.random() < 0.5 else t)
        if rng.random() < 0.3:
            L += literal(rng, b"msgid_plural", t)
            L += literal(rng, b"msgstr[0]", t) + literal(rng, b"msgstr[1]", t[::-1])
        else:
            L += literal(rng, b"msgstr", t)
        if rng.random() < 0.2:   # raw literal content, escapes as they come
            raw = bytes(rng.choice(b"ab\\\\\"nx0\t ;\x00") for _ in range(rng.randint(1, 12)))
            L.append(b'"' + raw + (b'"' if rng.random() < 0.8 else b""))
        L.append(b"")
    return b"\n".join(L) + b"\n"


def literal_session(rng):
    f = escape_roundtrip_file(rng)
    L = ["dict 1 " + X(b"ISO-8859-1"), parse_line(1, f)]
    return L + lookups(rng, 1, [b"k0", b"k1", b"k2"], 3)


BIG5 = [b"\xa5\x5c", b"\xb3\x5c", b"\xa4\x40", b"\xa6\x72", b"\xa4\xa4", b"\xb0\xea", b"\xa4\x48", b"\xa4\x6a", b"\xbb\x5c", b"\xae\x5c", b"\xa1\x41", b"\xa1\x43", b"\xa4\xe9", b"\xa5\xbb", b"\xa4\xe5"]
BIG5ANY = BIG5 + [b"\x81\x22", b"\xfe\x6e", b"\xc8\x20", b"\xa5\xfe", b"\xf9\x5c", b"\x90\x41", b"\xfe\x5c", b"\x81\x5c", b"\x81\x40", b"\xfe\xfe", b"\x80", b"\xff", b"\xff\x5c\x6e"]


def big5_session(rng):
    k = rng.random()
    dcs = rng.choice([b"UTF-8", b"UTF-8", b"BIG5", b"Big5"])
    chars = BIG5 if dcs == b"UTF-8" else BIG5ANY
    return parse_session(rng, dcs=dcs, files=1, big5=chars, mal=0.1, mutate=0.1 if k < 0.7 else 0.5)


RULETEXT = b"Plural-Forms: %s"
TEXTS = {
    b"UTF-8": ["", "a", "ä", "äöü", "日本", "a日b本", "€", "😀", "plain text", "あア"],
}
CSN = [b"UTF-8", b"utf-8", b"UTF8", b"ISO-8859-1", b"iso-8859-15", b"ISO-8859-2", b"KOI8-R", b"ISO-8859-7", b"ASCII", b"UTF-16", b"UTF-16LE", b"UTF-16BE", b"UTF-32", b"UTF-32LE", b"BIG5", b"EUC-JP", b"SHIFT_JIS", b"ISO-2022-JP"]
PYN = {b"UTF8": "utf-8", b"UTF-16": "utf-16", b"UTF-32": "utf-32"}
SAMPLE = {"utf": "aäé€日本字あア中\U0001f600Ωя", "latin": "abcäöüßéñ§", "l2": "abcäöüßčřž", "koi": "abcабвгдяё─", "gr": "abcαβγδΩ", "ascii": "abcdef %s\n\t\"\\", "jp": "abc日本語あいア文字中", "b5": "abc中國一人大小日本文字"}


def sample_of(cs):
    u = cs.upper()
    if u.startswith(b"UTF"):
        return SAMPLE["utf"]
    return SAMPLE[{b"ISO-8859-1": "latin", b"ISO-8859-15": "latin", b"ISO-8859-2": "l2", b"KOI8-R": "koi", b"ISO-8859-7": "gr", b"ASCII": "ascii", b"BIG5": "b5"}.get(u, "jp")]


TRANS = "abß¼½¾«»©®Ææœ€“‘…–—™→ﬁ⅓µ×äéあ\U0001f600"


def conv_session(rng, translit=0.0):
    """translit: how often the target replaces what it lacks (which depends on the locale)."""
    L = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        a, b = rng.choice(CSN), rng.choice(CSN)
        if a.upper() in (b"UTF-32", b"UTF-32LE") and a.upper() != b.upper():
            a = b"UTF-8"   # not modelled as a source
        if rng.random() < 0.06:
            a, b = rng.choice([(b"NOPE-9", b), (a, b"FOO")])
        k = rng.choice([1, 1, 2])
        L.append("ic %d %s %s" % (k, X(a), X(b)))
        tl = rng.random() < translit and a not in (b"NOPE-9",)
        if tl:
            a, b = rng.choice([b"UTF-8", b"ISO-8859-1", b"iso-8859-15", b"utf-8", b"UTF-16LE"]), rng.choice([b"ASCII//TRANSLIT", b"ascii//translit", b"ISO-8859-1//TRANSLIT", b"ISO-8859-15//translit", b"KOI8-R//TRANSLIT"])
            L[-1] = "ic %d %s %s" % (k, X(a), X(b))
        ascii_ok = sample_of(b) if rng.random() < 0.7 else sample_of(a)
        for _ in range(rng.randint(1, 6)):
            pool = [c for c in sample_of(a) if c in ascii_ok] or list("ab")
            if tl:
                pool = [c for c in TRANS if not a.upper().startswith(b"ISO") or ord(c) < 256 or (c == "€" and a.endswith(b"15"))]
                if a.endswith(b"15"):
                    pool = [c for c in pool if c not in "¼½¾"]
                pool = pool if rng.random() < 0.5 else rng.sample(pool, 2)
            t = "".join(rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 8, 40, 300])))
            try:
                by = t.encode(PYN.get(a.upper(), a.decode()))
            except (LookupError, UnicodeEncodeError):
                by = t.encode("ascii", "ignore")
            q = rng.random()
            if q < 0.12 and by:
                by = by[:rng.randint(0, len(by))]
            elif q < 0.2 and by and a.upper() in (b"UTF-8", b"UTF8", b"ASCII", b"ISO-8859-1", b"KOI8-R"):
                p = rng.randrange(len(by))
                by = by[:p] + bytes([rng.randint(128, 255)]) + by[p:]
            L.append("cv %d %s" % (k, X(by)))
    return L


def plural_session(rng):
    L = []
    many = rng.random() < 0.5
    some = rng.sample(rules(), 2)
    for _ in range(5 if many else 3):
        r = rng.choice(some if many else rules())
        h = "Plural-Forms: " + r.replace(";plural", "; plural")
        k = rng.random()
        if k < 0.3:
            h = "".join(c + (rng.choice(" \t\n") if rng.random() < 0.3 else "") for c in h)
        elif k < 0.6:
            h = list(h)
            for _ in range(rng.choice([1, 1, 2])):
                p = rng.randrange(13, len(h))
                q = rng.random()
                if q < 0.4:
                    h[p] = rng.choice("0123456789n%=!<>&|?:();")
                elif q < 0.7:
                    del h[p]
                else:
                    h.insert(p, rng.choice("0123456789n%=!<>&|?:()"))
            h = "".join(h)
        elif k < 0.7:   # well-formed rules nobody lists
            h = "Plural-Forms: nplurals=%d; plural=%s;" % (rng.randint(1, 6), rng.choice(["n>%d" % rng.randint(0, 9), "n%%%d" % rng.randint(1, 6), "n==%d?%d:%d" % (rng.randint(0, 9), rng.randint(0, 5), rng.randint(0, 5)), "(n!=1)&&n<7"]))
        k = rng.randint(1, 3) if many else 1
        L.append("pf %d %s" % (k, X(h)))
        ns = [rng.choice([rng.randint(0, 130), rng.randint(0, 2000), rng.randint(0, 2**31 - 1), -rng.randint(1, 2**31 - 1), 100 * rng.randint(0, 20000000) + rng.randint(0, 25), 10**rng.randint(2, 9) * rng.randint(1, 2) + rng.randint(-2, 2), min(2**rng.randint(5, 31), 2**31 - 3) + rng.randint(-2, 2), 1000000 * rng.randint(1, 2000)]) for _ in range(25)]
        L.append("pe %d %s" % (k, " ".join(map(str, ns))))
    if many:
        ks = sorted({l.split()[1] for l in L if l.startswith("pf")})
        L += ["peq %s %s" % (rng.choice(ks), rng.choice(ks)) for _ in range(4)]
    return L


def dict_ops(rng, d, n, rich=True):
    ids = [b"a", b"b", b"", b"m\x04n", b"long" * 90, b"two\nlines", b"a\n", b"n\x00l"] if rich else [b"a", b"b"]
    txt = [b"t1", b"t2", b"", b"t3 \xc3\xa4", b"x" * 300, b"l1\nl2", b"l1\n", b"t\x001", b"t\x002"]
    cxs = [b"", b"c", b"a", b"c d", b"c\nd"]
    if rich and rng.random() < 0.3:  # a context and a message joined
        sep = rng.choice([b"\x04", b"|", b"\0", b"\n", b"", b":", b"/", b"\x1f"])
        ids = ids[:3] + [c + sep + i for c in (b"c", b"", b"a") for i in (b"a", b"b")]
        cxs = [b"", b"c", b"a", b"c" + sep, b"c" + sep + b"a"]
    L = []
    for _ in range(n):
        i, c = rng.choice(ids), rng.choice(cxs)
        forms = [rng.choice(txt) for _ in range(rng.choice([0, 1, 2, 2, 3, 6]))]
        k = rng.random()
        if k < 0.2:
            L.append("add %d %s %s" % (d, X(i), X(rng.choice(txt))))
        elif k < 0.4:
            L.append("addc %d %s %s %s" % (d, X(c), X(i), X(rng.choice(txt))))
        elif k < 0.55:
            L.append("addp %d %s %s %s" % (d, X(i), X(i + b"s"), " ".join(map(X, forms))))
        elif k < 0.7:
            L.append("addcp %d %s %s %s %s" % (d, X(c), X(i), X(i + b"s"), " ".join(map(X, forms))))
        elif k < 0.75:
            L.append("setpl %d %s" % (d, X("Plural-Forms: " + rng.choice(rules()))) if rng.random() < 0.6 else "setplf %d %d" % (d, rng.randint(1, 4)))
        else:
            L += lookups(rng, d, ids, 1)
    return L


def dict_session(rng, nd=1):
    L = []
    for d in range(1, nd + 1):
        L.append("dict %d %s" % (d, X(b"UTF-8")))
    if rng.random() < 0.8:
        for d in range(1, nd + 1):
            L.append("setpl %d %s" % (d, X("Plural-Forms: " + rng.choice(rules()))))
    for d in range(1, nd):   # a chain
        if rng.random() < 0.8:
            L.append("fb %d %d" % (d, d + 1))
    for _ in range(rng.randint(2, 5)):
        L += dict_ops(rng, rng.randint(1, nd), rng.randint(2, 8))
    for d in range(1, nd + 1):
        L.append("dump %d" % d)
        L += lookups(rng, d, [b"a", b"b", b"", b"zz"], 6)
    return L


def locale_string(rng, data):
    r = rng.choice(data["rows"])
    s = bytes(r["l"]) if rng.random() < 0.85 else rng.choice([b"xx", b"", b"d", b"C", b"POSIX", b"DE", b"english", b"e", b"zz_ZZ"])
    if rng.random() < 0.6:
        s += b"_" + (bytes(r["c"]) if rng.random() < 0.7 else rng.choice([b"XX", b"", b"US", b"us", b"DE", b"A_B"]))
    if rng.random() < 0.4:
        s += b"." + rng.choice([b"UTF-8", b"ISO-8859-1", b"utf8", b"", b"a_b", b"x.y", b"eucJP", b"@"[:0] + b"\xff"])
    if rng.random() < 0.4:
        s += b"@" + (bytes(r["m"]) if rng.random() < 0.6 else rng.choice([b"euro", b"latin", b"", b"x_y", b"a.b", b"a@b"]))
    return s


def lang_session(rng, data=None):
    data = data or lang_data()
    L = []
    for _ in range(8):
        k = rng.random()
        if k < 0.35:
            L.append("env " + X(locale_string(rng, data)))
        elif k < 0.6:
            a = bytes(rng.choice(data["aliases"])["k"])
            a = rng.choice([a, a.upper(), a.title(), a.swapcase(), a + b"x", a[:-1]])
            L.append("name " + X(a if rng.random() < 0.8 else locale_string(rng, data)))
        elif k < 0.8:
            r = rng.choice(data["rows"])
            if rng.random() < 0.5:   # the same parts at other places, one after another
                l, c, m = bytes(r["l"]), bytes(r["c"]) or b"XX", bytes(r["m"]) or rng.choice([b"latin", b"euro", b"x"])
                v = [(l, c, m), (l, m, c), (l, c + m, b""), (l, b"", c + m), (l, c, b""), (l, b"", m), (l, m, b""), (l, b"", c), (l + c, b"", m), (l + m, c, b""), (l, b"", b""), (l.upper(), c, m), (l, c.lower(), m)]
                rng.shuffle(v)
                L += ["spec " + " ".join(map(X, x)) for x in v[:rng.randint(2, 6)]]
                L.append("env " + X(l + b"_" + c + b"@" + m))
                L.append("env " + X(l + b"_" + m + b"@" + c))
                continue
            L.append("spec %s %s %s" % (X(bytes(r["l"])), X(rng.choice([bytes(r["c"]), b"", b"XX", b"US"])), X(rng.choice([bytes(r["m"]), b"", b"latin", b"euro"]))))
        else:
            a = locale_string(rng, data)
            b = a.split(b"_")[0].split(b"@")[0] + rng.choice([b"", b"_DE", b"_US", b"@latin", b"_CN"]) if rng.random() < 0.7 else locale_string(rng, data)
            L.append("match %s %s" % (X(a), X(b)))
    return L


def key_session(rng):
    """Languages from all kinds of strings as keys, with repetitions and near misses."""
    data = lang_data()
    pool = [locale_string(rng, data) for _ in range(rng.choice([2, 5, 12, 40]))] + [b""]
    for r in rng.sample(data["rows"], 3):
        l, c, m = bytes(r["l"]), bytes(r["c"]), bytes(r["m"])
        pool += [l, l + b"_" + (c or b"XX"), l + b"_" + (c or b"DE") + b"@" + (m or b"x"), l + b".UTF-8", l.upper(), l + b"_" + (c or b"DE").lower()]
    L = []
    for _ in range(3):
        v = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 7, 20, 60]))]
        L.append(" ".join(["keys"] + list(map(X, v))))
        L.append("match %s %s" % (X(rng.choice(pool)), X(rng.choice(pool))))
        L.append("env " + X(rng.choice(pool)))
    return L


def rand_name(rng, alphabet=b"abdezDEA_.@-po0\xc3"):
    s = bytes(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 12])))
    return s + (b".po" if rng.random() < 0.6 else b"")


def fn_session(rng):
    return ["fn " + X(rand_name(rng)) for _ in range(10)]


FILENAMES = [b"de.po", b"de_AT.po", b"de_at.po", b"de_DE.po", b"sr@latin.po", b"sr.po", b"sr_RS@latin.po", b"xx.po", b"de.txt", b".po", b"de.po~", b"de.PO", b"pt_BR.po", b"pt.po", b"README", b"fr.po", b"fr_CA.UTF-8.po", b"ca@valencia.po", b"zh_TW.po", b"zh.po", b"german.po", b"french.po", b"German.po", b"de.x.po", b"de.po.po", b"fr@x.y.po", b"fr_fr.po", b"sr_rs@latin.po", b"de_AT@euro.po", b"po", b"de", b"depo", b"de_.po", b"_DE.po", b"deu.po", b"pt_BR@x.po"]
REQS = [b"de", b"de_AT", b"de_DE", b"de_CH", b"sr", b"sr@latin", b"sr_RS@latin", b"pt_BR", b"pt", b"fr", b"fr_CA", b"zh_TW", b"zh_CN", b"ca@valencia", b"ca"]


THROWS = ["throw", "throwl", "throwm", "throwo", "throwr", "throws"]


def mgr_session(rng, faults=0.0, fuzzy=0.15, nops=None, ndirs=None, logs=False, small=True, sw=0.0, same=False, ask=0.0):
    """Managers over file systems in memory: settings, requests, faults."""
    L = ["logtext"] if logs else []
    nd = ndirs or rng.choice([1, 2, 2, 3, 4])
    dirs = [b"d%d" % i for i in range(nd - 1)] + [rng.choice([b"po", b"a/b", b"x.y"])]
    if nd > 1 and rng.random() < 0.35:   # names that are alike
        d = dirs[0]
        dirs[1] = rng.choice([d + b"/", b"./" + d, d.upper(), d + b" ", b"", d + b"/de", b"/" + d, d + b".po", d + b"0", d + b"/.", b"..", b"caf\xc3\xa9"])
    ids = [b"a", b"b", b"m1", b"File", b"p", b"caf\xc3\xa9"]
    L.append("fs 1")
    placed = []
    for d in dirs:
        for n in rng.sample(FILENAMES, rng.randint(0, 5)):
            c = po_file(rng, ids, n=rng.choice([0, 1, 2, 3]), mal=0.1, mutate=0.05 if faults else 0.0,
                        cs=rng.choice([None, b"UTF-8", b"ISO-8859-1", b"UTF-8"]) if faults else rng.choice([b"UTF-8", b"UTF-8", b"ISO-8859-1", b"CHARSET"]))
            m = "ok"
            if rng.random() < faults:
                m = rng.choice(["null", rng.choice(THROWS), "bad", "fail%d" % rng.randint(0, len(c))])
            L.append("put 1 %s %s %s %s" % (X(d), X(n), m, X(c)))
            placed.append((d, n, len(c)))
    for _ in range(4):
        i = rng.choice(ids)
        L.append(rng.choice(["q tr " + X(i), "q trc %s %s" % (X(b"c"), X(i)), "q trp %s %s %d" % (X(i), X(i + b"s"), rng.choice([1, 2, 5])), "q trcp %s %s %s %d" % (X(b"menu"), X(i), X(i + b"s"), rng.choice([1, 2, 5]))]))
    nm = rng.choice([1, 1, 2])
    css, fz = {}, {}
    for m in range(1, nm + 1):
        css[m], fz[m] = rng.choice([b"UTF-8", b"UTF-8", b"ISO-8859-1"]), 1
        L.append("mgr %d 1 %s" % (m, X(css[m])))
        if rng.random() < 0.9:
            L.append("adddir %d %s 0" % (m, X(rng.choice(dirs))))
    for _ in range(nops or rng.randint(6, 16)):
        m = rng.randint(1, nm)
        d = rng.choice(dirs)
        k = rng.random()
        if sw and k < 0.46 and rng.random() < sw:
            if rng.random() < 0.5:
                L.append("sw %d %s" % (rng.randint(1, nm), X(rng.choice(REQS + [b""]))))
            else:
                L.append("ask %d %s %s" % (rng.randint(1, nm), X(rng.choice(REQS + [b""])), X(d if rng.random() < 0.6 * ask else b"")))
            if rng.random() < 0.2:
                L.append("sw %d %s" % (rng.randint(1, nm), X(rng.choice(REQS + [b""]))))
        if k < 0.35:
            L.append("get %d %s" % (m, X(rng.choice(REQS))))
        elif k < 0.45:
            L.append("cur %d" % m)
        elif k < 0.53:
            L.append("setlang %d %s" % (m, X(rng.choice(REQS + [b""]))))
        elif k < 0.66:
            L.append("adddir %d %s %d" % (m, X(d), rng.choice([0, 0, 1])))
        elif k < 0.71:
            L.append("rmdir %d %s" % (m, X(d)))
        elif k < 0.76:
            c = rng.choice([b"UTF-8", b"ISO-8859-1", b"utf-8", b"UTF-16LE"])
            if same or c.upper() != css[m]:   # what is loaded may be kept if nothing changes
                css[m] = c.upper()
                L.append("setcs %d %s" % (m, X(c)))
        elif k < 0.76 + fuzzy:
            fz[m] = rng.randint(0, 1) if same else 1 - fz[m]
            L.append("setfuzzy %d %d" % (m, fz[m]))
        elif k < 0.95 and faults:
            if rng.random() < 0.5:
                L.append("dirfail 1 %s %d %s" % (X(d), rng.choice([-1, 0, 0]), rng.choice("elmors")))
            elif placed:
                pd, pn, ln = rng.choice(placed)
                L.append("mode 1 %s %s %s" % (X(pd), X(pn), rng.choice(["ok", "ok", "null", rng.choice(THROWS), "bad", "fail%d" % rng.randint(0, ln)])))
        else:
            L.append(rng.choice(["langs %d", "getlang %d"]) % m)
    L.append("get 1 " + X(rng.choice(REQS)))
    L.append("langs 1")
    return L


def hold_session(rng):
    """Dictionaries kept and edited by the user while the manager goes on."""
    L = mgr_session(rng, faults=rng.choice([0.0, 0.0, 0.2]), nops=0)
    k = max(i for i, l in enumerate(L) if l.startswith("mgr "))
    L = L[:k + 1]
    nm = sum(1 for l in L if l.startswith("mgr "))
    css, fz = {int(l.split()[1]): l.split()[3] for l in L if l.startswith("mgr ")}, dict.fromkeys(range(1, nm + 1), 1)
    dirs = sorted({l.split()[2] for l in L if l.startswith("put ")} or {X(b"d0")})
    live = {}
    for m in range(1, nm + 1):
        L.append("adddir %d %s 0" % (m, rng.choice(dirs)))
    for _ in range(rng.randint(6, 20)):
        m, h = rng.randint(1, nm), rng.randint(1, 4)
        k = rng.random()
        if k < 0.3:
            L.append("get %d %s %d" % (m, X(rng.choice(REQS)), h))
            live[h] = m
        elif k < 0.36:
            L.append("cur %d %d" % (m, h))
            live[h] = m
        elif k < 0.44:
            L.append("setlang %d %s" % (m, X(rng.choice(REQS + [b""]))))
        elif k < 0.5:
            L.append(rng.choice(["langs %d", "getlang %d", "cur %d"]) % m)
        elif k < 0.55:
            L.append("rmdir %d %s" % (m, X(b"never")))
        elif k < 0.62:
            c = X(b"UTF-8") if css[m] != X(b"UTF-8") else X(b"ISO-8859-1")
            L.append(rng.choice(["adddir %d %s %d" % (m, rng.choice(dirs), rng.randint(0, 1)), "rmdir %d %s" % (m, rng.choice(dirs)), "setcs %d %s" % (m, c), "setfuzzy %d %d" % (m, 1 - fz[m])]))
            if L[-1].startswith("setcs"):
                css[m] = c
            if L[-1].startswith("setfuzzy"):
                fz[m] = 1 - fz[m]
            live = {a: b for a, b in live.items() if b != m}
        elif live:
            h = rng.choice(sorted(live))
            i = rng.choice([b"a", b"b", b"m1", b"new"])
            L.append(rng.choice(["held %d" % h, "held %d" % h, "hadd %d %s %s" % (h, X(i), X(rng.choice([b"mine", b"", b"mine2"]))),
                                 "haddcp %d %s %s %s %s" % (h, X(rng.choice([b"", b"c", b"menu"])), X(i), X(i + b"s"), " ".join(X(x) for x in [b"h1", b"h2"][:rng.randint(0, 2)]))]))
    L += ["held %d" % h for h in sorted(live)]
    for m in range(1, nm + 1):
        L += ["get %d %s" % (m, X(rng.choice(REQS))), "cur %d" % m]
    L += ["held %d" % h for h in sorted(live)]
    return L


def base_session(rng):
    """Dictionaries of countries over base ones that the program adds to."""
    ids = [b"a", b"b", b"p", b"new"]
    L = ["fs 1"]
    code = rng.choice([b"de", b"pt", b"sr", b"zh"])
    countries = [code + c for c in rng.sample({b"de": [b"_AT", b"_CH", b"_DE@latin"], b"pt": [b"_BR", b"_PT", b"_XX"], b"sr": [b"_YU", b"@latin", b"_YU@latin"], b"zh": [b"_TW", b"_CN", b"_HK"]}[code], 3)]
    for n in [code] + countries:
        if rng.random() < 0.5:
            L.append("put 1 %s %s ok %s" % (X(b"d"), X(n + b".po"), X(po_file(rng, ids, n=rng.choice([0, 0, 1, 3]), mal=0, mutate=0))))
    for i in ids:
        L += ["q tr " + X(i), "q trc %s %s" % (X(b"c"), X(i)), "q trp %s %s %d" % (X(i), X(i + b"s"), rng.choice([1, 2, 5]))]
    L += ["mgr 1 1 " + X(b"UTF-8"), "adddir 1 %s 0" % X(b"d")]
    names = {h: rng.choice([code, code] + countries) for h in (1, 2, 3)}
    if code not in names.values():
        names[rng.randint(1, 3)] = code
    for h in rng.sample([1, 2, 3], 3):
        L.append("get 1 %s %d" % (X(names[h]), h))
    for _ in range(rng.randint(4, 12)):
        h, i = rng.randint(1, 3), rng.choice(ids)
        L.append(rng.choice(["hadd %d %s %s" % (h, X(i), X(rng.choice([b"mine", b"", b"mine2"]))),
                             "haddcp %d %s %s %s %s" % (h, X(rng.choice([b"", b"c"])), X(i), X(i + b"s"), " ".join(X(x) for x in [b"h1", b"h2"][:rng.randint(0, 2)]))]))
        L.append(rng.choice(["held %d" % rng.randint(1, 3), "get 1 " + X(rng.choice([code] + countries))]))
    return L + ["held %d" % h for h in (1, 2, 3)] + ["get 1 " + X(n) for n in [code] + countries]


def resource_session(rng):
    """Any session, repeated, then everything given back."""
    k = rng.choice(["parse", "conv", "mgr", "mgr", "mgr", "hold", "dict", "fallback", "literal", "unix"])
    L = {"parse": lambda: parse_session(rng, failing=0.3), "conv": lambda: conv2_session(rng), "mgr": lambda: mgr_session(rng, faults=rng.choice([0.0, 0.5])), "hold": lambda: hold_session(rng),
         "dict": lambda: dict_session(rng, nd=2), "fallback": lambda: fallback_session(rng), "literal": lambda: literal_session(rng), "unix": lambda: unix_session(rng)}[k]()
    return ["repeat"] + L + ["end"]


def conv2_session(rng, translit=0.0):
    """Converters made, reused and destroyed."""
    L = conv_session(rng, translit)
    out = []
    for l in L:
        w = l.split()
        if w[0] == "ic" and rng.random() < 0.4:
            l = "icc " + " ".join(w[1:])
        out.append(l)
        if rng.random() < 0.1 and w[0] == "cv":
            out += ["icd " + w[1], "ic %s %s %s" % (w[1], X(b"UTF-8"), X(b"UTF-16LE"))]
    return out


def fallback_session(rng):
    lang, ctry = rng.choice([(b"de", b"de_AT"), (b"pt", b"pt_BR"), (b"zh", b"zh_TW"), (b"sr", b"sr_RS"), (b"fr", b"fr_CA"), (b"en", b"en_GB"), (b"ca", b"ca_ES@valencia"), (b"en", b"en_US@piglatin"), (b"ca", b"ca_ES"), (b"sr", b"sr_RS@latin")])
    L = ["fs 1"]
    names = {lang, ctry} | ({lang + b"@" + ctry.split(b"@")[1], ctry.split(b"@")[0]} if b"@" in ctry else set())
    ids = [b"a", b"b", b"m1", b"File", b"p"]
    for n in sorted(names):
        for d in (b"d", b"e"):
            if rng.random() < 0.75:
                L.append("put 1 %s %s ok %s" % (X(d), X(n + b".po"), X(po_file(rng, ids, n=rng.randint(0, 4), mal=0.05, mutate=0, cs=b"UTF-8"))))
    for i in ids:
        for c in (None, rng.choice([b"menu", b"c", b""])):
            for n in (1, 2):
                L.append("q trp %s %s %d" % (X(i), X(i + b"s"), n) if c is None else "q trcp %s %s %s %d" % (X(c), X(i), X(i + b"s"), n))
            L.append("q tr " + X(i) if c is None else "q trc %s %s" % (X(c), X(i)))
    L += ["mgr 1 1 " + X(b"UTF-8"), "adddir 1 %s 0" % X(b"d"), "adddir 1 %s %d" % (X(b"e"), rng.randint(0, 1))]
    L += ["get 1 " + X(ctry), "get 1 " + X(lang), "get 1 " + X(ctry.split(b"@")[0] + b"@x"), "get 1 " + X(ctry)]
    return L


def log_session(rng):
    L = ["logtext"]
    L += ["dict 1 " + X(b"UTF-8")]
    for _ in range(rng.randint(4, 9)):
        k = rng.random()
        if k < 0.35:
            L.append("cb %d %d" % (rng.randint(1, 3), rng.choice([0, 1, 2, 3, 4])))
        elif k < 0.75:
            L += dict_ops(rng, 1, rng.randint(1, 4))
        elif k < 0.9:
            L += ["dict 2 " + X(b"UTF-8"), parse_line(2, po_file(rng, mal=0.4, n=3), rng.randint(0, 1))]
        else:
            L += ["ic 1 %s %s" % (X(b"UTF-8"), X(b"ASCII")), "cv 1 " + X(rng.choice([b"ok", b"\xc3\xa4", b"a\xff"]))]
    return L


def tell_session(rng):
    """Lookups of what is there, partly there and not there, along chains, with log callbacks or without."""
    L = ["logtext"] if rng.random() < 0.5 else []
    nd = rng.choice([1, 2, 2, 3, 4])
    ids = [b"a", b"b", b"", b"n\x00l", b"two\nlines"]
    cxs = [b"", b"c", b"a", b"c\nd"]
    L += ["dict %d %s" % (d, X(b"UTF-8")) for d in range(1, nd + 1)]
    for d in range(1, nd + 1):
        if rng.random() < 0.7:
            L.append("setpl %d %s" % (d, X("Plural-Forms: " + rng.choice(rules()))))
        for _ in range(rng.randint(0, 5)):
            i, c = rng.choice(ids), rng.choice(cxs)
            forms = [rng.choice([b"", b"x", b"y%d" % d]) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
            if rng.random() < 0.5:
                L.append("addp %d %s %s %s" % (d, X(i), X(i + b"s"), " ".join(map(X, forms))))
            else:
                L.append("addcp %d %s %s %s %s" % (d, X(c), X(i), X(i + b"s"), " ".join(map(X, forms))))
    L += ["fb %d %d" % (d, d + 1) for d in range(1, nd)]
    for _ in range(rng.randint(6, 16)):
        if L[0] == "logtext" and rng.random() < 0.15:
            L.append("cb %d %d" % (rng.randint(1, 3), rng.randint(0, 4)))
        i, c, d = rng.choice(ids), rng.choice(cxs), rng.randint(1, nd)
        n = rng.choice([0, 1, 1, 2, 3, 5, 100])
        L.append(rng.choice(["tr %d %s" % (d, X(i)), "trc %d %s %s" % (d, X(c), X(i)), "trp %d %s %s %d" % (d, X(i), X(i + b"s"), n), "trcp %d %s %s %s %d" % (d, X(c), X(i), X(i + b"s"), n)]))
    return L


UNIXNAMES = FILENAMES + [b".hidden", b" ", b"\xc3\xa4", b"a b.po", b"x" * 200, b"-", b"de.po.bak", b"\xff\xfe.po", b"*"]


def unix_session(rng):
    L = ["urm " + X(b"u"), "umk " + X(b"u"), "umk " + X(b"u/t")]
    names = rng.sample(UNIXNAMES, rng.randint(0, 9))
    ids = [b"a", b"b", b"m1"]
    L.append("uw %s %s" % (X(b"u/target"), X(po_file(rng, ids, n=1, mal=0, mutate=0, cs=b"UTF-8"))))
    langs = set()
    data_names = []
    for n in names:
        # one file per language, so that the order of the listing does not matter
        base = n.split(b".")[0].split(b"_")[0].split(b"@")[0]
        if n.endswith(b".po"):
            if base in langs:
                continue
            langs.add(base)
        p = X(b"u/t/" + n)
        k = rng.random()
        if k < 0.7:
            c = po_file(rng, ids, n=rng.choice([0, 1, 3]), mal=0.1, cs=b"UTF-8") if rng.random() < 0.7 else bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 10, 8191, 8192, 8193, 20000])))
            L.append("uw %s %s" % (p, X(c)))
        elif k < 0.8:
            L.append("umk " + p)
        elif k < 0.9:
            L.append("uln %s %s" % (p, X(b"u/target")))
        else:
            L.append("uln %s %s" % (p, X(b"u/missing")))
        data_names.append(n)
    L.append("uls " + X(b"u/t"))
    for n in data_names:
        L.append("ucat " + X(b"u/t/" + n))
    L += ["q tr " + X(b"a"), "mgr 1 unix " + X(b"UTF-8"), "adddir 1 %s 0" % X(b"u/t"), "langs 1"]
    for _ in range(3):
        L.append("get 1 " + X(rng.choice(REQS)))
    if data_names:
        n = rng.choice(data_names)
        L += ["urm " + X(b"u/t/" + n), "uls " + X(b"u/t"), "ucat " + X(b"u/t/" + n), "langs 1"]
    L += ["urm " + X(b"u"), "uls " + X(b"u/t")]
    return L


LONG = [119, 120, 121, 127, 128, 199, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 5000, 8190, 8192, 8193]


def long_text(rng):
    """Texts about as long as buffers are, of units that show a cut or a repetition."""
    n = rng.choice(LONG) + rng.choice([-20, -9, -8, -7, -2, -1, 0, 0, 1, 2, 9])
    u = rng.choice([b"0123456789", b"ab cd\\n", "é".encode(), b'x\\"y', b"a"])
    return (u * (n // len(u) + 1))[:max(n, 1)]


def long_session(rng):
    """Long lines, long texts, long names, with and without a final line end."""
    L, ids = [b'msgid ""', b'msgstr "Content-Type: text/plain; charset=UTF-8\\n"', b""], [b"a", b"b"]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < 0.2:
            L.append(rng.choice([b"# ", b"#: ", b"#, "]) + b"c" * (rng.choice(LONG) + rng.randint(-4, 1)))
        if k < 0.35:
            L.append(b'msgctxt "' + long_text(rng)[:300] + b'"')
        i = long_text(rng) if rng.random() < 0.3 else rng.choice([b"a", b"b", b"c"])
        L.append(b'msgid "' + i + b'"')
        if rng.random() < 0.3:
            L += [b'msgid_plural "' + long_text(rng) + b'"', b'msgstr[0] "' + long_text(rng) + b'"', b'msgstr[1] "' + (b"q" if rng.random() < 0.5 else long_text(rng)) + b'"']
        elif rng.random() < 0.5:
            L += [b'msgstr "' + long_text(rng) + b'"']
        else:
            L += [b'msgstr ""'] + [b'"' + long_text(rng)[:rng.choice([20, 200, 9000])] + b'"' for _ in range(rng.choice([1, 2, 5]))]
        L.append(rng.choice([b"", b"", b"", b" " * rng.choice(LONG)]))
    while L and not L[-1].strip():
        L.pop()
    f = b"\n".join(L) + rng.choice([b"", b"", b"\n", b" ", b"\n\n"])
    if rng.random() < 0.2:
        f = f[:-rng.randint(1, 9)]
    return ["dict 1 " + X(b"UTF-8"), parse_line(1, f, 1, rng.randint(0, len(f)) if rng.random() < 0.1 else -1)] + lookups(rng, 1, ids, 2)


def cut_session(rng):
    """A file, cut after a byte, with and without its last line end, or failing."""
    f = po_file(rng, n=rng.choice([1, 2, 3]), mutate=0.3)
    k = rng.random()
    if k < 0.6:
        f = f[:rng.randint(0, len(f))]
    elif k < 0.8:
        f = f.rstrip(b"\n")
    elif k < 0.9:
        f = bytes(rng.randint(0, 255) if rng.random() < 0.3 else rng.choice(b'msgid"str[]0 \n#,\\') for _ in range(rng.randint(0, 200)))
    return ["dict 1 " + X(b"UTF-8"), parse_line(1, f, 1, rng.randint(0, len(f)) if rng.random() < 0.3 else -1)] + lookups(rng, 1, [b"a", b"b", b"m1"], 2)


def thr_session(rng, nt=4):
    data = lang_data()
    L = []
    calls = []
    for _ in range(rng.randint(2, 7)):
        k = rng.choice(["env", "name", "plural", "parse", "latin", "conv", "fn", "dict", "mgr", "langs", "unix", "unix"])
        a = {"env": lambda: locale_string(rng, data), "name": lambda: bytes(rng.choice(data["aliases"])["k"]), "plural": lambda: b"Plural-Forms: " + rng.choice(rules()).encode(),
             "parse": lambda: po_file(rng, n=3, cs=b"UTF-8"), "latin": lambda: po_file(rng, n=3, cs=b"UTF-8", mutate=0), "conv": lambda: rng.choice(["äöü", "a", "日", "x" * 500]).encode(),
             "fn": lambda: rng.choice(FILENAMES), "dict": lambda: rng.choice([b"m1", b"x" * 100, b"q"]), "mgr": lambda: po_file(rng, n=3, cs=b"UTF-8"), "langs": lambda: b"", "unix": lambda: po_file(rng, n=3, cs=b"UTF-8")}[k]()
        calls.append("%s %s" % (k, X(a)))
    L.append("thr %d 2 %s" % (nt, " ".join(calls)))
    return L


def share_session(rng):
    """One dictionary, own or a manager's, asked by several threads."""
    ids = [b"a", b"b", b"m1", b"p", b"zz", b"n\x00l"]
    L = []
    for _ in range(rng.randint(1, 8)):
        i, c, n = rng.choice(ids), rng.choice([b"c", b"", b"menu"]), rng.choice([0, 1, 2, 5, 101])
        L.append(rng.choice(["q tr " + X(i), "q trc %s %s" % (X(c), X(i)), "q trp %s %s %d" % (X(i), X(i + b"s"), n), "q trcp %s %s %s %d" % (X(c), X(i), X(i + b"s"), n)]))
    if rng.random() < 0.6:
        nd = rng.randint(1, 3)
        L += ["dict %d %s" % (d, X(b"UTF-8")) for d in range(1, nd + 1)]
        for d in range(1, nd + 1):
            if rng.random() < 0.6:
                L.append("setpl %d %s" % (d, X("Plural-Forms: " + rng.choice(rules()))) if rng.random() < 0.7 else "setplf %d %d" % (d, rng.randint(1, 4)))
            if rng.random() < 0.5:
                L.append(parse_line(d, po_file(rng, ids, n=rng.randint(0, 5), mal=0, mutate=0, cs=b"UTF-8")))
            L += [l for l in dict_ops(rng, d, 4, rich=False) if l.split()[0] not in ("tr", "trp", "trc", "trcp")]
        L += ["fb %d %d" % (d, d + 1) for d in range(1, nd)]
        L.append("share %d %d 0 1" % (rng.choice([2, 4, 6]), rng.choice([1, 3, 10])))
    else:
        L.append("fs 1")
        for n in (b"de.po", b"de_AT.po"):
            if rng.random() < 0.8:
                L.append("put 1 %s %s ok %s" % (X(b"d"), X(n), X(po_file(rng, ids, n=rng.randint(0, 4), mal=0, mutate=0, cs=b"UTF-8"))))
        L += ["mgr 1 1 " + X(b"UTF-8"), "adddir 1 %s 0" % X(b"d"), "get 1 %s 1" % X(rng.choice([b"de", b"de_AT"])), "share %d %d 1 1" % (rng.choice([2, 4]), rng.choice([1, 3]))]
    return L


def locale_session(rng):
    """Any other session, the process's locale changing in between."""
    k = rng.random()
    if k < 0.3:
        s = parse_session(rng, mal=0.4, cs=rng.choice([None, b"iso-8859-1", b"Iso-8859-15", b"big5", b"koi8-r", b"utf-8", b"ISO-8859-1"]))
        if rng.random() < 0.6:
            s = [named(rng, l) if l.startswith("parse ") and len(l.split()) == 5 else l for l in s]
    elif k < 0.4:
        data = lang_data()
        s = []
        for _ in range(8):
            a = bytes(rng.choice(data["aliases"])["k"])
            s.append("name " + X(rng.choice([a, a.upper(), a.title(), a.swapcase(), a.replace(b"i", b"I")])))
    else:
        s = rng.choice([
            lambda: [l for l in conv_session(rng)],
            lambda: ["ic 1 %s %s" % (X(a), X(b"utf-8")) for a in rng.sample([b"iso-8859-1", b"Iso-8859-15", b"koi8-r", b"big5", b"BIG5", b"ascii", b"ISO-8859-2"], 3)] + ["cv 1 " + X(b"abc")],
            lambda: ["fn " + X(n) for n in (rand_name(rng, b"_abdizIDEA.@po\xe4\xfd\xff") for _ in range(10))],
            lambda: mgr_session(rng), lambda: mgr_session(rng, faults=0.3), lambda: lang_session(rng), lambda: log_session(rng), lambda: plural_session(rng),
            lambda: dict_session(rng), lambda: hold_session(rng), lambda: big5_session(rng), lambda: literal_session(rng)])()
    out = ["locale %d" % rng.randint(1, 7)] if rng.random() < 0.8 else []
    for l in s:
        out.append(l)
        if rng.random() < 0.05:
            out.append("locale %d" % rng.randint(0, 7))
    return out


def renumber(line, off):
    """The same call on other objects."""
    w = line.split()
    i = 1
    for part in harness.OPS[w[0]].split():
        k, t = part.split(":")
        if t[0] in "BNC":
            break
        if t in ("n", "f") and (k in ("d", "m", "f", "h") or k in ("k", "j") and w[0] in ("ic", "icc", "icd", "cv", "pf", "pe", "per", "psweep", "peq")) and w[i] != "unix":
            w[i] = str(int(w[i]) + off)
        i += 1
    if w[0] in ("get", "cur") and len(w) > i:   # kept as
        w[i] = str(int(w[i]) + off)
    return " ".join(w)


def indep_session(rng):
    """Several sessions of different kinds, interwoven, on objects of their own."""
    kinds = [parse_session, literal_session, big5_session, conv_session, plural_session, dict_session, lang_session, mgr_session, mgr_session, hold_session, fallback_session, long_session, lambda r: parse_session(r, mal=0.5)]
    parts = []
    for i in range(rng.choice([2, 2, 3])):
        L = rng.choice(kinds)(rng)
        parts.append([renumber(l, 10 * i) for l in L if l.split()[0] not in ("logtext", "cb", "repeat", "end", "thr")][:30])
    out = []
    while any(parts):
        p = rng.choice([p for p in parts if p])
        for _ in range(rng.choice([1, 1, 2, 4])):
            if p:
                out.append(p.pop(0))
    if rng.random() < 0.3:   # behind much else
        out.insert(rng.choice([0, rng.randint(0, len(out))]), "wear %d" % rng.choice([1, 1, 3]))
    return out


def stream_session(rng):
    L = ["dict 1 " + X(rng.choice([b"UTF-8"] * 4 + [b"ISO-8859-1", b"UTF-16LE"]))]
    ids = [b"a", b"b", b"m1", b"File", b"%d file", text(rng, False)]
    for _ in range(rng.choice([1, 2, 3])):
        L.append("parsek 1 %d %s" % (rng.randint(0, 13), X(po_file(rng, ids))))
    return L + lookups(rng, 1, ids, 3)


def each_session(rng):
    L = dict_session(rng) if rng.random() < 0.6 else parse_session(rng, failing=0)
    out = []
    for l in L:
        out.append(l)
        if rng.random() < 0.3 and l.split()[0] != "dict":
            out.append("each 1 %d" % rng.choice([0, 0, 1, 2, 3, 7, 30]))
    return out + ["each 1 0", "dump 1"]


def reent_session(rng):
    """Another session; its callbacks call the library, too."""
    def calls(own):
        c = thr_session(rng)[0].split()[3:]
        c = [" ".join(c[i:i + 2]) for i in range(0, len(c), 2)][:rng.randint(0, 3)]
        return "reent " + " ".join(c + ["own " + X(rng.choice(own)) for _ in range(rng.randint(1, 3)) if own])
    k = rng.random()
    if k < 0.45:
        s = mgr_session(rng, faults=rng.choice([0.0, 0.0, 0.3]))
        first = next(i for i, l in enumerate(s) if l.startswith("mgr "))
        s = s[:first] + [l for l in s[first:] if l.split()[0] not in ("mode", "put", "dirfail")]
        own = REQS + [b""]
        if rng.random() < 0.25:   # a directory that cannot be listed, and only languages nobody else asks for
            s.insert(first, "dirfail 1 %s -1" % X(rng.choice([b"d0", b"po", b"d1"])))
            own = [b"fr", b"fr_CA", b"zh_TW"]
            s = [l for l in s if not (l.startswith(("get ", "setlang ")) and l.split()[2] in map(X, (b"fr", b"fr_CA", b"zh_TW", b"zh_CN")))]
    else:
        own, first = [], 0
        s = rng.choice([lambda: parse_session(rng, mal=0.4, failing=0.2), lambda: dict_session(rng, nd=2), lambda: conv2_session(rng), lambda: hold_session(rng), lambda: fallback_session(rng),
                        lambda: literal_session(rng), lambda: big5_session(rng)])()
    out = []
    for i, l in enumerate(s):
        if i == first or rng.random() < 0.04:
            out.append(calls(own))
        out.append(l)
    return out


# ---------------------------------------------------------------- many of each

def some_number(rng, most=1500):
    """Around the numbers implementations like to have."""
    if most > 1000 and rng.random() < 0.6:
        return most - rng.randint(0, 60)
    return min(most, rng.choice([8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 1500]) + rng.choice([-1, 0, 1, 2, 5]))


def scale_session(rng, lines=0.25):
    """A long file: many messages, contexts, header fields, lines of a text, comments, flags."""
    big = rng.random() < 0.35
    n = some_number(rng, 1500 if big else 140)
    L = [b'msgid ""', b'msgstr ""']
    fields = [b"Content-Type: text/plain; charset=" + rng.choice([b"UTF-8", b"ISO-8859-1"]), b"Plural-Forms: " + rng.choice([r for r in rules() if r != rules()[16]]).encode()]
    for i in range(some_number(rng, 300) if rng.random() < 0.5 else 0):
        fields.insert(rng.randint(0, len(fields)) if rng.random() < 0.1 else 0, rng.choice([b"X-Field-%d: value", b"X-%d: somebody with a rather long name <somebody@example.org> and a homepage http://example.org/~somebody", b"%d"]) % i)
    L += [b'"' + f + b'\\n"' for f in fields] + [b""]
    ids = []
    kind = rng.choice(["id", "ctx", "both", "plural"])
    for i in range(n):
        k = b"k%d" % i
        if rng.random() < 0.02:
            L += [rng.choice([b"# comment %d", b"#: file.c:%d", b"#. note %d"]) % j for j in range(some_number(rng, 60))]
        if rng.random() < 0.05:
            L += rng.sample([b"#, fuzzy", b"#, c-format", b"#, no-wrap", b"#, c-format, fuzzy", b"#: x.c:1"], rng.randint(1, 4))
        if kind in ("ctx", "both"):
            L.append(b'msgctxt "%s"' % (b"c%d" % i if kind == "ctx" else b"c%d" % (i % 7)))
        L.append(b'msgid "%s"' % (k if kind != "ctx" else b"k"))
        ids.append((k, i))
        if kind == "plural":
            L += [b'msgid_plural "%ss"' % k] + [b'msgstr[%d] "v%d %d"' % (j, i, j) for j in range(rng.choice([1, 2, 3, 10]))]
        else:
            L.append(b'msgstr "v%d\xc3\xa4"' % i)
        L.append(b"")
    if rng.random() < lines:   # a text of very many lines
        m = rng.choice([1000, 12000, 25000, 40000])
        L += [b'msgid "long"', b'msgstr ""'] + [b'"%d "' % (j % 10) if j % 100 == 0 else b'""' for j in range(m)] + [b""]
        ids.append((b"long", 0))
    f = b"\n".join(L) + b"\n"
    out = ["dict 1 " + X(b"UTF-8"), parse_line(1, f)]
    for k, i in [ids[0], ids[-1]] + [rng.choice(ids) for _ in range(4)]:
        c = b"c%d" % i if kind == "ctx" else b"c%d" % (i % 7)
        kk = b"k" if kind == "ctx" else k
        out.append(rng.choice(["tr 1 " + X(k), "trc 1 %s %s" % (X(c), X(kk)), "trp 1 %s %s %d" % (X(k), X(k + b"s"), rng.choice(COUNTS))]))
    if rng.random() < 0.3:   # once more, some of it otherwise
        out.append(parse_line(1, f.replace(b'9 ', b'nine ').replace(b"v1", b"w1")))
    return out


NULS = [b"a\x00b", b"a\x00c", b"a", b"\x00", b"", b"a\x00", b"a\x00b\x00c"]


def scale_dict_session(rng):
    """A dictionary with many messages, or with texts that differ late or behind a NUL."""
    L = ["dict 1 " + X(b"UTF-8")]
    if rng.random() < 0.8:
        L.append("setplf 1 %d" % rng.randint(1, 4) if rng.random() < 0.5 else "setpl 1 " + X("Plural-Forms: " + rng.choice(rules())))
    k = rng.random()
    if k < 0.55:
        for _ in range(rng.randint(8, 24)):
            i, c, a, b = (rng.choice(NULS) for _ in range(4))
            L.append(rng.choice(["add 1 %s %s" % (X(i), X(a)), "addc 1 %s %s %s" % (X(c), X(i), X(a)), "addp 1 %s %s %s %s" % (X(i), X(i + b"s"), X(a), X(b)), "addcp 1 %s %s %s %s %s" % (X(c), X(i), X(i + b"s"), X(a), X(b)),
                                 "tr 1 " + X(i), "trc 1 %s %s" % (X(c), X(i)), "trp 1 %s %s %d" % (X(i), X(a), rng.choice(COUNTS)), "trcp 1 %s %s %s %d" % (X(c), X(i), X(a), rng.choice(COUNTS))]))
        for i in NULS:
            L += ["tr 1 " + X(i), "trc 1 %s %s" % (X(rng.choice(NULS)), X(i))]
    elif k < 0.75:
        pre = b"z" * rng.choice(LONG)
        ts = [pre + b"1", pre + b"2", pre, pre + b"1" * 40]
        for _ in range(rng.randint(8, 20)):
            i, c, a, b = (rng.choice(ts) for _ in range(4))
            L.append(rng.choice(["add 1 %s %s" % (X(i), X(a)), "addc 1 %s %s %s" % (X(c), X(i), X(a)), "addp 1 %s %s %s %s" % (X(i), X(i + b"s"), X(a), X(b)), "tr 1 " + X(i), "trc 1 %s %s" % (X(c), X(i)), "trp 1 %s %s %d" % (X(i), X(a), rng.choice(COUNTS))]))
    else:
        n = some_number(rng, 1100 if rng.random() < 0.3 else 300)
        kind = rng.random()
        for i in range(n):
            if kind < 0.3:
                L.append("add 1 %s %s" % (X(b"k%d" % i), X(b"v%d" % i)))
            elif kind < 0.6:
                L.append("addc 1 %s %s %s" % (X(b"c%d" % (i % rng.choice([n, 3]))), X(b"k%d" % (i // 2)), X(b"v%d" % i)))
            elif kind < 0.8:
                L.append("addp 1 %s %s %s" % (X(b"k%d" % i), X(b"k%ds" % i), " ".join(X(b"v%d.%d" % (i, j)) for j in range(rng.choice([1, 2, 12])))))
            else:   # one message, forms without number
                L.append("addp 1 %s %s %s" % (X(b"k"), X(b"ks"), " ".join(X(b"v%d" % j) for j in range(i % 40))))
        for i in (0, n - 1, n // 2):
            L += ["tr 1 " + X(b"k%d" % i), "trc 1 %s %s" % (X(b"c%d" % i), X(b"k%d" % (i // 2))), "trp 1 %s %s 5" % (X(b"k%d" % i), X(b"k%ds" % i))]
    return L + ["dump 1", "each 1 0", "each 1 %d" % rng.randint(1, 300)]


def chain_session(rng):
    """A long chain of fallbacks."""
    n = rng.choice([3, 8, 9, 10, 11, 16, 17, 33, 64, 100])
    L = ["dict %d %s" % (d, X(b"UTF-8")) for d in range(1, n + 1)]
    ids = [b"a", b"b", b"p", b"zz"]
    for d in range(1, n + 1):
        if rng.random() < 0.7:
            L.append("setpl %d %s" % (d, X("Plural-Forms: " + rng.choice(rules()))))
        if d in (n, n - 1) or rng.random() < 0.1:
            L += [rng.choice(["add %d %s %s" % (d, X(rng.choice(ids)), X(b"v%d" % d)), "addp %d %s %s %s %s" % (d, X(b"p"), X(b"ps"), X(b"v%d" % d), X(b"w%d" % d)), "addcp %d %s %s %s %s %s" % (d, X(rng.choice([b"c", b""])), X(b"p"), X(b"ps"), X(b"x%d" % d), X(rng.choice([b"", b"y%d" % d])))]) for _ in range(2)]
    order = list(range(1, n))
    rng.shuffle(order)
    L += ["fb %d %d" % (d, d + 1) for d in order]
    for d in (1, 2, n // 2 + 1):
        L += lookups(rng, d, ids, 4) + ["trcp %d %s %s %s %d" % (d, X(rng.choice([b"c", b""])), X(b"p"), X(b"ps"), c) for c in (1, 2)]
    return L


LANGS = None


def crowd_session(rng, held=False, ndirs=None):
    """Managers with many directories, files and languages in use."""
    global LANGS
    if LANGS is None:
        LANGS = sorted({bytes(r["l"]) + (b"_" + bytes(r["c"]) if r["c"] else b"") + (b"@" + bytes(r["m"]) if r["m"] else b"") for r in lang_data()["rows"]})
    nd = ndirs or rng.choice([1, 1, 2, 9, 10, 17, 20, 33, 40])
    dirs = [b"%s%d" % (rng.choice([b"d", b"share/locale/x/"]), i) for i in range(nd)]
    langs = rng.sample(LANGS, some_number(rng, rng.choice([12, 40, 120 if nd < 3 else 40])))
    if nd < 3 and rng.random() < 0.6:
        langs = rng.sample(LANGS, len(LANGS))
    elif rng.random() < 0.5:   # relatives, too
        langs = sorted(set(langs) | {l for l in LANGS if l.startswith((b"de", b"zh", b"sr", b"pt"))})
        rng.shuffle(langs)
    H = b'msgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n'
    L = ["fs 1"]
    for di, d in enumerate(dirs):
        names = [l + b".po" for l in langs] if nd < 3 else [l + b".po" for l in rng.sample(langs, min(len(langs), 3))]
        if nd < 3 and rng.random() < 0.6:
            names += [rng.choice([b"README%d", b"notes%d.txt", b"de.po.%d", b"de%d.mo", b"messages%d.pot", b"q%d.po", b"zz_%d.po"]) % i for i in range(some_number(rng, 300))]
        if rng.random() < 0.3:   # the files of a language all at the end, or so
            names.sort(reverse=rng.random() < 0.5)
        else:
            rng.shuffle(names)
        for n in names:
            c = H + b'msgid "a"\nmsgstr "%s %d"\n\nmsgid "k%d"\nmsgstr "%s"\n' % (n, di, di, n) if n.endswith(b".po") and rng.random() < 0.8 else b""
            L.append("put 1 %s %s ok %s" % (X(d), X(n), X(c)))
    nm = rng.choice([1, 1, 2])
    L += ["q tr " + X(b"a"), "q tr " + X(b"k%d" % rng.randint(0, nd - 1))]
    for m in range(1, nm + 1):
        L.append("mgr %d 1 %s" % (m, X(b"UTF-8")))
        L += ["adddir %d %s %d" % (m, X(d), 1 if rng.random() < 0.2 else 0) for d in rng.sample(dirs, nd)]
    L += ["langs %d" % m for m in range(1, nm + 1)]
    ask = rng.sample(langs, min(len(langs), rng.choice([5, 20, 70])))
    hs = 0
    for i, l in enumerate(ask):
        m = rng.randint(1, nm)
        L.append("get %d %s" % (m, X(l)) + (" %d" % (i + 1) if held else ""))
        if held and rng.random() < 0.3:
            L.append("hadd %d %s %s" % (i + 1, X(rng.choice([b"a", b"new"])), X(b"mine %d" % i)))
        if rng.random() < 0.1:
            L.append(rng.choice(["setlang %d %s" % (m, X(rng.choice(ask))), "cur %d" % m, "langs %d" % m]))
    if held:
        L += ["held %d" % (i + 1) for i in range(len(ask))]
    for l in ask[:1] + rng.sample(ask, min(3, len(ask))):
        L += ["get %d %s" % (m, X(l)) for m in range(1, nm + 1)]
    if nd > 2:
        L += ["rmdir 1 " + X(d) for d in rng.sample(dirs, rng.randint(0, nd // 2))]
    L += ["get 1 " + X(ask[0]), "langs 1"]
    return L


def long_locale_session(rng):
    """Locale names and file names of any length."""
    data, L = lang_data(), []
    for _ in range(8):
        r = rng.choice(data["rows"])
        n = rng.choice([8, 15, 16, 30, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 4096])
        filler = (rng.choice([b"utf8-", b"x", b"ISO-8859-", b".", b"_"]) * n)[:n]
        l, c, m = bytes(r["l"]), bytes(r["c"]) or b"DE", bytes(r["m"]) or rng.choice([b"latin", b"euro"])
        s = rng.choice([l + b"_" + c + b"." + filler + b"@" + m, l + b"." + filler + b"@" + m, l + b"_" + c + filler, l + b"_" + c + b"@" + m + filler, l + filler + b"_" + c, l + b"_" + c + b"." + filler, l + b"_" + filler + b"@" + m, filler + b"_" + c])
        L.append(rng.choice(["env " + X(s), "name " + X(s), "env " + X(s), "fn " + X(s + b".po"), "match %s %s" % (X(s), X(l + b"_" + c + b"@" + m))]))
    return L


def big_files_session(rng):
    """Large files of the real file system."""
    L = ["urm " + X(b"u"), "umk " + X(b"u"), "umk " + X(b"u/t")]
    n = rng.choice([65535, 65536, 65537, 131072, 262143, 262145, 400000, 1048577])
    data = bytes(rng.randint(0, 255) for _ in range(97)) * (n // 97) + b"the end"
    L += ["uw %s %s" % (X(b"u/t/fr.po"), X(data)), "ucat " + X(b"u/t/fr.po")]
    k = rng.choice([200, 900, 3000])
    po = b'msgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n' + b"".join(b'msgid "k%d"\nmsgstr "%s%d"\n\n' % (i, b"v" * rng.choice([1, 20, 60]), i) for i in range(k))
    L.append("uw %s %s" % (X(b"u/t/de.po"), X(po)))
    L += ["uw %s %s" % (X(b"u/t/file%d" % i), X(b"")) for i in range(some_number(rng, 300))]
    L += ["uls " + X(b"u/t"), "q tr " + X(b"k%d" % (k - 1)), "mgr 1 unix " + X(b"UTF-8"), "adddir 1 %s 0" % X(b"u/t"), "get 1 " + X(b"de"), "langs 1", "urm " + X(b"u")]
    return L
