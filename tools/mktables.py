#!/usr/bin/env python3
"""Writes the data modules of the specification that are plain tables:
spec/CharsetTables.tla (from Python's codecs, i.e. not from the library under
test) and, once, spec/lang.json (the committed copy of the language table and
alias list; run with --lang SRC to regenerate it from a language.cpp)."""
import re, sys, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")

MB = "あいうアカ日本語文字中国一人大小山川水火ソ表能十"
BIG = "中國一人大小山川水火功許蓋娉日本文字，。"

def single(name):
    out = []
    for b in range(256):
        try:
            out.append(ord(bytes([b]).decode(name)))
        except UnicodeDecodeError:
            out.append(-1)
    return out

def multi(name, chars):
    out = []
    for ch in chars:
        try:
            b = ch.encode(name)
        except UnicodeEncodeError:
            continue
        out.append((ord(ch), b))
    return out

def tla_seq(xs):
    return "<<" + ", ".join(map(str, xs)) + ">>"

def charset():
    o = ["--------------------------- MODULE CharsetTables ---------------------------",
         "(* generated by tools/mktables.py from Python's codecs *)", "EXTENDS Integers, Sequences"]
    for nm, py in (("Latin2Tab", "iso8859-2"), ("Latin15Tab", "iso8859-15"), ("Koi8Tab", "koi8-r"), ("Greek7Tab", "iso8859-7")):
        o.append("%s == %s" % (nm, tla_seq(single(py))))
    for nm, py, cs in (("Big5Tab", "big5", BIG), ("EucTab", "euc_jp", MB), ("SjisTab", "shift_jis", MB)):
        o.append("%s == <<%s>>" % (nm, ",\n  ".join("<<%d, %s>>" % (c, tla_seq(b)) for c, b in multi(py, cs))))
    o.append("=" * 77)
    open(os.path.join(SPEC, "CharsetTables.tla"), "w").write("\n".join(o) + "\n")

def unesc(s):
    return re.sub(rb"\\(.)", rb"\1", s)

def lang(src):
    t = open(src, "rb").read()
    t = re.sub(rb"//[^\n]*", b"", t)
    body = t[t.index(b"languages[] = {"):t.index(b"{ NULL")]
    rows = []
    F = rb'\s*(0|NULL|"(?:[^"\\]|\\.)*")\s*'
    for m in re.finditer(rb"\{" + rb",".join([F] * 5) + rb"\}", body):
        v = [b"" if x in (b"0", b"NULL") else unesc(x[1:-1]) for x in m.groups()]
        rows.append({"l": list(v[0]), "c": list(v[1]), "m": list(v[2]), "name": list(v[3]), "loc": list(v[4] or v[3])})
    al = []
    for m in re.finditer(rb'language_aliases\["([^"]*)"\]\s*=\s*"([^"]*)"', t):
        al.append({"k": list(m.group(1)), "v": list(m.group(2))})
    with open(os.path.join(SPEC, "lang.json"), "w") as f:
        f.write('{"rows":[\n' + ",\n".join(json.dumps(r, separators=(",", ":")) for r in rows) +
                '\n],"aliases":[\n' + ",\n".join(json.dumps(r, separators=(",", ":")) for r in al) + "\n]}\n")
    print(len(rows), "languages", len(al), "aliases")

charset()
if len(sys.argv) > 2 and sys.argv[1] == "--lang":
    lang(sys.argv[2])
