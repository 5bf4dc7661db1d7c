#!/usr/bin/env python3
"""Writes h/unicode_ref.h: code point classes taken from Python's Unicode 15.0 database (independent of muu's
generator). The output is committed; checks only use the committed header."""
import sys, unicodedata as u
assert u.unidata_version.startswith("15.0"), u.unidata_version
S = lambda c: chr(c)
HYPH = {0x2D, 0xAD, 0x58A, 0x1806, 0x2010, 0x2011, 0x2E17, 0x30FB, 0xFE63, 0xFF0D, 0xFF65}
WS = {c for c in range(0x110000) if chr(c).isspace() and not 0x1C <= c <= 0x1F}
cl = {
    "letter": lambda c: u.category(chr(c)) in ("Lu", "Ll", "Lt", "Lm", "Lo"),
    "number": lambda c: u.category(chr(c)) in ("Nd", "Nl"),
    "combining": lambda c: u.category(chr(c)) in ("Mn", "Mc"),
    "lowercase": lambda c: chr(c).islower(),
    "uppercase": lambda c: chr(c).isupper(),
    "whitespace": lambda c: c in WS,
    "hyphen": lambda c: c in HYPH,
}
o = open(sys.argv[1], "w")
o.write("// generated by tools/gen_unicode.py from Unicode %s; do not edit\n#pragma once\n#include <cstdint>\n"
        "namespace uref\n{\n\tstruct range { uint32_t lo, hi; };\n" % u.unidata_version)
for n, f in cl.items():
    r = []
    for c in range(0x110000):
        if 0xD800 <= c <= 0xDFFF: continue
        if f(c):
            if r and r[-1][1] == c - 1: r[-1][1] = c
            else: r.append([c, c])
    o.write("\tinline constexpr range %s[] = {\n" % n)
    for i in range(0, len(r), 8):
        o.write("\t\t" + " ".join("{0x%X,0x%X}," % tuple(x) for x in r[i:i + 8]) + "\n")
    o.write("\t};\n")
o.write("}\n")
