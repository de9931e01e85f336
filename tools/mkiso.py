#!/usr/bin/env python3
"""Writes mc/iso_tables.h: the ISO 8859 parts as Python's codecs define them (reference for C17)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
parts = [1, 2, 3, 4, 5, 6, 7, 8, 9, 15]
with open(V + "/mc/iso_tables.h", "w") as f:
    f.write("/* generated by tools/mkiso.py from Python's codecs: code point of every byte, 0 = undefined */\n")
    f.write("static const int iso_part[] = { %s };\nstatic const unsigned short iso_cp[%d][256] = {\n" % (", ".join(map(str, parts)), len(parts)))
    for p in parts:
        row = []
        for b in range(256):
            try: row.append(ord(bytes([b]).decode("iso8859-%d" % p)))
            except UnicodeDecodeError: row.append(0)
        f.write(" { " + ",".join(map(str, row)) + " },\n")
    f.write("};\n")
