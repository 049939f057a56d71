#!/usr/bin/env python3
"""Writes mc/common/xid.hpp: XID_Start and XID_Continue according to python's own Unicode database (15.0).

Code points that were assigned in Unicode 15 (2022, after tiro's tables were made) are listed as unspecified.
"""
import os
NEW = [(0x0cf3, 0x0cf3), (0x0ece, 0x0ece), (0x10efd, 0x10eff), (0x1123f, 0x11241), (0x11f00, 0x11f59), (0x1342f, 0x1342f),
       (0x13439, 0x13455), (0x1b132, 0x1b132), (0x1b155, 0x1b155), (0x1df25, 0x1df2a), (0x1e030, 0x1e06d), (0x1e08f, 0x1e08f),
       (0x1e4d0, 0x1e4f9), (0x2b739, 0x2b739), (0x31350, 0x323af)]


def ranges(f):
    r = []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or any(a <= c <= b for a, b in NEW) or not f(chr(c)):
            continue
        if r and r[-1][1] == c - 1:
            r[-1][1] = c
        else:
            r.append([c, c])
    return r


def table(name, rs):
    return "const Range %s[] = {\n%s};\n" % (name, "".join("    {0x%x, 0x%x},\n" % (a, b) for a, b in rs))


out = "// Generated by tools/gen_xid.py\n#pragma once\n#include <cstdint>\n\nnamespace mc::xid {\n\nstruct Range {\n    uint32_t first, last;\n};\n\n"
out += table("xid_start", ranges(lambda s: s.isidentifier() and s != "_"))
out += table("xid_continue", ranges(lambda s: ("a" + s).isidentifier()))
out += table("xid_unspecified", NEW)
out += "\n} // namespace mc::xid\n"
open(os.path.join(os.path.dirname(__file__), "../mc/common/xid.hpp"), "w").write(out)
