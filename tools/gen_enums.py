#!/usr/bin/env python3
"""Writes mc/seq/enums.inc: every ordered selection of up to 4 names from a pool
with shared prefixes, each in every layout, plus large enums (used by D03)."""
import itertools, os
POOL = ["A", "AB", "B_1", "ABC"]
LAYOUT = [
    lambda ns: ", ".join(ns),
    lambda ns: ",".join(ns),
    lambda ns: "\n               " + ",\n               ".join(ns),
    lambda ns: "  " + "  ,   ".join(ns) + "  ",
    lambda ns: "\n\t" + ",\n\t".join(ns) + ",\n",
    lambda ns: "\n  " + ",  // first, second\n  ".join(ns) + "\n",
    lambda ns: "/* A, B */ " + " /* , */ , ".join(ns),
]
out, n = ["// generated by tools/gen_enums.py"], 0
cases = []


def add(names, layout):
    global n
    t = f"e{n}"
    n += 1
    out.append(f"PRINTABLE_ENUM({t}, {layout(names)})")
    cases.append((t, names))


for k in range(1, 5):
    for names in itertools.permutations(POOL, k):
        for l in LAYOUT if k <= 3 else LAYOUT[:3]:
            add(list(names), l)
for big in (7, 31, 64, 130, 300):
    for l in LAYOUT:
        add([f"N{i:x}" if i % 3 else f"N{i}_" + "x" * (i % 40) for i in range(big)], l)
for l in LAYOUT:
    add(["_", "__x", "x_", "_0", "Z9", "aVeryLongEnumeratorNameThatGoesOnAndOnUntilItIsLongerThanAnySmallBuffer_" + "q" * 200, "a"], l)
out.append("#define ENUM_CASES \\")
for t, names in cases:
    out.append('  CASE(%s, %s) \\' % (t, ", ".join(f'"{x}"' for x in names)))
out.append("")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/seq/enums.inc")
open(p, "w").write("\n".join(out) + "\n")
