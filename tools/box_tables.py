#!/usr/bin/env python3
"""Writes specs/BoxGlyphs.tla: what each box-drawing character means, from the Unicode character names."""
import unicodedata, os
W = {"LIGHT": 1, "SINGLE": 1, "HEAVY": 2, "DOUBLE": 3}
D = {"UP": [0], "RIGHT": [1], "DOWN": [2], "LEFT": [3], "VERTICAL": [0, 2], "HORIZONTAL": [1, 3]}
rows = []
for cp in range(0x2500, 0x2580):
    name = unicodedata.name(chr(cp)).replace("BOX DRAWINGS ", "")
    if any(w in name for w in ("DASH", "ARC", "DIAGONAL")):
        continue
    parts = [p.split() for p in name.split(" AND ")]
    weights = [next((W[w] for w in p if w in W), None) for p in parts]
    known = [w for w in weights if w]
    weights = [w or known[0] for w in weights]
    q = [0, 0, 0, 0]
    for p, w in zip(parts, weights):
        for word in p:
            for d in D.get(word, []):
                q[d] = w
    rows.append((tuple(q), cp, name))
assert len({r[0] for r in rows}) == len(rows)
out = ["----------------------------- MODULE BoxGlyphs -----------------------------",
       "(* Generated by tools/box_tables.py from the Unicode names of U+2500..U+257F: the character with    *)",
       "(* the given arms up, right, down, left (0 none, 1 light, 2 heavy, 3 double); 0 when there is none. *)",
       "EXTENDS Integers, Sequences, TLC",
       "GlyphTable == <<"]
out.append(",\n".join("  <<<<%d, %d, %d, %d>>, %d>>" % (*q, cp) for q, cp, _ in sorted(rows)))
out += [">>", "GlyphFun == TLCEval([q \\in {GlyphTable[k][1] : k \\in 1..Len(GlyphTable)} |->",
        "                        GlyphTable[CHOOSE k \\in 1..Len(GlyphTable) : GlyphTable[k][1] = q][2]])",
        "Glyph(q) == IF q \\in DOMAIN GlyphFun THEN GlyphFun[q] ELSE 0",
        "============================================================================="]
open(os.path.join(os.path.dirname(__file__), "../specs/BoxGlyphs.tla"), "w").write("\n".join(out) + "\n")
print(len(rows))
