"""Writes specs/ColourTables.tla: the CSS colour names (from npm's color-name) and the sRGB/CIE tables."""
import re
names = re.findall(r'"(\w+)": \[(\d+), (\d+), (\d+)\]', open('/usr/lib/node_modules/npm/node_modules/color-name/index.js').read())
def lin(v):
    c = v / 255
    return c / 12.92 if c <= 0.04045 else ((c + 0.055) / 1.055) ** 2.4
def lightness(y):
    f = y ** (1 / 3) if y > 0.008856 else 7.787 * y + 16 / 116
    return 116 * f - 16
def rows(xs, per):
    return ',\n    '.join(', '.join(xs[i:i + per]) for i in range(0, len(xs), per))
with open('specs/ColourTables.tla', 'w') as o:
    o.write('---------------------------- MODULE ColourTables ----------------------------\n')
    o.write('\\* CSS colour names; linear light of a channel value v at Lin[v + 1] (white 100000);\n\\* CIE lightness of the grey v at Grey[v + 1] (white 100000).  Written by tools/colour_tables.py.\nEXTENDS Integers, Sequences\n')
    o.write('Names == [\n    ' + rows(['%s |-> <<%s, %s, %s>>' % n for n in names], 4) + ']\n')
    o.write('Lin == <<\n    ' + rows([str(round(100000 * lin(v))) for v in range(256)], 16) + '>>\n')
    o.write('Grey == <<\n    ' + rows([str(round(1000 * lightness(lin(v)))) for v in range(256)], 16) + '>>\n')
    o.write('=' * 77 + '\n')
