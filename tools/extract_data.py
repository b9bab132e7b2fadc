#!/usr/bin/env python3
"""One-off: transcribe the Unicode range tables into the specification's own data
(spec/data/*.json).  Not used by any check: the committed JSON is the reference.
Run once against the pinned commit; tools/crosscheck_unicode.pl then compares it
with an independent source (perl's copy of the UCD)."""
import re, json, sys
repo = sys.argv[1]
out = sys.argv[2]
src = open(f'{repo}/runewidth/runewidth_table.go').read() + open(f'{repo}/runewidth/runewidth.go').read()
tabs = {}
for m in re.finditer(r'var (\w+) = table\{(.*?)\n\}', src, re.S):
    tabs[m[1]] = [[int(a, 16), int(b, 16)] for a, b in re.findall(r'\{(0x[0-9A-Fa-f]+), (0x[0-9A-Fa-f]+)\}', m[2])]
# width classes, in order of precedence: Z zero (non-printing, combining), N narrow, W wide, A ambiguous, E emoji, O other
cls = ['O'] * 0x110000
for name, c in (('emoji', 'E'), ('ambiguous', 'A'), ('doublewidth', 'W'), ('narrow', 'N'), ('combining', 'Z'), ('nonprint', 'Z')):
    for a, b in tabs[name]:
        for k in range(a, b + 1): cls[k] = c
runs = []
for k, c in enumerate(cls):
    if runs and runs[-1][2] == c: runs[-1][1] = k
    else: runs.append([k, k, c])
json.dump(runs, open(f'{out}/wclass.json', 'w'))
json.dump({k: tabs[k] for k in ('nonprint', 'combining', 'doublewidth', 'ambiguous', 'narrow', 'emoji')},
          open(f'{out}/widthtables.json', 'w'))
def uni(f):
    return [[int(a, 16), int(b, 16), c] for a, b, c in
            re.findall(r'^\s*\{(0x[0-9A-Fa-f]+), (0x[0-9A-Fa-f]+), pr(\w+)\}', open(f'{repo}/runewidth/uniseg/{f}').read(), re.M)]
def merge(rs):
    o = []
    for a, b, c in rs:
        if o and o[-1][2] == c and o[-1][1] + 1 == a: o[-1][1] = b
        else: o.append([a, b, c])
    return o
def full(rs, default):
    o, nxt = [], 0
    for a, b, c in rs:
        assert a >= nxt, (a, nxt)
        if a > nxt: o.append([nxt, a - 1, default])
        o.append([a, b, c]); nxt = b + 1
    if nxt <= 0x10FFFF: o.append([nxt, 0x10FFFF, default])
    return o
json.dump(full(merge(uni('graphemeproperties.go')), 'Any'), open(f'{out}/gcb.json', 'w'))
eaw = merge([[a, b, 'W' if c in 'WF' else 'N'] for a, b, c in uni('eastasianwidth.go')])
json.dump([[a, b] for a, b, c in eaw if c == 'W'], open(f'{out}/wide14.json', 'w'))
json.dump([[a, b] for a, b, c in merge(uni('emojipresentation.go'))], open(f'{out}/emojipres.json', 'w'))
