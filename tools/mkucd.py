#!/usr/bin/env python3
"""Writes spec/data/ucd17.json: the segmentation class of every code point in
Unicode 17.0, as maximal ranges, from the three UCD files.  Run once, on the
bundled files of the base commit; the result is committed so that the checks'
ground truth does not move with /repo.  Shares no code with /repo."""
import json, re, sys, hashlib, os
d = sys.argv[1]; out = sys.argv[2]
LINE = re.compile(r"^\s*([0-9A-F]{4,6})(?:\.\.([0-9A-F]{4,6}))?\s*;\s*(.*?)\s*$")
def rows(f):
    for l in open(os.path.join(d, f), encoding="utf-8"):
        l = l.partition("#")[0].strip()
        if not l: continue
        m = LINE.match(l); assert m, l
        yield int(m[1], 16), int(m[2] or m[1], 16), [x.strip() for x in m[3].split(";")]
gcb, pic, inc = {}, set(), {}
for a, b, f in rows("auxiliary/GraphemeBreakProperty.txt"):
    for c in range(a, b + 1): assert c not in gcb; gcb[c] = f[0]
for a, b, f in rows("emoji/emoji-data.txt"):
    if f[0] == "Extended_Pictographic":
        for c in range(a, b + 1): assert c not in gcb; pic.add(c)
for a, b, f in rows("DerivedCoreProperties.txt"):
    if f[0] == "InCB":
        for c in range(a, b + 1): assert c not in inc; inc[c] = f[1]
MAP = {("None", "None"): "Other", ("None", "Consonant"): "Consonant", ("Extend", "Extend"): "Extend",
       ("Extend", "None"): "ExtendX", ("Extend", "Linker"): "Linker", ("ZWJ", "Extend"): "ZWJ",
       ("Regional_Indicator", "None"): "RI"}
for k in "CR LF Control Prepend SpacingMark L V T LV LVT ExtPict".split(): MAP[(k, "None")] = k
R = []
for c in range(0x110000):
    k = MAP[("ExtPict" if c in pic else gcb.get(c, "None"), inc.get(c, "None"))]
    if R and R[-1][2] == k: R[-1][1] = c
    else: R.append([c, c, k])
json.dump({"unicode": "17.0.0", "ranges": R}, open(out, "w"), separators=(",", ":"))
print(len(R), "ranges")
