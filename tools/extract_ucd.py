#!/usr/bin/env python3
"""Provenance script: turns the Unicode 17.0.0 break-property tables of the Rust
crate unicode-segmentation 1.13.3 (src/tables.rs, generated by that project
straight from the UCD) into sim/ref/data/ucd17.txt. It has nothing in common
with the tries of clipperhouse/uax29. Usage: extract_ucd.py TABLES.RS > OUT"""
import re, sys
src = open(sys.argv[1]).read()
def table(name):
    m = re.search(r'const %s: &\[\(char, char(?:, \w+)?\)\] = &\[(.*?)\];' % name, src, re.S)
    for t in re.finditer(r"\(\s*'\\u\{([0-9a-f]+)\}',\s*'\\u\{([0-9a-f]+)\}'(?:,\s*(\w+))?\s*\)", m.group(1)):
        yield int(t.group(1), 16), int(t.group(2), 16), t.group(3)
out = []
for lo, hi, c in table('grapheme_cat_table'):
    c = c[3:]
    if c == 'Extended_Pictographic': continue           # taken from emoji_cat_table
    if c == 'InCB_Consonant': out.append(('InCB', lo, hi, 'Consonant')); continue
    out.append(('GCB', lo, hi, c))
for lo, hi, _ in table('InCB_Extend_table'): out.append(('InCB', lo, hi, 'Extend'))
m = re.search(r'pub fn is_incb_linker.*?\n\}', src, re.S).group(0)
for x in re.findall(r"\\u\{([0-9A-Fa-f]+)\}", m): out.append(('InCB', int(x,16), int(x,16), 'Linker'))
for lo, hi, c in table('word_cat_table'): out.append(('WB', lo, hi, c[3:]))
for lo, hi, c in table('sentence_cat_table'): out.append(('SB', lo, hi, c[3:]))
for lo, hi, c in table('emoji_cat_table'):
    if c == 'EC_Extended_Pictographic': out.append(('ExtPict', lo, hi, 'Y'))
# merge adjacent ranges of equal value
out.sort(key=lambda t: (t[0], t[1]))
res = []
for p, lo, hi, v in out:
    if res and res[-1][0] == p and res[-1][3] == v and res[-1][2] + 1 == lo: res[-1][2] = hi
    else: res.append([p, lo, hi, v])
print("# Unicode 17.0.0; derived from unicode-segmentation 1.13.3 by tools/extract_ucd.py")
for p, lo, hi, v in res: print("%s %04X %04X %s" % (p, lo, hi, v))
