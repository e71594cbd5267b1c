#!/usr/bin/env python3
"""Writes probe/src/types.rs: the derived types and the table of types of the feature probe (C27),
taken from harness/src/derived.rs and harness/src/subjects.rs."""
import re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f'{R}/harness/src/derived.rs').read()
body = d[d.index('#[derive(Debug, PartialEq, Sequence)]\npub struct SBasic'):d.index('fn bx(s: S)')]
items = re.findall(r'(?:#\[[^\n]*\]\n)*pub (?:struct|enum) \w+(?:<[^>]*>)?(?:\([^;]*\);|;| \{.*?\n\})', body, re.S)
items = [i for i in items if '#[derive(' in i and 'ToStatic' not in i]
out = ['// generated by tools/mkprobe.py\nuse asn1_rs::*;\n']
for i in items:
    i = re.sub(r', (ToBer\w+)', '', i)
    i = re.sub(r', (ToDer\w+)', '', i)
    out.append(i.replace('#[derive', '#[allow(dead_code)]\n#[derive') + '\n')
rows = []
s = open(f'{R}/harness/src/subjects.rs').read() + d
for m in re.finditer(r'''subject!\(o, 'a, "([^"]+)", (.*?); ([a-z ]+)\);''', s, re.S):
    name, rest, flags = m.groups()
    if 'HashSet' in name or name == 'AnySet':  # order of iteration is random
        continue
    # the type is the text up to the first comma outside brackets
    depth = 0
    for k, ch in enumerate(rest):
        if ch in '<([': depth += 1
        elif ch in '>)]': depth -= 1
        elif ch == ',' and depth == 0: break
    ty = rest[:k].strip()
    fl = [x for x in flags.split() if x in ('ber', 'der', 'fber', 'fder', 'tany', 'rany', 'eb', 'ed', 'edd', 'ebf', 'edf', 'dsp')]
    if name == 'Oid':  # its text is compared separately
        fl.remove('dsp')
    if name[0] == 'L':  # legacy encoders are not derived here
        fl = [x for x in fl if x not in ('ebf', 'edf')]
    rows.append(f"        t!(v, 'a, {name!r}, {ty}; {' '.join(fl)});".replace("'" + name + "'", '"' + name + '"'))
out.append('pub fn table() -> Vec<(&\'static str, Vec<super::Fun>)> {\n    use std::collections::BTreeSet;\n    let mut v = vec![];\n    {\n' + '\n'.join(rows) + '\n    }\n    v\n}\n')
open(f'{R}/probe/src/types.rs', 'w').write('\n'.join(out))
print(len(items), 'items', len(rows), 'types')
