#!/usr/bin/env python3
# Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json. CAUGHT_LATE: missed when first planted.
import json,os,re
here='/verif/seeded'
late={
 'relative-any':'missed at first: C28 now gives every object to the conversions of types of other numbers',
 'sequence-then-rem':'missed at first: C02 now drives every function with a continuation, which leaves a part of the content',
 'field-name-prefix':'missed when written: C17 has a structure with awkward field names since',
 'input-vec-span':'missed at first: the vector had no spare capacity in C24',
}
rows=[]
for d in sorted(os.listdir(here)):
    m=json.load(open(f'{here}/{d}/meta.json'))
    rows.append(f"| `{d}` | {m['needs']} | {m['property']}{'; '+late[d] if d in late else ''} |")
text='''## Planted bugs

Judged with `tools/seedtest.sh <id> full`: the demonstration passes on the tree and fails with the patch, the stable
tests pass with it. The last column is the check that reports it.

| bug | needs | caught by |
|---|---|---|
'''+'\n'.join(rows)+'''

Besides these, single-token mutants of `src/` and `derive/src/` (operators, constants, deleted statements; several
hundred, drawn at random) were run against the checks. Those that stayed silent were read one by one: they led to
stronger checks, except for those that are not observable (allocation hints, unreachable guards, `debug` output, the
error texts of the derive macros) or touch what is listed under "Observed but not judged".
'''
p='/verif/DESIGN.md';s=open(p).read()
i=s.find('## Planted bugs')
if i>=0: s=s[:i].rstrip('\n')+'\n\n'+text
else: s=s.rstrip('\n')+'\n\n'+text
open(p,'w').write(s)
