#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
STAR = {'C17-zero-byte-literal': 'segments of many short literals', 'C04-mstore-constant-2-32': 'edge constants in stores (`Mem.val`)', 'C06-immutable-names-case': 'immutables with confusable names', 'C08-callvalue-words': 'values read as conditions, sparse 256-bit values', 'C09-gas-literal-wraps': 'gas limits written as 10 to 20 digit literals', 'C16-ten-digit-offset': '~40 more literal positions for offsets, lengths and indexes', 'C17-deployed-object-of-another': 'nested objects named `Q_deployed`', 'C19-mask-of-another-constant': 'near misses of the recognised idioms (`js/gen/idioms.js`)'}
rows = ['| planted bug | needs | missed at first, then |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    also = m.get('also') or ''
    rows.append(f"| {d} | {m['needs']} | {STAR.get(d, '')}{also} |")
p = V + '/DESIGN.md'; s = open(p).read(); a, b = '<!-- bugs -->', '<!-- end -->'
s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: a + '\n' + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open(p, 'w').write(s)
