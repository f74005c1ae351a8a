#!/usr/bin/env python3
"""Rewrites the 'fixed' entries of known_findings.json from /repo's fix: commits (open entries are kept as they are)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(V, 'known_findings.json')
PROP = {}
for l in open(os.path.join(V, 'tools/fix_properties.txt')):
    l = l.rstrip('\n')
    if l: p, s = l.split(' ', 1); PROP[s] = p
old = json.load(open(F)) if os.path.exists(F) else []
out = [k for k in old if k['status'] == 'open']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    if s.startswith('abi_encode.py '): continue  # reverted: no commit may touch examples/
    if s == 'prevrandao keeps all 32 bytes and writes nothing behind them': continue  # reverted, see DESIGN.md
    if s not in PROP: raise SystemExit('no property for: ' + s)
    p = PROP[s]
    out.append({'property': p, 'status': 'fixed', 'commit': h, 'line': f'fixed: property={p} {h} {s}'})
json.dump(out, open(F, 'w'), indent=1); open(F, 'a').write('\n')
