#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E2E = 'differential runtime monitoring: compiled contract under a recording host vs an independent reference interpreter, random programs and inputs'
T = {
 'C01': E2E, 'C02': E2E, 'C03': E2E,
}
NOTE = {}
exec(open(os.path.join(V, 'tools/manifest_text.py')).read()) if os.path.exists(os.path.join(V, 'tools/manifest_text.py')) else None
DEF_NOTE = 'Sampled exploration: every execution observed is judged by an online oracle; nothing is claimed about inputs not generated. Trusts the reference interpreter and the shims for third-party crates absent offline.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'js/checks', i + '.js')):
        checks.append({'property': i, 'quick_cmd': f'node js/run.js {i}', 'thorough_cmd': f'node js/run.js {i}', 'evidence_file': f'evidence/{i}.json', 'technique': T.get(i, E2E), 'level': 'exploration', 'level_note': NOTE.get(i, DEF_NOTE)})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/build_dbg.sh && bash tools/build_native.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harnesses compile the files of /repo as they are (stdlib to wasm32 and natively, the compiler against shim crates in e2e/shims).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
