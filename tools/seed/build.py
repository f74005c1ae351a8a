#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from bugs.py: patch.diff, demo.sh, demo.js, kit.tgz, meta.json.
import sys, os, json, subprocess, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(here))
sys.path.insert(0, here)
from bugs import BUGS
only = sys.argv[1:]
tmp = tempfile.mkdtemp()
files = ['native', 'tools/build_native.sh', 'e2e/Cargo.toml', 'e2e/Cargo.lock', 'e2e/rt_builtins.c', 'e2e/compiler', 'e2e/fe', 'e2e/shims', 'tools/sync.sh', 'tools/build_e2e.sh', 'tools/build_fe.sh', 'tools/build_dbg.sh', 'js/lib']
base = ['tar', '--sort=name', '--mtime=2020-01-01', '--owner=0', '--group=0', '--numeric-owner', '-cf', tmp + '/kit.tar', '-C', V] + files + ['-C', here, 'kit.js']
subprocess.check_call(base); subprocess.check_call(['gzip', '-9n', '-S', '.gz', tmp + '/kit.tar'])
work = tmp + '/repo'
subprocess.check_call(['git', 'clone', '-q', '-n', '/repo', work])
subprocess.check_call(['git', '-C', work, 'checkout', '-q', 'HEAD', '--', 'src', 'stdlib'])
for b in BUGS:
    if only and b['id'] not in only: continue
    subprocess.check_call(['git', '-C', work, 'checkout', '-q', 'HEAD', '--', 'src', 'stdlib'])
    for f, old, new in b['edits']:
        p = os.path.join(work, f); s = open(p).read()
        if s.count(old) != 1: sys.exit(f"{b['id']}: {f}: {s.count(old)} matches of {old!r}")
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', work, 'diff', '--', 'src', 'stdlib'], text=True))
    if 'sh' in b:
        open(d + '/demo.sh', 'w').write(b['sh'])
        for n, c in b.get('files', {}).items(): open(os.path.join(d, n), 'w').write(c)
        if b.get('kit'): shutil.copy(tmp + '/kit.tar.gz', d + '/kit.tgz')
    else:
        open(d + '/demo.sh', 'w').write(open(here + '/demo.sh').read().replace('@BUILD@', b.get('build', 'build_e2e.sh')))
        open(d + '/demo.js', 'w').write("'use strict';\nmodule.exports = async (K) => {\n" + b['demo'].strip('\n') + "\n};\n")
        shutil.copy(tmp + '/kit.tar.gz', d + '/kit.tgz')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
shutil.rmtree(tmp)
