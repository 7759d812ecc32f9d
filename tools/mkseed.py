#!/usr/bin/env python3
"""Author a planted bug: mkseed.py SPEC.py  (SPEC defines id, prop, edits=[(file, old, new)], demo (C++ text), needs, breaks)"""
import sys, os, subprocess, json, shutil, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration's input; non-zero: it does not
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -w -DEXPORT_INTERNALS -DUSE_STANDARD_PRIMES -I/repo/include -I/repo/src -I/repo/src/electionguard -I/repo/src/karamel \\
    "$here/demo.cpp" -o "$tmp/demo" -L/repo/_build -lelectionguard -Wl,-rpath,/repo/_build -lpthread || exit 3
cd "$tmp"
timeout 200 ./demo > out.txt 2>&1
rc=$?
grep -v '^\\[' out.txt | tail -5
exit $rc
'''
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/mkseed_%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', tmp])
    for f, a, b in s['edits']:
        p = os.path.join(tmp, f)
        t = open(p).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    diff = subprocess.check_output(['git', '-C', tmp, 'diff'], text=True)
    shutil.rmtree(tmp)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
