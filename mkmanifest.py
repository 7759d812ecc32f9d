#!/usr/bin/env python3-vt
"""regenerates MANIFEST.json from properties.jsonl and props/*.py"""
import json, os, sys, re, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {'C24': 'Interleavings of threads are outside sequential contract-based verification, and no concurrency-capable deductive verifier for C++ is available here; '
             'the contracts treat the locks as no-ops. (AsyncSemaphore/LookupTableContext, PrecomputeBufferContext.)'}
checks, na = [], []
sys.path[:0] = [os.path.join(HERE, 'egv'), os.path.join(HERE, 'props')]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    f = os.path.join(HERE, 'props', p + '.py')
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
        continue
    if not os.path.exists(f):
        na.append({'property': p, 'reason': 'no check built yet'})
        continue
    m = importlib.import_module(p)
    obs = m.obligations('quick') if hasattr(m, 'obligations') else []
    full = [o.name for o in obs if not o.bounded]
    nb = len(obs) - len(full)
    note = getattr(m, 'NOTE', '')
    note = (note + ' ' if note else '') + ('%d unbounded and %d bounded obligations on the real functions; ' % (len(full), nb)) + 'assumes: ' + '; '.join(getattr(m, 'ASSUME', []) + getattr(m, 'TRUST', []))
    c = {'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
         'technique': getattr(m, 'TECH', 'contract-based deductive verification: obligations generated from the clang AST of the real functions on every run, discharged by z3; counterexamples replayed on the built library'),
         'level': m.LEVEL, 'level_note': note}
    if m.LEVEL == 'proof':
        c['theorems'] = full
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
