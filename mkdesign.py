#!/usr/bin/env python3-vt
"""fills the counts and times in DESIGN.md from the design text in design/ and the last evidence"""
import json, os, sys, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'egv'), os.path.join(HERE, 'props')]
main = open(os.path.join(HERE, 'design', 'main.md')).read()
props = open(os.path.join(HERE, 'design', 'props.md')).read()
seeds = open(os.path.join(HERE, 'design', 'seeds.md')).read()
for i in range(1, 24):
    p = 'C%02d' % i
    if not os.path.exists(os.path.join(HERE, 'props', p + '.py')):
        continue
    obs = importlib.import_module(p).obligations('quick')
    u = len([o for o in obs if not o.bounded])
    props = props.replace('@@%s@@' % p, '(%d u / %d b)' % (u, len(obs) - u))
out = main.replace('@@PROPS@@\n', props).replace('@@SEEDS@@\n', seeds)
assert '@@' not in out, out[out.index('@@') - 50:][:100]
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
