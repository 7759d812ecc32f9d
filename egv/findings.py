"""known_findings.txt: lines 'finding: property=<id> key=<key> <text>' (recorded defects) and 'fixed: property=<id> <commit> <text>'
(repaired defects; they suppress nothing)."""
import os, re
FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
def load():
    out = []
    if os.path.exists(FILE):
        for l in open(FILE):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out
def split(prop, failed, conc):
    ks = {k: t for p, k, t in load() if p == prop}
    known, f2, c2 = [], [], []
    for r in failed:
        k = r.get('info', {}).get('finding')
        if k in ks:
            known.append(ks[k])
        else:
            f2.append(r)
    for c in conc:
        k = c.get('finding')
        if k in ks:
            known.append(ks[k])
        else:
            c2.append(c)
    return sorted(set(known)), (f2, c2)
