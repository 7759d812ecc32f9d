"""write props/C23_contract.json from the current tree (to be reviewed against the headers before it is committed)"""
import sys, json
sys.path[:0] = ['/verif/egv', '/verif/props', '/verif']
import C23, facade
r = {}
for f in C23.FILES:
    for n, d in C23.unit(f).entries.items():
        s = facade.summary(facade.Entry(d, C23.unit(f), C23.library()))
        if len(s['success']) > 1 or len(s['value']) > 1:
            print('several outcomes', n, s)
        r[n] = s
with open('/verif/props/C23_contract.json', 'w') as o:
    o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(n), json.dumps(r[n])) for n in sorted(r)) + '\n}\n')
