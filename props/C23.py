from common import *
import glob, json, os
import astload, facade, libbuild, runner
from facade import SUCCESS, sig
from runner import Failed, Undecided
from values import Unsupported
LEVEL = 'proof'
NOTE = ('Every entry point of src/electionguard/facades/*.cpp is executed symbolically on every path: each library call returns an arbitrary result or throws any standard exception (unless its body in the current '
        'tree cannot throw); loops are cut at an arbitrary iteration. Proved per entry point: nothing escapes, a thrown exception never ends in the success status, an error status has a cause, success assigns every '
        'output, and the output is the term the committed contract (props/C23_contract.json) names: which library operation, on which parameters. eg_linked_list_* is C19.')
ASSUME = ['memory suffices (allocation failure is not modelled)', 'handles are valid or null and of the class their type names', 'library functions throw only classes derived from std::exception',
          'logging does not throw', 'output pointers are valid']
TRUST = ['clang 18 front end (AST of the real source)', 'egv/facade.py (path enumeration and value tracking; casts, moves, copies and clones are seen through)',
         'standard containers and strings do not throw within their preconditions', 'proof verification does not throw (C06, C08); the element constants do not (C02)',
         'props/C23_contract.json, reviewed against the headers: which operation each entry point wraps']
TECH = 'deductive verification of the real C++ entry points: contract per entry point, library calls by contract (result or exception), all paths by symbolic execution of the clang AST'
HARNESS = ['main.cpp', 'ballot.cpp', 'facade.cpp', 'facade_gen.cpp']
HERE = os.path.dirname(os.path.abspath(__file__))
FILES = ['ballot', 'ballot_code', 'ballot_compact', 'chaum_pedersen', 'election', 'elgamal', 'encrypt', 'group', 'hash', 'manifest']
_lib = []
def library():
    if not _lib:
        prog = astload.Program()
        prog.load([os.path.relpath(p, astload.REPO) for p in sorted(glob.glob(astload.REPO + '/src/electionguard/*.cpp'))])
        _lib.append(facade.Library(prog))
    return _lib[0]
_units = {}
def unit(f):
    if f not in _units:
        _units[f] = facade.Unit(astload.REPO + '/src/electionguard/facades/%s.cpp' % f)
    return _units[f]
def contract():
    return json.load(open(HERE + '/C23_contract.json'))

def handles(k):
    """the class behind each handle type: the one its _free deletes"""
    h = {}
    for n, v in k.items():
        if n.endswith('_free') and v['success'] and v['success'][0]['effects'][:1] and v['success'][0]['effects'][0][1] == 'delete':
            h[n[:-5] + '_t'] = v['success'][0]['effects'][0][2][1]
    return h

class Stat:
    def __init__(self): self.stat_solver, self.stat_queries, self.inlined, self.contracted = 0.0, 0, set(), set()
def show(x):
    s = json.dumps(x)
    return s if len(s) < 600 else s[:600] + '...'
def same(name, what, got, want, words):
    if got == want:
        return
    cg, rg, cw, rw = set(), set(), set(), set()
    facade.vocabulary(got, cg, rg)
    facade.vocabulary(want, cw, rw)
    if not any(facade.mentions(got, x) for x in ('dangling', '[]')):
        if any(facade.mentions(got, x) for x in ('lambda', 'uninit')) or cg - words or (cg == cw and rg == rw):
            raise Undecided('%s: %s is %s, not recognised as %s' % (name, what, show(got), show(want)))
    if facade.mentions(got, 'dangling'):
        what += ' (it points into a local of the entry point)'
    raise Failed('%s: %s' % (name, what), {'entry': name, 'actual': show(got), 'contract': show(want), 'model': {'entry': name}})
def bound(g, b):
    """an index is out of bounds"""
    return g[0] in ('>=', '<') and g[2][0] == 'size' and b == (g[0] == '>=') or g[0] in ('<=', '>') and g[1][0] == 'size' and b == (g[0] == '<=')
def check(e, c, words):
    """obligations of one entry point; the number of them"""
    n = 0
    outs = e.outs()
    def fail(what, **kw):
        raise Failed('%s: %s' % (e.name, what), dict(kw, entry=e.name, model={'entry': e.name}))
    succeeded = False
    if e.node.get('mangledName', e.name) != e.name:
        fail('the entry point has C linkage: it is the function the header declares', symbol=e.node['mangledName'])
    for kind, val, out, guards, throws, calls in e.paths():
        n += 1
        if kind == 'throw':
            fail('no exception crosses the boundary', thrown_by=val.by, exception=val.cls)
        caused = any(b and (g[0] in ('null', 'true')) for g, b in guards) or any(bound(g, b) for g, b in guards)
        if e.status:
            if kind != 'return' or val is None:
                raise Undecided('%s ends without a status' % e.name)
            if val[0] != 'const':
                if val[0] == 'call' and val[1].split('::')[-1].startswith('eg_'):
                    raise Undecided('%s returns the status of %s' % (e.name, val[1]))
                raise Undecided('%s: status %s' % (e.name, show(sig(val))))
            ok = val[1] in (SUCCESS, '0')
            if throws and ok:
                fail('an exception ends in an error status', exception=throws)
            if not ok and not throws and not caused:
                if any(facade.mentions(sig(g), 'call') or facade.mentions(sig(g), 'std') for g, b in guards):
                    raise Undecided('%s: error status under %s' % (e.name, show([sig(g) for g, b in guards])))
                fail('an error status has a cause', status=val[1])
            if not ok:
                continue
            succeeded = True
            for g, b in guards:
                if b and g[0] == 'true' and g[1][0] == 'call' and g[1][1].startswith('eg_'):
                    fail('a failing callee ends in an error status', callee=g[1][1])
            for i in outs:
                if i not in out:
                    fail('success assigns %s' % e.params[i]['name'])
            if c is not None:
                w = c['success'][0]
                for i in sorted(set(w['out']) | {str(k) for k in out}, key=int):
                    if i not in w['out']:
                        fail('only its outputs are assigned', parameter=e.params[int(i)].get('name'))
                    if int(i) not in out:
                        fail('success assigns %s' % e.params[int(i)]['name'])
                    same(e.name, 'output %s' % e.params[int(i)]['name'], sig(out[int(i)]), w['out'][i], words)
                same(e.name, 'effects', ['effects'] + sorted((sig(x) for x, v in calls if v), key=json.dumps), ['effects'] + w['effects'], words)
        elif c is not None:
            r = sig(val) if val is not None else None
            succeeded = True
            if throws:
                if {'ret': r} not in c['thrown'] and not (r and r[0] == 'const'):
                    fail('the result of a failed call is an error value', result=show(r))
                if c['thrown'] and {'ret': r} not in c['thrown']:
                    fail('the result of a failed call is an error value', result=show(r), contract=show(c['thrown']))
                continue
            if any(b and g[0] == 'null' for g, b in guards) and r and r[0] == 'const':
                continue
            w = c['value'][0]
            same(e.name, 'result', r, w['ret'], words)
            same(e.name, 'effects', ['effects'] + sorted((sig(x) for x, v in calls if v), key=json.dumps), ['effects'] + w['effects'], words)
        else:
            succeeded = True
    if not succeeded:
        fail('some execution succeeds')
    h = handles(contract())
    for a, b in e.casts:
        # a handle is only ever treated as the class its type stands for
        if a in h and b in h.values() and b != h[a] or b in h and a in h.values() and a != h[b]:
            fail('a handle is used as the class of its type', cast='%s as %s' % (a, b))
    return n
def entry(f, name):
    def run(ctx):
        ctx.eng = Stat()
        lib, u = library(), unit(f)
        k = contract()
        words = set()
        for v in k.values():
            facade.vocabulary(list(v['success']) and [x for d in v['success'] for x in ['x'] + list(d['out'].values()) + d['effects']] or ['x'] + [d['ret'] for d in v['value']], words, set())
        if name not in u.entries:
            for g in FILES:
                if g != f and name in unit(g).entries:
                    u = unit(g)
                    break
            else:
                raise Undecided('%s is no longer defined in the facades' % name)
        e = facade.Entry(u.entries[name], u, lib)
        ctx.eng.inlined.add(name)
        n = check(e, k.get(name), words)
        ctx.paths += n
        ctx.conds += n
    return run
def other(f):
    """entry points without a contract"""
    def run(ctx):
        ctx.eng = Stat()
        k = contract()
        for name, d in unit(f).entries.items():
            if name not in k:
                ctx.paths += check(facade.Entry(d, unit(f), library()), None, set())
    return run
def obligations(tier):
    obs = []
    k = contract()
    where = {}
    try:                      # loaded once, before the obligations are forked; a failure shows up in each of them
        library()
        where = {n: f for f in FILES for n in unit(f).entries}
    except Exception:
        pass
    for name in sorted(k):
        obs.append(Ob(name, entry(where.get(name, FILES[0]), name)))
    for f in FILES:
        obs.append(Ob('others_' + f, other(f)))
    return obs
def concrete(h, rng, tier, hints):
    """every entry point against the operation its contract names, on sample objects (harness/facade*.cpp)"""
    from harness import batch
    names = h.cmd('facades')[1:]
    first = [x['entry'] for x in hints if isinstance(x, dict) and x.get('entry') in names]
    names = list(dict.fromkeys(first + names))
    ks = range(6) if tier == 'quick' else range(14)
    for (_, name, k), a in batch(h, [('facade', n, k) for n in names for k in ks]):
        if a[:2] == ['ok', 'fine'] or a[:2] == ['ok', 'none']:
            yield None
        elif a[:2] == ['ok', 'bad']:
            yield {'what': '%s: %s' % (name, bytes.fromhex(a[2]).decode('latin1')), 'input': {'entry': name, 'sample': k}}
        else:
            yield {'what': '%s: %s' % (name, ' '.join(a)[:200]), 'input': {'entry': name, 'sample': k}}
