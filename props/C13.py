from common import *
import oracle as O
import harness as HN
import star
LEVEL = 'proof'
TUS = ['src/electionguard/nonces.cpp']
TRUST = L2_TRUST
ASSUME = ['start + count does not exceed 2^64 - 1 for a range request', 'indices below 2^63']
N = NS + 'Nonces'
SEED = qatom('seed')
def dec(i):
    return 'null' if i == 0 else (str(i) if isinstance(i, int) else ('dec', z3.simplify(i).sexpr()))

def headers():
    """(name, builder) -> (constructor argument or None, encoded header)"""
    return {'no header': None, 'text header': 's', 'P header': 'p', 'Q header': 'q'}

def mk(ctx, h, kind, hdr_text='hdr'):
    alts = ['electionguard::ElementModP *', 'electionguard::ElementModQ *', 'std::basic_string<char>']
    eng = ctx.eng
    if kind is None:
        o = h.make('Nonces', [h.E(SEED)], ['const ElementModQ &'])
        return o, SEED
    if kind == 's':
        s = SymStr(('str', hdr_text))
        eng.fact(zbool(l2.neg(eng.str_compare('==', s, ''))))
        v, e = Variant(2, Cell(s), alts), ('str', s.node)
    elif kind == 'p':
        v, e = Variant(0, Cell(Ptr(h.E(patom('hp')))), alts), ('hexP', patom('hp'))
    else:
        v, e = Variant(1, Cell(Ptr(h.E(qatom('hq')))), alts), ('hexQ', qatom('hq'))
    o = h.make('Nonces', [h.E(SEED), Cell(v)], ['const ElementModQ &', 'const NoncesHeaderType &'])
    return o, l2.hash_term((('hexQ', SEED), e))

def nth(seed, i, header=None):
    it = (('hexQ', seed), dec(i))
    return l2.hash_term(it + ((header,) if header is not None else ()))

def getter(ctx, o, *args):
    fs = [f for f in ctx.prog.funcs[N + '::get'] if len(f.params) == len(args)]
    if len(args) == 2:
        st = isinstance(args[1], (str, SymStr))
        fs = [f for f in fs if ('string' in f.params[1]['type']['qualType']) == st]
    if not fs:
        raise Unsupported('Nonces::get not found')
    r = ctx.eng.call_function(fs[0], o, [Cell(a) for a in args])
    return r.get() if ctx.eng.is_locv(r) else r

def scenario(kind, ops, label):
    """ops: list of (name, index) run in order on one sequence; every answer is compared with the specification"""
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        ix = {}
        def I(n):
            v = z3.Int(n)
            return v
        st = {}
        def thunk():
            for n in ('i', 'j', 'k'):
                eng.fact(z3.And(I(n) >= 1, I(n) < 2**63))
            o, seed = mk(ctx, h, kind)
            out = []
            nxt = 0
            for op in ops:
                if op[0] == 'get':
                    i = op[1]
                    i = I(i) if isinstance(i, str) else i
                    out.append((h.el(getter(ctx, o, i)), nth(seed, i), 'get'))
                    nxt = i + 1
                elif op[0] == 'geth':
                    i = op[1]
                    i = I(i) if isinstance(i, str) else i
                    s = SymStr(('str', 'item header'))
                    eng.fact(zbool(l2.neg(eng.str_compare('==', s, ''))))
                    out.append((h.el(getter(ctx, o, i, s)), nth(seed, i, ('str', s.node)), 'get with header'))
                    nxt = i + 1
                elif op[0] == 'range':
                    i = op[1]
                    i = I(i) if isinstance(i, str) else i
                    v = getter(ctx, o, i, op[2])
                    out.append((len(v.items), op[2], 'range length'))
                    for k, c in enumerate(v.items):
                        out.append((h.el(c), nth(seed, i + k), 'range item %d' % k))
                    if op[2]:
                        nxt = i + op[2]
                elif op[0] == 'any':
                    i = I(op[1]) if isinstance(op[1], str) else op[1]
                    n = I('n')
                    eng.fact(z3.And(n >= 0, n + i < 2**63))
                    root = star.Root(eng, 'range', n=n)
                    v = getter(ctx, o, i, n)
                    out.append((star.length(v.items), n, 'range length'))
                    if eng.branch(n > 0):
                        (c, r), = star.segs_of(v.items)
                        # the item at an arbitrary position
                        if r is None or r.base != root.base:
                            raise Unsupported('range of arbitrary length')
                        out.append((h.el(c), nth(seed, 0 if eng.branch(i + z3.Int('idx!range') == 0) else i + z3.Int('idx!range')), 'range item'))
                        nxt = i + n
                else:
                    f = ctx.fn(N + '::next', 0)
                    r = eng.call_function(f, o, [])
                    out.append((h.el(r), nth(seed, nxt), 'next'))
                    nxt = nxt + 1
            return out
        def post(out):
            for n, (a, b, w) in enumerate(out):
                yield '%d. %s' % (n + 1, w), eqv(a, b) if isinstance(b, z3.ArithRef) else a == b
        ctx.prove(thunk, post, label=label + ': ')
    return run

def obligations(tier):
    obs = []
    for nm, k in headers().items():
        obs.append(Ob('get (%s)' % nm, scenario(k, [('get', 'i')], nm)))
        obs.append(Ob('get index 0 (%s)' % nm, scenario(k, [('get', 0)], nm)))
        obs.append(Ob('get with item header (%s)' % nm, scenario(k, [('geth', 'i')], nm)))
        obs.append(Ob('first next (%s)' % nm, scenario(k, [('next',), ('next',), ('next',)], nm)))
        obs.append(Ob('history of requests (%s)' % nm, scenario(k, [('get', 'i'), ('next',), ('get', 'j'), ('get', 'i'), ('next',), ('geth', 'k'), ('next',), ('range', 'j', 2), ('next',), ('get', 0), ('get', 'i')], nm)))
        obs.append(Ob('range of any length (%s)' % nm, scenario(k, [('any', 'i'), ('next',), ('get', 'j'), ('next',)], nm)))
        obs.append(Ob('range of any length from the start (%s)' % nm, scenario(k, [('any', 0), ('get', 'j'), ('next',)], nm)))
        for c in (0, 1, 2, 3, 6):
            obs.append(Ob('range of %d (%s)' % (c, nm), scenario(k, [('range', 'i', c), ('next',), ('range', 0, c)], nm), bounded='count %d' % c))
    return obs

HARNESS = ['main.cpp', 'crypto.cpp']
def concrete(h, rng, tier, hints):
    q, p = O.Q, O.P
    def txt():
        return ''.join(chr(rng.randrange(33, 126)) for _ in range(rng.choice([1, 2, 10, 40])))
    base = txt() + 'abcdefgh'
    for seed, x, i, j in HN.walk(rng, [rng.randrange(q), rng.randrange(p), rng.getrandbits(63), 0], [q - 1, p - 1, 2**64 - 3, 31], 150):
        t = base[:j % len(base)] + '~' + base[j % len(base) + 1:]
        for hd, s in (('-', seed), ('s:' + t.encode().hex(), O.H(O.El(seed), t)), ('p:%x' % x, O.H(O.El(seed), O.El(x)))):
            exp = ['%x' % O.nonce(s, i), '%x' % O.nonce(s, i + 1), '%x' % O.nonce(s, i, t)]
            r = h.cmd('nonces', '%x' % seed, hd, 'g:%d' % i, 'n:', 'h:%d:%s' % (i, t.encode().hex()))
            if r[0] != 'ok' or r[1:] != exp:
                yield {'what': 'nonces', 'seed': hex(seed), 'header': hd, 'index': i, 'expected': exp, 'got': r[1:]}
        yield None
    for it in range(400 if tier == 'quick' else 8000):
        seed = rng.choice([0, 1, q - 1, rng.randrange(q)])
        k = rng.choice('-spq')
        if k == '-':
            hd, s = '-', seed
        elif k == 's':
            t = txt() if rng.random() < .9 else ''
            hd, s = 's:' + t.encode().hex(), O.H(O.El(seed), t)
        else:
            x = rng.randrange(p if k == 'p' else q) if rng.random() < .8 else rng.choice([0, 1, 255])
            hd, s = '%s:%x' % (k, x), O.H(O.El(seed), O.El(x))
        ops, exp, nxt = [], [], 0
        for _ in range(rng.choice([1, 2, 5, 12])):
            i = rng.choice([0, 0, 1, 2, 9, 10, 255, 2**32 - 1, 2**32, 2**63, 2**64 - 2, rng.randrange(2**64 - 2), rng.randrange(100)])
            o = rng.choice('gghrn')
            if o == 'g':
                ops.append('g:%d' % i); exp.append('%x' % O.nonce(s, i)); nxt = i + 1
            elif o == 'h':
                t = txt()
                ops.append('h:%d:%s' % (i, t.encode().hex())); exp.append('%x' % O.nonce(s, i, t)); nxt = i + 1
            elif o == 'n':
                ops.append('n:'); exp.append('%x' % O.nonce(s, nxt % 2**64)); nxt += 1
            else:
                c = rng.choice([0, 1, 2, 3, 7, 40])
                if i + c >= 2**64:
                    i = 5
                ops.append('r:%d:%d' % (i, c)); exp.append('[' + ''.join('%x,' % O.nonce(s, i + j) for j in range(c)) + ']')
                if c:
                    nxt = i + c
        r = h.cmd('nonces', '%x' % seed, hd, *ops)
        if r[0] != 'ok' or r[1:] != exp:
            yield {'what': 'nonces', 'seed': hex(seed), 'header': hd, 'operations': ops, 'expected': exp, 'got': r[1:]}
        yield None
