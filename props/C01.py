from common import *
import oracle as O
import harness as HN
import star
LEVEL = 'proof'
TUS = L1_TUS
TRUST = L1_TRUST
ASSUME = ['operands are at most q (the representation invariant of checked construction)',
          'list addition, any length: the two-operand operations it calls are replaced by their contracts (established here on their bodies); lists shorter than 2^62']

def mod_q(eng, x):
    return l1.divmod_fact(eng, x, QI)

def binop(name, k, spec):
    def run(ctx):
        eng = ctx.engine(1)
        h = L1(ctx)
        st = {}
        def thunk():
            vs = [h.var('a%d' % i, 0, QI) for i in range(k)]
            cells = [h.q(v) for v in vs]
            r = ctx.call(NS + name, cells)
            st['vs'], st['cells'] = vs, cells
            return h.val(r)
        def post(r):
            vs = st['vs']
            yield 'result is canonical and congruent', eqv(r, spec(eng, vs))
            for i, (v, c) in enumerate(zip(vs, st['cells'])):
                yield 'operand %d unchanged' % i, eqv(h.val(c), v)
        ctx.prove(thunk, post, label=name + ': ')
    return run

def alias(name, k, spec, pattern):
    """the same object passed for several operands"""
    def run(ctx):
        eng = ctx.engine(1)
        h = L1(ctx)
        st = {}
        def thunk():
            vs = {p: h.var('a' + p, 0, QI) for p in sorted(set(pattern))}
            cells = {p: h.q(v) for p, v in vs.items()}
            r = ctx.call(NS + name, [cells[p] for p in pattern])
            st['vs'], st['cells'] = vs, cells
            return h.val(r)
        def post(r):
            yield 'aliased operands: result', eqv(r, spec(eng, [st['vs'][p] for p in pattern]))
            for p in st['vs']:
                yield 'aliased operand unchanged', eqv(h.val(st['cells'][p]), st['vs'][p])
        ctx.prove(thunk, post, label=name + ': ')
    return run

SPECS = {
    'add_mod_q': (2, lambda e, v: mod_q(e, v[0] + v[1])),
    'sub_mod_q': (2, lambda e, v: mod_q(e, v[0] - v[1] + QI)),
    'a_plus_bc_mod_q': (3, lambda e, v: mod_q(e, v[0] + l1.product(e, v[1], v[2]))),
    'sub_from_q': (1, lambda e, v: QI - v[0]),
}

def vector_add(n):
    def run(ctx):
        eng = ctx.engine(1)
        h = L1(ctx)
        st = {}
        def thunk():
            vs = [h.var('a%d' % i, 0, QI) for i in range(n)]
            cells = [h.q(v) for v in vs]
            vec = Vec([Cell(RefWrap(c)) for c in cells], 'std::reference_wrapper<ElementModQ>')
            f = [g for g in ctx.prog.funcs[NS + 'add_mod_q'] if len(g.params) == 1 and g.body is not None][0]
            r = eng.call_function(f, None, [Cell(vec)])
            st['vs'], st['cells'] = vs, cells
            return h.val(r)
        def post(r):
            t = z3.IntVal(0)
            for v in st['vs']:
                t = t + v
            yield 'sum of %d elements' % n, z3.And(z(r) >= 0, z(r) < QI, (z(t) - z(r)) % QI == 0) if n > 1 else (eqv(r, mod_q(eng, st['vs'][0])))
            for v, c in zip(st['vs'], st['cells']):
                yield 'list element unchanged', eqv(h.val(c), v)
        if n == 0:
            ctx.prove(thunk, lambda r: [('an empty list is rejected', False)], throws=lambda e: [], min_ret=0, label='add_mod_q(list): ')
        else:
            ctx.prove(thunk, post, label='add_mod_q(list): ')
    return run

def vector_any(ctx):
    """a list of any length.  Operands are arbitrary representatives (tag: a value up to q that need not be canonical); what the
    two-operand operations return is canonical (proved on their bodies above)."""
    eng = ctx.engine(2)
    h = L2(ctx)
    def two(name):
        c = eng.contracts[NS + name]
        eng.contracts[NS + name] = lambda eng, this, args, f: NotImplemented if len(args) == 1 else c(eng, this, args, f)
    two('add_mod_q')
    def thunk():
        x = Cell(Elem('Q', qatom('x'), 'unreduced'))
        root = star.Root(eng, 'xs')
        vec = Vec(star.StarList([(Cell(RefWrap(x)), root)]), 'std::reference_wrapper<ElementModQ>')
        f = [g for g in ctx.prog.funcs[NS + 'add_mod_q'] if len(g.params) == 1 and g.body is not None][0]
        return h.obj(eng.call_function(f, None, [Cell(vec)])), x.get(), root
    def post(v):
        r, x, root = v
        yield 'the list is not empty', root.n > 0
        yield 'the result is the sum of the list', l2.q_eq(r.val, star.bigsum(root, qatom('x')))
        yield 'the result is canonical', r.tag is None
        yield 'list elements unchanged', x.val == qatom('x') and x.tag == 'unreduced'
    ctx.prove(thunk, post, throws=lambda e: [('only an empty list is refused', z3.Int('len!xs') == 0)], label='add_mod_q(list of any length): ')

def obligations(tier):
    obs = [Ob('add_mod_q of a list of any length', vector_any)]
    for n, (k, s) in SPECS.items():
        obs.append(Ob(n, binop(n, k, s)))
    for n, pat in (('add_mod_q', 'aa'), ('sub_mod_q', 'aa'), ('a_plus_bc_mod_q', 'aab'), ('a_plus_bc_mod_q', 'aba'), ('a_plus_bc_mod_q', 'abb'), ('a_plus_bc_mod_q', 'aaa')):
        obs.append(Ob('%s aliased %s' % (n, pat), alias(n, SPECS[n][0], SPECS[n][1], pat)))
    for n in range(0, 5):
        obs.append(Ob('add_mod_q list of %d' % n, vector_add(n), bounded='list length %d' % n))
    return obs

HARNESS = ['main.cpp', 'group.cpp']
def h2i(s):
    return int(s, 16)
def concrete(h, rng, tier, hints):
    q = O.Q
    vals = O.qvals(rng, n=20 if tier == 'quick' else 200)
    hv = []
    for m in hints:
        hv += [int(v, 16) for k, v in m.items() if v.startswith('0x') and int(v, 16) <= q]
    vals = hv + vals
    def chk(cmd, ops, exp):
        r = h.cmd(cmd, *['%x' % x for x in ops])
        if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [exp] + list(ops):
            return {'what': cmd, 'operands': [hex(x) for x in ops], 'expected': hex(exp), 'got': r}
    def pairs():
        for a in vals:
            for b in vals:
                if a in hv or b in hv or a < 4 or b < 4 or a > q - 200 or b > q - 200 or rng.random() < 0.15:
                    yield a, b
            for t in (q - 1, q, q + 1, 2**256 - 1, 2**256, 2**256 + 1, 2**256 - 190, 2**256 + q - 1, 2 * q - 1):
                if 0 <= t - a <= q:
                    yield a, t - a
    for a, b in pairs():
        yield chk('addq', (a, b), (a + b) % q)
        yield chk('subq', (a, b), (a - b) % q)
        c = rng.choice(vals)
        yield chk('apbcq', (c, a, b), (c + a * b) % q)
    for a, b, c in HN.walk(rng, [rng.randrange(q) for _ in range(3)], [q] * 3, 150):
        yield chk('addq', (a, b), (a + b) % q)
        yield chk('subq', (a, b), (a - b) % q)
        yield chk('apbcq', (c, a, b), (c + a * b) % q)
        yield chk('subfromq', (a,), q - a)
        yield chk('addqv', [a, b, c], (a + b + c) % q)
    for a in vals:
        yield chk('subfromq', (a,), q - a)
        yield chk('apbcq', (a, q, q), a % q)
        yield chk('apbcq', (q, a, q), 0)
    for a in vals:
        yield chk('addqv', [a], a % q)
        yield chk('addqv', [a, q], a % q)
        yield chk('addqv', [q, a], a % q)
        yield chk('addqv', [a, 0, a], 2 * a % q)
    for n in list(range(1, 9)) + [17, 40]:
        for _ in range(6):
            l = [rng.choice(vals) for _ in range(n)]
            yield chk('addqv', l, sum(l) % q)
    r = h.cmd('addqv')
    if r[0] != 'throw':
        yield {'what': 'empty list of exponents accepted', 'got': r}
