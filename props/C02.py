from common import *
import oracle as O
import harness as HN
import star
LEVEL = 'proof'
TUS = L1_TUS
TRUST = L1_TRUST + ['mathematical lemmas used by the Montgomery contracts: powers of one base multiply by adding exponents modulo p']
ASSUME = ['operands are canonical (below p; exponents at most q or below 2^4096)',
          'the table cache is keyed by the base: fresh insertion, reuse of an entry of the same base and a cache that already holds another base are proved; distinct bases have distinct hexadecimal keys (C03)',
          'AsyncSemaphore is treated as a no-op (sequential semantics)']

def mod_p(eng, x):
    return l1.divmod_fact(eng, x, PI)

def op(name, k, spec, hi=PI - 1, same=None):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        st = {}
        def thunk():
            vs = [h.var('a%d' % i, 0, hi) for i in range(k)]
            cells = [h.p(v) for v in vs]
            args = cells if same is None else [cells[i] for i in same]
            r = ctx.call(NS + name, args, sub='const electionguard::ElementModP &' if False else None)
            st.update(vs=vs, cells=cells)
            return h.val(r)
        def post(r):
            vs = st['vs'] if same is None else [st['vs'][i] for i in same]
            yield 'canonical and congruent', eqv(r, spec(eng, vs))
            for v, c in zip(st['vs'], st['cells']):
                yield 'operand unchanged', eqv(h.val(c), v)
        ctx.prove(thunk, post, label=name + ': ')
    return run

def hexkey(eng, this, args, f):
    d = this.get().f['pimpl'].get().p.loc.get().f['data'].get()
    v = d.block(0, 64)
    if isinstance(v, int):
        HEX[str(v)] = z3.IntVal(v)
        return SymStr(('hexP', str(v)))
    k = z3.simplify(v).sexpr()
    HEX[k] = v
    return SymStr(('hexP', k))
HEX = {}
def hex_same(kind, a, b):
    return z3.simplify(HEX[a] == HEX[b]) if a in HEX and b in HEX else None

def powm(which, fixed=False, g=False, twice=False, other=False):
    """pow_mod_p / g_pow_p: base any canonical element, exponent any"""
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        eng.contracts[NS + 'ElementModP::toHex'] = hexkey
        eng.hex_eq = hex_same
        h = L1(ctx)
        st = {}
        def thunk():
            b = GI if g else h.var('b', 0, PI - 1)
            e = h.var('e', 0, QI if which == 'Q' else 2**4096 - 1)
            bc, ec = (None if g else h.p(b, fixed)), (h.q(e) if which == 'Q' else h.p(e))
            nm = NS + ('g_pow_p' if g else 'pow_mod_p')
            f = [x for x in ctx.prog.funcs[nm] if x.body is not None and x.params[-1]['type']['qualType'].replace('electionguard::', '').startswith('const ElementMod' + which)][0]
            args = [ec] if g else [bc, ec]
            if other:
                b0 = h.var('b0', 0, PI - 1)
                eng.assume(b0 != b)
                e0 = 1
                f0 = [x for x in ctx.prog.funcs[NS + 'pow_mod_p'] if x.body is not None and x.params[-1]['type']['qualType'].replace('electionguard::', '').startswith('const ElementModQ')][0]
                eng.call_function(f0, None, [h.p(b0, fixed), h.q(e0)])
            if twice:
                e0 = h.var('e0', 0, QI)
                eng.call_function(f, None, [h.p(b, fixed), h.q(e0)])
            r = eng.call_function(f, None, args)
            st.update(b=b, e=e, bc=bc, ec=ec)
            return h.val(r)
        def post(r):
            yield 'value is base^exponent mod p', eqv(r, l1.powmod(eng, st['b'], st['e'], PI))
            yield 'exponent unchanged', eqv(h.val(st['ec']), st['e'])
            if st['bc'] is not None:
                yield 'base unchanged', eqv(h.val(st['bc']), st['b'])
        ctx.prove(thunk, post, label=nmlabel(which, fixed, g))
    return run
def nmlabel(which, fixed, g):
    return ('g_pow_p' if g else 'pow_mod_p') + '(%s%s): ' % (which, ', fixed base' if fixed else '')

def constants(ctx):
    """the published group parameters and the constants derived from them"""
    eng = ctx.engine(1)
    h = L1(ctx)
    exp = {'P': PI, 'G': GI, 'R': RI, 'ZERO_MOD_P': 0, 'ONE_MOD_P': 1, 'TWO_MOD_P': 2, 'Q': QI, 'ZERO_MOD_Q': 0, 'ONE_MOD_Q': 1, 'TWO_MOD_Q': 2}
    def thunk():
        return {n: h.val(ctx.call(NS + n, [])) for n in exp}
    def post(r):
        for n in exp:
            yield n + ' has its published value', r[n] == exp[n]
    ctx.prove(thunk, post, label='constants: ')
    def lemmas(r):
        yield 'p = q*r + 1', PI == QI * RI + 1
        yield 'g = 2^r mod p', GI == pow(2, RI, PI)
        yield 'g has order q', GI != 1 and pow(GI, QI, PI) == 1
    ctx.prove(lambda: None, lemmas, label='group parameters: ')

def mul_list(kinds):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        st = {}
        def thunk():
            vs, cells, items = [], [], []
            for i, kd in enumerate(kinds):
                v = h.var('a%d' % i, 0, PI - 1 if kd == 'P' else QI)
                c = h.p(v) if kd == 'P' else h.q(v)
                vs.append(v)
                cells.append(c)
                items.append(Cell(Variant(0 if kd == 'P' else 1, Cell(Ptr(c)), ['ElementModP *', 'ElementModQ *'])))
            # the two-operand product by its contract (proved separately)
            def mul2(eng, this, args, f):
                if len(args) == 1:
                    return NotImplemented
                return UPtr(Ptr(h.p(mod_p(eng, l1.product(eng, h.val(args[0]), h.val(args[1]))))))
            eng.contracts[NS + 'mul_mod_p'] = mul2
            f = [g for g in ctx.prog.funcs[NS + 'mul_mod_p'] if len(g.params) == 1 and g.body is not None][0]
            r = eng.call_function(f, None, [Cell(Vec(items, 'ElementModPOrQ'))])
            st.update(vs=vs, cells=cells)
            return h.val(r)
        def post(r):
            t = 1
            for v in st['vs']:
                t = mod_p(eng, l1.product(eng, t, v))
            yield 'product of the list', eqv(r, t)
            for v, c in zip(st['vs'], st['cells']):
                yield 'element unchanged', eqv(h.val(c), v)
        ctx.prove(thunk, post, label='mul_mod_p(list %s): ' % ''.join(kinds))
    return run

def mul_any(ctx):
    """a list of any length, every element of either kind (the path condition fixes the kind of the arbitrary element only)"""
    eng = ctx.engine(2)
    h = L2(ctx)
    c = eng.contracts[NS + 'mul_mod_p']
    eng.contracts[NS + 'mul_mod_p'] = lambda eng, this, args, f: NotImplemented if len(args) == 1 else c(eng, this, args, f)
    # the integer itself, whatever representative of its class it is
    eng.contracts[NS + 'ElementModQ::toElementModP'] = lambda eng, this, args, f: UPtr(Ptr(Cell(Elem('P', patom('int', l2.val(this).tag)))))
    def thunk():
        isq = eng.branch(z3.Bool('element is mod q'))
        x = Cell(Elem('Q', qatom('x'), 'x') if isq else Elem('P', patom('x')))
        root = star.Root(eng, 'xs')
        it = Cell(Variant(1 if isq else 0, Cell(Ptr(x)), ['ElementModP *', 'ElementModQ *']))
        f = [g for g in ctx.prog.funcs[NS + 'mul_mod_p'] if len(g.params) == 1 and g.body is not None][0]
        r = eng.call_function(f, None, [Cell(Vec(star.StarList([(it, root)]), 'ElementModPOrQ'))])
        return h.el(r), x.get(), isq, root
    def post(v):
        r, x, isq, root = v
        e = patom('int', 'x') if isq else patom('x')
        # of an empty list the product is one
        yield 'product of the list', z3.If(root.n > 0, zbool(l2.p_eq(r, star.bigprod(root, e))), zbool(l2.p_eq(r, ONE)))
        yield 'element unchanged', (x.val == qatom('x') and x.tag == 'x') if isq else x.val == patom('x')
    ctx.prove(thunk, post, label='mul_mod_p(list of any length): ')

def obligations(tier):
    obs = [Ob('mul_mod_p of a list of any length', mul_any),
           Ob('constants', constants),
           Ob('mul_mod_p', op('mul_mod_p', 2, lambda e, v: mod_p(e, l1.product(e, v[0], v[1])))),
           Ob('mul_mod_p aliased', op('mul_mod_p', 1, lambda e, v: mod_p(e, l1.product(e, v[0], v[1])), same=(0, 0))),
           Ob('add_mod_p', op('add_mod_p', 2, lambda e, v: mod_p(e, v[0] + v[1]))),
           Ob('add_mod_p aliased', op('add_mod_p', 1, lambda e, v: mod_p(e, v[0] + v[1]), same=(0, 0))),
           Ob('mod_p', op('mod_p', 1, lambda e, v: mod_p(e, v[0]), hi=2**4096 - 1)),
           Ob('pow_mod_p(P,P)', powm('P')),
           Ob('pow_mod_p(P,Q)', powm('Q')),
           Ob('pow_mod_p(P,Q) fixed base', powm('Q', True)),
           Ob('pow_mod_p(P,Q) fixed base, table reused', powm('Q', True, twice=True)),
           Ob('pow_mod_p(P,Q) fixed base, after another base', powm('Q', True, other=True)),
           Ob('g_pow_p(Q)', powm('Q', g=True)),
           Ob('g_pow_p(Q) after another base', powm('Q', True, g=True, other=True)),
           Ob('g_pow_p(P)', powm('P', g=True))]
    for k in ([], ['P'], ['Q'], ['P', 'Q'], ['Q', 'P', 'P'], ['Q', 'Q', 'P', 'Q']):
        obs.append(Ob('mul_mod_p list [%s]' % ''.join(k), mul_list(k), bounded='list length %d' % len(k)))
    return obs

HARNESS = ['main.cpp', 'group.cpp']
def concrete(h, rng, tier, hints):
    p, q = O.P, O.Q
    hv = [int(v, 16) for m in hints for k, v in m.items() if isinstance(v, str) and v.startswith('0x')]
    vals = [x for x in hv if x < p] + O.pvals(rng, n=8 if tier == 'quick' else 60)
    qv = [x for x in hv if x <= q] + O.qvals(rng, n=6 if tier == 'quick' else 60)
    def chk(cmd, ops, exp, *extra):
        r = h.cmd(cmd, *(['%x' % x for x in ops] + list(extra)))
        if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [exp] + list(ops):
            return {'what': cmd, 'operands': [hex(x) for x in ops], 'extra': extra, 'expected': hex(exp), 'got': r}
    r = h.cmd('consts')
    if [int(x, 16) for x in r[1:]] != [p, q, O.G, O.R, 0, 1, 2, 0, 1, 2]:
        yield {'what': 'constants', 'got': r}
    C = 2**4096 - p
    for a in vals:
        for t in (p - 1, p, p + 1, 2**4096 - 1, 2**4096, 2**4096 + 1, 2**4096 + C, 2 * p - 1, 2 * p - 2, 2**4096 - 2):
            if 0 <= t - a < p:
                yield chk('addp', (a, t - a), t % p)
    for i, a in enumerate(vals):
        for b in vals:
            if a < 3 or b < 3 or rng.random() < 0.2 or a in hv or b in hv:
                yield chk('addp', (a, b), (a + b) % p)
                yield chk('mulp', (a, b), a * b % p)
    for a in vals + [p, p + 1, 2**4096 - 1, 2**4096 - 2, p + 12345]:
        yield chk('modp', (a,), a % p)
    for n in (0, 1, 2, 3, 5, 9, 20):
        for _ in range(5):
            l, t = [], 1
            for _ in range(n):
                if rng.random() < .5:
                    x = rng.choice(vals); l.append('p:%x' % x)
                else:
                    x = rng.choice(qv); l.append('q:%x' % x)
                t = t * x % p
            r = h.cmd('mulpv', *l)
            if r[0] != 'ok' or int(r[1], 16) != t:
                yield {'what': 'mul_mod_p(list)', 'list': l, 'expected': hex(t), 'got': r}
            yield None
    # exponentiation: exponents with extreme bytes, limbs and windows
    es = [0, 1, 2, 3, 255, 256, 257, 65535, 65536, q, q - 1, q - 2, 2**255, 2**255 - 1, 2**128, 2**128 - 1, 2**64, 2**64 - 1, 2**192, 2**192 - 1]
    es += [1 << i for i in range(0, 256, 13)] + [0xff << (8 * i) for i in range(32)] + [x for x in hv if x <= q]
    es += [rng.getrandbits(256) % q for _ in range(20)]
    bases = [0, 1, 2, p - 1, O.G, pow(O.G, rng.getrandbits(256), p), rng.getrandbits(4096) % p, rng.getrandbits(4096) % p] + [x for x in hv if x < p][:4]
    for e in es:
        r = h.cmd('gpowq', '%x' % e)
        x = pow(O.G, e, p)
        if r[0] != 'ok' or int(r[1], 16) != x:
            yield {'what': 'g_pow_p(Q)', 'e': hex(e), 'expected': hex(x), 'got': r}
        yield None
        b = rng.choice(bases)
        yield chk('powpq', (b, e), pow(b, e, p), '1')
        yield chk('powpq', (b, e), pow(b, e, p), '0')
    for b in bases:
        for e in (0, 1, 2, q, q - 1, rng.getrandbits(256) % q, rng.getrandbits(256) % q):
            yield chk('powpq', (b, e), pow(b, e, p), '1')
            yield chk('powpq', (b, e), pow(b, e, p), '0')
    for a, b in HN.walk(rng, [rng.randrange(p) for _ in range(2)], [p - 1] * 2, 60):
        yield chk('addp', (a, b), (a + b) % p)
        yield chk('mulp', (a, b), a * b % p)
        yield chk('modp', (a,), a % p)
    for b, e in HN.walk(rng, [rng.randrange(2, p), rng.randrange(q)], [p - 1, q], 24):
        yield chk('powpq', (b, e), pow(b, e, p), '0')
        yield chk('powpp', (b, e), pow(b, e, p))
    b = rng.randrange(2, p)
    for e, in HN.walk(rng, [rng.randrange(q)], [q], 24):
        yield chk('powpq', (b, e), pow(b, e, p), '1')
        r = h.cmd('gpowq', '%x' % e)
        x = pow(O.G, e, p)
        if r[0] != 'ok' or int(r[1], 16) != x:
            yield {'what': 'g_pow_p(Q)', 'e': hex(e), 'expected': hex(x), 'got': r}
    # fixed bases that agree in most of their digits do not share a table
    for b0 in (O.G, rng.getrandbits(4096) % p, pow(O.G, rng.getrandbits(256), p)):
        l = [(b0 >> (64 * i)) & (2**64 - 1) for i in range(64)]
        i, j = rng.sample(range(63), 2)
        sw = list(l)
        sw[i], sw[j] = l[j], l[i]
        near = [b0, b0 ^ 1, b0 ^ (1 << 4094), b0 ^ (1 << 2048), b0 ^ (1 << rng.randrange(64, 4000)), b0 ^ (1 << rng.randrange(64, 4000)), b0 ^ 1 << 63, b0 ^ 1 << 64, (b0 + q) % p, (b0 + p // 2) % p,
                sum(x << (64 * k) for k, x in enumerate(sw)), int(str(b0)[::-1]), int(('%x' % b0)[::-1], 16), p - b0, b0 >> 4, b0 >> 64]
        near = [x for x in near if 1 < x < p]
        e = rng.getrandbits(256) % q
        for b in near + [b0]:
            yield chk('powpq', (b, e), pow(b, e, p), '1')
    xs = [0, 1, 2, q, q + 1, 2**256 - 1, 2**256, 2**511, 2**512 - 1, 2**512, 2**512 + 1, 2**513, 2**1024, 2**4095, p - 1, p - 2, 2**4096 - 1, rng.getrandbits(512), rng.getrandbits(600), rng.getrandbits(4096), (1 << 4032) + 5]
    xs += [1 << (64 * i) for i in range(0, 64, 5)]
    for e in xs:
        b = rng.choice(bases)
        yield chk('powpp', (b, e), pow(b, e, p))
        r = h.cmd('gpowp', '%x' % e)
        x = pow(O.G, e, p)
        if r[0] != 'ok' or int(r[1], 16) != x:
            yield {'what': 'g_pow_p(P)', 'e': hex(e), 'expected': hex(x), 'got': r}
        yield None
