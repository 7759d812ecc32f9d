from common import *
import time
import limb
from limb import PolyDom, BVDom, Exec, TU, Ptr, P, Poly, total, zero, paths, Fault, _Return
import libbuild, runner
from runner import Failed, Undecided
LEVEL = 'proof'
NOTE = ('Every word content is covered: the real C functions run symbolically over integer polynomials (exact identities by elimination of the '
        'intermediate words, linear side conditions by z3) or over bit vectors; array lengths are constants of the code, so loops run to completion and nothing is bounded. '
        'Modular routines are proved for the moduli the library uses (p and q); exponentiation as an identity of exponents over Montgomery products.')
ASSUME = ['callers pass the documented number of words; destination either equals an operand or is disjoint from the operands',
          'modular routines: modulus is p (4096 bits) or q (256 bits), Montgomery context as built by mont_ctx_init (itself an obligation)',
          'malloc/calloc succeed']
TRUST = ['clang 18 front end (C AST of the real sources)', 'egv/limb.py (symbolic executor, polynomial elimination)', 'z3 4.x (linear side conditions, bit vectors)',
         'memcpy, memset, bswap builtins as the C library defines them']
TECH = 'deductive verification of the real C code: function contracts, polynomial identities by elimination, z3 for linear arithmetic and bit vectors'
HARNESS = ['main.cpp', 'hacl.cpp']
KR = 'src/karamel/'
FILES = ['Hacl_Bignum256.c', 'Hacl_Bignum4096.c', 'Hacl_Bignum.c', 'Hacl_GenericField64.c']
W = 64
B64 = 1 << 64
_tus = {}
def tus():
    if not _tus:
        fl = libbuild.DEFS + libbuild.incs()
        for f in FILES:
            _tus[f] = TU(libbuild.REPO + '/' + KR + f, fl)
    return [_tus[f] for f in FILES]

class Stat:
    """what the evidence reports about an obligation"""
    def __init__(self): self.stat_solver, self.stat_queries, self.inlined, self.contracted = 0.0, 0, set(), set()

# ---------------------------------------------------------------- contracts of the carry primitives (proved below, bit-precisely)
def c_add_carry(ex, cin, x, y, r):
    D = ex.D
    if D.range(P(cin))[1] > 1 or D.range(P(cin))[0] < 0: raise Undecided('carry argument not known to be 0 or 1')
    l, h = D.split(P(cin) + P(x) + P(y), 64)
    ex.store(r, l.value() if l.is_const() else l)
    return h.value() if h.is_const() else h
def c_sub_borrow(ex, cin, x, y, r):
    D = ex.D
    if D.range(P(cin))[1] > 1 or D.range(P(cin))[0] < 0: raise Undecided('borrow argument not known to be 0 or 1')
    l, h = D.split(P(x) - P(y) - P(cin), 64)
    ex.store(r, l.value() if l.is_const() else l)
    h = -h
    return h.value() if h.is_const() else h
CARRY = {}
for n in ('Hacl_IntTypes_Intrinsics_add_carry_u64', 'Hacl_IntTypes_Intrinsics_128_add_carry_u64', '_addcarry_u64'): CARRY[n] = c_add_carry
for n in ('Hacl_IntTypes_Intrinsics_sub_borrow_u64', 'Hacl_IntTypes_Intrinsics_128_sub_borrow_u64', '_subborrow_u64'): CARRY[n] = c_sub_borrow
def fresh(ex, p, n, name, value):
    """result words r with sum = value; value is a polynomial known to be in range"""
    A, ls = ex.D.array(name, n)
    a = next(iter(A.t))[0]
    ex.D.defn[a] = value
    for i, x in enumerate(ls): ex.store(p, x, i)
    ex.D.facts.append(value); ex.D.facts.append(P((1 << (64 * n)) - 1) - value)
def c_add_len(ex, n, a, b, res):
    s = total(ex.words(a, n)) + total(ex.words(b, n))
    c = ex.D.atom('carry', 0, 1)
    fresh(ex, res, n, 'sum', ex.D.norm(s, stop=ex.D.cut) - c * (1 << (64 * n)))
    return c
def c_sub_len(ex, n, a, b, res):
    s = total(ex.words(a, n)) - total(ex.words(b, n))
    c = ex.D.atom('borrow', 0, 1)
    fresh(ex, res, n, 'dif', ex.D.norm(s, stop=ex.D.cut) + c * (1 << (64 * n)))
    return c
def prod(ex, n, m, a, b):
    x, y = settle(ex.D, total(ex.words(a, n))), settle(ex.D, total(ex.words(b, m)))
    return x * y
def settle(D, p):
    """carries whose value is implied by the linear facts are replaced by it"""
    p = D.norm(p, stop=D.cut)
    for a in sorted(p.atoms()):
        if a not in D.defn and D.hi[a] - D.lo[a] == 1:
            for v in (D.lo[a], D.hi[a]):
                if D.eq(Poly({(a,): 1}), v, short=True):
                    D.defn[a] = P(v)
                    break
    return D.norm(p, stop=D.cut)
def c_mul(ex, la, a, lb, b, res):
    fresh(ex, res, la + lb, 'prod', prod(ex, la, lb, a, b))
def c_kara(ex, n, a, b, tmp, res):
    if not (n in (16, 32, 64) and n <= ex.maxlen): raise Undecided('recursive call with %r words is not covered by the contract' % n)
    v = prod(ex, n, n, a, b)
    scratch(ex, tmp, 4 * n)
    fresh(ex, res, 2 * n, 'prod', v)
def c_karasq(ex, n, a, tmp, res):
    c_kara(ex, n, a, a, tmp, res)
def scratch(ex, tmp, n):
    for i in range(n): ex.store(tmp, ex.D.atom('scratch', 0, B64 - 1), i)
LENS = {'Hacl_Bignum_Addition_bn_add_eq_len_u64': c_add_len, 'bn_sub_eq_len_u64': c_sub_len}
K64 = 'Hacl_Bignum_Karatsuba_bn_karatsuba_mul_uint64'
KSQ = 'Hacl_Bignum_Karatsuba_bn_karatsuba_sqr_uint64'

# ---------------------------------------------------------------- drivers
def poly_ob(setup, contracts, nofault=True):
    """setup(ex, D) performs the call and returns [(name, polynomial that must be 0, modulus or None) | (name, ('ge0', poly))]"""
    def run(ctx):
        ctx.eng = st = Stat()
        t0 = time.time()
        def one(D):
            ex = Exec(tus(), D, contracts)
            try:
                g = setup(ex, D)
            except Fault as e:
                g = e
            st.inlined |= ex.inlined; st.contracted |= ex.used
            return g
        for D, g in paths(one):
            if g is None: continue
            ctx.paths += 1
            if isinstance(g, Fault):
                if D.infeasible(): continue
                raise Failed('memory: %s' % g, model(D, None))
            for name, p, mod in g:
                ctx.conds += 1
                if isinstance(p, tuple):
                    ok = D.ge0(p[1])
                else:
                    ok = zero(D, p, mod)
                if not ok:
                    if D.infeasible(): break
                    raise Failed(name, model(D, p if not isinstance(p, tuple) else None))
        st.stat_solver = time.time() - t0
    return run
def model(D, p):
    q = D.norm(p) if p is not None else P(0)
    info = {'cases': list(D.taken), 'residual': str({tuple(D.nm[a] for a in m): c for m, c in list(q.t.items())[:12]})[:1500]}
    cons, ze = D.z3facts(True)
    if cons is None: return info
    s = z3.Solver(); s.set('timeout', 20000)
    for c in cons: s.add(c)
    ins = [i for i, n in enumerate(D.nm) if n.startswith('in:')]
    es = {D.nm[i]: ze(D.norm(Poly({(i,): 1})))[1] for i in ins}
    if p is not None and q.t: s.add(ze(q)[1] != 0)
    if s.check() == z3.sat:
        m = s.model()
        info['model'] = {n[3:]: hex(m.eval(e, model_completion=True).as_long()) for n, e in es.items()}
    return info
def arr(ex, D, name, n):
    A, ls = D.array('in:' + name, n)
    return A, ls, ex.new(n, 8, name, cells=ls)
def const_arr(ex, name, v, n):
    return ex.new(n, 8, name, cells=[(v >> (64 * i)) & (B64 - 1) for i in range(n)])
def junk(ex, D, name, n):
    return ex.new(n, 8, name, cells=[D.atom('old', 0, B64 - 1) for _ in range(n)])
def same(D, p, ls, what):
    return [('%s is unchanged' % what, total(p.b.c) - total(ls), None)] if p.b.c is not ls else []

def addsub(fn, n, sub, alias):
    def setup(ex, D):
        A, la, a = arr(ex, D, 'a', n)
        if alias == 'a=b': B, lb, b = A, la, a
        else: B, lb, b = arr(ex, D, 'b', n)
        r = {'res=a': a, 'res=b': b, 'res=a=b': a}.get(alias) or junk(ex, D, 'res', n)
        c = ex.call(fn, [a, b, r] if alias != 'res=a=b' else [a, a, a], top=True)
        if alias == 'res=a=b': B = A
        got = total(ex.words(r, n))
        want = A - B + P(c) * (1 << 64 * n) if sub else A + B - P(c) * (1 << 64 * n)
        g = [('value and carry', got - want, None), ('carry is 0 or 1 (at least 0)', ('ge0', P(c)), None), ('carry is 0 or 1 (at most 1)', ('ge0', P(1) - P(c)), None)]
        if a is not r: g.append(('first operand unchanged', total(a.b.c) - A, None))
        if b is not r and b is not a and alias != 'res=a=b': g.append(('second operand unchanged', total(b.b.c) - B, None))
        return g
    return poly_ob(setup, CARRY)

def mul(fn, n, args, contracts, sq=False, tmp=0, top=True):
    def setup(ex, D):
        k = n // 2 if tmp else n
        if tmp and n % 2 == 0 and n >= 32:
            A0, l0 = D.array('in:a.lo', k); A1, l1_ = D.array('in:a.hi', k)
            A, a = A0 + A1 * (1 << 64 * k), ex.new(n, 8, 'a', cells=l0 + l1_)
            if sq: B, b = A, a
            else:
                B0, m0 = D.array('in:b.lo', k); B1, m1 = D.array('in:b.hi', k)
                B, b = B0 + B1 * (1 << 64 * k), ex.new(n, 8, 'b', cells=m0 + m1)
        else:
            A, _, a = arr(ex, D, 'a', n)
            B, _, b = (A, None, a) if sq else arr(ex, D, 'b', n)
        r = junk(ex, D, 'res', 2 * n)
        t = junk(ex, D, 'tmp', tmp) if tmp else None
        ex.maxlen = n // 2 if tmp else n     # the recursion descends
        ex.call(fn, args(n, a, b, t, r), top=top)
        g = [('product', total(r.b.c) - A * B, None), ('first operand unchanged', total(a.b.c) - A, None)]
        if not sq: g.append(('second operand unchanged', total(b.b.c) - B, None))
        return g
    return poly_ob(setup, dict(CARRY, **contracts))

def bv_ob(fn):
    def run(ctx):
        ctx.eng = st = Stat()
        t0 = time.time()
        for name, goal, ins in fn(st):
            ctx.conds += 1; ctx.paths += 1
            s = z3.Solver(); s.set('timeout', 200000)
            s.add(z3.Not(goal))
            r = s.check()
            st.stat_queries += 1
            if r == z3.sat:
                m = s.model()
                raise Failed(name, {'model': {k: hex(m.eval(v, model_completion=True).as_long()) for k, v in ins.items()}})
            if r != z3.unsat: raise Undecided('solver gave no answer for ' + name)
        st.stat_solver = time.time() - t0
    return run
def mk(st, contracts=None):
    ex = Exec(tus(), BVDom(), contracts or {})
    st.inlined, st.contracted = ex.inlined, ex.used
    return ex
def zx(x, w):
    if isinstance(x, int): return z3.BitVecVal(x, w)
    if z3.is_bool(x): x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.ZeroExt(w - x.size(), x)
ALL1 = z3.BitVecVal(B64 - 1, 64)
def t_carry(sub):
    def f(st):
        ex = mk(st)
        x, y, c = z3.BitVecs('x y cin', 64)
        r = ex.new(1, 8, 'r', cells=[z3.BitVec('old', 64)])
        nm = [n for n in CARRY if ('sub' in n) == sub and ex.find(n)[1]]
        if not nm: return
        o = ex.call(nm[0], [c, x, y, r])
        l, h = zx(ex.load(r), 70), zx(ex.D.bv(o, 64), 70)
        X, Y, C = zx(x, 70), zx(y, 70), zx(c, 70)
        sp = (l + (h << 64) == X + Y + C) if not sub else (l - (h << 64) == X - Y - C)
        yield 'word and carry are exact', z3.Implies(z3.ULE(c, 1), z3.And(z3.ULE(h, 1), sp)), {'x': x, 'y': y, 'cin': c}
    return f
def t_masks(st):
    ex = mk(st)
    x, y = z3.BitVecs('x y', 64)
    yield 'eq_mask', ex.D.bv(ex.call('FStar_UInt64_eq_mask', [x, y]), 64) == z3.If(x == y, ALL1, 0), {'x': x, 'y': y}
    yield 'gte_mask', ex.D.bv(ex.call('FStar_UInt64_gte_mask', [x, y]), 64) == z3.If(z3.UGE(x, y), ALL1, 0), {'x': x, 'y': y}
MASKS = {'FStar_UInt64_eq_mask': lambda ex, a, b: z3.If(ex.D.bv(a, 64) == ex.D.bv(b, 64), ALL1, z3.BitVecVal(0, 64)),
         'FStar_UInt64_gte_mask': lambda ex, a, b: z3.If(z3.UGE(ex.D.bv(a, 64), ex.D.bv(b, 64)), ALL1, z3.BitVecVal(0, 64))}
def t_cmp(fn, n, op):
    def f(st):
        ex = mk(st, MASKS)
        xs = [z3.BitVec('a%d' % i, 64) for i in range(n)]
        ys = [z3.BitVec('b%d' % i, 64) for i in range(n)]
        a, b = ex.new(n, 8, 'a', cells=xs), ex.new(n, 8, 'b', cells=ys)
        r = ex.D.bv(ex.call(fn, [a, b], top=True), 64)
        A, Bv = z3.Concat(*reversed(xs)), z3.Concat(*reversed(ys))
        spec = z3.ULT(A, Bv) if op == 'lt' else A == Bv
        ins = {'a': A, 'b': Bv}
        yield 'mask is all ones exactly when the relation holds', r == z3.If(spec, ALL1, z3.BitVecVal(0, 64)), ins
        if a.b.c != xs or b.b.c != ys: raise Failed('operands unchanged', {})
    return f
def t_to_bytes(fn, n):
    def f(st):
        ex = mk(st)
        xs = [z3.BitVec('b%d' % i, 64) for i in range(n)]
        a = ex.new(n, 8, 'b', cells=xs)
        r = ex.new(8 * n, 1, 'res', cells=[z3.BitVec('old%d' % i, 8) for i in range(8 * n)])
        try: ex.call(fn, [a, r], top=True)
        except Fault as e: raise Failed('memory: %s' % e, {})
        full = z3.Concat(*reversed(xs))
        yield 'big-endian bytes', z3.And(*[ex.D.bv(r.b.c[8 * n - 1 - i], 8) == z3.Extract(8 * (i % 8) + 7, 8 * (i % 8), xs[i // 8]) for i in range(8 * n)]), {'a': full}
        if any(x is not y for x, y in zip(a.b.c, xs)): raise Failed('operand unchanged', {})
    return f
def t_from_bytes(fn, lens):
    def f(st):
        for ln in lens:
            ex = mk(st)
            bs = [z3.BitVec('y%d' % i, 8) for i in range(ln)]
            p = ex.new(ln, 1, 'b', cells=bs)
            try: r = ex.call(fn, [ln, p], top=True)
            except Fault as e: raise Failed('memory: %s' % e, {})
            if r.b is None: raise Failed('result is allocated for %d bytes' % ln, {})
            n = (ln + 7) // 8
            if len(r.b.c) != n or r.o: raise Failed('result has %d words for %d bytes' % (len(r.b.c), ln), {})
            pad = [z3.BitVecVal(0, 8)] * (8 * n - ln) + bs
            yield 'value of %d bytes' % ln, z3.And(*[ex.D.bv(r.b.c[i], 64) == z3.Concat(*pad[8 * (n - 1 - i):8 * (n - i)]) for i in range(n)]), \
                {'a': z3.Concat(*pad)}
    return f

# ---------------------------------------------------------------- modular layer, for the moduli in use
MOD = {4: QI, 64: PI}
def mu_of(n): return -pow(n, -1, B64) % B64
def ckmod(ex, L, nptr, mu):
    w = ex.words(nptr, L)
    if not all(isinstance(x, int) for x in w) or total(w).value() != MOD[L] or mu != mu_of(MOD[L]): raise Undecided('modulus or inverse not the expected constant')
    return MOD[L]
def c_reduce(L):
    def f(ex, nptr, mu, c, res):
        n, D, R = ckmod(ex, L, nptr, mu), ex.D, 1 << (64 * L)
        C = D.norm(total(ex.words(c, 2 * L)), stop=D.cut)
        if not D.ge0(P(n * R - 1) - C): raise Undecided('argument of the reduction not known to be below n*R')
        scratch(ex, c, 2 * L)
        Ri = pow(R, -1, n)
        K = D.atom('k', -(R * R * Ri // n) - 2, 2)
        v = C * Ri + K * n
        fresh(ex, res, L, 'red', v)
        D.facts.append(P(n - 1) - v)
    return f
def c_reduce_len(ex, L, nptr, mu, c, res): return c_reduce(L)(ex, nptr, mu, c, res)
def ctx_struct(ex, L):
    n, R = MOD[L], 1 << (64 * L)
    st = limb.Struct(dict(len=L, n=const_arr(ex, 'k.n', n, L), mu=mu_of(n), r2=const_arr(ex, 'k.r2', R * R % n, L)))
    return ex.new(1, 32, 'k', cells=[st]), st
def tu_of(L): return _tus['Hacl_Bignum256.c' if L == 4 else 'Hacl_Bignum4096.c']
def c_mul_fixed(L):
    return lambda ex, a, b, res: fresh(ex, res, 2 * L, 'prod', prod(ex, L, L, a, b))
def reduction(fn, L, byl):
    def setup(ex, D):
        n, R = MOD[L], 1 << (64 * L)
        C, lc, c = arr(ex, D, 'c', 2 * L)
        D.facts.append(P(n * R - 1) - C)
        r = junk(ex, D, 'res', L)
        np_ = const_arr(ex, 'n', n, L)
        ex.call(fn, ([L] if byl else []) + [np_, mu_of(n), c, r], tu=_tus['Hacl_Bignum.c'] if byl else tu_of(L), top=True)
        return [('congruent to c / R', total(r.b.c) * R - C, n), ('below the modulus', ('ge0', P(n - 1) - total(r.b.c)), None), ('modulus unchanged', total(np_.b.c) - n, None)]
    return poly_ob(setup, CARRY)
def modfn(fn, L, pre):
    """value of a 2L-word number modulo n"""
    def setup(ex, D):
        n, R = MOD[L], 1 << (64 * L)
        A, la, a = arr(ex, D, 'a', 2 * L)
        r = junk(ex, D, 'res', L)
        if pre: k, st = ctx_struct(ex, L); ret = ex.call(fn, [k, a, r], top=True); ok = 1
        else:
            np_ = const_arr(ex, 'n', n, L)
            ok = ex.call(fn, [np_, a, r], tu=tu_of(L), top=True)
        return [('congruent to a', total(r.b.c) - A, n), ('below the modulus', ('ge0', P(n - 1) - total(r.b.c)), None), ('operand unchanged', total(a.b.c) - A, None), ('succeeds', P(ok) - 1, None)]
    return poly_ob(setup, dict(CARRY, **{'reduction': c_reduce(L), 'Hacl_Bignum%d_mul' % (64 * L): c_mul_fixed(L)}))
def addmod(fn, L, alias):
    def setup(ex, D):
        n = MOD[L]
        A, la, a = arr(ex, D, 'a', L)
        if alias: B, b, r = A, a, a
        else: B, lb, b = arr(ex, D, 'b', L); r = junk(ex, D, 'res', L)
        D.facts.append(P(n - 1) - A); D.facts.append(P(n - 1) - B)
        np_ = const_arr(ex, 'n', n, L)
        ex.call(fn, [np_, a, b, r], top=True)
        return [('congruent to a + b', total(r.b.c[:L]) - A - B, n), ('below the modulus', ('ge0', P(n - 1) - total(r.b.c)), None), ('modulus unchanged', total(np_.b.c) - n, None)]
    return poly_ob(setup, CARRY)
def field(fn, L, what):
    def setup(ex, D):
        n, R = MOD[L], 1 << (64 * L)
        k, st = ctx_struct(ex, L)
        A, la, a = arr(ex, D, 'a', L)
        D.facts.append(P(n - 1) - A)
        r = junk(ex, D, 'res', L)
        ex.maxlen = L
        if what == 'mul':
            B, lb, b = arr(ex, D, 'b', L)
            D.facts.append(P(n - 1) - B)
            D.facts.append(P((n - 1) * (n - 1)) - A * B)      # product of the two bounds
            ex.call(fn, [k, a, b, r], top=True)
            g = [('product in Montgomery form', total(r.b.c) * R - A * B, n)]
        else:
            ex.call(fn, [k, a, r], top=True)
            g = [('Montgomery form of a', total(r.b.c) - A * R, n)] if what == 'to' else [('a / R', total(r.b.c) * R - A, n)]
        return g + [('below the modulus', ('ge0', P(n - 1) - total(r.b.c)), None), ('operand unchanged', total(a.b.c) - A, None)]
    return poly_ob(setup, dict(CARRY, **{'bn_mont_reduction_u64': c_reduce_len, K64: c_kara}))
def ctxinit(L):
    def c_addmod(ex, nptr, a, b, res):
        w = [ex.words(x, L) for x in (nptr, a, b)]
        n, x, y = [total(t) for t in w]
        if not all(t.is_const() for t in (n, x, y)): raise Undecided('add_mod on symbolic words')
        n, x, y = n.value(), x.value(), y.value()
        if n != MOD[L] or not (x < n and y < n): raise Failed('precondition of add_mod: operands below the modulus', {})
        v = (x + y) % n
        for i in range(L): ex.store(res, (v >> (64 * i)) & (B64 - 1), i)
    def setup(ex, D):
        n, R = MOD[L], 1 << (64 * L)
        np_ = const_arr(ex, 'n', n, L)
        k = ex.call('Hacl_Bignum%d_mont_ctx_init' % (64 * L), [np_], top=True)
        s = ex.load(k)
        if not isinstance(s, limb.Struct): raise Undecided('context not built')
        f = s.f
        return [('length', P(f['len']) - L, None), ('modulus copied', total(ex.words(f['n'], L)) - n, None), ('inverse', P(f['mu']) - mu_of(n), None),
                ('R^2 mod n', total(ex.words(f['r2'], L)) - R * R % n, None), ('copy is separate', P(1 if f['n'].b is np_.b else 0), None)]
    return poly_ob(setup, dict(CARRY, **{'Hacl_Bignum%d_add_mod' % (64 * L): c_addmod}))
def almost(L, fn, nargs, alias):
    def setup(ex, D):
        n, R = MOD[L], 1 << (64 * L)
        A, la, a = arr(ex, D, 'a', L)
        B, b = A, a
        if nargs == 2: B, lb, b = arr(ex, D, 'b', L)
        r = {'res=a': a, 'res=b': b}.get(alias) or junk(ex, D, 'res', L)
        np_ = const_arr(ex, 'n', n, L)
        ex.maxlen = L
        ex.call(fn, [np_, mu_of(n), a] + ([b] if nargs == 2 else []) + [r], tu=tu_of(L), top=True)
        return [('congruent to a*b / R', total(r.b.c) * R - A * B, n), ('modulus unchanged', total(np_.b.c) - n, None)]
    c = dict(CARRY, **{K64: c_kara, KSQ: c_karasq, 'Hacl_Bignum256_mul': c_mul_fixed(4), 'Hacl_Bignum256_sqr': lambda ex, a, r: c_mul_fixed(4)(ex, a, a, r)})
    return poly_ob(setup, c)

# ---- exponentiation: words of a Montgomery element carry the exponent of the base as a polynomial in the digits of b
def expo(L, bits):
    def run(ctx):
        ctx.eng = st = Stat()
        t0 = time.time()
        n, R = MOD[L], 1 << (64 * L)
        R2 = R * R % n
        D = PolyDom(); D.quiet = True
        tag = {}
        def make(ex, p, m, kind, E):
            A, ls = D.array(kind, m)
            tag[next(iter(A.t))[0]] = (kind, E)
            for i, x in enumerate(ls): ex.store(p, x, i)
        def tags(ex, words):
            """tag of an array of words; a selected array gives one tag per selector value, which must be linear in it"""
            sel = next((w for w in words if isinstance(w, limb.Sel)), None)
            if sel is not None:
                lo, hi = D.range(sel.s)
                if not (lo == 0 and hi < 64): raise Undecided('selector range')
                ts = []
                for v in range(hi + 1):
                    ws = []
                    for w in words:
                        if isinstance(w, limb.Sel):
                            if w.s.t != sel.s.t: raise Undecided('two selectors')
                            w = w.at(v)
                        ws.append(w)
                    ts.append(tags(ex, ws))
                k0, e0 = ts[0]
                step = (ts[1][1] - e0)
                for v, (k, e) in enumerate(ts):
                    if k != k0 or (e - e0 - step * v).t: raise Failed('the selected table entry has the exponent of the digit', {'digit': v})
                return k0, e0 + sel.s * step
            p = D.norm(total(words))
            if p.is_const():
                v = p.value()
                if (v - R) % n == 0: return 'mont', P(0)
                raise Undecided('constant array')
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and c == 1 and m[0] in tag: return tag[m[0]]
            raise Failed('operand is one of the known elements', {'words': str([str(x.t) if isinstance(x, Poly) else str(x) for x in words[:3]])[:500]})
        def mulc(ex, a, b, res):
            k, E = tags(ex, ex.words(a, L))
            w = ex.words(b, L)
            if not (k == 'plain' and all(isinstance(x, int) for x in w) and total(w).value() == R2): raise Undecided('product other than base * R^2')
            make(ex, res, 2 * L, 'prod', E)
        def red(ex, nptr, mu, c, res):
            ckmod(ex, L, nptr, mu)
            w = ex.words(c, 2 * L)
            scratch(ex, c, 2 * L)
            if all(isinstance(x, int) for x in w):
                v = total(w).value()
                if v >= n * R: raise Failed('argument of reduction below n*R', {})
                v = v * pow(R, -1, n) % n
                for i in range(L): ex.store(res, (v >> (64 * i)) & (B64 - 1), i)
                return
            if all(isinstance(x, int) and x == 0 for x in w[L:]):
                k, E = tags(ex, w[:L])
                if k != 'mont': raise Undecided('reduction of a %s element' % k)
                return make(ex, res, L, 'plain', E)
            k, E = tags(ex, w)
            if k != 'prod': raise Undecided('reduction of a %s element' % k)
            make(ex, res, L, 'mont', E)
        def amul(ex, nptr, mu, a, b, res):
            ckmod(ex, L, nptr, mu)
            (k1, e1), (k2, e2) = tags(ex, ex.words(a, L)), tags(ex, ex.words(b, L))
            if (k1, k2) != ('mont', 'mont'): raise Failed('operands of the Montgomery product are in Montgomery form', {'kinds': [k1, k2]})
            make(ex, res, L, 'mont', e1 + e2)
        def asqr(ex, nptr, mu, a, res): amul(ex, nptr, mu, a, a, res)
        def eqm(ex, x, y):
            if isinstance(x, int) and isinstance(y, int): return B64 - 1 if x == y else 0
            if isinstance(y, int): return limb.Sel(P(x), 0, {y: B64 - 1})
            if isinstance(x, int): return limb.Sel(P(y), 0, {x: B64 - 1})
            raise Undecided('comparison of two symbolic words')
        ex = Exec(tus(), D, {'Hacl_Bignum%d_mul' % (64 * L): mulc, 'reduction': red, 'amont_mul': amul, 'amont_sqr': asqr, 'FStar_UInt64_eq_mask': eqm})
        k, _ = ctx_struct(ex, L)
        a = junk(ex, D, 'a', L)
        make(ex, a, L, 'plain', P(1))
        B, cells = P(0), []
        for i in range(bits // 64):
            w = P(0)
            for j in range(16):
                w = w + D.atom('in:digit%d.%d' % (i, j), 0, 15) * (1 << (4 * j))
            cells.append(w)
        B = total(cells)
        b = ex.new(len(cells), 8, 'b', cells=cells)
        r = junk(ex, D, 'res', L)
        try:
            ex.call('Hacl_Bignum%d_mod_exp_consttime_precomp' % (64 * L), [k, a, bits, b, r], top=True)
        except Fault as e: raise Failed('memory: %s' % e, {})
        kind, E = tags(ex, ex.words(r, L))
        ctx.paths += 1; ctx.conds += 1
        st.inlined, st.contracted = ex.inlined, ex.used
        if kind != 'plain' or (E - B).t: raise Failed('result is a^b mod n', {'kind': kind})
        st.stat_solver = 0
    return run

def obligations(tier):
    tus()
    o = [Ob('add_carry_u64: word and carry', bv_ob(t_carry(False))), Ob('sub_borrow_u64: word and borrow', bv_ob(t_carry(True))),
         Ob('eq_mask and gte_mask on words', bv_ob(t_masks))]
    for w, n in (('256', 4), ('4096', 64)):
        H = 'Hacl_Bignum%s_' % w
        for al in ('distinct', 'res=a', 'res=b', 'a=b', 'res=a=b'):
            o.append(Ob('%s-bit add, %s' % (w, al), addsub(H + 'add', n, False, al)))
            o.append(Ob('%s-bit sub, %s' % (w, al), addsub(H + 'sub', n, True, al)))
        o.append(Ob('%s-bit less-than mask' % w, bv_ob(t_cmp(H + 'lt_mask', n, 'lt'))))
        o.append(Ob('%s-bit equality mask' % w, bv_ob(t_cmp(H + 'eq_mask', n, 'eq'))))
        o.append(Ob('%s-bit to big-endian bytes' % w, bv_ob(t_to_bytes(H + 'bn_to_bytes_be', n))))
        o.append(Ob('%s-bit from big-endian bytes, every length' % w, bv_ob(t_from_bytes(H + 'new_bn_from_bytes_be', range(1, 8 * n + 1)))))
    for n in (16, 32, 64):
        o.append(Ob('add_eq_len(%d)' % n, addlen('Hacl_Bignum_Addition_bn_add_eq_len_u64', n, False)))
        o.append(Ob('sub_eq_len(%d)' % n, addlen('bn_sub_eq_len_u64', n, True)))
    o.append(Ob('256-bit product', mul('Hacl_Bignum256_mul', 4, lambda n, a, b, t, r: [a, b, r], {})))
    o.append(Ob('256-bit square', mul('Hacl_Bignum256_sqr', 4, lambda n, a, b, t, r: [a, r], {}, sq=True)))
    ka = lambda n, a, b, t, r: [n, a, b, t, r]
    ks = lambda n, a, b, t, r: [n, a, t, r]
    o.append(Ob('Karatsuba product, 16 words (schoolbook)', mul(K64, 16, ka, {}, tmp=64)))
    o.append(Ob('Karatsuba product, 32 words from 16', mul(K64, 32, ka, dict(LENS, **{K64: c_kara}), tmp=128)))
    o.append(Ob('Karatsuba product, 64 words from 32', mul(K64, 64, ka, dict(LENS, **{K64: c_kara}), tmp=256)))
    o.append(Ob('4096-bit product', mul('Hacl_Bignum4096_mul', 64, lambda n, a, b, t, r: [a, b, r], {K64: c_kara})))
    o.append(Ob('Karatsuba square, 16 words (schoolbook)', mul(KSQ, 16, ks, LENS, sq=True, tmp=64)))
    o.append(Ob('Karatsuba square, 32 words from 16', mul(KSQ, 32, ks, dict(LENS, **{KSQ: c_karasq}), sq=True, tmp=128)))
    o.append(Ob('Karatsuba square, 64 words from 32', mul(KSQ, 64, ks, dict(LENS, **{KSQ: c_karasq}), sq=True, tmp=256)))
    o.append(Ob('4096-bit square', mul('Hacl_Bignum4096_sqr', 64, lambda n, a, b, t, r: [a, r], {KSQ: c_karasq}, sq=True)))
    for L, nm in ((4, 'q'), (64, 'p')):
        H = 'Hacl_Bignum%d_' % (64 * L)
        o.append(Ob('add_mod %s' % nm, addmod(H + 'add_mod', L, False)))
        o.append(Ob('doubling mod %s in place' % nm, addmod(H + 'add_mod', L, True)))
        o.append(Ob('Montgomery reduction mod %s' % nm, reduction('reduction', L, False)))
        o.append(Ob('Montgomery context for %s' % nm, ctxinit(L)))
        o.append(Ob('mod_precomp %s' % nm, modfn(H + 'mod_precomp', L, True)))
    o.append(Ob('Hacl_Bignum256_mod with modulus q', modfn('Hacl_Bignum256_mod', 4, False)))
    o.append(Ob('bn_mont_reduction_u64 mod p', reduction('bn_mont_reduction_u64', 64, True)))
    for f, w in (('to_field', 'to'), ('from_field', 'from'), ('mul', 'mul')):
        o.append(Ob('GenericField64_%s mod p' % f, field('Hacl_GenericField64_' + f, 64, w)))
    for al in ('distinct', 'res=a', 'res=b'): o.append(Ob('almost-Montgomery product mod p, %s' % al, almost(64, 'amont_mul', 2, al)))
    for al in ('distinct', 'res=a'): o.append(Ob('almost-Montgomery square mod p, %s' % al, almost(64, 'amont_sqr', 1, al)))
    for bits in (256, 512, 4096):
        o.append(Ob('mod_exp_consttime_precomp mod p, every %d-bit exponent' % bits, expo(64, bits), limit=500))
    return o
def addlen(fn, n, sub):
    def setup(ex, D):
        A, la, a = arr(ex, D, 'a', n)
        B, lb, b = arr(ex, D, 'b', n)
        g = []
        for r in (junk(ex, D, 'res', n), a):
            c = ex.call(fn, [n, a, b, r], top=True)
            want = A - B + P(c) * (1 << 64 * n) if sub else A + B - P(c) * (1 << 64 * n)
            g += [('value and carry', total(r.b.c) - want, None), ('carry >= 0', ('ge0', P(c)), None), ('carry <= 1', ('ge0', P(1) - P(c)), None)]
            if r is not a: g.append(('operand unchanged', total(a.b.c) - A, None))
        g.append(('operand unchanged', total(b.b.c) - B, None))
        return g
    return poly_ob(setup, CARRY)

# ---------------------------------------------------------------- replay / bounded stand-in on the compiled code
def concrete(h, rng, tier, hints):
    from harness import batch
    more = 1 if tier == 'quick' else 6
    def limbs(n):
        k = rng.randrange(6)
        if k == 0: ws = [rng.choice((0, B64 - 1)) for _ in range(n)]
        elif k == 1: ws = [rng.choice((0, 1, B64 - 1, 1 << 63, (1 << 63) - 1, B64 - 2, rng.getrandbits(64))) for _ in range(n)]
        elif k == 2:
            i, j = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
            ws = [B64 - 1 if i <= t < j else 0 for t in range(n)]
        elif k == 3:
            w = [rng.choice((0, B64 - 1, rng.getrandbits(64))) for _ in range(max(1, n // 2))]
            ws = (w + w)[:n] if rng.random() < .5 else w + [0] * (n - len(w))
        elif k == 4: ws = [1 << rng.randrange(64) if rng.random() < .2 else 0 for _ in range(n)]
        else: ws = [rng.getrandbits(64) for _ in range(n)]
        v = sum(x << (64 * i) for i, x in enumerate(ws))
        if rng.random() < .3: v = (v + rng.choice((-2, -1, 1, 2))) % (1 << 64 * n)
        return v
    hv = []
    for m in hints:
        m = m.get('model', m) if isinstance(m, dict) else {}
        v = {k: int(x, 16) for k, x in m.items() if isinstance(x, str) and x.startswith('0x')}
        for nm in ('a', 'b', 'c'):
            if nm + '.lo' in v and nm + '.hi' in v:
                for half in (1024, 2048): v['%s:%d' % (nm, half)] = v[nm + '.lo'] + (v[nm + '.hi'] << half)
        hv += list(v.values())
    jobs = []
    for w, n in (('256', 4), ('4096', 64)):
        W_, mod = 1 << (64 * n), MOD[n]
        fix = [0, 1, 2, W_ - 1, W_ - 2, B64 - 1, B64, mod, mod - 1, mod + 1 if mod + 1 < W_ else 0, W_ // 2, (1 << 32 * n) - 1, 1 << 32 * n, ((1 << 32 * n) + 1) * ((1 << 16 * n) - 1)]
        vals = [x % W_ for x in hv] + fix + [limbs(n) for _ in range((60 if n == 4 else 24) * more)]
        pairs = [(x, y) for x in vals[:len(hv) + 6] for y in vals] + [(rng.choice(vals), rng.choice(vals)) for _ in range(700 * more)]
        pairs += [(x, (t - x) % W_) for x in vals for t in (0, 1, W_ - 1, B64, mod)]
        for i, (x, y) in enumerate(pairs):
            for op in ('add', 'sub'):
                jobs.append((w, op, ('n', 'ra', 'rb', 'ab', 'abr')[i % 5], x, y))
            jobs.append((w, 'lt', 'n', x, y)); jobs.append((w, 'eq', 'n', x, y if i % 3 else x))
            if n == 4 or i % 3 == 0: jobs.append((w, 'mul', 'ab' if i % 7 == 0 else 'n', x, y))
        for x in vals:
            jobs.append((w, 'sqr', 'n', x, 0))
            for y in (x, mod - 1, mod - x % mod, rng.choice(vals)):
                jobs.append((w, 'addmod', rng.choice(('n', 'ra', 'rb')), x % mod, y % mod))
            jobs.append((w, 'addmod', 'abr', x % mod, x % mod))
        R = W_
        wide = [0, 1, mod - 1, mod, mod + 1, R - 1, R, R * R - 1, mod * mod, mod * mod - 1, (mod - 1) ** 2, mod * R, mod * R - 1, mod * (R * R // mod), (R - 1) ** 2]
        for s in [0, 1, 2, 5, R - mod - 1, R - mod, R - mod + 1] + [limbs(n) for _ in range(8 * more)]:
            k = rng.randrange(R * R // mod - 1) if rng.random() < .7 else rng.randrange(R)
            wide.append(s % mod + mod * k)
            Q = rng.randrange(s * R // mod + 1, R) if s * R // mod + 1 < R else R - 1
            wide.append(R * R + s * R - mod * Q)
        wide += [limbs(2 * n) for _ in range(20 * more)] + [x % (R * R) for x in hv]
        for x in wide:
            if 0 <= x < R * R:
                jobs.append((w, 'modpre', 'n', x, 0))
                if n == 4: jobs.append((w, 'mod', 'n', x, 0))
    p = MOD[64]
    pv = [x % p for x in hv] + [0, 1, 2, p - 1, p - 2, (1 << 4096) % p] + [limbs(64) % p for _ in range(20 * more)]
    for x in pv:
        jobs.append(('4096', 'tofield', 'n', x, 0)); jobs.append(('4096', 'fromfield', 'n', x, 0))
        for y in [p - 1, 1, rng.choice(pv)]: jobs.append(('4096', 'fieldmul', 'n', x, y))
    exps = []
    for bits, k in ((256, 14), (512, 10), (4096, 3)):
        for e in [0, 1, (1 << bits) - 1, 1 << (bits - 1), int('0123456789abcdef' * (bits // 64), 16), int('fedcba9876543210' * (bits // 64), 16)][:k] + [limbs(bits // 64) for _ in range(k * more)]:
            exps.append(('4096', 'exp', 'n', rng.choice(pv), e, bits))
    jobs += exps + [('4096', 'exp', 'n', x, 3, 256) for x in (0, 1, p - 1)]
    out = batch(h, [('hacl', j[0], j[1], j[2], '%x' % j[3], '%x' % j[4]) + tuple(j[5:]) for j in jobs])
    for j, r in out:
        w, op, al, x, y = j[1], j[2], j[3], int(j[4], 16), int(j[5], 16)
        n = 4 if w == '256' else 64
        W_, mod = 1 << (64 * n), MOD[n]
        if al in ('ab', 'abr'): y = x
        Ri = None
        if op in ('tofield', 'fromfield', 'fieldmul'): Ri = pow(W_, -1, mod)
        ret, val = 0, 0
        if op == 'add': ret, val = (x + y) // W_, (x + y) % W_
        elif op == 'sub': ret, val = int(x < y), (x - y) % W_
        elif op == 'lt': ret = B64 - 1 if x < y else 0
        elif op == 'eq': ret = B64 - 1 if x == y else 0
        elif op == 'mul': val = x * y
        elif op == 'sqr': val = x * x
        elif op == 'addmod': val = (x + y) % mod
        elif op in ('mod', 'modpre'): val = x % mod; ret = int(op == 'mod')
        elif op == 'exp': val = pow(x, y, mod)
        elif op == 'tofield': val = x * W_ % mod
        elif op == 'fromfield': val = x * Ri % mod
        elif op == 'fieldmul': val = x * y * Ri % mod
        ex_, ey = (val if al in ('ra', 'abr') else x), (val if al in ('rb', 'abr') else y)
        if al == 'ab': ey = x
        want = ['ok'] + ['%x' % v for v in (ret, val, ex_, ey)] + ['1']
        yield None if r == want else {'what': 'Hacl %s-bit %s' % (w, op), 'aliasing': al, 'a': hex(x), 'b': hex(y), 'expected': want, 'got': r}
    for w, n in (('256', 4), ('4096', 64)):
        jb = []
        for ln in list(range(1, 8 * n + 1)):
            for _ in range(1 if n == 64 else 4):
                b = bytes(rng.choice((0, 255, rng.randrange(256))) for _ in range(ln)) if rng.random() < .6 else bytes(rng.getrandbits(8) for _ in range(ln))
                jb.append(('haclfrom', w, b.hex()))
        for _ in range(60): jb.append(('haclto', w, '%x' % limbs(n)))
        for j, r in batch(h, jb):
            if j[0] == 'haclfrom': want = ['ok', '%x' % int(j[2], 16), j[2]]
            else: want = ['ok', '%0*x' % (16 * n, int(j[2], 16)) + '5a' * 8, j[2]]
            yield None if r == want else {'what': j[0], 'width': w, 'input': j[2], 'expected': want, 'got': r}
