"""Layer-1 contracts: the HACL* C functions the group layer calls, stated over the integers their limb arrays denote.
(C20 checks the 256-bit ones against their bodies; the rest are assumed contracts on a dependency.)"""
import z3
from values import *
from engine import Engine

Q_INT = 2**256 - 189
P_INT = None   # set by spec constants
RKEY = ('R',)

class Params:
    """published ElectionGuard standard parameters (checked for their defining relations by the C02 obligations)"""
    p = q = g = r = None

def ptr(loc):
    v = loc.get()
    if v is NULL:
        raise UB('null pointer passed to a limb routine')
    if isinstance(v, APtr):
        return v.base, v.i
    if isinstance(v, Ptr) and isinstance(v.loc.get(), Buf):
        return v.loc.get(), 0
    raise Unsupported('limb pointer %r' % (v,))

def rd(eng, loc, n, be=False):
    b, i = ptr(loc)
    if isinstance(b, SymIdx):
        return gather(eng, b, i, n)
    return b.block(i, n, be)

def wr(eng, loc, n, v, be=False):
    b, i = ptr(loc)
    if isinstance(b, SymIdx):
        raise Unsupported('write through symbolic index')
    b.setblock(i, n, v, be)

def num(eng, v):
    if isinstance(v, MVal):
        raise Unsupported('abstract residue used as integer')
    return v

def gather(eng, s, off, n):
    """value of table[idx] (symbolic idx): all entries are read; entries base^(j*c) combine to base^(idx*c)"""
    arr, idx = s.arr, s.i
    vals = {}
    for j in range(arr.n):
        cell = arr.at(j)
        b = cell.get()
        v = b.block(off, n)
        if not isinstance(v, MVal) and eng.check(z(idx) == j, ms=2000) == z3.unsat:
            continue
        vals[j] = v
    bases = set()
    for v in vals.values():
        if not isinstance(v, MVal):
            raise Unsupported('table entry is not a Montgomery residue')
        bases |= set(v.f)
    out = {}
    for k in bases:
        es = {j: v.f.get(k, 0) for j, v in vals.items()}
        if not all(isinstance(e, int) for e in es.values()):
            raise Unsupported('symbolic table entry exponent')
        js = sorted(es)
        d = es[js[1]] - es[js[0]]
        c0 = es[js[0]] - js[0] * d
        if all(es[j] == c0 + j * d for j in js):
            e = c0 if d == 0 else z3.simplify(z(idx) * d + c0)
        else:
            e = z3.IntVal(es[js[-1]])
            for j in js[:-1]:
                e = z3.If(z(idx) == j, z3.IntVal(es[j]), e)
        if not (isinstance(e, int) and e == 0):
            out[k] = e
    return MVal(out)

def divmod_fact(eng, x, n):
    """(x mod n) for a positive integer constant n"""
    if isinstance(x, int):
        return x % n
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long() % n
    mk = None
    if ('isprod', x.get_id()) in eng.ghost:
        # residues of products: canonical form up to associativity and commutativity
        mk = ('modmono', n, monomial(eng, x, n))
        if mk in eng.ghost:
            return eng.ghost[mk]
    key = ('mod', x.get_id(), n)
    r = eng.ghost.get(key)
    if r is None:
        r = eng.fresh('rem', 'int', 0, n - 1)
        k = eng.fresh('quo', 'int', 0)
        eng.fact(x == k * n + r)
        eng.ghost[key] = r
        eng.ghost[('keep', x.get_id())] = x
        eng.ghost[('keep', r.get_id())] = r
        if mk is not None:
            eng.ghost[mk] = r
            eng.ghost[('mono', r.get_id(), n)] = mk[2]
        # a value already in range is its own residue
        eng.fact(z3.Implies(z3.And(x >= 0, x < n), r == x))
    return r

def monomial(eng, x, n):
    """multiset of factors (expression ids) whose product is congruent to x mod n"""
    i = x.get_id()
    m = eng.ghost.get(('mono', i, n))
    if m is not None:
        return m
    f = eng.ghost.get(('isprod', i))
    if f is not None:
        return tuple(sorted(monomial(eng, f[0], n) + monomial(eng, f[1], n)))
    return (i,)

def product(eng, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x * y
    if isinstance(x, int) or isinstance(y, int):
        return z3.simplify(z(x) * z(y))
    ids = tuple(sorted([x.get_id(), y.get_id()]))
    key = ('prod',) + ids
    r = eng.ghost.get(key)
    if r is None:
        r = eng.fresh('prod', 'int', 0)
        eng.ghost[key] = r
        eng.ghost[('keep', ids)] = (x, y)
        eng.ghost[('isprod', r.get_id())] = (x, y)
        # 0 and 1 are absorbing / neutral
        eng.fact(z3.Implies(z3.Or(x == 0, y == 0), r == 0))
        eng.fact(z3.Implies(x == 1, r == y))
        eng.fact(z3.Implies(y == 1, r == x))
        for hi in (2**256, 2**4096):
            if eng.valid(z3.And(x < hi, y < hi)):
                eng.fact(r <= (hi - 1) ** 2)
                break
    return r

POW = z3.Function('powmod_p', z3.IntSort(), z3.IntSort(), z3.IntSort())
def powmod(eng, b, e, n):
    """b^e mod n (uninterpreted; e=0 and e=1 pinned)"""
    if isinstance(b, int) and isinstance(e, int):
        return pow(b, e, n)
    e = eng.norm_lin(e)
    t = POW(z(b), z(e))
    key = ('pow', t.get_id())
    if key not in eng.ghost:
        eng.ghost[key] = t
        eng.fact(z3.And(t >= 0, t < n))
        eng.fact(z3.Implies(z(e) == 0, t == 1))
        eng.fact(z3.Implies(z3.And(z(e) == 1, z(b) < n), t == z(b)))
    return t

def mval_of(eng, v):
    if isinstance(v, MVal):
        return v
    if isinstance(v, int):
        return MVal({} if v == 1 else {('c', v): 1})
    eng.ghost[('mv', v.get_id())] = v
    return MVal({('v', v.get_id()): 1})

def mval_num(eng, m, n):
    """integer denoted by a Montgomery-free residue"""
    f = {k: e for k, e in m.f.items() if not (isinstance(e, int) and e == 0)}
    if RKEY in f:
        # a residue still carrying the Montgomery radix: an unrelated integer
        return eng.fresh('montres', 'int', 0, n - 1)
    r = None
    for k, e in f.items():
        b = k[1] if k[0] == 'c' else eng.ghost[('mv', k[1])]
        t = powmod(eng, b, e, n)
        if r is None:
            r = t
        else:
            r = divmod_fact(eng, product(eng, r, t), n)
    return 1 if r is None else r

def install(eng):
    C = eng.contracts
    for bits, N in (('256', 4), ('4096', 64)):
        B = 64 * N
        pre = '::Hacl_Bignum%s_' % bits
        def mk(N=N, B=B, pre=pre):
            def add(eng, this, a, n):
                x, y = num(eng, rd(eng, a[0], N)), num(eng, rd(eng, a[1], N))
                if isinstance(x, int) and isinstance(y, int):
                    s = x + y
                    wr(eng, a[2], N, s & ((1 << B) - 1))
                    return s >> B
                c = eng.fresh('carry', 'int', 0, 1)
                s = eng.fresh('sum', 'int', 0, (1 << B) - 1)
                eng.fact(z(x) + z(y) == s + c * (1 << B))
                wr(eng, a[2], N, s)
                return c
            def sub(eng, this, a, n):
                x, y = num(eng, rd(eng, a[0], N)), num(eng, rd(eng, a[1], N))
                if isinstance(x, int) and isinstance(y, int):
                    s = x - y
                    wr(eng, a[2], N, s & ((1 << B) - 1))
                    return 1 if s < 0 else 0
                c = eng.fresh('borrow', 'int', 0, 1)
                s = eng.fresh('diff', 'int', 0, (1 << B) - 1)
                eng.fact(z(x) - z(y) == s - c * (1 << B))
                wr(eng, a[2], N, s)
                return c
            def mul(eng, this, a, n):
                x, y = num(eng, rd(eng, a[0], N)), num(eng, rd(eng, a[1], N))
                wr(eng, a[2], 2 * N, product(eng, x, y))
                return None
            def ltm(eng, this, a, n):
                x, y = num(eng, rd(eng, a[0], N)), num(eng, rd(eng, a[1], N))
                if isinstance(x, int) and isinstance(y, int):
                    return (1 << 64) - 1 if x < y else 0
                return z3.If(z(x) < z(y), z3.IntVal((1 << 64) - 1), z3.IntVal(0))
            def eqm(eng, this, a, n):
                x, y = num(eng, rd(eng, a[0], N)), num(eng, rd(eng, a[1], N))
                if isinstance(x, int) and isinstance(y, int):
                    return (1 << 64) - 1 if x == y else 0
                return z3.If(z(x) == z(y), z3.IntVal((1 << 64) - 1), z3.IntVal(0))
            def mod(eng, this, a, n):
                m = rd(eng, a[0], N)
                if not isinstance(m, int):
                    raise Unsupported('symbolic modulus')
                x = num(eng, rd(eng, a[1], 2 * N))
                if m % 2 == 0 or m <= 1:
                    wr(eng, a[2], N, 0)
                    return False
                wr(eng, a[2], N, divmod_fact(eng, x, m))
                return True
            def ctx_init(eng, this, a, n):
                m = rd(eng, a[0], N)
                if not isinstance(m, int):
                    raise Unsupported('symbolic modulus')
                return Ptr(Cell(Opaque('montctx', (m, N))))
            def modp(eng, this, a, n):
                m = ctxmod(a[0], N)
                x = num(eng, rd(eng, a[1], 2 * N))
                wr(eng, a[2], N, divmod_fact(eng, x, m))
                return None
            def mexp_core(eng, m, av, bits, bloc, res):
                bits = eng.concretize(bits)
                x = num(eng, rd(eng, av, N))
                ln = (bits - 1) // 64 + 1
                e = num(eng, rd(eng, bloc, ln))
                if bits % 64:
                    e = divmod_fact(eng, e, 1 << bits)
                wr(eng, res, N, powmod(eng, x, e, m))
            def mexp_pre(eng, this, a, n):
                mexp_core(eng, ctxmod(a[0], N), a[1], a[2].get(), a[3], a[4])
                return None
            def mexp(eng, this, a, n):
                m = rd(eng, a[0], N)
                if not isinstance(m, int):
                    raise Unsupported('symbolic modulus')
                mexp_core(eng, m, a[1], a[2].get(), a[3], a[4])
                return True
            def frombytes(eng, this, a, n):
                ln = a[0].get()
                if not isinstance(ln, int):
                    raise Unsupported('symbolic byte length')
                if ln == 0:
                    return NULL
                v = rd(eng, a[1], ln, True)
                limbs = (ln - 1) // 8 + 1
                b = Buf(eng, 64, limbs, num(eng, v))
                return APtr(b, 0)
            def tobytes(eng, this, a, n):
                v = num(eng, rd(eng, a[0], N))
                wr(eng, a[1], 8 * N, v, True)
                return None
            C[pre + 'add'], C[pre + 'sub'], C[pre + 'mul'] = add, sub, mul
            C[pre + 'lt_mask'], C[pre + 'eq_mask'], C[pre + 'mod'] = ltm, eqm, mod
            C[pre + 'mont_ctx_init'] = ctx_init
            C[pre + 'mont_ctx_free'] = lambda eng, this, a, n: None
            C[pre + 'mod_precomp'] = modp
            C[pre + 'mod_exp_consttime_precomp'] = C[pre + 'mod_exp_vartime_precomp'] = mexp_pre
            C[pre + 'mod_exp_consttime'] = C[pre + 'mod_exp_vartime'] = mexp
            C[pre + 'new_bn_from_bytes_be'] = frombytes
            C[pre + 'bn_to_bytes_be'] = tobytes
        mk()
    def to_field(eng, this, a, n):
        m, N = ctx(a[0])
        v = mval_of(eng, rd(eng, a[1], N))
        wr(eng, a[2], N, v.mul(MVal({RKEY: 1})))
    def from_field(eng, this, a, n):
        m, N = ctx(a[0])
        v = mval_of(eng, rd(eng, a[1], N)).mul(MVal({RKEY: -1}))
        wr(eng, a[2], N, mval_num(eng, v, m))
    def fmul(eng, this, a, n):
        m, N = ctx(a[0])
        x, y = mval_of(eng, rd(eng, a[1], N)), mval_of(eng, rd(eng, a[2], N))
        wr(eng, a[3], N, x.mul(y).mul(MVal({RKEY: -1})))
    def fsqr(eng, this, a, n):
        m, N = ctx(a[0])
        x = mval_of(eng, rd(eng, a[1], N))
        wr(eng, a[2], N, x.mul(x).mul(MVal({RKEY: -1})))
    def fone(eng, this, a, n):
        m, N = ctx(a[0])
        wr(eng, a[1], N, MVal({RKEY: 1}))
    C['::Hacl_GenericField64_to_field'] = to_field
    C['::Hacl_GenericField64_from_field'] = from_field
    C['::Hacl_GenericField64_mul'] = fmul
    C['::Hacl_GenericField64_sqr'] = fsqr
    C['::Hacl_GenericField64_one'] = fone
    eng.abstract['electionguard::AsyncSemaphore'] = AbsOpaque('semaphore')
    for m in ('wait', 'lock', 'unlock'):
        C['electionguard::AsyncSemaphore::' + m] = lambda eng, this, a, n: None
    import stl
    C['::Lib_Memzero0_memzero'] = lambda eng, this, a, n: stl.memzero(eng, a[0].get(), a[1].get())

class AbsOpaque:
    def __init__(self, kind):
        self.kind = kind
    def copy(self, eng, loc):
        return loc.get()
    def move(self, eng, loc):
        return loc.get()
    def construct(self, eng, args, atypes):
        return Opaque(self.kind)

def ctx(loc):
    v = loc.get()
    if isinstance(v, UPtr):
        v = v.p
    if isinstance(v, Ptr):
        v = v.loc.get()
    if isinstance(v, Opaque) and v.kind == 'montctx':
        return v.key
    raise Unsupported('Montgomery context %r' % (v,))

def ctxmod(loc, N):
    m, n = ctx(loc)
    if n != N:
        raise Unsupported('context width mismatch')
    return m
