"""Deductive verifier for the multi-limb C code (src/karamel).

The real C functions are taken from clang's AST of the current tree and executed symbolically.  Two value domains share
one executor:

 * Poly - machine words are integer polynomials over atoms.  An operation that may wrap introduces a fresh low word `l`
   and high part `h` with the defining equation  l = e - 2^k*h,  0 <= l < 2^k.  A postcondition such as
   "sum of result limbs = A*B" is decided by eliminating every defined atom (exact polynomial identity over the
   integers, no solver), with linear side conditions handed to z3.
 * BV - machine words are z3 bit vectors, used for the mask/comparison/byte functions and for the carry primitives.

Array lengths and loop bounds in this code are constants of the call, so loops run to completion: nothing is bounded.
Callees named in `contracts` are replaced by their contract, every such contract being itself an obligation.
"""
import json, os, subprocess, itertools, heapq
from fractions import Fraction
from math import lcm
import sys
import z3
sys.set_int_max_str_digits(0)

from values import Unsupported
class Fault(Exception):
    """an access outside an object, or another memory error"""
class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class Infeasible(Exception):
    """the case split contradicts the facts"""
class _Continue(Exception): pass

# ---------------------------------------------------------------- AST
class TU:
    def __init__(self, path, flags):
        p = subprocess.run(['clang', '-x', 'c', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + flags + [path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            raise Unsupported('clang failed on %s: %s' % (path, p.stderr.decode(errors='replace')[:300]))
        t = json.loads(p.stdout)
        self.funcs, self.globals = {}, {}
        self.enumdecls = [d for d in t['inner'] if d['kind'] == 'EnumDecl']
        for d in t['inner']:
            if d['kind'] == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
                self.funcs[d['name']] = d
            if d['kind'] == 'VarDecl':
                self.globals[d['id']] = d
        self.path = path

def typ(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

WIDTH = {'unsigned long': 64, 'unsigned long long': 64, 'long': 64, 'long long': 64, 'unsigned int': 32, 'int': 32, 'unsigned char': 8,
         'char': 8, 'signed char': 8, 'unsigned short': 16, 'short': 16, '_Bool': 1, 'bool': 1, 'unsigned __int128': 128, '__int128': 128,
         'uint64_t': 64, 'uint32_t': 32, 'uint8_t': 8, 'uint16_t': 16, 'size_t': 64, '__uint64_t': 64, '__uint32_t': 32, '__uint8_t': 8, '__uint16_t': 16,
         'uint128_t': 128, 'FStar_UInt128_uint128': 128, '__uint128_t': 128, 'int32_t': 32, 'int64_t': 64, '__int32_t': 32, '__int64_t': 64}
def ctype(s):
    """('i', width, signed) | ('p', elem) | ('a', n, elem) | ('v',) | ('s', name)"""
    s = s.strip()
    for q in ('const ', 'volatile ', 'restrict '):
        s = s.replace(q, '')
    s = s.replace(' const', '').strip()
    if s.endswith(']'):
        i = s.index('[')
        return ('a', int(s[i + 1:s.index(']')]), ctype(s[:i]))
    if s.endswith('*'):
        return ('p', ctype(s[:-1]))
    if s == 'void':
        return ('v',)
    if s in WIDTH:
        return ('i', WIDTH[s], s in ('int', 'long', 'long long', 'short', 'signed char', 'char', '__int128', 'int32_t', 'int64_t', '__int32_t', '__int64_t'))
    return ('s', s)
def sizeof(t):
    if t[0] == 'i': return max(1, t[1] // 8)
    if t[0] == 'p': return 8
    if t[0] == 'a': return t[1] * sizeof(t[2])
    if t[0] == 's' and 'mont_ctx' in t[1]: return 32      # {uint32_t; pointer; uint64_t; pointer}
    raise Unsupported('sizeof %r' % (t,))

# ---------------------------------------------------------------- memory
class Block:
    def __init__(self, n, esz, name, fill=None):
        self.esz, self.name, self.freed = esz, name, False
        self.c = [fill] * n
        self.written = 0
class Ptr:
    __slots__ = ('b', 'o')
    def __init__(self, b, o=0): self.b, self.o = b, o
NULL = Ptr(None, 0)
class Struct:
    def __init__(self, f=None): self.f = dict(f or {})

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t',)
    def __init__(self, t=None): self.t = t or {}
    @staticmethod
    def const(c): return Poly({(): c} if c else {})
    def __add__(self, o):
        o = P(o)
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            return Poly({m: c * o for m, c in self.t.items()} if o else {})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v: r[m] = v
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def value(self): return self.t.get((), 0)
    def key(self): return frozenset(self.t.items())
    def atoms(self): return {a for m in self.t for a in m}
def P(x): return x if isinstance(x, Poly) else Poly.const(x)

class Sel:
    """a word that depends on a small selector: d[v] when the selector is v, else the default"""
    __slots__ = ('s', 'dflt', 'd')
    def __init__(self, s, dflt, d): self.s, self.dflt, self.d = s, dflt, d
    def at(self, v): return self.d.get(v, self.dflt)
    def map(self, f):
        return Sel(self.s, f(self.dflt), {v: f(x) for v, x in self.d.items()})

def modulo(v, n):
    if type(v) is Fraction: return v.numerator * pow(v.denominator, -1, n) % n
    return v % n

class PolyDom:
    name = 'poly'
    def __init__(self, decisions=()):
        self.lo, self.hi, self.nm, self.defn = [], [], [], {}
        self.memo = {}
        self.decisions, self.pos, self.taken = list(decisions), 0, []
        self.pending = []      # alternative decision prefixes discovered
        self.facts = []        # (poly >= 0)
        self.depth = 6
        self.cut = set()       # atoms kept as variables in solver queries
    def atom(self, name, lo, hi):
        self.lo.append(lo); self.hi.append(hi); self.nm.append(name)
        return Poly({(len(self.lo) - 1,): 1})
    def array(self, name, n, w=64):
        """n fresh words whose weighted sum is the aggregate atom"""
        A = self.atom(name, 0, (1 << (w * n)) - 1)
        ls = [None] + [self.atom('%s[%d]' % (name, i), 0, (1 << w) - 1) for i in range(1, n)]
        l0 = self.atom('%s[0]' % name, 0, (1 << w) - 1)
        d = A
        for i in range(1, n):
            d = d - ls[i] * (1 << (w * i))
        self.defn[next(iter(l0.t))[0]] = d
        ls[0] = l0
        return A, ls
    def range(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            l, h = 1, 1
            for a in m:
                x = (l * self.lo[a], l * self.hi[a], h * self.lo[a], h * self.hi[a])
                l, h = min(x), max(x)
            if c > 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi
    def norm(self, p, mod=None, stop=(), limit=None, test=None):
        """eliminate every atom that has a definition (newest first), coefficients modulo `mod` if given;
        atoms in `stop` are kept; with `limit`, at most so many eliminations, ending early when test(terms) holds"""
        t = dict(P(p).t)
        defn = self.defn
        idx, heap = {}, []
        def reg(m):
            for a in m:
                if a in defn and a not in stop:
                    s = idx.get(a)
                    if s is None:
                        idx[a] = s = set(); heapq.heappush(heap, -a)
                    s.add(m)
        for m in t: reg(m)
        n = 0
        while heap:
            a = -heapq.heappop(heap)
            ms = idx.pop(a, None)
            if not ms: continue
            if limit is not None:
                n += 1
                if n > limit or (test and test(t)): break
            d = defn[a].t
            for m in ms:
                c = t.pop(m, 0)
                if not c: continue
                l = list(m); l.remove(a); rest = tuple(l)
                for m2, c2 in d.items():
                    mm = tuple(sorted(rest + m2)) if rest and m2 else (rest or m2)
                    v = t.get(mm, 0) + c * c2
                    if mod: v = modulo(v, mod)
                    elif type(v) is Fraction and v.denominator == 1: v = v.numerator
                    if v:
                        if mm not in t: reg(mm)
                        t[mm] = v
                    else: t.pop(mm, None)
        return Poly(t)
    def split(self, p, k):
        """(low k bits, rest) of an integer expression"""
        if p.is_const():
            v = p.value()
            return P(v & ((1 << k) - 1)), P(v >> k)
        key = (p.key(), k)
        if key in self.memo: return self.memo[key]
        lo, hi = self.range(p)
        if lo >= 0 and hi < 1 << k:
            r = (p, P(0))
        elif hi - lo <= 2 and hi - lo < 1 << k:
            v = self.decide(p, lo, hi)
            return P(v & ((1 << k) - 1)), P(v >> k)
        else:
            big = lambda t: all(x % (1 << k) == 0 for m, x in t.items() if m)
            # terms that are multiples of 2^k, and a remainder that stays below 2^k: no carry between them
            hi_t = {m: x for m, x in p.t.items() if x % (1 << k) == 0}
            lo_p = Poly({m: x for m, x in p.t.items() if x % (1 << k)})
            rl, rh = self.range(lo_p)
            if rl >= 0 and rh < 1 << k:
                r = (lo_p, Poly({m: x >> k for m, x in hi_t.items()}))
                self.memo[key] = r
                return r
            q = self.norm(p, limit=self.depth, test=big)
            if any(type(x) is Fraction for x in q.t.values()): q = p
            l2, h2 = self.range(q)
            if q.is_const():
                r = (P(q.value() & ((1 << k) - 1)), P(q.value() >> k))
                self.memo[key] = r
                return r
            c = q.t.get((), 0)
            if all(x % (1 << k) == 0 for m, x in q.t.items() if m) and q.t != p.t and p.atoms() & self.cut:
                # the low part is a constant because of how a product in p was chosen: keep that product as it is
                c %= 1 << k
                h = self.atom('x%d' % len(self.lo), lo - c >> k, hi - c >> k)
                self.defn[next(iter(h.t))[0]] = (p - c) * Fraction(1, 1 << k)
                r = (P(c), h)
            elif all(x % (1 << k) == 0 for m, x in q.t.items() if m):
                r = (P(c % (1 << k)), Poly({m: x >> k for m, x in q.t.items()}) if c % (1 << k) == 0 else
                     Poly({m: (x >> k) for m, x in (q - (c % (1 << k))).t.items()}))
            elif l2 >= 0 and h2 < 1 << k:
                r = (p, P(0))
            else:
                lo, hi = max(lo, l2), min(hi, h2)
                h = self.atom('h%d' % len(self.lo), lo >> k, hi >> k)
                l = self.atom('l%d' % len(self.lo), 0, (1 << k) - 1)
                self.defn[next(iter(l.t))[0]] = p - h * (1 << k)
                r = (l, h)
        self.memo[key] = r
        return r
    def decide(self, p, lo, hi):
        """split the proof on the value of p"""
        p0 = self.norm(p)
        if p0.is_const(): return p0.value()
        small = [m[0] for m in p0.t if len(m) == 1]
        if 1 < len(small) <= 3 and all(len(m) <= 1 for m in p0.t) and all(self.hi[a] - self.lo[a] <= 1 and a not in self.defn for a in small):
            for a in small: self.decide(Poly({(a,): 1}), self.lo[a], self.hi[a])
            return self.norm(p0).value()
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = lo
            for alt in range(lo + 1, hi + 1):
                self.pending.append(self.taken + [alt])
        self.pos += 1
        self.taken.append(v)
        if len(self.taken) > 60: raise Unsupported('too many cases')
        cand = [m[0] for m, c in p0.t.items() if len(m) == 1 and abs(c) == 1]
        if not cand:
            self.facts.append(p0 - v); self.facts.append(P(v) - p0)
            self.prune()
            return v
        a = max(cand)
        c = p0.t[(a,)]
        rest = p0 - Poly({(a,): c})
        # c*a + rest = v  ->  a = (v - rest)*c
        self.defn[a] = (P(v) - rest) * c
        self.prune()
        return v
    def prune(self):
        if self.pos > len(self.decisions) - 1 and self._refute(None, True, 3000, only=True): raise Infeasible()
    # --- solver
    def z3facts(self, every=False, real=False):
        cons, seen = [], {}
        const = z3.RealVal if real else z3.IntVal
        def zt(m):
            k = m
            if k not in seen:
                v = (z3.Real if real else z3.Int)('m' + '_'.join(map(str, m)))
                seen[k] = v
                l, h = 1, 1
                for a in m:
                    x = (l * self.lo[a], l * self.hi[a], h * self.lo[a], h * self.hi[a])
                    l, h = min(x), max(x)
                cons.append(v >= l); cons.append(v <= h)
            return seen[k]
        def ze(p):
            """(factor, z3 term of factor*p)"""
            f = lcm(*[c.denominator for c in p.t.values() if type(c) is Fraction])
            if f != 1: p = Poly({m: int(c * f) for m, c in p.t.items()})
            return f, z3.Sum([const(c) if not m else const(c) * zt(m) for m, c in p.t.items()] or [const(0)])
        fs = []
        for f in self.facts:
            q = self.norm(f, stop=self.cut)
            if not q.is_const() : fs.append(q)
            elif q.value() < 0: return None, None
        for a, d in self.defn.items():
            if a in self.cut: continue
            q = self.norm(Poly({(a,): 1}), stop=self.cut)
            if every or len(q.t) <= 6:
                if q.is_const():
                    if not self.lo[a] <= q.value() <= self.hi[a]: return None, None
                else:
                    fs.append(q - self.lo[a]); fs.append(self.hi[a] - q)
        for q in fs:
            cons.append(ze(q)[1] >= 0)
        return cons, ze
    def _refute(self, p, short, timeout, only=False):
        """no values satisfy the facts and p <= -1 (p None: and nothing else); p is integer valued.
        First over the reals (linear programming), then over the integers."""
        for real, every in ((True, False),) if only else ((True, False), (False, False)) if short else ((True, False), (True, True), (False, False), (False, True)):
            cons, ze = self.z3facts(every, real)
            if cons is None: return True     # contradictory path
            s = z3.Solver(); s.set('timeout', timeout)
            if p is not None:
                f, e = ze(self.norm(p, stop=self.cut))
                cons.append(e <= -f)
            for c in cons: s.add(c)
            self.queries += 1
            r = s.check()
            if r == z3.unsat: return True
            if r == z3.sat and every and not real: return False
        return False
    queries = 0
    def ge0(self, p, short=False, timeout=10000): return self._refute(p, short, timeout)
    def eq(self, p, v, short=False): return self.ge0(p - v, short) and self.ge0(P(v) - p, short)
    def infeasible(self): return self._refute(None, False, 10000)
    quiet = False
    def note(self, limbs, w):
        if self.quiet: return
        """0 <= sum of words < 2^(w n): a linear consequence of the word ranges"""
        s = P(0)
        for i, x in enumerate(limbs):
            if not isinstance(x, (int, Poly)): return
            s = s + P(x) * (1 << (w * i))
        q = self.norm(s, stop=self.cut)
        if q.is_const(): return
        self.facts.append(q)
        self.facts.append(P((1 << (w * len(limbs))) - 1) - q)
    # --- operations on words
    def wrap(self, p, w):
        r = self.split(P(p), w)[0]
        return r.value() if r.is_const() else r
    def binop(self, op, a, b, w, signed):
        if isinstance(a, Sel) or isinstance(b, Sel):
            s = (a if isinstance(a, Sel) else b).s
            f = lambda x, y: self.arith(op, x, y, w, signed)
            if not isinstance(a, Sel): return b.map(lambda y: f(a, y))
            if not isinstance(b, Sel): return a.map(lambda x: f(x, b))
            if a.s.t != b.s.t: raise Unsupported('two selectors')
            return Sel(s, f(a.dflt, b.dflt), {v: f(a.at(v), b.at(v)) for v in a.d.keys() | b.d.keys()})
        a, b = P(a), P(b)
        if op == '+': return self.wrap(a + b, w)
        if op == '-': return self.wrap(a - b, w)
        if op == '*':
            n0 = len(self.lo)
            r = self.wrap(a * b, w)
            if isinstance(r, Poly) and w == 64 and (a.is_const() or b.is_const()):
                # a multiplier such as Montgomery's q: a name of its own, kept as a variable in solver queries
                if not (len(r.t) == 1 and min(r.atoms()) >= n0):
                    lo, hi = self.range(r)
                    v = self.atom('q%d' % n0, max(lo, 0), min(hi, (1 << w) - 1))
                    self.defn[next(iter(v.t))[0]] = r
                    r = v
                self.cut |= r.atoms()
            return r
        if op == '<<' and b.is_const(): return self.wrap(a * (1 << b.value()), w)
        if op == '>>' and b.is_const():
            r = self.split(a, b.value())[1]
            return r.value() if r.is_const() else r
        M = (1 << w) - 1
        if op in ('&', '|', '^'):
            for x, y in ((a, b), (b, a)):
                if not x.is_const():
                    lo, hi = self.range(x)
                    if hi == lo: x = P(lo)
                if x.is_const():
                    v = x.value()
                    yy = y.value() if y.is_const() else y
                    if y.is_const():
                        return {'&': v & yy, '|': v | yy, '^': v ^ yy}[op]
                    if op == '&' and v == 0: return 0
                    if op == '&' and v == M: return yy
                    if op in '|^' and v == 0: return yy
                    if op == '|' and v == M: return M
                    if op == '^' and v == M: return self.wrap(P(M) - y, w)
                    if op == '&' and v & (v + 1) == 0:
                        r = self.split(y, v.bit_length())[0]
                        return r.value() if r.is_const() else r
            for x, y in ((a, b), (b, a)):
                lo, hi = self.range(x)
                if 0 <= lo and hi <= 1 and not x.is_const():
                    return self.binop(op, self.decide(x, lo, hi), y.value() if y.is_const() else y, w, signed)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            d = self.norm(a - b)
            if d.is_const():
                v = d.value()
                return int({'==': v == 0, '!=': v != 0, '<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0}[op])
            lo, hi = self.range(d)
            if hi - lo <= 2:
                v = self.decide(d, lo, hi)
                return int({'==': v == 0, '!=': v != 0, '<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0}[op])
        if op in ('&', '|', '^'):
            for x, y in ((a, b), (b, a)):
                lo, hi = self.range(x)
                if op != '&' and lo >= 0 and all(c % (1 << max(hi, 0).bit_length()) == 0 for c in y.t.values()): return self.wrap(x + y, w)
            return self.atom('opaque', 0, M)
        if op in ('/', '%') and b.is_const() and b.value() & (b.value() - 1) == 0 and b.value() > 0:
            lo_, hi_ = self.split(a, b.value().bit_length() - 1)
            r = hi_ if op == '/' else lo_
            return r.value() if r.is_const() else r
        raise Unsupported('operator %s on symbolic words' % op)
    def arith(self, op, a, b, w, signed):
        M = (1 << w) - 1
        if op == '&':
            if isinstance(a, int) and a == M: return b
            if isinstance(b, int) and b == M: return a
            if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0: return 0
        if op == '|':
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
        if isinstance(a, int) and isinstance(b, int) and op in '&|^':
            return {'&': a & b, '|': a | b, '^': a ^ b}[op]
        return self.binop(op, a, b, w, signed)
    def invert(self, a, w):
        if isinstance(a, Sel): return a.map(lambda x: ~x & ((1 << w) - 1) if isinstance(x, int) else self.invert(x, w))
        return self.wrap(P((1 << w) - 1) - P(a), w)
    def truth(self, a):
        p = self.norm(P(a))
        if p.is_const(): return p.value() != 0
        lo, hi = self.range(p)
        if lo > 0 or hi < 0: return True
        if hi - lo <= 2: return self.decide(p, lo, hi) != 0
        raise Unsupported('branch on a symbolic word')
    def resize(self, a, w, ws, signed):
        return self.wrap(a, w)

class BVDom:
    name = 'bv'
    taken = ()
    def __init__(self): self.pending = []
    def note(self, limbs, w): pass
    def bv(self, a, w):
        if isinstance(a, int): return z3.BitVecVal(a, w)
        if z3.is_bool(a): a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        s = a.size()
        return a if s == w else (z3.Extract(w - 1, 0, a) if s > w else z3.ZeroExt(w - s, a))
    def binop(self, op, a, b, w, signed):
        if op in ('<<', '>>'):
            a, b = self.bv(a, w), self.bv(b, w)
        else:
            a, b = self.bv(a, w), self.bv(b, w)
        if signed and op in ('<', '>', '<=', '>=', '/', '%', '>>'): raise Unsupported('signed %s' % op)
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
             '<<': lambda: a << b, '>>': lambda: z3.LShR(a, b), '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: z3.ULT(a, b),
             '>': lambda: z3.UGT(a, b), '<=': lambda: z3.ULE(a, b), '>=': lambda: z3.UGE(a, b), '/': lambda: z3.UDiv(a, b), '%': lambda: z3.URem(a, b)}[op]()
        return r
    def invert(self, a, w): return ~self.bv(a, w)
    def truth(self, a):
        c = z3.simplify(a if z3.is_bool(a) else a != 0)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        raise Unsupported('branch on a symbolic word')
    def resize(self, a, w, ws, signed):
        if isinstance(a, int): return a & ((1 << w) - 1)
        if w == 1 and not z3.is_bool(a): return self.bv(z3.If(a != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 1)
        return self.bv(a, w)

# ---------------------------------------------------------------- execution
class Exec:
    def __init__(self, tus, dom, contracts=None):
        self.tus, self.D, self.contracts = tus, dom, contracts or {}
        self.steps, self.used = 0, set()
        self.inlined = set()
        self.blocks, self.depth = [], 0     # depth: loop nesting within the current function
    # memory
    def new(self, n, esz, name, fill=None, cells=None):
        b = Block(n, esz, name, fill)
        if cells is not None: b.c = list(cells)
        self.blocks.append(b)
        return Ptr(b, 0)
    def _chk(self, p, i=0):
        if p.b is None: raise Fault('null pointer access')
        if p.b.freed: raise Fault('access to freed memory')
        if not isinstance(i, int): raise Unsupported('symbolic index')
        j = p.o + i
        if not 0 <= j < len(p.b.c): raise Fault('access to element %d of %s, which has %d' % (j, p.b.name, len(p.b.c)))
        return j
    def load(self, p, i=0):
        j = self._chk(p, i)
        v = p.b.c[j]
        if v is None: raise Fault('read of uninitialised memory in %s' % p.b.name)
        return v
    def store(self, p, v, i=0):
        j = self._chk(p, i)
        p.b.c[j] = v
        p.b.written += 1
    def words(self, p, n):
        return [self.load(p, i) for i in range(n)]
    def put(self, p, ws):
        for i, x in enumerate(ws): self.store(p, x, i)
        self.D.note(ws, p.b.esz * 8)
    # calls
    def find(self, name, tu=None):
        for t in ([tu] if tu else []) + self.tus:
            if name in t.funcs: return t, t.funcs[name]
        return None, None
    def call(self, name, args, tu=None, top=False):
        if name in self.contracts and not top:
            self.used.add(name)
            return self.contracts[name](self, *args)
        b = getattr(self, 'b_' + name, None)
        if b: return b(*args)
        t, f = self.find(name, tu)
        if f is None: raise Unsupported('no body for %s' % name)
        self.inlined.add(name)
        env = {}
        ps = [c for c in f['inner'] if c['kind'] == 'ParmVarDecl']
        for p, a in zip(ps, args):
            ct = ctype(typ(p))
            if ct[0] == 'i' and not isinstance(a, Ptr): a = self.D.resize(a, ct[1], ct[1], ct[2]) if not isinstance(a, int) else a & ((1 << ct[1]) - 1)
            env[p['id']] = a
        body = [c for c in f['inner'] if c['kind'] == 'CompoundStmt'][0]
        depth, self.depth = self.depth, 0
        try:
            self.stmt(body, env, t)
        except _Return as r:
            return r.v
        finally:
            self.depth = depth
        return None
    # builtins
    def b_memset(self, p, v, n):
        if not isinstance(n, int) or not isinstance(v, int) : raise Unsupported('memset')
        if n % p.b.esz if p.b else 0: raise Unsupported('memset size')
        w = int.from_bytes(bytes([v & 255]) * p.b.esz, 'little')
        for i in range(n // p.b.esz): self.store(p, w, i)
        return p
    def b_memcpy(self, d, s, n):
        if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
        if n == 0: return d
        if d.b is None or s.b is None: raise Fault('memcpy on null')
        if d.b.esz == s.b.esz:
            if n % d.b.esz: raise Unsupported('memcpy size')
            k = n // d.b.esz
            vs = [self.load(s, i) for i in range(k)]
            for i, x in enumerate(vs): self.store(d, x, i)
            return d
        if s.b.esz == 1 and n % d.b.esz == 0:
            e = d.b.esz
            bs = [self.load(s, i) for i in range(n)]
            for i in range(n // e): self.store(d, self.join(bs[i * e:(i + 1) * e]), i)
            return d
        if d.b.esz == 1 and n % s.b.esz == 0:
            e = s.b.esz
            for i in range(n // e):
                for j, x in enumerate(self.cut(self.load(s, i), e)): self.store(d, x, i * e + j)
            return d
        raise Unsupported('memcpy between element sizes')
    b_memmove = b_memcpy
    b___builtin_memcpy = b_memcpy
    b___builtin_memset = b_memset
    def join(self, bs):
        if all(isinstance(x, int) for x in bs): return int.from_bytes(bytes(bs), 'little')
        if self.D.name == 'bv': return z3.Concat(*[self.D.bv(x, 8) for x in reversed(bs)])
        r = P(0)
        for i, x in enumerate(bs): r = r + P(x) * (1 << (8 * i))
        return r
    def cut(self, x, e):
        if isinstance(x, int): return list(x.to_bytes(e, 'little'))
        if self.D.name == 'bv': return [z3.Extract(8 * j + 7, 8 * j, self.D.bv(x, 8 * e)) for j in range(e)]
        raise Unsupported('bytes of a symbolic word')
    def bswap(self, x, e):
        return self.join(list(reversed(self.cut(x, e))))
    def b___bswap_64(self, x): return self.bswap(x, 8)
    def b___builtin_bswap64(self, x): return self.bswap(x, 8)
    def b___builtin_bswap32(self, x): return self.bswap(x, 4)
    def b_calloc(self, n, m):
        if not isinstance(n, int) or not isinstance(m, int): raise Unsupported('calloc of symbolic size')
        p = self.new(n, m, 'calloc', 0)
        p.b.heap = True
        return p
    def b_malloc(self, n):
        return ('raw', n)
    def b___builtin_alloca(self, n):
        return ('raw', n)
    b_alloca = b___builtin_alloca
    def b_free(self, p):
        if p.b is not None:
            if p.b.freed: raise Fault('double free')
            p.b.freed = True
    # statements
    def stmt(self, n, env, tu):
        self.steps += 1
        if self.steps > 40000000: raise Unsupported('too many steps')
        k = n.get('kind')
        if k == 'CompoundStmt':
            for c in n.get('inner', []): self.stmt(c, env, tu)
        elif k == 'DeclStmt':
            for d in n['inner']:
                if d['kind'] != 'VarDecl': raise Unsupported(d['kind'])
                self.decl(d, env, tu)
        elif k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            before = [(b, b.written) for b in self.blocks] if not self.depth else []
            self.depth += 1
            if init.get('kind'): self.stmt(init, env, tu)
            while not cond.get('kind') or self.truth(self.expr(cond, env, tu)):
                try: self.stmt(body, env, tu)
                except _Break: break
                except _Continue: pass
                if inc.get('kind'): self.expr(inc, env, tu)
            self.depth -= 1
            for b, w in before:
                if b.written != w and not b.freed and len(b.c) > 1: self.D.note(b.c, b.esz * 8)
        elif k in ('WhileStmt',):
            while self.truth(self.expr(n['inner'][0], env, tu)):
                try: self.stmt(n['inner'][1], env, tu)
                except _Break: break
                except _Continue: pass
        elif k == 'DoStmt':
            while True:
                try: self.stmt(n['inner'][0], env, tu)
                except _Break: break
                except _Continue: pass
                if not self.truth(self.expr(n['inner'][1], env, tu)): break
        elif k == 'IfStmt':
            i = n['inner']
            if self.truth(self.expr(i[0], env, tu)): self.stmt(i[1], env, tu)
            elif len(i) > 2: self.stmt(i[2], env, tu)
        elif k == 'ReturnStmt':
            raise _Return(self.expr(n['inner'][0], env, tu) if n.get('inner') else None)
        elif k == 'BreakStmt': raise _Break()
        elif k == 'ContinueStmt': raise _Continue()
        elif k in ('NullStmt',): pass
        elif k is None: pass
        else: self.expr(n, env, tu)
    def decl(self, d, env, tu):
        ct = ctype(typ(d))
        init = [c for c in d.get('inner', []) if 'Comment' not in c['kind']]
        if ct[0] == 'a':
            n, e = ct[1], ct[2]
            if e[0] not in 'ip': raise Unsupported('array of %r' % (e,))
            p = self.new(n, sizeof(e), d['name'])
            if init:
                il = init[0]
                if il['kind'] != 'InitListExpr': raise Unsupported(il['kind'])
                vals = [c for c in (il.get('array_filler') or il.get('inner') or []) if c['kind'] != 'ImplicitValueInitExpr']
                p.b.c = [0] * n
                for i, c in enumerate(vals): p.b.c[i] = self.expr(c, env, tu)
            env[d['id']] = p
            return
        if ct[0] == 's':
            env[d['id']] = Struct()
            if init:
                v = self.expr(init[0], env, tu)
                if not isinstance(v, Struct): raise Unsupported('struct initialiser')
                env[d['id']] = Struct(v.f)
            return
        cell = None
        if init:
            cell = self.expr(init[0], env, tu)
        env[d['id']] = cell
    def truth(self, v):
        if isinstance(v, int): return v != 0
        if isinstance(v, Ptr): return v.b is not None
        return self.D.truth(v)
    # expressions
    def lval(self, n, env, tu):
        k = n['kind']
        if k == 'ParenExpr': return self.lval(n['inner'][0], env, tu)
        if k == 'DeclRefExpr':
            return ('var', n['referencedDecl']['id'])
        if k == 'ArraySubscriptExpr':
            p, i = self.expr(n['inner'][0], env, tu), self.expr(n['inner'][1], env, tu)
            if not isinstance(p, Ptr): p, i = i, p
            if not isinstance(i, int): raise Unsupported('symbolic index')
            return ('mem', p, i)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            return ('mem', self.expr(n['inner'][0], env, tu), 0)
        if k == 'MemberExpr':
            if n.get('isArrow'):
                p = self.expr(n['inner'][0], env, tu)
                s = p.b.c[p.o] if isinstance(p, Ptr) and p.b else None
            else:
                l = self.lval(n['inner'][0], env, tu)
                s = env[l[1]] if l[0] == 'var' else l[1].b.c[l[1].o + l[2]]
            if not isinstance(s, Struct): raise Unsupported('member of a non-struct')
            return ('fld', s, n['name'])
        raise Unsupported('lvalue ' + k)
    def rd(self, l, env):
        if l[0] == 'var':
            v = env.get(l[1])
            if v is None: raise Fault('read of an uninitialised variable')
            if isinstance(v, Ptr) and getattr(v.b, 'scalar', False): return self.load(v)
            return v
        if l[0] == 'mem': return self.load(l[1], l[2])
        v = l[1].f.get(l[2])
        if v is None: raise Fault('read of an uninitialised field')
        return v
    def wr(self, l, v, env):
        if isinstance(v, Struct): v = Struct(v.f)
        if l[0] == 'var':
            o = env.get(l[1])
            if isinstance(o, Ptr) and o.b is not None and getattr(o.b, 'scalar', False): self.store(o, v)
            else: env[l[1]] = v
        elif l[0] == 'mem': self.store(l[1], v, l[2])
        else: l[1].f[l[2]] = v
    def arith(self, op, a, b, w, signed):
        if isinstance(a, int) and isinstance(b, int):
            if op == '/' or op == '%':
                if b == 0: raise Fault('division by zero')
                if signed: raise Unsupported('signed division') if a < 0 or b < 0 else None
                r = a // b if op == '/' else a % b
            elif op in ('<<', '>>'):
                if not 0 <= b < w: raise Fault('shift by %d' % b)
                r = a << b if op == '<<' else a >> b
            elif op in ('==', '!=', '<', '>', '<=', '>='):
                return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
            else: r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]
            r &= (1 << w) - 1
            if signed and r >> (w - 1): r -= 1 << w
            return r
        return self.D.binop(op, a, b, w, signed)
    def binary(self, op, a, b, ct):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                if isinstance(b, Ptr): a, b = b, a
                if not isinstance(b, int): raise Unsupported('symbolic offset')
                return Ptr(a.b, a.o + b)
            if op == '-' and isinstance(b, int): return Ptr(a.b, a.o - b)
            if op == '-' and isinstance(b, Ptr) and a.b is b.b: return a.o - b.o
            if op in ('==', '!='):
                za = isinstance(a, int) and a == 0 or isinstance(a, Ptr) and a.b is None
                zb = isinstance(b, int) and b == 0 or isinstance(b, Ptr) and b.b is None
                same = (za and zb) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b and a.o == b.o)
                return int(same == (op == '=='))
            raise Unsupported('pointer %s' % op)
        return self.arith(op, a, b, ct[1], ct[2])
    def expr(self, n, env, tu):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'): return self.expr(n['inner'][0], env, tu)
        if k == 'IntegerLiteral': return int(n['value'])
        if k == 'CharacterLiteral': return n['value']
        if k == 'StringLiteral': return ('str', n.get('value'))
        if k == 'DeclRefExpr':
            if n['referencedDecl']['kind'] == 'FunctionDecl': return ('fn', n['referencedDecl']['name'])
            return self.rd(self.lval(n, env, tu), env) if n['referencedDecl']['id'] in env else self.glob(n, env, tu)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n.get('castKind')
            if ck == 'NullToPointer': return NULL
            v = self.expr(n['inner'][0], env, tu)
            if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ArrayToPointerDecay'): return v
            if ck == 'ToVoid': return None
            ct = ctype(typ(n))
            if ck == 'BitCast':
                if isinstance(v, tuple) and v[0] == 'raw' and ct[0] == 'p' and ct[1][0] in 'is':
                    e = sizeof(ct[1])
                    if not isinstance(v[1], int) or v[1] % e: raise Unsupported('alloca size')
                    return self.new(v[1] // e, e, 'alloca' if ct[1][0] == 'i' else 'struct')
                if isinstance(v, Ptr) and v.b is not None and ct[0] == 'p' and ct[1][0] == 'i' and sizeof(ct[1]) != v.b.esz:
                    if getattr(v.b, 'heap', False) and not v.b.written and v.o == 0:
                        tot = len(v.b.c) * v.b.esz
                        v.b.c = [v.b.c[0] if v.b.c else 0] * (tot // sizeof(ct[1])); v.b.esz = sizeof(ct[1])
                    else: return v
                return v
            if ck in ('IntegralCast',):
                if isinstance(v, int):
                    r = v & ((1 << ct[1]) - 1)
                    if ct[2] and r >> (ct[1] - 1): r -= 1 << ct[1]
                    return r
                st = ctype(typ(n['inner'][0]))
                return self.D.resize(v, ct[1], st[1], st[2])
            if ck in ('IntegralToBoolean', 'PointerToBoolean'):
                if isinstance(v, (int, Ptr)): return int(self.truth(v))
                return self.D.binop('!=', v, 0, ctype(typ(n['inner'][0]))[1], False)
            raise Unsupported('cast ' + str(ck))
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                v = self.expr(n['inner'][1], env, tu)
                self.wr(self.lval(n['inner'][0], env, tu), v, env)
                return v
            if op == ',':
                self.expr(n['inner'][0], env, tu); return self.expr(n['inner'][1], env, tu)
            if op == '&&':
                return int(self.truth(self.expr(n['inner'][0], env, tu)) and self.truth(self.expr(n['inner'][1], env, tu)))
            if op == '||':
                return int(self.truth(self.expr(n['inner'][0], env, tu)) or self.truth(self.expr(n['inner'][1], env, tu)))
            a, b = self.expr(n['inner'][0], env, tu), self.expr(n['inner'][1], env, tu)
            if op in ('==', '!=', '<', '>', '<=', '>='): ct = ctype(typ(n['inner'][0]))
            else: ct = ctype(typ(n))
            return self.binary(op, a, b, ct)
        if k == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            l = self.lval(n['inner'][0], env, tu)
            a, b = self.rd(l, env), self.expr(n['inner'][1], env, tu)
            t = n.get('computeResultType', {})
            ct = ctype(t.get('desugaredQualType', t.get('qualType', typ(n))))
            v = self.binary(op, a, b, ct)
            rt = ctype(typ(n))
            if rt[0] == 'i' and rt[1] < ct[1]:
                v = v & ((1 << rt[1]) - 1) if isinstance(v, int) else self.D.resize(v, rt[1], ct[1], ct[2])
            self.wr(l, v, env)
            return v
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                l = self.lval(n['inner'][0], env, tu)
                a = self.rd(l, env)
                v = self.binary(op[0], a, 1, ctype(typ(n['inner'][0])) if not isinstance(a, Ptr) else None)
                self.wr(l, v, env)
                return a if n.get('isPostfix') else v
            if op == '&':
                l = self.lval(n['inner'][0], env, tu)
                if l[0] == 'mem': return Ptr(l[1].b, l[1].o + l[2])
                if l[0] == 'var':
                    o = env.get(l[1])
                    if isinstance(o, Ptr) and getattr(o.b, 'scalar', False): return o
                    if isinstance(o, Struct):
                        return self.new(1, 8, 'struct', cells=[o])
                    p = self.new(1, sizeof(ctype(typ(n['inner'][0]))), 'local', cells=[o])
                    p.b.scalar = True
                    env[l[1]] = p
                    return p
                raise Unsupported('address of field')
            if op == '*': return self.rd(self.lval(n, env, tu), env)
            v = self.expr(n['inner'][0], env, tu)
            ct = ctype(typ(n))
            if op == '~':
                if isinstance(v, int):
                    r = ~v & ((1 << ct[1]) - 1)
                    return r - (1 << ct[1]) if ct[2] and r >> (ct[1] - 1) else r
                return self.D.invert(v, ct[1])
            if op == '!': return int(not self.truth(v))
            if op == '-': return self.arith('-', 0, v, ct[1], ct[2])
            if op == '+': return v
            raise Unsupported('unary ' + op)
        if k == 'ArraySubscriptExpr' or k == 'MemberExpr': return self.rd(self.lval(n, env, tu), env)
        if k == 'ConditionalOperator':
            i = n['inner']
            return self.expr(i[1] if self.truth(self.expr(i[0], env, tu)) else i[2], env, tu)
        if k == 'UnaryExprOrTypeTraitExpr':
            if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
            if n.get('argType'):
                t = n['argType']
                return sizeof(ctype(t.get('desugaredQualType', t['qualType'])))
            return sizeof(ctype(typ(n['inner'][0])))
        if k == 'CallExpr':
            f = self.expr(n['inner'][0], env, tu)
            if not (isinstance(f, tuple) and f[0] == 'fn'): raise Unsupported('indirect call')
            return self.call(f[1], [self.expr(a, env, tu) for a in n['inner'][1:]], tu)
        raise Unsupported('expression ' + k)
    def glob(self, n, env, tu):
        raise Unsupported('global %s' % n['referencedDecl'].get('name'))

# ---------------------------------------------------------------- proof driver (polynomial domain)
def paths(run, limit=400):
    """run(dom) for every case split; yields (decisions, result of run)"""
    todo, n = [[]], 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit: raise Unsupported('more than %d cases' % limit)
        dom = PolyDom(d)
        try: r = run(dom)
        except Infeasible: r = None
        todo.extend(dom.pending)
        yield dom, r

def total(ws, w=64):
    s = P(0)
    for i, x in enumerate(ws): s = s + P(x) * (1 << (w * i))
    return s

def zero(dom, p, mod=None):
    """p == 0 (or p = 0 modulo mod), using equalities and, for the carries left over, linear facts"""
    for _ in range(12):
        q = dom.norm(p, mod=mod, stop=dom.cut if mod else ())
        if mod: q = Poly({m: c for m, c in ((m, modulo(c, mod)) for m, c in q.t.items()) if c})
        if not q.t: return True
        done = False
        for m, c in sorted(q.t.items(), key=lambda x: -max(x[0], default=-1)):
            if len(m) != 1: continue
            a = m[0]
            if a in dom.defn or dom.hi[a] - dom.lo[a] > 2: continue
            for v in range(dom.lo[a], dom.hi[a] + 1):
                if dom.eq(Poly({(a,): 1}), v):
                    dom.defn[a] = P(v); done = True
                    break
            if done: break
        if not done:
            return dom.infeasible()
    return False
