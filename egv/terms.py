"""Abstract values for group elements: polynomials over Z_q and multiplicative terms mod p.

QTerm: polynomial with coefficients in Z_q over interned atoms; it denotes a canonical residue in [0,q).
PTerm: product of base^exponent mod p.  Bases are interned atoms; exponents are QTerm (for bases whose
order divides q: generator, public keys and everything derived from them) or opaque exponent sums
(for bases of unknown order).  Equality of normal forms is sound; it is not complete.
"""
import os, re
_Q = None
def load_constants(repo):
    """q and p from the standard-prime block of constants.h of the tree under test is NOT used as oracle:
    the ElectionGuard 1.x standard parameters are published constants; q is fixed here."""
    pass
Q = 2**256 - 189

class Atom:
    __slots__ = ('kind', 'args', 'id', 'nm')
    table = {}
    lst = []
    def __repr__(self):
        return self.nm

def atom(kind, *args, nm=None):
    key = (kind,) + args
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.id = kind, args, len(Atom.lst)
        if nm is None:
            nm = kind if not args else '%s(%s)' % (kind, ','.join(short(x) for x in args))
        a.nm = nm if len(nm) < 120 else nm[:100] + '..#%d' % a.id
        Atom.table[key] = a
        Atom.lst.append(a)
    return a

def short(x):
    if isinstance(x, tuple):
        return '[' + ' '.join(short(y) for y in x) + ']'
    return str(x)

class QTerm:
    __slots__ = ('m', '_h')
    cache = {}
    def __init__(self, m):
        self.m = m          # dict: tuple(atom ids sorted) -> coeff in [1,q)
        self._h = None
    @staticmethod
    def const(c):
        c %= Q
        return QTerm({(): c} if c else {})
    @staticmethod
    def of(a):
        return QTerm({(a.id,): 1})
    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h
    def __hash__(self):
        return hash(self.key())
    def __eq__(self, o):
        return isinstance(o, QTerm) and self.key() == o.key()
    def __add__(self, o):
        o = qlift(o)
        r = dict(self.m)
        for k, v in o.m.items():
            c = (r.get(k, 0) + v) % Q
            if c:
                r[k] = c
            else:
                r.pop(k, None)
        return QTerm(r)
    __radd__ = __add__
    def __neg__(self):
        return QTerm({k: Q - v for k, v in self.m.items()})
    def __sub__(self, o):
        return self + (-qlift(o))
    def __rsub__(self, o):
        return qlift(o) - self
    def __mul__(self, o):
        o = qlift(o)
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                c = (r.get(k, 0) + v1 * v2) % Q
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
        return QTerm(r)
    __rmul__ = __mul__
    def is_const(self):
        return all(k == () for k in self.m)
    def value(self):
        return self.m.get((), 0)
    def monic(self):
        if not self.m:
            return self
        k = min(self.m)
        inv = pow(self.m[k], -1, Q)
        return QTerm({kk: v * inv % Q for kk, v in self.m.items()})
    def single_atom(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1:
                return Atom.lst[k[0]]
        return None
    def subst(self, a, t):
        """replace atom a by term t"""
        r = QTerm({})
        for k, v in self.m.items():
            term = QTerm.const(v)
            for x in k:
                term = term * (t if x == a.id else QTerm.of(Atom.lst[x]))
            r = r + term
        return r
    def __repr__(self):
        if not self.m:
            return '0'
        out = []
        for k, v in sorted(self.m.items()):
            cs = str(v) if v < 10**6 else ('-%d' % (Q - v) if Q - v < 10**6 else '0x%x' % v)
            s = '*'.join(Atom.lst[x].nm for x in k)
            out.append(s if cs == '1' and s else (cs + ('*' + s if s else '')))
        return ' + '.join(out)

def qlift(x):
    if isinstance(x, QTerm):
        return x
    if isinstance(x, int):
        return QTerm.const(x)
    raise TypeError(x)

def qatom(kind, *args, nm=None):
    return QTerm.of(atom(kind, *args, nm=nm))

# ---- P terms -------------------------------------------------------------
class PTerm:
    """f: dict base Atom id -> exponent.  For order-q bases the exponent is a QTerm; for other bases it is
    an XSum (integer combination of opaque exponent atoms).  zero is represented by the constant atom."""
    __slots__ = ('f', '_h')
    def __init__(self, f):
        self.f = f
        self._h = None
    def key(self):
        if self._h is None:
            self._h = tuple(sorted((k, v.key()) for k, v in self.f.items()))
        return self._h
    def __hash__(self):
        return hash(self.key())
    def __eq__(self, o):
        return isinstance(o, PTerm) and self.key() == o.key()
    def __mul__(self, o):
        r = dict(self.f)
        for k, v in o.f.items():
            if k in r:
                s = r[k] + v
            else:
                s = v
            if s.m:
                r[k] = s
            else:
                r.pop(k, None)
        return PTerm(r)
    def is_one(self):
        return not self.f
    def order_q(self):
        return all(is_order_q(Atom.lst[k]) for k in self.f)
    def __repr__(self):
        if not self.f:
            return '1'
        return ' * '.join('%s^(%s)' % (Atom.lst[k].nm, v) for k, v in sorted(self.f.items()))

ORDER_Q = set()
def is_order_q(a):
    return a.id in ORDER_Q

class XSum:
    """integer polynomial exponent for bases of unknown order: monomials over atoms (values are the canonical
    integers those atoms denote), integer coefficients"""
    __slots__ = ('m', '_h')
    def __init__(self, m):
        self.m = m
        self._h = None
    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h
    def __eq__(self, o):
        return isinstance(o, XSum) and self.key() == o.key()
    def __hash__(self):
        return hash(self.key())
    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            c = r.get(k, 0) + v
            if c:
                r[k] = c
            else:
                r.pop(k, None)
        return XSum(r)
    def __mul__(self, o):
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                c = r.get(k, 0) + v1 * v2
                if c:
                    r[k] = c
                else:
                    r.pop(k, None)
        return XSum(r)
    def __repr__(self):
        return ' + '.join((str(v) + '*' if v != 1 else '') + ('*'.join(Atom.lst[x].nm for x in k) or '1') for k, v in sorted(self.m.items())) or '0'

def q_to_xsum(t):
    """canonical integer denoted by a QTerm, as an integer polynomial"""
    if t.is_const():
        c = t.value()
        return XSum({(): c} if c else {})
    a = t.single_atom()
    if a is not None:
        return XSum({(a.id,): 1})
    return XSum({(atom('modq', t).id,): 1})

def xsum_to_q(x):
    r = QTerm({})
    for k, v in x.m.items():
        t = QTerm.const(v)
        for a in k:
            at = Atom.lst[a]
            t = t * (at.args[0] if at.kind == 'modq' else QTerm.of(at))
        r = r + t
    return r

ONE = PTerm({})
def patom(kind, *args, order_q=False, nm=None):
    a = atom(kind, *args, nm=nm)
    if order_q:
        ORDER_Q.add(a.id)
        return PTerm({a.id: QTerm.const(1)})
    return PTerm({a.id: XSum({(): 1})})

G_TERM = patom('G', order_q=True)

def pconst(n):
    """integer constant as a P element; 1 is the unit"""
    if n == 1:
        return ONE
    return patom('const', n)

def emb(q):
    """a Q residue viewed as an element mod p (the integer it denotes)"""
    if q.is_const():
        return pconst(q.value())
    return patom('emb', q)

def as_exponent(p):
    """integer exponent denoted by a P element used as exponent: XSum; exact only for constants, embeddings and
    short products of embeddings (< 2^(256*15) < p, so no reduction mod p happens)"""
    total = 0
    r = XSum({(): 1})
    for k, e in p.f.items():
        a = Atom.lst[k]
        if is_order_q(a):
            return None
        if set(e.m) - {()}:
            return None
        n = e.m.get((), 0)
        if n < 0:
            return None
        total += n
        if a.kind == 'const':
            b = XSum({(): a.args[0]} if a.args[0] else {})
            if a.args[0] >= Q:
                total += 20
        elif a.kind == 'emb':
            b = q_to_xsum(a.args[0])
        else:
            return None
        for _ in range(n):
            r = r * b
    if total > 15:
        return None
    return r

def ppow_x(p, x):
    """p ^ x for an integer polynomial exponent x"""
    r = ONE
    f = {}
    for k, e in p.f.items():
        a = Atom.lst[k]
        if is_order_q(a):
            ne = e * xsum_to_q(x)
        else:
            ne = e * x
        if ne.m:
            f[k] = ne
    return PTerm(f)

def ppow(p, q):
    """p ^ q for a Q residue exponent"""
    return ppow_x(p, q_to_xsum(q)) if not p.order_q() else PTerm({k: v for k, v in ((k, e * q) for k, e in p.f.items()) if v.m})

def ppow_p(p, e):
    x = as_exponent(e)
    if x is None:
        return patom('powP', p, e)
    return ppow_x(p, x)
