"""Run-time values and memory of the symbolic executor."""
import z3

class Unsupported(Exception):
    """construct outside the verifier's reach: the obligation is undecided, never a violation"""
class CppThrow(Exception):
    def __init__(self, cls, msg=None):
        self.cls, self.msg = cls, msg
    def __str__(self):
        return 'throw %s' % self.cls
class UB(Exception):
    """undefined behaviour reached on a feasible path (null dereference, out-of-bounds access)"""
class Infeasible(Exception):
    pass
class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v
class BreakEx(Exception):
    pass
class ContinueEx(Exception):
    pass

TRAIL = [None]      # current undo trail (list) or None
def log_undo(fn):
    t = TRAIL[-1]
    if t is not None:
        t.append(fn)

SER = [0]
def serial():
    SER[0] += 1
    return SER[0]

class Cell:
    __slots__ = ('v', 'ser')
    def __init__(self, v=None):
        self.v = v
        SER[0] += 1
        self.ser = SER[0]
    def get(self):
        return self.v
    def set(self, v):
        t = TRAIL[-1]
        if t is not None:
            old = self.v
            t.append((self, old))
        self.v = v
    def __repr__(self):
        return 'Cell(%r)' % (self.v,)

class Null:
    def __repr__(self):
        return 'NULL'
NULL = Null()

class Ptr:
    """pointer to a single location"""
    __slots__ = ('loc',)
    def __init__(self, loc):
        self.loc = loc
    def __repr__(self):
        return 'Ptr(%r)' % (self.loc,)

class APtr:
    """pointer into an indexable (Buf, ArrayObj, Vec)"""
    __slots__ = ('base', 'i')
    def __init__(self, base, i):
        self.base, self.i = base, i
    def __repr__(self):
        return 'APtr(%r,%r)' % (self.base, self.i)

class UPtr:
    """unique_ptr / shared_ptr value"""
    __slots__ = ('p', 'shared')
    def __init__(self, p, shared=False):
        self.p = p
        self.shared = shared
    def __repr__(self):
        return 'UPtr(%r)' % (self.p,)

class Obj:
    __slots__ = ('cls', 'f', 'ghost')
    def __init__(self, cls):
        self.cls = cls
        self.f = {}
        self.ghost = None
    def __repr__(self):
        return 'Obj(%s)' % self.cls.qn

class Elem:
    """abstract group element: kind 'P' or 'Q', val PTerm/QTerm"""
    __slots__ = ('kind', 'val', 'tag')
    def __init__(self, kind, val, tag=None):
        # tag: a name for a value outside [0, modulus) that is congruent to val (the order q itself)
        self.kind, self.val, self.tag = kind, val, tag
    def __repr__(self):
        return 'Elem%s(%r)' % (self.kind, self.val)

class Opaque:
    """opaque value identified by a key (time points, handles)"""
    __slots__ = ('kind', 'key')
    def __init__(self, kind, key=None):
        self.kind, self.key = kind, key
    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.kind, self.key)
    def __eq__(self, o):
        return isinstance(o, Opaque) and (self.kind, self.key) == (o.kind, o.key)
    def __hash__(self):
        return hash((self.kind, self.key))

class RefWrap:
    __slots__ = ('loc',)
    def __init__(self, loc):
        self.loc = loc

class Vec:
    """std::vector (also initializer_list, queue): list of locations"""
    __slots__ = ('items', 'etype', 'ser')
    def __init__(self, items=None, etype=None):
        self.ser = serial()
        self.items = items if items is not None else []
        self.etype = etype
    def mut(self):
        t = TRAIL[-1]
        if t is not None:
            old = self.items
            self.items = old.copy()
            t.append((self, 'items', old))
        return self.items
    def at(self, i):
        if isinstance(i, int):
            if 0 <= i < len(self.items):
                return self.items[i]
            raise UB('vector index %d out of range (size %d)' % (i, len(self.items)))
        if hasattr(self.items, 'segs'):
            import star
            return star.at(self.items, i)
        raise Unsupported('symbolic vector index')
    def __len__(self):
        return len(self.items)
    def __repr__(self):
        return 'Vec(%d)' % len(self.items) if isinstance(self.items, list) else 'Vec(*)'

class MapV:
    """std::map / unordered_map / set: list of (key, loc) in insertion order (sorted when iterated, if ordered)"""
    __slots__ = ('items', 'ordered', 'is_set', 'vtype', 'ser')
    def __init__(self, ordered=True, is_set=False):
        self.ser = serial()
        self.items = []
        self.ordered, self.is_set = ordered, is_set
        self.vtype = None
    def mut(self):
        t = TRAIL[-1]
        if t is not None:
            old = self.items
            self.items = list(old)
            t.append((self, 'items', old))
        return self.items

class Iter:
    __slots__ = ('c', 'i')
    def __init__(self, c, i):
        self.c, self.i = c, i
    def __repr__(self):
        return 'Iter(%r)' % (self.i,)

class Pair:
    __slots__ = ('f',)
    def __init__(self, *locs):
        self.f = list(locs)

class Variant:
    __slots__ = ('idx', 'loc', 'alts')
    def __init__(self, idx, loc, alts):
        self.idx, self.loc, self.alts = idx, loc, alts

class Closure:
    __slots__ = ('params', 'body', 'env', 'tu', 'this')
    def __init__(self, params, body, env, tu, this):
        self.params, self.body, self.env, self.tu, self.this = params, body, env, tu, this

class FuncRef:
    __slots__ = ('fn', 'name')
    def __init__(self, fn, name):
        self.fn, self.name = fn, name

class OStream:
    __slots__ = ('parts', 'ser')
    def __init__(self):
        self.parts = []
        self.ser = serial()
    def mut(self):
        t = TRAIL[-1]
        if t is not None:
            old = self.parts
            self.parts = list(old)
            t.append((self, 'parts', old))
        return self.parts

class SymStr:
    """symbolic string: identified by an interned node; ordered and compared through an integer rank"""
    __slots__ = ('node',)
    def __init__(self, node):
        self.node = node
    def __eq__(self, o):
        return isinstance(o, SymStr) and self.node == o.node
    def __hash__(self):
        return hash(('SymStr', self.node))
    def __repr__(self):
        return 'Str%r' % (self.node,)

class ArrayObj:
    """C array / std::array of non-numeric elements (possibly nested), lazily materialised"""
    __slots__ = ('n', 'items', 'mk', 'ser')
    def __init__(self, n, mk):
        self.n, self.items, self.mk = n, {}, mk
        self.ser = serial()
    def at(self, i):
        if not isinstance(i, int):
            return self.sym_at(i)
        if not 0 <= i < self.n:
            raise UB('array index %d out of range (size %d)' % (i, self.n))
        if i not in self.items:
            v = self.mk()
            c = Cell(v)
            c.ser = self.ser          # materialised lazily: as old as the array itself
            if hasattr(v, 'ser'):
                v.ser = self.ser
            self.items[i] = c
        return self.items[i]
    def sym_at(self, i):
        return SymIdx(self, i)

class SymIdx:
    """location arr[i] for symbolic i"""
    __slots__ = ('arr', 'i')
    def __init__(self, arr, i):
        self.arr, self.i = arr, i
    def get(self):
        return self

def undo_to(trail, mark):
    while len(trail) > mark:
        e = trail.pop()
        if callable(e):
            e()
        elif len(e) == 2:
            e[0].v = e[1]
        else:
            setattr(e[0], e[1], e[2])

def is_sym(x):
    return isinstance(x, z3.ExprRef)

def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x

class MVal:
    """multiplicative value mod p used below the group layer: product of base^exp (exp: int or z3 Int).
    base keys are ('R',) for the Montgomery radix or ('v', z3 expr)"""
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f
    @staticmethod
    def of(v):
        if isinstance(v, MVal):
            return v
        if isinstance(v, int):
            if v == 1:
                return MVal({})
            return MVal({('c', v): 1})
        return MVal({('v', v.sexpr()): 1, }) if not is_sym(v) else MVal({('v', v): 1})
    def mul(self, o):
        r = dict(self.f)
        for k, e in o.f.items():
            r[k] = add_exp(r.get(k, 0), e)
            if isinstance(r[k], int) and r[k] == 0:
                del r[k]
        return MVal(r)
    def __repr__(self):
        return 'MVal(%s)' % ', '.join('%s^%s' % (k, e) for k, e in self.f.items())

def add_exp(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return z3.simplify(z(a) + z(b))

class PRes(MVal):
    """limbs of an abstract element mod p (layer 2): the term it denotes; wide = unreduced double-width product"""
    __slots__ = ('t', 'wide')
    def __init__(self, t, wide=False):
        self.f = None
        self.t, self.wide = t, wide
    def __repr__(self):
        return 'PRes(%r)' % (self.t,)

class Buf:
    """numeric array; storage is a list of chunks [start, len, value, be]: value is the mathematical value of the
    chunk's elements in little-endian element order (be=False) or big-endian order (be=True)"""
    __slots__ = ('w', 'n', 'ch', 'eng', 'signed', 'ser')
    def __init__(self, eng, w, n, val=0, signed=False):
        self.ser = serial()
        self.eng, self.w, self.n, self.signed = eng, w, n, signed
        self.ch = [[0, n, val, False]] if n > 0 else []
    def save(self):
        t = TRAIL[-1]
        if t is not None:
            old = self.ch
            t.append((self, 'ch', old))
            t.append((self, 'n', self.n))
        self.ch = [list(c) for c in self.ch]
    def copy(self):
        b = Buf(self.eng, self.w, 0, 0, self.signed)
        b.n = self.n
        b.ch = [list(c) for c in self.ch]
        return b
    def find(self, i):
        for k, c in enumerate(self.ch):
            if c[0] <= i < c[0] + c[1]:
                return k
        raise UB('buffer index %s out of range (size %s)' % (i, self.n))
    def split(self, k):
        """split chunk k into single elements"""
        s, l, v, be = self.ch[k]
        if l == 1:
            return
        if isinstance(v, MVal):
            raise Unsupported('element access into an abstract residue')
        m = 1 << self.w
        parts = []
        if isinstance(v, int):
            for i in range(l):
                parts.append((v >> (self.w * i)) & (m - 1))
        else:
            parts = self.eng.split_value(v, l, self.w)
        if be:
            parts = parts[::-1]
        self.ch[k:k + 1] = [[s + i, 1, p, False] for i, p in enumerate(parts)]
    def cut(self, pos):
        """ensure a chunk boundary at pos"""
        if pos <= 0 or pos >= self.n:
            return
        k = self.find(pos)
        s, l, v, be = self.ch[k]
        if s == pos:
            return
        if isinstance(v, int):
            a = pos - s
            if not be:
                lo = v & ((1 << (self.w * a)) - 1)
                hi = v >> (self.w * a)
                self.ch[k:k + 1] = [[s, a, lo, False], [pos, l - a, hi, False]]
            else:
                bl = l - a
                lo = v & ((1 << (self.w * bl)) - 1)
                hi = v >> (self.w * bl)
                self.ch[k:k + 1] = [[s, a, hi, True], [pos, bl, lo, True]]
        else:
            self.split(k)
    def read(self, i):
        v = self.read_(i)
        return self.eng.wrap(v, 'signed char') if self.signed and self.w == 8 else v
    def read_(self, i):
        if not isinstance(i, int):
            raise Unsupported('symbolic buffer index')
        if not 0 <= i < self.n:
            raise UB('buffer index %d out of range (size %d)' % (i, self.n))
        k = self.find(i)
        if self.ch[k][1] != 1:
            s, l, v, be = self.ch[k]
            if isinstance(v, int):
                j = (l - 1 - (i - s)) if be else (i - s)
                return (v >> (self.w * j)) & ((1 << self.w) - 1)
            self.split(k)          # value-preserving: not logged as a write
            k = self.find(i)
        return self.ch[k][2]
    def write(self, i, v):
        if not isinstance(i, int):
            raise Unsupported('symbolic buffer index')
        if not 0 <= i < self.n:
            raise UB('buffer write index %d out of range (size %d)' % (i, self.n))
        if self.signed and self.w == 8:
            v = self.eng.wrap(v, 'unsigned char')
        self.save()
        self.cut(i)
        self.cut(i + 1)
        k = self.find(i)
        self.ch[k] = [i, 1, v, False]
    def block(self, start, ln, be=False):
        """value of elements [start, start+ln)"""
        if ln == 0:
            return 0
        if start < 0 or start + ln > self.n:
            raise UB('buffer read [%d,%d) out of range (size %d)' % (start, start + ln, self.n))
        for c in self.ch:
            if c[0] == start and c[1] == ln:
                if c[3] == be or ln == 1:
                    return c[2]
                break
        self.cut(start)
        self.cut(start + ln)
        parts = [c for c in self.ch if c[0] >= start and c[0] + c[1] <= start + ln]
        # orientation
        if any(c[3] != be and c[1] > 1 for c in parts):
            for c in list(parts):
                if c[3] != be and c[1] > 1:
                    self.split(self.find(c[0]))
            parts = [c for c in self.ch if c[0] >= start and c[0] + c[1] <= start + ln]
        tot = 0
        for c in parts:
            off = (c[0] - start) if not be else (start + ln - (c[0] + c[1]))
            v = c[2]
            if isinstance(v, MVal):
                others = [x for x in parts if x is not c]
                if all(isinstance(x[2], int) and x[2] == 0 for x in others) and off == 0:
                    return v
                raise Unsupported('mixed abstract block')
            t = v if off == 0 else v * (1 << (self.w * off))
            tot = t if (isinstance(tot, int) and tot == 0) else (tot if isinstance(t, int) and t == 0 else tot + t)
        r = self.eng.recombine(parts, tot, be)
        return tot if r is None else r
    def setblock(self, start, ln, v, be=False):
        if ln == 0:
            return
        if start < 0 or start + ln > self.n:
            raise UB('buffer write [%d,%d) out of range (size %d)' % (start, start + ln, self.n))
        self.save()
        self.cut(start)
        self.cut(start + ln)
        self.ch = [c for c in self.ch if c[0] + c[1] <= start or c[0] >= start + ln]
        self.ch.append([start, ln, v, be])
        self.ch.sort(key=lambda c: c[0])
    def append(self, v):
        if self.signed and self.w == 8:
            v = self.eng.wrap(v, 'unsigned char')
        self.save()
        self.ch.append([self.n, 1, v, False])
        self.n += 1
    def at(self, i):
        return BufCell(self, i)
    def __repr__(self):
        return 'Buf%d[%s]' % (self.w, self.n)

class BufCell:
    __slots__ = ('b', 'i')
    def __init__(self, b, i):
        self.b, self.i = b, i
    def get(self):
        return self.b.read(self.i)
    def set(self, v):
        self.b.write(self.i, v)

class ROBuf(Buf):
    """limbs of an abstract element: readable only"""
    def write(self, i, v):
        raise Unsupported('write into the limbs of an abstract element')
    def setblock(self, *a, **k):
        raise Unsupported('write into the limbs of an abstract element')
