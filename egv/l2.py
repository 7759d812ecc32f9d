"""Layer-2 contracts: ElementModP / ElementModQ as abstract group elements, hash_elems as an uninterpreted hash of its
encoded items.  The same specification is what the layer-1 obligations (C01-C03, C12) establish for the bodies."""
import z3
from values import *
from terms import *
import terms
import star
from engine import Engine, Frame, norm_type, tmpl, DEFAULT

NS = 'electionguard::'
PC, QC = NS + 'ElementModP', NS + 'ElementModQ'

def mkp(v):
    return Elem('P', v)
def mkq(v):
    return Elem('Q', v)
def uptr(v):
    return UPtr(Ptr(Cell(v)))

def bool_atom(kind, *args):
    a = atom(kind, *args)
    return z3.Bool('%s#%d' % (kind, a.id))

def q_eq(a, b):
    d = (a - b)
    if not d.m:
        return True
    if d.is_const():
        return False
    return bool_atom('qzero', d.monic())

def pinv_orderq(t):
    return PTerm({k: -v for k, v in t.f.items()})

def p_eq(a, b):
    if a == b:
        return True
    if a.order_q() and b.order_q():
        r = a * pinv_orderq(b)
        if set(r.f) == set(G_TERM.f):
            (e,) = r.f.values()
            return q_eq(e, QTerm({}))
        k = min(r.f)
        # r == 1 : normal form up to inversion
        key = min(r.key(), pinv_orderq(r).key())
        return bool_atom('pone', key)
    if not a.order_q() and not b.order_q():
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return ca == cb
    ks = sorted([a.key(), b.key()], key=repr)
    return bool_atom('peq', tuple(ks))

def const_of(t):
    if t.is_one():
        return 1
    if len(t.f) == 1:
        (k, e), = t.f.items()
        a = Atom.lst[k]
        if a.kind == 'const' and not is_order_q(a) and e.m == {(): 1}:
            return a.args[0]
    return None

def elem_eq(a, b):
    if a.kind != b.kind:
        raise Unsupported('comparison across element kinds')
    return q_eq(a.val, b.val) if a.kind == 'Q' else p_eq(a.val, b.val)

def val(loc):
    v = loc.get()
    if isinstance(v, RefWrap):
        v = v.loc.get()
    if not isinstance(v, Elem):
        raise Unsupported('expected a group element, got %r' % (v,))
    return v

def as_p(e):
    return e.val if e.kind == 'P' else emb(e.val)

# ---------------- hash items ----------------
def item_nodes(eng, v):
    """encoded string node of one hash item; may branch on emptiness / zero"""
    if isinstance(v, Variant):
        return item_nodes(eng, v.loc.get() if v.loc is not None else NULL)
    if v is NULL or v is None:
        return 'null'
    if isinstance(v, RefWrap):
        return item_nodes(eng, v.loc.get())
    if isinstance(v, Ptr):
        return item_nodes(eng, v.loc.get())
    if isinstance(v, UPtr):
        return item_nodes(eng, v.p)
    if isinstance(v, Elem):
        return ('hex' + v.kind, v.tag or v.val)
    if isinstance(v, Obj):
        m = eng.find_method(v.cls, 'crypto_hash')
        if m is None:
            raise Unsupported('hash of %s' % v.cls.qn)
        r = eng.call_function(m, Cell(v), [], virtual=True)
        r = r.get() if eng.is_locv(r) else r
        return item_nodes(eng, r)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return 'null' if v == 0 else str(v)
    if isinstance(v, z3.ArithRef):
        if eng.branch(v == 0):
            return 'null'
        return ('dec', z3.simplify(v).sexpr())
    if isinstance(v, str):
        return v if v else 'null'
    if isinstance(v, SymStr):
        if eng.branch(eng.str_compare('==', v, '')):
            return 'null'
        return ('str', v.node)
    if isinstance(v, Buf):
        if v.w == 8:
            return ('hexbytes', buf_key(eng, v))
        if v.n == 0:
            return 'null'
        return ('hexQ', hash_term(tuple(item_nodes(eng, v.read(i)) for i in range(v.n))))
    if isinstance(v, Vec):
        if not star.nonempty(eng, v.items):
            return 'null'
        return ('hexQ', hash_term(list_nodes(eng, v.items)))
    raise Unsupported('hash item %r' % (v,))

def list_nodes(eng, items):
    out = []
    for c, r in star.visible(items):
        out.append(item_nodes(eng, c.get()) if r is None else ('star', r.base, r.order, item_nodes(eng, c.get())))
    return tuple(out)

def buf_key(eng, b):
    if b.n == 0:
        return (0, ())
    r = b.block(0, b.n, True) if b.w == 8 else b.block(0, b.n)
    return (b.n, r if isinstance(r, int) else z3.simplify(r).sexpr())

def hash_term(items):
    return qatom('H', items)

def hash_contract(eng, this, args, f):
    v = args[0].get()
    if isinstance(v, Vec):
        if v.etype is not None and 'variant' not in (v.etype or '') and False:
            pass
        items = list_nodes(eng, v.items) if star.nonempty(eng, v.items) else ('null',)
        return uptr(mkq(hash_term(items)))
    return uptr(mkq(hash_term((item_nodes(eng, v),))))

# ---------------- group contracts ----------------
class AbsElem:
    def __init__(self, kind):
        self.kind = kind
    def copy(self, eng, loc):
        return Elem(self.kind, loc.get().val, loc.get().tag)
    def move(self, eng, loc):
        return Elem(self.kind, loc.get().val, loc.get().tag)
    def construct(self, eng, args, atypes):
        v = args[0].get() if args else None
        if isinstance(v, Elem):
            return Elem(self.kind, v.val, v.tag)
        if isinstance(v, Buf):
            # element from limbs: the integer they denote
            x = v.block(0, v.n) if v.n else 0
            if isinstance(x, PRes):
                if x.wide or self.kind != 'P':
                    raise Unsupported('element from an unreduced product')
                return Elem('P', x.t)
            if isinstance(x, int):
                return Elem(self.kind, QTerm.const(x) if self.kind == 'Q' else pconst(x))
            k = z3.simplify(x).sexpr()
            return Elem(self.kind, qatom('limbs', k) if self.kind == 'Q' else patom('limbs', k))
        raise Unsupported('construction of element from %r' % (v,))

def hex_eq(kind, a, b):
    if not isinstance(a, (QTerm, PTerm)) or not isinstance(b, (QTerm, PTerm)):
        return None
    return q_eq(a, b) if kind == 'hexQ' else p_eq(a, b)

def install(eng):
    C = eng.contracts
    eng.hex_eq = hex_eq
    eng.abstract[PC] = AbsElem('P')
    eng.abstract[QC] = AbsElem('Q')
    def c(name):
        def deco(fn):
            for n in (name if isinstance(name, (list, tuple)) else [name]):
                C[NS + n] = fn
            return fn
        return deco
    def const_fn(name, e):
        key = ('elemconst', name)
        def h(eng, this, args, f):
            if key not in eng.statics:
                eng.statics[key] = Cell(e)
            return eng.statics[key]
        C[NS + name] = h
    const_fn('G', mkp(G_TERM))
    const_fn('R', mkp(patom('R')))
    const_fn('P', mkp(patom('Pmod')))
    const_fn('ZERO_MOD_P', mkp(pconst(0)))
    const_fn('ONE_MOD_P', mkp(ONE))
    const_fn('TWO_MOD_P', mkp(pconst(2)))
    const_fn('Q', mkq_Q())
    const_fn('ZERO_MOD_Q', mkq(QTerm.const(0)))
    const_fn('ONE_MOD_Q', mkq(QTerm.const(1)))
    const_fn('TWO_MOD_Q', mkq(QTerm.const(2)))

    @c('add_mod_q')
    def _(eng, this, args, f):
        if len(args) == 1:
            if not star.nonempty(eng, args[0].get().items):
                raise CppThrow('std::invalid_argument')
            t = QTerm({})
            for x, r in star.visible(args[0].get().items):
                t = t + (val(x).val if r is None else star.bigsum(r, val(x).val))
            return uptr(mkq(t))
        return uptr(mkq(val(args[0]).val + val(args[1]).val))
    @c('sub_mod_q')
    def _(eng, this, args, f):
        return uptr(mkq(val(args[0]).val - val(args[1]).val))
    @c('sub_from_q')
    def _(eng, this, args, f):
        return uptr(mkq(-val(args[0]).val))
    @c('a_plus_bc_mod_q')
    def _(eng, this, args, f):
        return uptr(mkq(val(args[0]).val + val(args[1]).val * val(args[2]).val))
    @c('mul_mod_p')
    def _(eng, this, args, f):
        if len(args) == 1:
            r = ONE
            for x, root in star.visible(args[0].get().items):
                t = as_p(variant_elem(x.get()))
                r = r * (t if root is None else star.bigprod(root, t))
            return uptr(mkp(r))
        return uptr(mkp(val(args[0]).val * val(args[1]).val))
    @c('add_mod_p')
    def _(eng, this, args, f):
        a, b = val(args[0]).val, val(args[1]).val
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None and ca + cb < 2**4000:
            return uptr(mkp(pconst(ca + cb)))
        ks = tuple(sorted([a, b], key=lambda t: repr(t.key())))
        return uptr(mkp(patom('addp', ks)))
    @c('mod_p')
    def _(eng, this, args, f):
        return uptr(mkp(val(args[0]).val))
    @c('pow_mod_p')
    def _(eng, this, args, f):
        b, e = val(args[0]), val(args[1])
        if e.kind == 'Q':
            return uptr(mkp(ppow(b.val, e.val)))
        return uptr(mkp(ppow_p(b.val, e.val)))
    @c('g_pow_p')
    def _(eng, this, args, f):
        e = val(args[0])
        return uptr(mkp(ppow(G_TERM, e.val) if e.kind == 'Q' else ppow_p(G_TERM, e.val)))
    @c('rand_q')
    def _(eng, this, args, f):
        eng.ghost['rand'] = eng.ghost.get('rand', 0) + 1
        return uptr(mkq(qatom('rand', eng.ghost['rand'])))
    @c('rand_p')
    def _(eng, this, args, f):
        eng.ghost['rand'] = eng.ghost.get('rand', 0) + 1
        return uptr(mkp(patom('randp', eng.ghost['rand'])))
    @c('hash_elems')
    def _(eng, this, args, f):
        return hash_contract(eng, this, args, f)
    for cls, kind in ((PC, 'P'), (QC, 'Q')):
        def reg(nm, fn, cls=cls):
            C[cls + '::' + nm] = fn
        reg('operator==', lambda eng, this, args, f: elem_eq(val(this), val(args[0])))
        def ne(eng, this, args, f):
            r = elem_eq(val(this), val(args[0]))
            return (not r) if isinstance(r, bool) else z3.Not(r)
        reg('operator!=', ne)
        def assign(eng, this, args, f):
            this.set(Elem(val(this).kind, val(args[0]).val, val(args[0]).tag))
            return this
        reg('operator=', assign)
        reg('clone', lambda eng, this, args, f: uptr(Elem(val(this).kind, val(this).val, val(this).tag)))
        reg('toHex', lambda eng, this, args, f: SymStr(('hex' + val(this).kind, val(this).tag or val(this).val)))
        def tobytes(eng, this, args, f, kind=kind):
            e = val(this)
            v = z3.Int('be%s#%d' % (kind, atom('bytes', kind, e.val).id))
            n = 512 if kind == 'P' else 32
            key = ('tobytes', kind, e.val)
            if key not in eng.ghost:
                eng.ghost[key] = True
                eng.fact(v >= 0)
                eng.fact(v < 1 << (8 * n))
            b = Buf(eng, 8, n, v)
            b.ch[0][3] = True
            return b
        reg('toBytes', tobytes)
        reg('setIsFixedBase', lambda eng, this, args, f: None)
        reg('isFixedBase', lambda eng, this, args, f: eng.fresh('fixedBase', 'bool'))
        def fromuint(eng, this, args, f, kind=kind):
            x = args[0].get()
            return uptr(elem_of_int(eng, kind, x))
        reg('fromUint64', fromuint)
        def fromhex(eng, this, args, f, kind=kind):
            x = args[0].get()
            if isinstance(x, SymStr) and x.node[0] == 'hex' + kind and not isinstance(x.node[1], str):
                return uptr(Elem(kind, x.node[1]))
            if isinstance(x, str):
                return uptr(elem_of_int(eng, kind, int(x, 16)))
            k = ('fromhex', x.node)
            return uptr(Elem(kind, qatom(*k) if kind == 'Q' else patom(*k)))
        reg('fromHex', fromhex)
    C[QC + '::isInBounds'] = lambda eng, this, args, f: neg(q_eq(val(this).val, QTerm({})))
    C[PC + '::isInBounds'] = lambda eng, this, args, f: True if val(this).val.order_q() else (
        const_of(val(this).val) != 0 if const_of(val(this).val) is not None else bool_atom('pinb', val(this).val))
    C[PC + '::isValidResidue'] = valid_residue
    C[QC + '::toElementModP'] = lambda eng, this, args, f: uptr(mkp(emb(val(this).val)))
    def b2q(kind):
        def h(eng, this, args, f):
            if isinstance(args[0].get(), Buf):
                b = args[0].get()
                n = b.n
                off = 0
            else:
                p = args[0].get()
                b, off = p.base, p.i
                n = args[1].get()
            x = b.block(off, n, True)
            if is_sym(x) and x.decl().name().startswith('be'):
                a = Atom.lst[int(x.decl().name().split('#')[1])]
                if a.kind == 'bytes' and a.args[0] == kind:
                    return uptr(Elem(kind, a.args[1]))
            return uptr(elem_of_int(eng, kind, x))
        return h
    def qlt(eng, this, args, f):
        a, b = val(this).val, val(args[0]).val
        if b.is_const() and b.value() <= 16:
            r = [q_eq(a, QTerm.const(k)) for k in range(b.value())]
            if any(x is True for x in r):
                return True
            r = [x for x in r if x is not False]
            return z3.Or(*r) if r else False
        if a == b:
            return False
        return bool_atom('qlt', a, b)
    C[QC + '::operator<'] = qlt
    def plt(eng, this, args, f):
        a, b = val(this).val, val(args[0]).val
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return ca < cb
        if a == b:
            return False
        return bool_atom('plt', a, b)
    C[PC + '::operator<'] = plt
    def pget(eng, this, args, f):
        b = ROBuf(eng, 64, 64, PRes(val(this).val))
        return APtr(b, 0)
    C[PC + '::get'] = pget
    # HACL routines applied directly to the limbs of elements (ElGamalCiphertext::decrypt)
    import l1
    def res(loc, n):
        v = l1.rd(eng, loc, n)
        if isinstance(v, PRes):
            return v
        if isinstance(v, int):
            return PRes(pconst(v))
        raise Unsupported('limbs of %r' % (v,))
    def isP(loc):
        if res(loc, 64).t != patom('Pmod'):
            raise Unsupported('modulus other than p')
    def mexp(eng, this, a, f):
        isP(a[0])
        b, bits, e = res(a[1], 64).t, a[2].get(), None
        l = a[3].get()
        e = res(a[3], l.base.n - l.i).t
        x = as_exponent(e)
        small = x is not None and all(len(k) <= 1 for k in x.m) and len(x.m) <= 1 and all(c == 1 or k == () for k, c in x.m.items())
        if isinstance(bits, int) and small and bits >= 256:
            l1.wr(eng, a[4], 64, PRes(ppow_p(b, e)))
        else:
            l1.wr(eng, a[4], 64, PRes(patom('powcut', b, e, str(bits))))
        return True
    C['::Hacl_Bignum4096_mod_exp_consttime'] = C['::Hacl_Bignum4096_mod_exp_vartime'] = mexp
    def minv(eng, this, a, f):
        isP(a[0])
        t = res(a[1], 64).t
        l1.wr(eng, a[2], 64, PRes(pinv_orderq(t) if t.order_q() else patom('pinv', t)))
        return True
    C['::Hacl_Bignum4096_mod_inv_prime_vartime'] = minv
    def wmul(eng, this, a, f):
        l1.wr(eng, a[2], 128, PRes(res(a[0], 64).t * res(a[1], 64).t, True))
    C['::Hacl_Bignum4096_mul'] = wmul
    def wmod(eng, this, a, f):
        isP(a[0])
        l1.wr(eng, a[2], 64, PRes(res(a[1], 128).t))
        return True
    C['::Hacl_Bignum4096_mod'] = wmod
    import stl
    C['::Lib_Memzero0_memzero'] = lambda eng, this, a, n: stl.memzero(eng, a[0].get(), a[1].get())
    def hmac(eng, this, a, f):
        d, k, kl, m, ml = (x.get() for x in a)
        bs = hmac_bytes(eng, stl.byte_key(eng, k.base, k.i, kl), stl.byte_key(eng, m.base, m.i, ml) if ml else ())
        for i, v in enumerate(bs):
            d.base.write(d.i + i, v)
    C['::Hacl_HMAC_compute_sha2_256'] = hmac
    C[NS + 'bytes_to_q'] = b2q('Q')
    C[NS + 'bytes_to_p'] = b2q('P')

def hmac_bytes(eng, key, msg):
    """HMAC-SHA-256 as an uninterpreted function of its key and message bytes"""
    a = atom('hmac', key, msg)
    out = []
    for i in range(32):
        v = z3.Int('hmac#%d.%d' % (a.id, i))
        if v.get_id() not in eng.byte_ids:
            eng.fact(z3.And(v >= 0, v <= 255))
            eng.byte_ids[v.get_id()] = v
        out.append(v)
    return out

def mkq_Q():
    return Elem('Q', QTerm.const(0), 'order')

def valid_residue(eng, this, args, f):
    t = val(this).val
    if t.order_q():
        return True
    return bool_atom('vres', t)

def neg(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)

def elem_of_int(eng, kind, x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return Elem(kind, QTerm.const(x) if kind == 'Q' else pconst(x))
    t = qint(x)
    return Elem(kind, t if kind == 'Q' else emb(t))

def qint(x):
    """QTerm of a z3 integer expression (linear combinations are kept linear so that sums normalise)"""
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return QTerm.const(x.as_long())
    if z3.is_add(x):
        r = QTerm({})
        for ch in x.children():
            r = r + qint(ch)
        return r
    if z3.is_mul(x):
        r = QTerm.const(1)
        for ch in x.children():
            r = r * qint(ch)
        return r
    if z3.is_sub(x):
        ch = x.children()
        r = qint(ch[0])
        for y in ch[1:]:
            r = r - qint(y)
        return r
    return qatom('int', x.sexpr())

def variant_elem(v):
    if isinstance(v, Variant):
        v = v.loc.get()
    if isinstance(v, UPtr):
        v = v.p
    if isinstance(v, Ptr):
        v = v.loc.get()
    if isinstance(v, RefWrap):
        v = v.loc.get()
    if not isinstance(v, Elem):
        raise Unsupported('expected element in list')
    return v
