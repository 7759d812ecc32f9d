"""helpers shared by the property modules"""
import z3
from runner import Ctx, Ob, Failed, Undecided
from values import *
from terms import *
import l1, l2
import consts
from consts import P as PI, Q as QI, G as GI, R as RI

NS = 'electionguard::'
L1_TUS = ['src/electionguard/group.cpp', 'src/electionguard/facades/Hacl_Bignum256.cpp', 'src/electionguard/facades/Hacl_Bignum4096.cpp']
L1_TRUST = ['clang 18 front end (AST of the real sources)', 'egv verification-condition generator and its C++/std models', 'z3 4.x',
            'contracts on the HACL* C routines called (Hacl_Bignum256/4096_*, Hacl_GenericField64_*): exact integer results; discharged on their bodies by C20',
            'memory allocation succeeds']
L2_TRUST = ['clang 18 front end (AST of the real sources)', 'egv verification-condition generator and its C++/std models', 'z3 4.x',
            'contracts on the group layer (mod-q / mod-p arithmetic, equality, bounds): established on the bodies by C01-C03 for canonical operands',
            'contract on hash_elems (SHA-256 of the item encoding, as an uninterpreted function): established on the body by C12',
            'random numbers are arbitrary residues', 'memory allocation succeeds']

class L1:
    """limb-level objects: elements of the real classes whose data array denotes a symbolic integer"""
    def __init__(self, ctx):
        self.ctx, self.eng, self.prog = ctx, ctx.eng, ctx.prog
    def var(self, name, lo, hi):
        v = z3.Int(name)
        self.eng.fact(z3.And(v >= lo, v <= hi))
        return v
    def q(self, v):
        b = Buf(self.eng, 64, 4, v)
        return Cell(self.eng.construct(self.prog.classes[NS + 'ElementModQ'], [Cell(b), Cell(True)], ['uint64_t[4]', 'bool']))
    def p(self, v, fixed=False):
        b = Buf(self.eng, 64, 64, v)
        return Cell(self.eng.construct(self.prog.classes[NS + 'ElementModP'], [Cell(b), Cell(True), Cell(fixed)], ['uint64_t[64]', 'bool', 'bool']))
    def impl(self, loc):
        o = loc.get() if hasattr(loc, 'get') else loc
        if isinstance(o, UPtr):
            o = o.p.loc.get() if o.p is not NULL else None
        elif isinstance(o, Ptr):
            o = o.loc.get()
        if o is None:
            raise UB('null result')
        return o.f['pimpl'].get().p.loc.get()
    def val(self, loc):
        d = self.impl(loc).f['data'].get()
        return d.block(0, d.n)
    def fixed(self, loc):
        return self.impl(loc).f['isFixedBase'].get()

def eqv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return z(a) == z(b)

def result_loc(r):
    return r

class L2:
    """abstract-element objects of the real classes"""
    def __init__(self, ctx):
        self.ctx, self.eng, self.prog = ctx, ctx.eng, ctx.prog
        self.K = patom('K', order_q=True)
    def E(self, v):
        if isinstance(v, int):
            v = QTerm.const(v)
        return Cell(Elem('P' if isinstance(v, PTerm) else 'Q', v))
    def U(self, v):
        """unique_ptr to an element"""
        return Cell(UPtr(Ptr(self.E(v)))) if v is not None else Cell(UPtr(NULL))
    def make(self, cls, args, types=None):
        c = self.prog.classes[NS + cls]
        return Cell(self.eng.construct(c, args, types or [None] * len(args)))
    def ct(self, a, b):
        return self.make('ElGamalCiphertext', [self.U(a), self.U(b)], ['std::unique_ptr<ElementModP>'] * 2)
    def enc(self, m, r, K=None):
        K = self.K if K is None else K
        return ppow(G_TERM, r), ppow(G_TERM, QTerm.const(m) if isinstance(m, int) else m) * ppow(K, r)
    def get(self, obj, name, *args):
        """call a getter of the real class; returns the value"""
        o = self.obj(obj)
        m = self.eng.find_method(o.cls, name)
        if m is None:
            raise Unsupported('no method %s in %s' % (name, o.cls.qn))
        r = self.eng.call_function(m, Cell(o), [a if hasattr(a, 'get') else Cell(a) for a in args], virtual=True)
        return r.get() if self.eng.is_locv(r) else r
    def obj(self, x):
        while True:
            if hasattr(x, 'loc') and not isinstance(x, (Obj, Variant)):
                x = x.loc.get()
            elif hasattr(x, 'get') and not isinstance(x, Obj):
                x = x.get()
            elif isinstance(x, UPtr):
                x = x.p
            elif x is NULL:
                return None
            else:
                return x
    def el(self, x):
        """element term behind a pointer / reference / value"""
        x = self.obj(x)
        return None if x is None else x.val
    def g(self, obj, name):
        return self.el(self.get(obj, name))
    def triple(self, e, K=None):
        K = self.K if K is None else K
        return Cell(UPtr(Ptr(self.make('Triple', [self.U(e), self.U(ppow(G_TERM, e)), self.U(ppow(K, e))], ['std::unique_ptr<ElementModQ>'] + ['std::unique_ptr<ElementModP>'] * 2))))
    def quad(self, e1, e2, K=None):
        K = self.K if K is None else K
        return Cell(UPtr(Ptr(self.make('Quadruple', [self.U(e1), self.U(e2), self.U(ppow(G_TERM, e1)), self.U(ppow(G_TERM, e2) * ppow(K, e1))],
                        ['std::unique_ptr<ElementModQ>'] * 2 + ['std::unique_ptr<ElementModP>'] * 2))))
    def ttq(self, e1, e2, q1, q2, K=None):
        return Cell(UPtr(Ptr(self.make('TwoTriplesAndAQuadruple', [self.triple(e1, K), self.triple(e2, K), self.quad(q1, q2, K)],
                        ['std::unique_ptr<Triple>'] * 2 + ['std::unique_ptr<Quadruple>']))))

def zbool(r):
    return z3.BoolVal(r) if isinstance(r, bool) else (r if isinstance(r, z3.BoolRef) else z(r) != 0)
def zand(*l):
    return z3.And(*[zbool(x) for x in l])
