from common import *
from ballots import *
import star
import harness as HN, wire as W
LEVEL = 'proof'
TUS = BALLOT_TUS + ENCRYPT_TUS + L1_TUS
TRUST = L2_TRUST + ['implicitly defined copy constructors copy member-wise (C++ standard)']
ASSUME = ['lists of any length where the obligation says so, otherwise of the sizes listed; byte strings of fixed sizes', 'elements are canonical, except where the obligation says any value']
U64 = 2**64 - 1
ANY = 'any'
CLASSES = ['ElGamalKeyPair', 'ElGamalCiphertext', 'HashedElGamalCiphertext', 'DisjunctiveChaumPedersenProof', 'ConstantChaumPedersenProof',
           'PlaintextBallotSelection', 'PlaintextBallotContest', 'PlaintextBallot', 'CiphertextBallotSelection', 'CiphertextBallotContest', 'CiphertextBallot', 'SubmittedBallot',
           'AnnotatedString', 'Language', 'InternationalizedText', 'ContactInformation', 'GeopoliticalUnit', 'BallotStyle', 'Party', 'Candidate', 'SelectionDescription',
           'ContestDescription', 'ContestDescriptionWithPlaceholders', 'Manifest', 'InternalManifest', 'Triple', 'Quadruple', 'TwoTriplesAndAQuadruple',
           'CompactPlaintextBallot', 'CompactCiphertextBallot', 'EncryptionDevice', 'ExtendedData']

ENUMS = ('BallotBoxState', 'ReportingUnitType', 'VoteVariationType', 'ElectionType')

def split_types(t):
    t = t[t.index('(') + 1:t.rindex(')')]
    out, d, cur = [], 0, ''
    for ch in t:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += {'<': 1, '(': 1, '>': -1, ')': -1}.get(ch, 0)
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
def bare(t):
    t = t.strip()
    for w in ('const ', 'electionguard::', 'std::', 'class ', 'enum '):
        while t.startswith(w):
            t = t[len(w):]
    while t.endswith('&') or t.endswith(' const'):
        t = t[:-1].strip() if t.endswith('&') else t[:-6].strip()
    return t
def is_copy(cls, f):
    ts = split_types(f.type)
    return len(ts) == 1 and bare(ts[0]) == cls and '&' in ts[0]

class Builder(B):
    """arbitrary objects of the real classes, from the parameter types of their widest constructor.
    absent: index of the optional part (counted over the whole object) that is missing; size: members per list"""
    def __init__(self, ctx, size=2, absent=None):
        B.__init__(self, ctx)
        self.size, self.absent, self.n, self.opt = size, absent, 0, 0
        self.isopt = False
    def fresh(self):
        self.n += 1
        return 'x%d' % self.n
    def value(self, t, top):
        b = bare(t)
        if b in ('string', 'basic_string<char>'):
            return S(self.fresh())
        if b in ('uint64_t', 'unsigned long'):
            v = z3.Int(self.fresh())
            self.eng.fact(z3.And(v >= 0, v <= U64))
            return v
        if b == 'bool':
            v = z3.Bool(self.fresh())
            return v
        if b == 'ElementModP':
            return Elem('P', patom(self.fresh(), order_q=False))
        if b == 'ElementModQ':
            return Elem('Q', qatom(self.fresh()))
        if b.endswith('time_point'):
            return Opaque('time', self.fresh())
        if b.startswith('unique_ptr<'):
            i = bare(b[len('unique_ptr<'):-1])
            if self.size == ANY:
                if self.isopt and self.eng.branch(z3.Bool('absent ' + self.fresh())):
                    return UPtr(NULL)
            elif top:
                self.opt += 1
                if self.opt - 1 == self.absent:
                    return UPtr(NULL)
            return UPtr(Ptr(self.build(i, False)))
        if b.startswith('vector<'):
            i = bare(b[len('vector<'):-1])
            if i in ('uint8_t', 'unsigned char'):
                v = z3.Int(self.fresh())
                self.eng.fact(z3.And(v >= 0, v < 2**64))
                return Buf(self.eng, 8, 8, v)
            if i in ('uint64_t', 'unsigned long'):
                bf = Buf(self.eng, 64, 0)
                for _ in range(self.size):
                    bf.append(self.value('uint64_t', False))
                return bf
            if self.size == ANY:
                nm = self.fresh()
                return Vec(star.StarList([(Cell(self.value(i, False)), star.Root(self.eng, nm))]))
            return Vec([Cell(self.value(i, False)) for _ in range(self.size if top else 1)])
        if b in ENUMS:
            return 2
        if NS + b in self.prog.classes:
            return self.build(b, top).get()
        raise Unsupported('no builder for a parameter of type %s' % t)
    def build(self, cls, top=True):
        if cls in ('ElementModP', 'ElementModQ'):
            return Cell(self.value(cls, top))
        c = self.prog.classes.get(NS + cls)
        if c is None:
            raise Unsupported('no class %s' % cls)
        fs = [f for f in c.ctors if not is_copy(cls, f)]
        if not fs:
            raise Unsupported('no constructor of %s' % cls)
        f = max(fs, key=lambda f: len(split_types(f.type)))
        ts = split_types(f.type)
        args, k = [], 0
        for t in ts:
            self.isopt = False
            if bare(t).startswith('unique_ptr<'):
                self.isopt = k in TABLE.get(cls, ((), ()))[1]
                k += 1
            args.append(Cell(self.value(t, top)))
        return Cell(self.eng.construct(c, args, ts))
    # ---- observation through the public getters
    def getters(self, cls):
        out, todo, seen = [], [cls], set()
        while todo:
            c = todo.pop(0)
            for m in (c.methods.values() if isinstance(c.methods, dict) else c.methods):
                for f in (m if isinstance(m, list) else [m]):
                    nm = f.name
                    if nm in seen or f.params or f.static or nm in ('isValid', 'IsValid') or not (nm.startswith('get') or nm.startswith('is')):
                        continue
                    seen.add(nm)
                    out.append(nm)
            todo += [self.prog.classes[b] for b in c.bases if b in self.prog.classes]
        return sorted(out)
    def observe(self, x, depth=0):
        x0 = x
        if isinstance(x, (Cell, Ptr, UPtr, RefWrap)) or x is NULL:
            x = self.obj(x)
        if x is None:
            return 'null'
        if isinstance(x, Elem):
            return (x.kind, x.val, x.tag)
        if isinstance(x, Vec):
            return tuple(self.observe(c.get(), depth + 1) if r is None else (('any number', r.base, r.order), self.observe(c.get(), depth + 1))
                         for c, r in star.segs_of(x.items) if r is None or self.eng.branch(r.n > 0))
        if isinstance(x, Buf):
            return ('buf', x.w, x.n) + tuple(x.read(i) for i in range(x.n))
        if isinstance(x, Obj):
            r = []
            for g in self.getters(x.cls):
                try:
                    v = self.get(x, g)
                    r.append((g, self.observe(v, depth + 1)))
                except UB:
                    r.append((g, 'undefined'))
                except CppThrow as e:
                    r.append((g, 'throws'))
            if x.cls.qn == NS + 'ExtendedData':
                r = [(k, self.observe(v.get())) for k, v in sorted(x.f.items())]
            return (x.cls.qn,) + tuple(r)
        return x
    def owned(self, x, out, raw, seen=None):
        """locations owned through unique_ptr, and locations referred to by plain pointers"""
        seen = set() if seen is None else seen
        if isinstance(x, Cell):
            x = x.get()
        if isinstance(x, UPtr):
            if x.shared:
                return
            if x.p is not NULL and hasattr(x.p, 'loc'):
                out[id(x.p.loc)] = x.p.loc
                self.owned(x.p.loc, out, raw, seen)
        elif isinstance(x, (Ptr, RefWrap)):
            raw[id(x.loc)] = x.loc
        elif isinstance(x, Obj):
            if id(x) in seen:
                return
            seen.add(id(x))
            for c in x.f.values():
                self.owned(c, out, raw, seen)
        elif isinstance(x, Vec):
            for c, _ in star.segs_of(x.items):
                self.owned(c, out, raw, seen)

def same(a, b, path=''):
    """formulas: the two observations are equal"""
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            yield path, zbool(a) == zbool(b)
        else:
            yield path, eqv(a, b)
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            yield path + ': number of members', False
            return
        for x, y in zip(a, b):
            n = path + '.' + x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) and not x[0].startswith(NS) else path
            yield from same(x, y, n)
        return
    yield path, type(a) == type(b) and bool(a == b) or (isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and int(a) == int(b))

def has_body(prog, cls, pred):
    return [f for f in prog.funcs.get(NS + cls + '::' + pred[0], []) if f.body is not None and pred[1](f)]

def copy_ways(ctx, cls):
    c = ctx.prog.classes[NS + cls]
    ways = []
    if any(is_copy(cls, f) and '&&' not in f.type and (f.defaulted or f.body is not None or has_body(ctx.prog, cls, (cls, lambda g: g.type == f.type))) for f in c.ctors):
        ways.append('copy construction')
    if has_body(ctx.prog, cls, ('clone', lambda f: not f.params)):
        ways.append('clone')
    if has_body(ctx.prog, cls, ('operator=', lambda f: bare(split_types(f.type)[0]) == cls and '&&' not in f.type)):
        ways.append('assignment')
    return ways

def perform(ctx, h, cls, way, src, make_other):
    eng = ctx.eng
    c = ctx.prog.classes[NS + cls]
    cp = lambda: eng.construct(c, [src], ['const %s &' % cls])
    if way == 'copy construction':
        return Cell(cp())
    if way == 'clone':
        return Cell(h.obj(eng.call_function(has_body(ctx.prog, cls, ('clone', lambda f: not f.params))[0], src, [])))
    f = has_body(ctx.prog, cls, ('operator=', lambda f: bare(split_types(f.type)[0]) == cls and '&&' not in f.type))[0]
    dst = make_other()
    eng.call_function(f, dst, [src if '&' in split_types(f.type)[0] else Cell(cp())])
    return dst

def copies(cls, way, size, absent):
    def run(ctx):
        eng = ctx.engine(2)
        if way not in copy_ways(ctx, cls) or (way == 'assignment' and 'copy construction' not in copy_ways(ctx, cls) and '&' not in str([f.type for f in has_body(ctx.prog, cls, ('operator=', lambda f: True))])):
            raise Unsupported('%s has no %s' % (cls, way))
        def thunk():
            h = Builder(ctx, size, absent)
            try:
                src = h.build(cls)
            except (UB, CppThrow):
                return None
            before = h.observe(src)
            def other():
                o = Builder(ctx, 1, None)
                o.n = 5000
                return o.build(cls)
            r = perform(ctx, h, cls, way, src, other)
            o1, o2, r1, r2 = {}, {}, {}, {}
            h.owned(src, o1, r1)
            h.owned(r, o2, r2)
            shared = set(o1) & set(o2)
            into = set(o1) & set(r2)
            return before, h.observe(src), h.observe(r), len(shared), len(into), h.opt
        def post(x):
            if x is None:
                return
            b, a, c, shared, into, _ = x
            for n, f in same(b, c):
                yield 'the copy equals the source' + n, f
            for n, f in same(b, a):
                yield 'the source is unchanged' + n, f
            yield 'nothing owned is shared', shared == 0
            yield 'nothing in the copy refers into the source', into == 0
        ctx.prove(thunk, post, label='%s of %s: ' % (way, cls))
    return run

def elements(kind):
    def run(ctx):
        eng = ctx.engine(1)
        h = L1(ctx)
        top = 2**256 - 1 if kind == 'Q' else 2**4096 - 1
        qn = 'ElementMod' + kind
        for way in ('copy construction', 'clone', 'assignment'):
            for fixed in ((False, True) if kind == 'P' else (None,)):
                def thunk():
                    v, w = h.var('v', 0, top), h.var('w', 0, top)
                    mk = lambda x: h.q(x) if kind == 'Q' else h.p(x, fixed)
                    src = mk(v)
                    r = perform(ctx, L2(ctx), qn, way, src, lambda: mk(w))
                    return v, h.val(src), h.val(r), (h.fixed(r) if kind == 'P' else None), h.impl(r) is h.impl(src), h.impl(r).f['data'].get() is h.impl(src).f['data'].get()
                def post(x):
                    v, a, c, fx, s1, s2 = x
                    yield 'the copy has the value', eqv(c, v)
                    yield 'the source is unchanged', eqv(a, v)
                    yield 'separate storage', not s1 and not s2
                    if kind == 'P':
                        yield 'the fixed-base mark is kept', bool(fx) == fixed
                ctx.prove(thunk, post, label='%s of %s (any limbs%s): ' % (way, qn, '' if fixed is None else ', fixed base' if fixed else ''))
    return run

def submitted(size):
    def run(ctx):
        eng = ctx.engine(2)
        def thunk():
            h = Builder(ctx, size)
            src = h.build('CiphertextBallot')
            b = h.observe(src)
            r = h.obj(ctx.call(NS + 'SubmittedBallot::from', [src, Cell(1)]))
            g = [(n, v) for n, v in h.observe(r)[1:]]
            o1, o2 = {}, {}
            h.owned(src, o1, {})
            h.owned(Cell(r), o2, {})
            return b, h.observe(src), dict(g), len(set(o1) & set(o2))
        def post(x):
            b, a, g, s = x
            for n, v in b[1:]:
                for k, f in same(v, g.get(n)):
                    if 'getNonce' not in n + k:
                        yield 'component %s%s' % (n, k), f
            for n, f in same(b, a):
                yield 'the source is unchanged' + n, f
            yield 'nothing owned is shared', s == 0
        ctx.prove(thunk, post, label='submitting a ballot: ')
    return run

COPY, ASSIGN, CLONE = 'copy construction', 'assignment', 'clone'
# class: (ways, numbers of the optional parts that may be absent)
TABLE = {'ElGamalKeyPair': ((COPY, ASSIGN), ()), 'ElGamalCiphertext': ((COPY, CLONE, ASSIGN), ()), 'HashedElGamalCiphertext': ((COPY, CLONE, ASSIGN), ()),
         'DisjunctiveChaumPedersenProof': ((COPY, CLONE, ASSIGN), ()), 'ConstantChaumPedersenProof': ((COPY, ASSIGN), ()),
         'PlaintextBallotSelection': ((COPY, CLONE, ASSIGN), ()), 'PlaintextBallotContest': ((COPY, ASSIGN), ()), 'PlaintextBallot': ((COPY, ASSIGN), ()),
         'CiphertextBallotSelection': ((COPY, ASSIGN), (1, 3, 4)), 'CiphertextBallotContest': ((COPY, ASSIGN), (0, 3, 4)), 'CiphertextBallot': ((COPY, ASSIGN), (2,)),
         'AnnotatedString': ((COPY, ASSIGN), ()), 'Language': ((COPY, ASSIGN), ()), 'InternationalizedText': ((COPY, ASSIGN), ()), 'ContactInformation': ((COPY, ASSIGN), ()),
         'GeopoliticalUnit': ((COPY, ASSIGN), (0,)), 'BallotStyle': ((COPY, ASSIGN), ()), 'Party': ((COPY, ASSIGN), (0,)), 'Candidate': ((COPY, ASSIGN), (0,)),
         'SelectionDescription': ((COPY, ASSIGN), ()), 'ContestDescription': ((COPY, ASSIGN), (0, 1)), 'ContestDescriptionWithPlaceholders': ((COPY, ASSIGN), (0, 1)),
         'Triple': ((COPY, CLONE, ASSIGN), ()), 'Quadruple': ((COPY, CLONE, ASSIGN), ()), 'TwoTriplesAndAQuadruple': ((COPY, CLONE, ASSIGN), ()), 'ExtendedData': ((COPY, CLONE), ())}
LISTS = ('PlaintextBallotContest', 'PlaintextBallot', 'CiphertextBallotContest', 'CiphertextBallot', 'InternationalizedText', 'ContactInformation', 'BallotStyle', 'ContestDescription', 'ContestDescriptionWithPlaceholders')
def obligations(tier):
    obs = [Ob('ElementModQ', elements('Q')), Ob('ElementModP', elements('P'))]
    for cls, (ways, opts) in TABLE.items():
        for way in ways:
            sizes = (0, 1, 3) if cls in LISTS else (2,)
            if cls in LISTS:
                obs.append(Ob('%s: %s, lists of any length' % (cls, way), copies(cls, way, ANY, None)))
            for n in sizes:
                obs.append(Ob('%s: %s%s' % (cls, way, ', lists of %d' % n if cls in LISTS else ''), copies(cls, way, n, None), bounded='lists of %d members' % n if cls in LISTS else None))
            for o in opts:
                obs.append(Ob('%s: %s, optional part %d absent' % (cls, way, o), copies(cls, way, 1, o), bounded='lists of 1 member' if cls in LISTS else None))
    obs.append(Ob('SubmittedBallot::from, any number of contests', submitted(ANY)))
    for n in (0, 1, 3):
        obs.append(Ob('SubmittedBallot::from, %d contests' % n, submitted(n), bounded='%d contests' % n))
    return obs

HARNESS = ['main.cpp', 'copy.cpp']
def rnd(rng, t, opt=None, dep=0):
    """random value of a wire type"""
    if t == W.S:
        return ''.join(rng.choice('ab|\xe9 \0z') for _ in range(rng.choice([0, 1, 5, 40])))
    if t == W.By:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 32, 48])))
    if t == W.U:
        return rng.choice([0, 1, 2, 3, 5])
    if t == W.Bo:
        return rng.random() < .5
    if t == W.El:
        return rng.choice([0, 1, QI - 1, rng.randrange(QI), rng.randrange(2**64), rng.randrange(QI) & ~(2**64 - 1)])
    if t[0] == 'L':
        return [rnd(rng, t[1], opt, dep + 1) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]) if dep < 2 else rng.choice([0, 1, 3]))]
    if t[0] == 'O':
        return rnd(rng, t[1], opt, dep) if rng.random() < .6 else None
    return W.R((k, rnd(rng, u, opt, dep)) for k, u in t[1])
def full(rng, t):
    v = rnd(rng, t)
    return v
PV = lambda rng: rng.choice([0, 1, PI - 1, rng.randrange(PI), rng.randrange(2**64), rng.randrange(PI) >> 700, 2**4096 - 1])
def kinds():
    O_ = lambda t: ('O', t)
    return [('Q', W.rec(v=W.El)), ('P', W.rec(v=W.El, f=W.Bo)), ('KP', W.rec(s=W.El, p=W.El)), ('CT', O_(W.CT)), ('HE', O_(W.HE)), ('DP', O_(W.DP)), ('CP', O_(W.CP)),
            ('PS', W.PSEL), ('PC', W.PCON), ('PB', W.PBAL), ('CS', W.CSEL), ('CC', W.CCON), ('CCh', W.CCON), ('CB', W.CBAL), ('CBh', W.CBAL),
            ('AS', W.AS), ('LA', W.rec(v=W.S, l=W.S)), ('IT', W.TEXT), ('CI', W.CI), ('GP', W.GPU), ('BS', W.STYLE), ('PA', W.PARTY), ('CA', W.CAND), ('SD', W.SD), ('CD', W.CDo), ('DPH', W.CDP),
            ('T', W.rec(e=W.El, g=W.El, k=W.El)), ('F', W.rec(e=W.El, f=W.El, g=W.El, k=W.El)), ('TT', W.rec(a=W.rec(e=W.El, g=W.El, k=W.El), b=W.rec(e=W.El, g=W.El, k=W.El), c=W.rec(e=W.El, f=W.El, g=W.El, k=W.El)))]
def fix(rng, k, t, v):
    """a legal object of the kind: required parts present"""
    if t[0] == 'O' and v is None:
        v = rnd(rng, t[1])
    if k == 'Q':
        v.v = rng.choice([v.v, QI, rng.randrange(QI, 2**256), 2**256 - 1])
    if k == 'P':
        v.v = PV(rng)
    hed = k.endswith('h')
    def cs(s):
        if s.ct is None:
            s.ct = W.R(pad=PV(rng), data=PV(rng))
        if rng.random() < .4:
            s.nonce = None
        return s
    def cc(c):
        c.sels = [cs(s) for s in distinct(rng, c.sels)]
        c.acc = c.acc or W.R(pad=PV(rng), data=PV(rng))
        c.nonce = None if rng.random() < .4 else c.nonce
        c.he = (c.he or rnd(rng, W.HE)) if hed else None
        return c
    if k == 'CS':
        cs(v)
    elif k[:2] == 'CC':
        cc(v)
    elif k[:2] == 'CB':
        v.contests = [cc(c) for c in distinct(rng, v.contests)]
        v.nonce = None if rng.random() < .4 else v.nonce
    return v
def distinct(rng, l):
    for x, n in zip(l, rng.sample(range(100), len(l))):
        x.seq = n
    return l
def concrete(h, rng, tier, hints):
    n = 14 if tier == 'quick' else 150
    jobs = []
    for k, t in kinds():
        for i in range(n):
            v, w = fix(rng, k, t, rnd(rng, t)), fix(rng, k, t, rnd(rng, t))
            jobs.append(['copy', k] + W.enc(t, v) + W.enc(t, w))
        if k in ('CB', 'CBh'):
            for i in range(n):
                jobs.append(['submitcopy', '1' if k == 'CBh' else '0'] + W.enc(t, fix(rng, k, t, rnd(rng, t))))
    ks = dict(kinds())
    for j, a in HN.batch(h, jobs):
        k = j[1]
        if a[0] != 'ok':
            yield {'what': 'copying an object failed: %s' % ' '.join(a)[:200], 'command': j}
            continue
        parts = ' '.join(a[1:]).split(' | ')
        t = W.CBAL if j[0] == 'submitcopy' else ks[k]
        vals = []
        for p in parts:
            vals.append(W.dec(t, iter(p.split(' '))))
        bad = None
        src = vals[0]
        names = ['the source', 'the copy', 'the assigned object'] + (['the clone'] if len(parts) == 8 else []) + ['the source afterwards', 'the copy after the source is gone', 'the assigned object after the source is gone'] + (['the clone after the source is gone'] if len(parts) == 8 else [])
        if j[0] == 'submitcopy':
            names = ['the source', 'the submitted ballot', 'the source afterwards', 'the submitted ballot after the source is gone']
        for nm, v in zip(names, vals):
            x, y = src, v
            if nm.startswith('the submitted'):
                x, y = denonce(src), denonce(v)
            d = W.diff(x, y)
            if d:
                bad = {'what': '%s differs from what it was made of%s' % (nm, d), 'command': j, 'kind': k}
                break
        yield bad
def denonce(v):
    if isinstance(v, dict):
        return W.R((k, None if k == 'nonce' else denonce(x)) for k, x in v.items())
    return [denonce(x) for x in v] if isinstance(v, list) else v
