"""C17: serialization round-trips and never leaks nonces unless asked."""
import json, random
from common import *
from ballots import *
import jsonm, star
import C21 as K
import wire as W, harness as HN, oracle as O
LEVEL = 'proof'
HARNESS = ['main.cpp', 'serial.cpp']
TUS = BALLOT_TUS + ENCRYPT_TUS
TRUST = L2_TRUST + ['nlohmann::json behaves as modelled (values, brace lists, element access), and its text, BSON and MessagePack encodings are read back as the value written',
                    'hex conversion of elements and bytes, and ISO conversion of dates at second resolution, are inverted by the matching parsers (elements: C03; bytes and dates: executed on the real code)']
ASSUME = ['lists of any length where the obligation says so; compact ballots, internal manifests and byte strings of the sizes listed, longer ones by concrete execution', 'strings are valid UTF-8; integers below 2^63 for BSON', 'encrypted ballots carry proofs, hashed data and nonces, as encryption produces them',
          'contests and selections of a manifest are stored in sequence order (the other case is a recorded finding)']
NOISE = ()
ANY = 'any'

class Bld(K.Builder):
    """strings of the classes in `free` are arbitrary, all others are arbitrary non-empty strings; enums take the given value"""
    def __init__(self, ctx, size=1, absent=(), free=(), enums=None, lists=None, elected=None, maybe=()):
        K.Builder.__init__(self, ctx, size)
        self.gone, self.free, self.enums, self.cur, self.lists = absent, free, enums or {}, [], lists or {}
        self.seq, self.elected, self.maybe = {}, elected, maybe
    def value(self, t, top):
        b = K.bare(t)
        if b in ('string', 'basic_string<char>'):
            s = S(self.fresh())
            if not (self.cur and self.cur[-1] in self.free):
                self.eng.assume(zbool(self.eng.str_compare('!=', s, '')))
            elif self.eng.branch(zbool(self.eng.str_compare('==', s, ''))):
                return ''
            return s
        if b in K.ENUMS:
            return self.enums.get(b, 2)
        if b.startswith('unique_ptr<'):
            i = K.bare(b[len('unique_ptr<'):-1])
            key = (self.cur[-1] if self.cur else None, self.pname)
            if key in self.gone:
                return UPtr(NULL)
            if key in self.maybe and self.eng.branch(z3.Bool('absent ' + self.fresh())):
                return UPtr(NULL)
            return UPtr(Ptr(self.build(i, False)))
        if b.startswith('vector<'):
            n = self.lists.get((self.cur[-1], self.pname), self.lists.get(self.cur[-1], self.size))
            i = K.bare(b[len('vector<'):-1])
            if i in ('uint64_t', 'unsigned long', 'uint8_t', 'unsigned char'):
                sv, self.size = self.size, (2 if n == ANY else n)
                try:
                    return K.Builder.value(self, t, top)
                finally:
                    self.size = sv
            if n == ANY:
                nm = self.fresh()
                c = K.bare(i[len('unique_ptr<'):-1]) if i.startswith('unique_ptr<') else i
                x = self.value(i, False)
                key = self.seq.get(c)
                return Vec(star.StarList([(Cell(x), star.Root(self.eng, nm, key=key, order='ascending' if c.endswith('Description') else 'stored'))]), b[len('vector<'):-1])
            return Vec([Cell(self.value(i, False)) for _ in range(n)], b[len('vector<'):-1])
        if b.startswith('unordered_map<'):
            m = MapV(False, False)
            m.vtype = 'std::string'
            for _ in range(self.lists.get(self.cur[-1], self.size)):
                k = S(self.fresh())
                for k2, _ in m.items:
                    self.eng.assume(zbool(self.eng.str_compare('!=', k, k2)))
                m.items.append((k, Cell(S(self.fresh()))))
            return m
        return K.Builder.value(self, t, top)
    def observe(self, x, depth=0):
        v = self.obj(x) if isinstance(x, (Cell, Ptr, UPtr, RefWrap)) or x is NULL else x
        if isinstance(v, MapV):
            return tuple(sorted(((k, self.observe(c.get(), depth + 1)) for k, c in v.items), key=repr))
        return K.Builder.observe(self, x, depth)
    pname = None
    def build(self, cls, top=True):
        if cls in ('ElementModP', 'ElementModQ'):
            return Cell(self.value(cls, top))
        c = self.prog.classes.get(NS + cls)
        if c is None:
            raise Unsupported('no class %s' % cls)
        fs = [f for f in c.ctors if not K.is_copy(cls, f)]
        if not fs:
            raise Unsupported('no constructor of %s' % cls)
        f = max(fs, key=lambda f: len(K.split_types(f.type)))
        ts = K.split_types(f.type)
        args = []
        for p, t in zip(f.params, ts):
            self.cur.append(cls)
            sv, self.pname = self.pname, p.get('name')
            try:
                v = self.value(t, top)
                if 'equence' in (p.get('name') or '') and ANY in (self.size, *self.lists.values()):
                    self.seq[cls] = v
                elif 'equence' in (p.get('name') or '') and cls in ('ContestDescription', 'SelectionDescription', 'ContestDescriptionWithPlaceholders'):
                    last = self.seq.get(cls)
                    if last is not None:
                        self.eng.assume(v > last)
                    self.seq[cls] = v
                if 'lected' in (p.get('name') or '') and self.elected is not None and K.bare(t) == 'uint64_t':
                    v = self.elected
                args.append(Cell(v))
            finally:
                self.cur.pop()
                self.pname = sv
        return Cell(self.eng.construct(c, args, ts))

FMTS = {'json': ('toJson', 'fromJson'), 'bson': ('toBson', 'fromBson'), 'msgpack': ('toMsgPack', 'fromMsgPack')}
def contracts(eng):
    def hexof(eng, this, args, f):
        b = args[0].get()
        v = b.block(0, b.n, True) if b.n else 0
        return SymStr(('paddedhex', b.n, z3.simplify(z(v)).get_id(), v if not isinstance(v, z3.ExprRef) else HB(v)))
    def unhex(eng, this, args, f):
        s = args[0].get()
        if not (isinstance(s, SymStr) and s.node[0] == 'paddedhex'):
            raise Unsupported('bytes of a string that is not padded hex')
        v = s.node[3]
        b = Buf(eng, 8, s.node[1], v.v if isinstance(v, HB) else v)
        if s.node[1]:
            b.ch[0][3] = True
        return b
    eng.contracts[NS + 'bytes_to_padded_hex'] = hexof
    eng.contracts[NS + 'hex_to_bytes'] = unhex
    def iso(eng, this, args, f):
        t = args[0].get()
        return SymStr(('iso', t.kind, t.key, args[1].get() if len(args) > 1 else None))
    def uniso(eng, this, args, f):
        s = args[0].get()
        if not (isinstance(s, SymStr) and s.node[0] == 'iso' and s.node[3] == (args[1].get() if len(args) > 1 else None)):
            raise Unsupported('date of a string that is not an ISO date')
        return Opaque(s.node[1], s.node[2])
    eng.contracts[NS + 'getSystemTimestamp'] = lambda eng, this, args, f: z3.Int('now')      # a device reports the current time, not contents
    eng.contracts[NS + 'timePointToIsoString'] = iso
    eng.contracts[NS + 'timePointFromIsoString'] = uniso
class HB:
    def __init__(self, v):
        self.v = v
    def __eq__(self, o):
        return isinstance(o, HB) and self.v.eq(o.v)
    def __hash__(self):
        return self.v.hash()

def nonces_in(j, path=''):
    """members of a document that carry a nonce"""
    if j.kind == 'obj':
        for k, c in j.val:
            v = c.get()
            if isinstance(k, str) and 'nonce' in k.lower() and v.kind != 'null':
                yield path + '/' + k
            yield from nonces_in(v, path + '/%s' % k)
    if j.kind == 'arr':
        for i, (c, _) in enumerate(star.segs_of(j.val)):
            yield from nonces_in(c.get(), path + '/%d' % i)
def strings_in(j):
    if j.kind == 'obj':
        for k, c in j.val:
            yield k
            yield from strings_in(c.get())
    elif j.kind == 'arr':
        for c, _ in star.segs_of(j.val):
            yield from strings_in(c.get())
    elif j.kind == 'str':
        yield j.val
def secret_terms(o, secret=False):
    """terms of the nonces in an observation"""
    if isinstance(o, tuple):
        if len(o) == 3 and o[0] in ('P', 'Q'):
            if secret:
                yield o[1]
            return
        if len(o) == 2 and isinstance(o[0], str) and not isinstance(o[0], tuple):
            yield from secret_terms(o[1], o[0] == 'getNonce')
            return
        for x in o:
            yield from secret_terms(x, secret)
def blank(o):
    """the observation with every nonce replaced by zero"""
    if isinstance(o, tuple):
        if len(o) == 2 and o[0] == 'getNonce':
            return (o[0], ('Q', QTerm({}), None))
        return tuple(blank(x) for x in o)
    return o
def trip(cls, fmt, withnonces='n/a', **kw):
    """reading what was written gives the same object"""
    def run(ctx):
        eng = ctx.engine(2)
        contracts(eng)
        def thunk():
            h = Bld(ctx, **kw)
            if cls == 'InternalManifest':
                m = h.build('Manifest')
                src = h.make('InternalManifest', [m], ['const Manifest &'])
            elif cls == 'SubmittedBallot':
                b = h.build('CiphertextBallot')
                src = Cell(h.obj(ctx.call(NS + 'SubmittedBallot::from', [b, Cell(kw.get('enums', {}).get('BallotBoxState', 1))])))
            elif cls == 'CiphertextElectionContext':
                src = h.build(cls)
            else:
                src = h.build(cls)
            before = observe(h, src)
            to, frm = FMTS[fmt]
            a = [] if withnonces in ('n/a', 'default') else [Cell(withnonces)]
            c = ctx.prog.classes[NS + cls]
            doc = h.get(src, to, *a)
            d = doc.doc if hasattr(doc, 'doc') else None
            r = ctx.call(NS + cls + '::' + frm, [Cell(doc)])
            ro = Cell(h.obj(r))
            return before, observe(h, src), observe(h, ro), d
        def post(x):
            b, a, r, d = x
            for n, f in K.same(b, a):
                yield 'writing leaves the object unchanged' + n, f
            if withnonces in ('n/a', True) and cls != 'SubmittedBallot':
                for n, f in K.same(b, r):
                    yield 'the object read back equals the one written' + n, f
            else:
                for n, f in K.same(blank(b), r):
                    yield 'the object read back equals the one written, without nonces' + n, f
                if d is None:
                    raise Undecided('the document is not built by the JSON library')
                ns = list(nonces_in(d))
                yield 'no nonce is written%s' % (': ' + ns[0] if ns else ''), not ns
                sec = list(secret_terms(b))
                for s in strings_in(d):
                    if isinstance(s, SymStr) and s.node[0] in ('hexQ', 'hexP'):
                        for t in sec:
                            if str(t) == str(s.node[1]):
                                yield 'no written text is the value of a nonce', False
        ctx.prove(thunk, post, label='%s as %s: ' % (cls, fmt))
    return run
def observe(h, src):
    o = h.observe(src)
    x = h.obj(src)
    if x is not None and isinstance(x, Obj) and h.eng.find_method(x.cls, 'crypto_hash') is not None and x.cls.qn in (NS + 'Manifest',):
        o = o + (('crypto_hash', h.observe(h.get(x, 'crypto_hash'))),)
    return o

MP = lambda **k: {('Manifest', a): b for a, b in k.items()}
NOM = ('geopoliticalUnits', 'parties', 'candidates', 'contests', 'ballotStyles')
def only(*names, n=1, **more):
    d = {('Manifest', a): (n if a in names else 0) for a in NOM}
    d.update({k.replace('__', ':'): v for k, v in more.items()})
    return d
MAN = {'top level': dict(lists=only(), free=('Manifest',)),
       'top level, no name': dict(lists=only(), absent=(('Manifest', 'name'),)),
       'top level, no contact': dict(lists=only(), absent=(('Manifest', 'contactInformation'),)),
       'top level, neither': dict(lists=only(), absent=(('Manifest', 'name'), ('Manifest', 'contactInformation'))),
       'units': dict(lists=only('geopoliticalUnits', n=2)),
       'units, any contact': dict(lists=only('geopoliticalUnits'), free=('ContactInformation',), absent=(('Manifest', 'contactInformation'),)),
       'units, any annotation': dict(lists=only('geopoliticalUnits'), free=('AnnotatedString',), absent=(('Manifest', 'contactInformation'),)),
       'units, empty contact lists': dict(lists=only('geopoliticalUnits', ContactInformation=0), free=('ContactInformation',)),
       'units, contact lists of 2': dict(lists=only('geopoliticalUnits', ContactInformation=2)),
       'units without contact': dict(lists=only('geopoliticalUnits', n=2), absent=(('GeopoliticalUnit', 'contactInformation'),), free=('GeopoliticalUnit',)),
       'parties': dict(lists=only('parties', n=1), free=('Party',)),
       'parties, any text': dict(lists=only('parties', n=1), free=('Language',)),
       'two parties': dict(lists=only('parties', n=2)),
       'parties without name': dict(lists=only('parties', n=1), absent=(('Party', 'name'),), free=('Party',)),
       'texts in 0 languages': dict(lists=only('parties', 'candidates', InternationalizedText=0)),
       'texts in 2 languages': dict(lists=only('parties', 'candidates', InternationalizedText=2)),
       'candidates': dict(lists=only('candidates'), free=('Candidate',)),
       'two candidates': dict(lists=only('candidates', n=2)),
       'candidates without name': dict(lists=only('candidates'), absent=(('Candidate', 'name'),), free=('Candidate',)),
       'styles': dict(lists=only('ballotStyles'), free=('BallotStyle',)),
       'styles, empty lists': dict(lists=only('ballotStyles', BallotStyle=0), free=('BallotStyle',)),
       'styles, lists of 2': dict(lists=only('ballotStyles', n=2, BallotStyle=2)),
       'contests': dict(lists=only('contests')),
       'contests, any strings': dict(lists=only('contests'), free=('ContestDescription',), absent=(('ContestDescription', 'ballotTitle'), ('ContestDescription', 'ballotSubtitle'))),
       'contests, any strings in selections': dict(lists=only('contests'), free=('SelectionDescription',), absent=(('ContestDescription', 'ballotTitle'), ('ContestDescription', 'ballotSubtitle'))),
       'contests without selections': dict(lists=only('contests', ContestDescription=0)),
       'two contests': dict(lists=only('contests', n=2, ContestDescription=2)),
       'contests without title': dict(lists=only('contests'), absent=(('ContestDescription', 'ballotTitle'),)),
       'contests without subtitle': dict(lists=only('contests'), absent=(('ContestDescription', 'ballotSubtitle'),)),
       'contests without titles': dict(lists=only('contests'), absent=(('ContestDescription', 'ballotTitle'), ('ContestDescription', 'ballotSubtitle')))}
ALL0 = {('Manifest', a): 0 for a in NOM}
def anyof(a, free, maybe=(), **k):
    d = dict(ALL0)
    d[('Manifest', a)] = ANY
    d.update(k)
    return dict(size=ANY, lists=d, free=free, maybe=maybe, absent=(('Manifest', 'name'), ('Manifest', 'contactInformation')))
ANYMAN = {'units': anyof('geopoliticalUnits', (), (('GeopoliticalUnit', 'contactInformation'),)),
          'parties': anyof('parties', (), (('Party', 'name'),)),
          'candidates': anyof('candidates', (), (('Candidate', 'name'),)),
          'contests': anyof('contests', (), (('ContestDescription', 'ballotTitle'), ('ContestDescription', 'ballotSubtitle'))),
          'styles': anyof('ballotStyles', ())}
OWNER = {'ElectionType': (), 'ReportingUnitType': ('geopoliticalUnits',), 'VoteVariationType': ('contests',)}
def every(cls, e, n):
    def run(ctx):
        for v in range(n):
            trip(cls, 'json', lists=only(*OWNER[e]), enums={e: v}, elected=1)(ctx)
    return run
FM3 = ('json', 'bson', 'msgpack')
def obligations(tier):
    obs = []
    def add(name, cls, fmts=FM3, wn='n/a', bounded=None, **kw):
        for f in fmts:
            obs.append(Ob('%s as %s%s' % (cls, f, name), trip(cls, f, wn, **kw), bounded=bounded))
    any_ = ', lists of any length'
    add(any_, 'PlaintextBallot', size=ANY, free=('PlaintextBallotSelection',))
    for w, nm in ((True, 'with nonces'), (False, 'without nonces')):
        add(' ' + nm + any_, 'CiphertextBallot', wn=w, size=ANY)
    add(any_, 'SubmittedBallot', size=ANY)
    for nm, kw in ANYMAN.items():
        add(', any number of ' + nm, 'Manifest', **kw)
    for n in (0, 1, 2):
        b = 'lists of %d members' % n
        add(', lists of %d' % n, 'PlaintextBallot', bounded=b, size=n, free=('PlaintextBallotSelection',) if n < 2 else ())
        add(', lists of %d' % n, 'CompactPlaintextBallot', bounded=b, size=n, free=('CompactPlaintextBallot',))
        add(', lists of %d' % n, 'CompactCiphertextBallot', bounded=b, size=n, free=('CompactPlaintextBallot',))
        for w, nm in ((True, 'with nonces'), (False, 'without nonces')):
            add(' %s, lists of %d' % (nm, n), 'CiphertextBallot', wn=w, bounded=b, size=n)
        add(', lists of %d' % n, 'SubmittedBallot', bounded=b, size=n)
        add(', lists of %d' % n, 'CiphertextElectionContext', ('json', 'bson'), bounded='%d extended data' % n, size=n)
    for f in FM3:
        obs.append(Ob('CiphertextBallot as %s, default options' % f, trip('CiphertextBallot', f, 'default', size=1), bounded='one contest, one selection'))
    # manifests: one obligation per kind of member, with every string of that member arbitrary
    for cls in ('Manifest', 'InternalManifest'):
        for nm, kw in MAN.items():
            if cls == 'InternalManifest' and nm.startswith('top'):
                continue
            kw = dict(kw)
            if cls == 'InternalManifest':
                kw['elected'] = 2 if nm == 'two contests' else 1
            fm = FM3 if nm in ('top level', 'contests') else ('json',)
            add(', ' + nm, cls, fm, bounded='lists of the stated size', **kw)
        for e, vals in (('ElectionType', 8), ('ReportingUnitType', 29), ('VoteVariationType', 13)):
            if cls == 'InternalManifest' and e == 'ElectionType':
                continue
            obs.append(Ob('%s: every %s' % (cls, e), every(cls, e, vals)))
    add('', 'EncryptionDevice', ('json', 'bson'), free=('EncryptionDevice',))
    return obs

# ---- concrete executions
TXT = ['', 'a', 'Ball\u00f6t "one"', 'back\\slash/"\u4e2d\u6587"', 'tab\tnew\nline', '{"a":1}', 'null', '0', '\u0001ctl', '\U0001f5f3', 'a|b', "it's", '\\u0041', 'x' * 300]
def s(rng, ne=False):
    t = rng.choice(TXT) if rng.random() < .6 else ''.join(rng.choice('abcXYZ 09_-"\\\u00e9') for _ in range(rng.randrange(1, 12)))
    return ((t or 'id') if ne else t).encode().decode('latin1')
def u(rng, fmt):
    return rng.choice([0, 1, 2, rng.randrange(1000), 2**31, 2**32, 2**32 + 1, 2**53 + 1, 2**63 - 1] + ([2**63, 2**64 - 1] if fmt != 'bson' else []))
def el(rng, m=QI):
    return rng.choice([0, 1, 15, 16, 255, 256, m - 1, rng.randrange(m), rng.randrange(m) >> 8, rng.randrange(m) >> 12, rng.randrange(2**64)])
pel = lambda rng: el(rng, PI)
def text(rng, opt=True):
    if opt and rng.random() < .3:
        return None
    return W.R(text=[W.R(value=s(rng), lang=s(rng)) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
def contact(rng, opt=True):
    if opt and rng.random() < .3:
        return None
    ann = lambda: [W.R(ann=s(rng), value=s(rng)) for _ in range(rng.choice([0, 1, 2]))]
    return W.R(lines=[s(rng) for _ in range(rng.choice([0, 1, 2]))], email=ann(), phone=ann(), name=s(rng))
def size(rng, small=(0, 1, 2, 3)):
    return rng.choice([5, 6, 9, 17, 33]) if rng.random() < .05 else rng.choice(small)
def distinct(l):
    """the order of entries with the same sequence number is not defined"""
    seen = set()
    for x in l if len(l) > 4 else []:
        while x.seq in seen:
            x.seq += 1
        seen.add(x.seq)
    return l
def manifest(rng, fmt, n=None):
    k = lambda: size(rng)
    cons = []
    for q in rng.sample(range(50), k() if n is None else n):
        cons.append(W.R(id=s(rng), district=s(rng), seq=q if rng.random() < .8 else u(rng, fmt) % (2**62) * 64 + q, var=rng.randrange(13), elected=rng.choice([0, 1, 2, 3]), allowed=rng.choice([0, 1, 2, 5]), name=s(rng), title=text(rng), subtitle=text(rng),
                        sels=distinct([W.R(id=s(rng), cand=s(rng), seq=rng.choice([i, u(rng, fmt) >> 1])) for i in range(k())]), parties=[]))
    seqs = set()
    for c in cons:
        c.seq = c.seq % 2**63
        while c.seq in seqs:
            c.seq += 1
        seqs.add(c.seq)
    cons = sorted([c.but(sels=sorted(c.sels, key=lambda x: x.seq)) for c in cons], key=lambda x: x.seq)
    return W.R(scope=s(rng), type=rng.randrange(NTYPE), start=rng.choice([0, 1, 86399, 86400, 951782400, 1582934400, 1600000000, rng.randrange(2**31), 4102444799]), end=rng.randrange(4 * 10**9),
               gps=[W.R(id=s(rng), name=s(rng), type=rng.randrange(NUNIT), contact=contact(rng)) for _ in range(k())],
               parties=[W.R(id=s(rng), name=text(rng), abbr=s(rng), color=s(rng), logo=s(rng)) for _ in range(k())],
               cands=[W.R(id=s(rng), name=text(rng), party=s(rng), image=s(rng), writein=rng.random() < .5) for _ in range(k())],
               contests=cons, styles=[W.R(id=s(rng), gps=[s(rng) for _ in range(k())], parties=[s(rng) for _ in range(k())], image=s(rng)) for _ in range(k())], name=text(rng), contact=contact(rng))
NTYPE, NUNIT = 8, 29
def cballot(rng, fmt, shape=None):
    shape = [size(rng) for _ in range(size(rng))] if shape is None else shape
    ct = lambda: W.R(pad=pel(rng), data=pel(rng))
    by = lambda n: bytes(rng.choice([0, 0, 1, 255, rng.randrange(256)]) for _ in range(n))
    cons = []
    for n, q in zip(shape, rng.sample(range(90), len(shape))):
        sels = [W.R(id=s(rng), seq=r, dh=el(rng), ct=ct(), ph=rng.random() < .3, nonce=el(rng), ch=el(rng), proof=W.R(a0=pel(rng), b0=pel(rng), a1=pel(rng), b1=pel(rng), c0=el(rng), c1=el(rng), c=el(rng), v0=el(rng), v1=el(rng)))
                for r in rng.sample(range(90), n)]
        cons.append(W.R(id=s(rng), seq=q, dh=el(rng), sels=sels, nonce=el(rng), acc=ct(), ch=el(rng), proof=W.R(a=pel(rng), b=pel(rng), c=el(rng), v=el(rng), L=u(rng, fmt)), he=W.R(pad=pel(rng), data=by(rng.choice([0, 32, 64, 512])), mac=by(32))))
    return W.R(id=s(rng), style=s(rng), mh=el(rng), seed=el(rng), contests=cons, code=el(rng), ts=u(rng, fmt), nonce=el(rng), ch=el(rng))
def cpb(rng, fmt):
    return W.R(id=s(rng), style=s(rng), sels=[u(rng, fmt) for _ in range(rng.choice([0, 1, 3, 7]))], writeins=[s(rng) for _ in range(rng.choice([0, 1, 3]))])
def denonce(v):
    if isinstance(v, dict):
        return W.R((k, 0 if k == 'nonce' else denonce(x)) for k, x in v.items())
    return [denonce(x) for x in v] if isinstance(v, list) else v
EXT = W.L(W.rec(k=W.S, v=W.S))
CTXIN = W.rec(mh=W.El, n=W.U, k=W.U, K=W.El, c=W.El, ov=W.Bo, mx=W.U, ext=EXT)
CTXOUT = W.rec(n=W.U, k=W.U, K=W.El, c=W.El, mh=W.El, bh=W.El, eh=W.El, ov=W.Bo, mx=W.U, ext=EXT)
DEVIN = W.rec(d=W.U, s=W.U, l=W.U, loc=W.S)
SUBIN = W.rec(state=W.U, b=W.CBAL)
def gen(k, rng, fmt):
    if k in ('MAN', 'IMAN'):
        return W.MAN, manifest(rng, fmt)
    if k == 'CTX':
        keys = sorted({s(rng) for _ in range(rng.choice([0, 0, 1, 3]))})
        return CTXIN, W.R(mh=el(rng), n=u(rng, fmt), k=u(rng, fmt), K=pel(rng), c=el(rng), ov=rng.random() < .5, mx=u(rng, fmt), ext=[W.R(k=x, v=s(rng)) for x in keys])
    if k == 'PBAL':
        return W.PBAL, W.R(id=s(rng), style=s(rng), contests=[W.R(id=s(rng), sels=[W.R(id=s(rng), vote=u(rng, fmt), ph=rng.random() < .4, writein=s(rng)) for _ in range(size(rng, (0, 1, 3)))]) for _ in range(size(rng, (0, 1, 2)))])
    if k == 'DEV':
        return DEVIN, W.R(d=u(rng, fmt), s=u(rng, fmt), l=u(rng, fmt), loc=s(rng))
    if k == 'CPB':
        return W.CPB, cpb(rng, fmt)
    if k == 'CCB':
        return W.CCB, W.R(plain=cpb(rng, fmt), state=rng.choice(STATES), seed=el(rng), code=el(rng), ts=u(rng, fmt), nonce=el(rng))
    if k == 'SUB':
        return SUBIN, W.R(state=rng.choice(STATES), b=cballot(rng, fmt))
    return W.CBAL, cballot(rng, fmt)
STATES = [1, 2, 999]
def out_type(k):
    return {'MAN': W.rec(m=W.MANo, h=W.El), 'IMAN': W.IMAN, 'CTX': CTXOUT, 'PBAL': W.PBAL, 'DEV': W.rec(d=W.U, s=W.U, l=W.U, loc=W.S, h=W.El), 'CPB': W.CPB, 'CCB': W.CCB, 'SUB': W.rec(b=W.CBAL, state=W.U)}.get(k, W.CBAL)
FMT = {'CTX': ['json', 'bson'], 'DEV': ['json', 'bson']}
KINDS = ['MAN', 'IMAN', 'CTX', 'PBAL', 'DEV', 'CPB', 'CCB', 'CBAL0', 'CBALd', 'CBAL1', 'SUB']
def has_nonce(j):
    if isinstance(j, dict):
        return any('nonce' in k.lower() and v is not None for k, v in j.items()) or any(has_nonce(v) for v in j.values())
    return isinstance(j, list) and any(has_nonce(v) for v in j)
def strings(j):
    if isinstance(j, dict):
        for v in j.values():
            yield from strings(v)
    elif isinstance(j, list):
        for v in j:
            yield from strings(v)
    elif isinstance(j, str):
        yield j
def concrete(h, rng, tier, hints):
    n = 25 if tier == 'quick' else 400
    jobs = []
    for k in KINDS:
        for f in FMT.get(k, ['json', 'bson', 'msgpack']):
            for _ in range(n):
                t, v = gen(k, rng, f)
                jobs.append(['ser', k, f] + W.enc(t, v))
    yield from stored_order(h, rng, 8 if tier == 'quick' else 60)
    for j, a in HN.batch(h, jobs):
        k = j[1]
        if a[0] != 'ok':
            yield {'what': 'a %s object did not survive writing and reading as %s: %s' % (k, j[2], ' '.join(a)[:200]), 'command': j}
            continue
        yield judge(k, j, ' '.join(a[1:]).split(' | '))
def stored_order(h, rng, n):
    """manifests whose contests or selections are stored in another order than their sequence: the getters and the serialized form are
    in sequence order but crypto_hash follows the stored order, so the hash of the manifest read back is that of the sorted manifest"""
    jobs = []
    while len(jobs) < 2 * n:
        m = manifest(rng, 'json', n=rng.choice([2, 3]))
        u = m.but(contests=rng.sample([c.but(sels=rng.sample(c.sels, len(c.sels))) for c in m.contests], len(m.contests)))
        if len({x.seq for x in m.contests}) < len(m.contests) or any(len({x.seq for x in c.sels}) < len(c.sels) for c in m.contests):
            continue
        fmt = rng.choice(['json', 'bson', 'msgpack'])
        jobs += [['ser', 'MAN', fmt] + W.enc(W.MAN, m), ['ser', 'MAN', fmt] + W.enc(W.MAN, u)]
    res = [(j, a, [W.dec(out_type('MAN'), iter(p.split(' '))) for p in ' '.join(a[1:]).split(' | ')[:3]] if a[0] == 'ok' else None) for j, a in HN.batch(h, jobs)]
    seen = False
    for (j1, a1, r1), (j2, a2, r2) in zip(res[::2], res[1::2]):
        if r1 is None or r2 is None:
            yield {'what': 'a manifest did not survive writing and reading: %s' % ' '.join((a1 if r1 is None else a2))[:200], 'command': j1 if r1 is None else j2}
            continue
        d = W.diff(r2[0].m, r2[1].m) or W.diff(r2[0], r2[2])
        if d:
            yield {'what': 'a manifest stored in another order read back differs%s' % d, 'command': j2}
        elif r2[1].h != r2[0].h:
            f = {'what': 'the hash of a manifest whose contests or selections are stored out of sequence order changes when it is written and read', 'command': j2}
            if r2[1].h == r1[0].h:
                f['finding'] = 'manifest-stored-order'
            yield f if 'finding' not in f or not seen else None
            seen = seen or 'finding' in f
        else:
            yield None
def judge(k, j, parts):
    x, y, z = [W.dec(out_type(k), iter(p.split(' '))) for p in parts[:3]]
    d = W.diff(x, z)
    if d:
        return {'what': 'writing a %s object changed it%s' % (k, d), 'command': j}
    secret = k in ('CBAL0', 'CBALd', 'SUB')
    d = W.diff(denonce(x) if secret else x, y)
    if d:
        return {'what': 'a %s object read back from %s differs%s' % (k, j[2], d), 'command': j}
    if secret:
        doc = json.loads(bytes.fromhex(parts[3][1:]).decode())
        if has_nonce(doc):
            return {'what': 'a %s object written without nonces contains a nonce' % k, 'command': j}
    return None
