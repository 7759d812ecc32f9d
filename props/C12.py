from common import *
import oracle as O
import harness as HN
import star
from engine import tmpl
LEVEL = 'proof'
TUS = ['src/electionguard/hash.cpp', 'src/electionguard/elgamal.cpp'] + L1_TUS
TRUST = ['clang 18 front end (AST of the real sources)', 'egv verification-condition generator and its C++/std models', 'z3 4.x',
         'assumed contract on Hacl_Streaming_SHA2_*: finish returns the SHA-256 (an uninterpreted function) of the bytes passed to update, in order',
         'std::to_string as decimal text; toHex / vector_uint8_t_to_hex as upper-case hex text (C03)', 'memory allocation succeeds']
ASSUME = ['a single item is shorter than 4 GiB (the length is passed as 32 bits)', 'the SHA-256 digest is not exactly 2^256-1: add_mod_q, as the unit tests pin it, maps that one value to 189 instead of 188 (no input with that digest is known)',
          'lists and nested lists of any length below 2^62 by the representative-element rule; a byte vector item is taken to have 5 bytes (it is passed whole to vector_uint8_t_to_hex)']

# ---- the byte stream of the hash state
def sha_contracts(eng, close=True):
    C = eng.contracts
    def create(eng, this, a, f):
        eng.ghost['sha_live'] = eng.ghost.get('sha_live', 0) + 1
        return Ptr(Cell(OStream()))
    def update(eng, this, a, f):
        st, src, n = a[0].get().loc.get(), a[1].get(), a[2].get()
        if isinstance(src, str):
            if isinstance(n, int):
                src = src[:n] if n <= len(src) else None
                if src is None:
                    raise UB('hash update reads past the end of a string')
            else:
                raise Unsupported('symbolic length of a literal')
            st.mut().append(src)
        elif isinstance(src, SymStr):
            ln = eng.stl.sym_len(eng, src)
            eng.fact(ln < 2**32)
            if not (is_sym(n) and is_sym(ln) and z3.eq(z3.simplify(n), z3.simplify(ln))):
                r = eng.check(z(n) != ln)
                if r != z3.unsat:
                    st.mut().append(('part', src.node, str(n)))
                    return 0
            st.mut().append(('s', src.node))
        elif isinstance(src, APtr) or hasattr(src, 'base'):
            if not isinstance(n, int):
                raise Unsupported('symbolic length')
            st.mut().append(''.join(chr(src.base.read(src.i + k)) for k in range(n)))
        elif isinstance(src, Ptr) and isinstance(src.loc.get(), int) and n == 1:
            st.mut().append(chr(src.loc.get()))
        else:
            raise Unsupported('hash update of %r' % (src,))
        return 0
    C['::Hacl_Streaming_SHA2_create_in_256'] = create
    C['::Hacl_Streaming_SHA2_update_256'] = update
    C['::Hacl_Streaming_SHA2_free_256'] = lambda eng, this, a, f: eng.ghost.__setitem__('sha_freed', eng.ghost.get('sha_freed', 0) + 1)
    if close:
        C[NS + 'hash_close'] = lambda eng, this, a, f: l2.uptr(l2.mkq(sha_term(a[0].get().loc.get().parts)))
        C.pop(NS + 'hash_elems')
        C[NS + 'vector_uint8_t_to_hex'] = lambda eng, this, a, f: SymStr(('hexbytes', l2.buf_key(eng, a[0].get())))
def canon(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '':
            out.append(p)
    return tuple(out)
def sha_term(parts):
    return qatom('SHAq', canon(parts))
ANY = 'any'
class starred:
    """the encodings of the items of a list of arbitrary length"""
    def __init__(self, root, e):
        self.node = ('star', root.base, root.order, canon([e if isinstance(e, str) else ('s', e), '|']))
def spec_hash(encs):
    """the specification: '|' then every encoded item followed by '|'"""
    parts = ['|']
    for e in (encs or ['null']):
        if isinstance(e, starred):
            parts.append(e.node)
            continue
        parts += [e if isinstance(e, str) else ('s', e), '|']
    return sha_term(parts)
def hexq(t):
    return ('hexQ', t)

# ---- item kinds: (name, builder) ; builder(h, tag) -> (alternative index, value, expected encoding)
def kinds(ctx, h, alts, free=False):
    eng = ctx.eng
    names = [a.replace('electionguard::', '').replace('std::', '').replace(' ', '').replace('__cxx11::', '') for a in alts]
    def P(tag): return patom('p' + tag)
    def Q_(tag): return qatom('q' + tag)
    def C(tag):
        a, b = patom('ca' + tag), patom('cb' + tag)
        return h.ct(a, b), hexq(spec_hash([('hexP', a), ('hexP', b)]))
    def one(nm, tag):
        """(value, encoding) of a scalar of the given element type"""
        if nm == 'nullptr_t':
            return NULL, 'null'
        if 'CryptoHashable' in nm:
            c, e = C(tag)
            return (Ptr(c) if '*' in nm else RefWrap(c)), e
        if 'ElementModP' in nm:
            return (Ptr(h.E(P(tag))) if '*' in nm else RefWrap(h.E(P(tag)))), ('hexP', P(tag))
        if 'ElementModQ' in nm:
            return (Ptr(h.E(Q_(tag))) if '*' in nm else RefWrap(h.E(Q_(tag)))), ('hexQ', Q_(tag))
        if nm in ('unsignedlong', 'uint64_t'):
            v = z3.Int('u' + tag)
            eng.fact(z3.And(v >= (0 if free else 1), v < 2**64))
            if free and eng.branch(v == 0):
                return v, 'null'
            return v, ('dec', v.sexpr())
        if 'string' in nm:
            s = SymStr(('str', 's' + tag))
            if free and eng.branch(eng.str_compare('==', s, '')):
                return s, 'null'
            eng.fact(zbool(l2.neg(eng.str_compare('==', s, ''))))
            return s, s.node
        raise Unsupported('hash item kind %s' % nm)
    def item(i, tag, n=2):
        nm = names[i]
        if nm in ('vector<unsignedchar>', 'vector<uint8_t>', 'vector<unsignedchar,allocator<unsignedchar>>'):
            b = Buf(eng, 8, 5, z3.Int('bytes' + tag))
            eng.fact(z3.And(z3.Int('bytes' + tag) >= 0, z3.Int('bytes' + tag) < 2**40))
            b.ch[0][3] = True
            return b, ('hexbytes', l2.buf_key(eng, b))
        if nm.startswith('vector<'):
            el = tmpl(alts[i])[1][0]
            en = el.replace('electionguard::', '').replace('std::', '').replace(' ', '').replace('__cxx11::', '')
            if n == ANY:
                v, e = one(en, tag + '_i')
                root = star.Root(eng, 'inner' + tag)
                if not eng.branch(root.n > 0):
                    return Vec([], el), 'null'
                return Vec(star.StarList([(Cell(v), root)]), el), hexq(spec_hash([starred(root, e)]))
            vs = [one(en, '%s_%d' % (tag, k)) for k in range(n)]
            if en in ('unsignedlong', 'uint64_t'):
                b = Buf(eng, 64, n, 0)
                for k, (v, _) in enumerate(vs):
                    b.write(k, v)
                return b, ('hexQ', spec_hash([e for _, e in vs])) if vs else 'null'
            return Vec([Cell(v) for v, _ in vs], el), (hexq(spec_hash([e for _, e in vs])) if vs else 'null')
        return one(nm, tag)
    return names, item

def alternatives(ctx):
    for f in ctx.prog.funcs[NS + 'hash_elems']:
        t = f.params[0]['type']
        t = t.get('desugaredQualType', t['qualType'])
        if 'variant' in t and 'vector' in t:
            n, a = tmpl(t)
            if n == 'variant' and len(a) > 3:
                return a
            if n == 'vector':
                n2, a2 = tmpl(a[0])
                if n2 == 'variant':
                    return a2
    raise Unsupported('hash item type not found')

def hash_fn(ctx, vec):
    for f in ctx.prog.funcs[NS + 'hash_elems']:
        t = f.params[0]['type']
        t = tmpl(t.get('desugaredQualType', t['qualType']))[0]
        if (t == 'vector') == vec and f.body is not None:
            return f
    raise Unsupported('hash_elems not found')

def listed(pick, n=2, single=False, label=''):
    """pick(names, item) -> list of (index, value, encoding)"""
    def run(ctx):
        eng = ctx.engine(2)
        sha_contracts(eng)
        h = L2(ctx)
        alts = alternatives(ctx)
        st = {}
        def thunk():
            names, item = kinds(ctx, h, alts)
            l = pick(names, item)
            st['enc'] = [e for _, _, e in l]
            vs = [Cell(Variant(i, Cell(v), alts)) for i, v, _ in l]
            if single:
                return eng.call_function(hash_fn(ctx, False), None, vs)
            return eng.call_function(hash_fn(ctx, True), None, [Cell(Vec(vs, 'CryptoHashableType'))])
        def post(r):
            yield 'the bytes hashed are | item | item | ...', h.el(r) == spec_hash(st['enc'])
        ctx.prove(thunk, post, label=label)
    return run

def any_list(first=False, last=False):
    """a list of any length, each item of any kind: the path condition fixes the kind of the arbitrary item only"""
    def run(ctx):
        eng = ctx.engine(2)
        sha_contracts(eng)
        h = L2(ctx)
        alts = alternatives(ctx)
        st = {}
        def thunk():
            names, item = kinds(ctx, h, alts, True)
            k = 0
            while k < len(alts) - 1 and not eng.branch(z3.Bool('kind%d' % k)):
                k += 1
            v, e = item(k, 'x', ANY)
            segs, enc = [], []
            def fixed(i, tag):
                v1, e1 = kinds(ctx, h, alts)[1](i, tag)
                segs.append((Cell(Variant(i, Cell(v1), alts)), None))
                enc.append(e1)
            if first:
                fixed(11, 'l')
            root = star.Root(eng, 'items')
            segs.append((Cell(Variant(k, Cell(v), alts)), root))
            if eng.branch(root.n > 0):
                enc.append(starred(root, e))
            if last:
                fixed(10, 'r')
            st['enc'] = enc
            return eng.call_function(hash_fn(ctx, True), None, [Cell(Vec(star.StarList(segs), 'CryptoHashableType'))])
        def post(r):
            yield 'the bytes hashed are | item | item | ...', h.el(r) == spec_hash(st['enc'])
        ctx.prove(thunk, post, label='hash_elems(list of any length): ')
    return run

def close(ctx):
    """hash_close reduces the digest modulo q"""
    eng = ctx.engine(1)
    sha_contracts(eng, close=False)
    h = L1(ctx)
    D = z3.Int('digest')
    def finish(eng, this, a, f):
        l1.wr(eng, a[1], 32, D, True)
        eng.ghost['fin'] = eng.ghost.get('fin', 0) + 1
        return None
    eng.contracts['::Hacl_Streaming_SHA2_finish_256'] = finish
    def thunk():
        eng.fact(z3.And(D >= 0, D < 2**256))
        return ctx.call(NS + 'hash_close', [Cell(Ptr(Cell(OStream())))])
    def post(r):
        v = h.val(r)
        yield 'the result is below q', z(v) < QI
        yield 'the result is the digest modulo q', z3.Implies(D != 2**256 - 1, z(v) == z3.If(D >= QI, D - QI, D))
        yield 'digest read once, state released once', eng.ghost.get('fin') == 1 and eng.ghost.get('sha_freed') == 1
    ctx.prove(thunk, post, label='hash_close: ')

def obligations(tier):
    obs = [Ob('digest reduced modulo q', close)]
    obs.append(Ob('lists of any length, items of any kind, nested lists of any length', any_list(), limit=600))
    obs.append(Ob('any number of items between two others', any_list(True, True), limit=600))
    for i in range(12, 23):
        obs.append(Ob('nested list kind %d of any length' % i, listed(lambda nm, it, i=i: [(i,) + it(i, 'x', ANY)], single=True)))
    obs.append(Ob('empty list', listed(lambda nm, it: []), bounded='list of 0'))
    NK = 24
    for i in range(NK):
        obs.append(Ob('item kind %d alone' % i, listed(lambda nm, it, i=i: [(i,) + it(i, 'x')], single=True)))
        obs.append(Ob('item kind %d in a list' % i, listed(lambda nm, it, i=i: [(10,) + it(10, 'l'), (i,) + it(i, 'x'), (11,) + it(11, 'r')]), bounded='list of 3'))
    for i in range(12, 23):
        for n in (0, 1, 3):
            obs.append(Ob('nested list kind %d with %d items' % (i, n), listed(lambda nm, it, i=i, n=n: [(i,) + it(i, 'x', n)], single=True), bounded='nested list of %d' % n))
    obs.append(Ob('zero number', listed(lambda nm, it: [(10, 0, 'null'), (10,) + it(10, 'x')])))
    obs.append(Ob('empty string', listed(lambda nm, it: [(11, '', 'null'), (11,) + it(11, 'x')])))
    obs.append(Ob('four items of different kinds', listed(lambda nm, it: [(k,) + it(k, 'x%d' % k) for k in (3, 10, 11, 13)]), bounded='list of 4'))
    obs.append(Ob('order of items', listed(lambda nm, it: [(k,) + it(k, 'x%d' % k) for k in (13, 11, 10, 3)]), bounded='list of 4'))
    return obs

HARNESS = ['main.cpp', 'crypto.cpp']
def gen_item(rng, depth=0):
    """(token, oracle item)"""
    q, p = O.Q, O.P
    qs = lambda: rng.choice([0, 1, 2, 15, 16, 255, 256, q - 1, rng.randrange(q), rng.randrange(2**rng.randrange(1, 256))])
    ps = lambda: rng.choice([0, 1, 16, 255, p - 1, rng.randrange(p), rng.randrange(2**rng.randrange(1, 4096))])
    us = lambda: rng.choice([0, 1, 9, 10, 99, 100, 2**32 - 1, 2**32, 2**63, 2**64 - 1, rng.randrange(2**64), rng.randrange(1000)])
    ss = lambda: ''.join(chr(rng.choice([0x20, 0x7c, 0x41, 0x7a, 0x00, 0xc3, 0xff, 10] + list(range(0x30, 0x7a)))) for _ in range(rng.choice([0, 1, 2, 5, 31, 55, 56, 63, 64, 65, 200])))
    def ch():
        a, b = ps(), ps()
        return '%x/%x' % (a, b), O.El(O.H(O.El(a), O.El(b)))
    k = rng.choice('NusbpqcPQCRSDLLLL')
    if k == 'N':
        return 'N', None
    if k == 'u':
        x = us()
        return 'u:%d' % x, x
    if k == 's':
        x = ss()
        return 's:' + x.encode('latin1').hex(), x
    if k == 'b':
        n = rng.choice([1, 1, 2, 3, 31, 32, 33, 64, 100])
        x = bytes(rng.choice([0, 0, 1, 15, 16, 255, rng.randrange(256)]) for _ in range(n))
        return 'b:' + x.hex(), x
    if k in 'pPR':
        x = ps()
        return '%s:%x' % (k, x), O.El(x)
    if k in 'qQS':
        x = qs()
        return '%s:%x' % (k, x), O.El(x)
    if k in 'cCD':
        t, e = ch()
        return k + ':' + t, e
    s = rng.choice('uspqcPQCRSD')
    n = rng.choice([0, 1, 2, 3, 5, 17])
    l = []
    for _ in range(n):
        if s == 'u':
            x = us(); l.append((str(x), x))
        elif s == 's':
            x = ss(); l.append((x.encode('latin1').hex() or '-', x))
        elif s in 'pPR':
            x = ps(); l.append(('%x' % x, O.El(x)))
        elif s in 'qQS':
            x = qs(); l.append(('%x' % x, O.El(x)))
        else:
            l.append(ch())
    return 'L%s:%s' % (s, ','.join(t for t, _ in l)), [e for _, e in l]

def concrete(h, rng, tier, hints):
    def chk(l):
        e = O.H(*[x for _, x in l])
        r = h.cmd('hash', *[t for t, _ in l])
        if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [e, e]:
            return {'what': 'hash_elems(list)', 'items': [t[:200] for t, _ in l], 'expected': hex(e), 'got': r}
        if len(l) == 1:
            r = h.cmd('hash1', l[0][0])
            if r[0] != 'ok' or int(r[1], 16) != e:
                return {'what': 'hash_elems(item)', 'item': l[0][0][:200], 'expected': hex(e), 'got': r}
    yield chk([])
    for _ in range(1500 if tier == 'quick' else 40000):
        yield chk([gen_item(rng)])
    for n in list(range(2, 12)) + [20, 64, 200]:
        for _ in range(30 if tier == 'quick' else 400):
            yield chk([gen_item(rng) for _ in range(n)])
    T = [bytes(rng.randrange(97, 123) for _ in range(n)).decode() for n in (5, 40, 300)]
    for a, b, c, i, j in HN.walk(rng, [rng.getrandbits(250), rng.getrandbits(4000), rng.getrandbits(64), 0, 0], [O.Q - 1, O.P - 1, 2**64 - 1, 2, 511], 150):
        t = T[i]
        t = t[:j % len(t)] + '~' + t[j % len(t) + 1:]
        items = [('q:%x' % a, O.El(a)), ('p:%x' % b, O.El(b)), ('u:%d' % c, c), ('s:' + t.encode().hex(), t)]
        yield chk(items)
        yield chk([rng.choice(items)])
        yield chk(items[::-1])
    for v in range(0, 1200):
        yield chk([('u:%d' % v, v)])
    for v in list(range(0, 300)) + [1 << k for k in range(256)] + [(1 << k) - 1 for k in range(1, 256)]:
        yield chk([('q:%x' % v, O.El(v))])
    for n in range(0, 200):
        s = 'x' * n
        yield chk([('s:' + s.encode().hex(), s)])
