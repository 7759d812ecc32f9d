from common import *
import oracle as O
import chars
LEVEL = 'proof'
TUS = L1_TUS
TRUST = L1_TRUST
ASSUME = ['hexadecimal text: proved for every element mod q (both directions) and for digit strings and elements mod p of the listed lengths; text with characters other than digits by concrete executions only',
          'random generation: only the range of the result is considered']

def elem(h, kind, v, **k):
    return h.q(v) if kind == 'Q' else h.p(v, **k)
MOD = {'P': PI, 'Q': QI}
BITS = {'P': 4096, 'Q': 256}
LIMBS = {'P': 64, 'Q': 4}

def ctor_array(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        cls = NS + 'ElementMod' + kind
        for unchecked in (False, True):
            st = {}
            def thunk():
                v = h.var('x', 0, (1 << BITS[kind]) - 1)
                st['v'] = v
                args = [Cell(Buf(eng, 64, LIMBS[kind], v)), Cell(unchecked)]
                if kind == 'P':
                    args.append(Cell(False))
                o = Cell(eng.construct(ctx.prog.classes[cls], args, ['uint64_t[%d]' % LIMBS[kind], 'bool', 'bool'][:len(args)]))
                return h.val(o)
            post = lambda r: [('value is the integer of the limbs', eqv(r, st['v']))] + ([] if unchecked else [('accepted only up to the modulus', z(st['v']) <= MOD[kind])])
            thr = None if unchecked else (lambda e: [('rejected only above the modulus', z(st['v']) > MOD[kind])])
            ctx.prove(thunk, post, thr, label='ElementMod%s(limbs, unchecked=%s): ' % (kind, unchecked))
    return run

def ctor_vector(kind, n):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        cls = NS + 'ElementMod' + kind
        for unchecked in (False, True):
            st = {}
            def thunk():
                v = h.var('x', 0, (1 << (64 * n)) - 1) if n else 0
                st['v'] = v
                b = Buf(eng, 64, n, v)
                args = [Cell(b), Cell(unchecked)]
                if kind == 'P':
                    args.append(Cell(False))
                o = Cell(eng.construct(ctx.prog.classes[cls], args, ['std::vector<uint64_t>', 'bool', 'bool'][:len(args)]))
                return h.val(o)
            lab = 'ElementMod%s(vector of %d, unchecked=%s): ' % (kind, n, unchecked)
            if n > LIMBS[kind]:
                ctx.prove(thunk, lambda r: [('too many limbs are rejected', False)], lambda e: [], min_ret=0, label=lab)
                continue
            post = lambda r: [('value is the integer of the limbs', eqv(r, st['v']))] + ([] if unchecked else [('accepted only up to the modulus', z(st['v']) <= MOD[kind])])
            thr = None if unchecked else (lambda e: [('rejected only above the modulus', z(st['v']) > MOD[kind])])
            ctx.prove(thunk, post, thr, label=lab)
    return run

def from_bytes(kind, sizes):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        mx = BITS[kind] // 8
        for n in sizes:
            for unchecked in (False, True):
                st = {}
                def thunk():
                    v = h.var('x', 0, (1 << (8 * n)) - 1) if n else 0
                    st['v'] = v
                    b = Buf(eng, 8, n, v)
                    if n:
                        b.ch[0][3] = True
                    f = [x for x in ctx.prog.funcs[NS + 'bytes_to_' + kind.lower()] if x.body is not None and len(x.params) == 2 and 'vector' in x.params[0]['type']['qualType']][0]
                    return h.val(eng.call_function(f, None, [Cell(b), Cell(unchecked)]))
                lab = 'bytes_to_%s(%d bytes, unchecked=%s): ' % (kind.lower(), n, unchecked)
                if n > mx or n == 0:
                    ctx.prove(thunk, lambda r: [('an impossible length is rejected', False)], lambda e: [], min_ret=0, label=lab)
                    continue
                post = lambda r: [('big-endian value', eqv(r, st['v']))] + ([] if unchecked else [('accepted only up to the modulus', z(st['v']) <= MOD[kind])])
                thr = None if unchecked or n < mx else (lambda e: [('rejected only above the modulus', z(st['v']) > MOD[kind])])
                ctx.prove(thunk, post, thr, label=lab)
    return run

def compare(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        hi = (1 << BITS[kind]) - 1
        cls = NS + 'ElementMod%s::' % kind
        for op, spec in (('operator==', lambda a, b: a == b), ('operator!=', lambda a, b: a != b), ('operator<', lambda a, b: a < b)):
            st = {}
            def thunk():
                a, b = h.var('a', 0, hi), h.var('b', 0, hi)
                ca, cb = elem(h, kind, a), elem(h, kind, b)
                st.update(a=a, b=b, ca=ca, cb=cb)
                return ctx.call(cls + op, [cb], this=ca)
            def post(r):
                yield 'agrees with the integer relation', zb(r) == spec(st['a'], st['b'])
                yield 'operands unchanged', z3.And(eqz(h.val(st['ca']), st['a']), eqz(h.val(st['cb']), st['b']))
            ctx.prove(thunk, post, label='ElementMod%s::%s: ' % (kind, op))
            def thunk2():
                a = h.var('a', 0, hi)
                ca = elem(h, kind, a)
                st.update(a=a)
                return ctx.call(cls + op, [ca], this=ca)
            ctx.prove(thunk2, lambda r: [('agrees on the same object', zb(r) == spec(st['a'], st['a']))], label='ElementMod%s::%s (same object): ' % (kind, op))
    return run
def zb(r):
    return z3.BoolVal(r) if isinstance(r, bool) else (r if isinstance(r, z3.BoolRef) else z(r) != 0)
def eqz(a, b):
    return z(a) == z(b)

def bounds(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        hi = (1 << BITS[kind]) - 1
        st = {}
        def thunk():
            a = h.var('a', 0, hi)
            ca = elem(h, kind, a)
            st.update(a=a, ca=ca)
            return ctx.call(NS + 'ElementMod%s::isInBounds' % kind, [], this=ca)
        ctx.prove(thunk, lambda r: [('exactly 0 < x < modulus', zb(r) == z3.And(st['a'] > 0, st['a'] < MOD[kind])), ('element unchanged', eqz(h.val(st['ca']), st['a']))], label='isInBounds(%s): ' % kind)
    return run

def residue(fixed):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        st = {}
        import C02
        eng.contracts[NS + 'ElementModP::toHex'] = C02.hexkey
        def powc(eng, this, args, f):
            return UPtr(Ptr(h.p(l1.powmod(eng, h.val(args[0]), h.val(args[1]), PI))))
        eng.contracts[NS + 'pow_mod_p'] = powc
        def thunk():
            a = h.var('a', 0, 2**4096 - 1)
            ca = h.p(a, fixed)
            st.update(a=a, ca=ca)
            return ctx.call(NS + 'ElementModP::isValidResidue', [], this=ca)
        def post(r):
            a = st['a']
            yield 'exactly in bounds and a^q = 1', zb(r) == z3.And(a > 0, a < PI, z(l1.powmod(eng, a, QI, PI)) == 1)
            yield 'element unchanged', eqz(h.val(st['ca']), a)
        ctx.prove(thunk, post, label='isValidResidue: ')
    return run

def to_bytes(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        hi = (1 << BITS[kind]) - 1
        st = {}
        def thunk():
            a = h.var('a', 0, hi)
            ca = elem(h, kind, a)
            st.update(a=a, ca=ca)
            b = ctx.call(NS + 'ElementMod%s::toBytes' % kind, [], this=ca)
            b = b.get() if hasattr(b, 'get') else b
            return b
        def post(b):
            yield 'full width', b.n == BITS[kind] // 8
            yield 'big-endian value', eqz(b.block(0, b.n, True), st['a'])
            yield 'element unchanged', eqz(h.val(st['ca']), st['a'])
        ctx.prove(thunk, post, label='toBytes(%s): ' % kind)
    return run

def strv(s):
    return s.get() if hasattr(s, 'get') else s

def to_hex(kind, back, zeros=None):
    """toHex of every element: upper-case digits of the value without leading zero bytes; back: fromHex returns the element"""
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        hi = (1 << BITS[kind]) - 1 if not back else MOD[kind]
        cls = NS + 'ElementMod%s::' % kind
        st = {}
        def thunk():
            eng.sym_chars = []
            a = h.var('a', 0, hi) if zeros is None else h.var('a', 256 ** (BITS[kind] // 8 - 1 - zeros) if zeros < BITS[kind] // 8 else 0, min(hi, 256 ** (BITS[kind] // 8 - zeros) - 1))
            ca = elem(h, kind, a)
            st.update(a=a, ca=ca)
            s = strv(ctx.call(cls + 'toHex', [], this=ca))
            if not back:
                return s
            return h.val(ctx.call(cls + 'fromHex', [Cell(s), Cell(False)]))
        def post(s):
            if back:
                yield 'reading the text back gives the element', chars.settled(eng, eqz(s, st['a']))
                return
            a = st['a']
            if not isinstance(s, str):
                raise Unsupported('text of %r' % (s,))
            ok = all(chars.is_char(c) and chars.entry(eng, c)[1] or c in '0123456789ABCDEF' for c in s)
            yield 'upper-case digits', ok
            yield 'whole bytes', len(s) % 2 == 0 and len(s) >= 2
            yield 'the digits are those of the value', chars.value(eng, s) == z(a)
            yield 'no leading zero byte', True if len(s) == 2 else chars.value(eng, s[:2]) != 0
            yield 'element unchanged', eqz(h.val(st['ca']), a)
        ctx.prove(thunk, post, label=('fromHex(toHex(%s)): ' if back else 'toHex(%s): ') % kind)
    return run

def from_hex(kind, sizes):
    """fromHex of every string of hexadecimal digits of the given sizes, each digit in either case"""
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        cls = NS + 'ElementMod%s::' % kind
        for n in sizes:
            for unchecked in (False, True):
                st = {}
                def thunk():
                    eng.sym_chars = []
                    s = ''.join(chars.digit(eng, eng.fresh('d', 'int', 0, 15), i % 3 != 1) for i in range(n))
                    st['v'] = chars.value(eng, s)
                    return h.val(ctx.call(cls + 'fromHex', [Cell(s), Cell(unchecked)]))
                lim = MOD[kind] if not unchecked else (1 << BITS[kind]) - 1
                post = lambda r: [('value of the digits', chars.settled(eng, eqz(r, st['v']))), ('accepted only up to the limit', chars.settled(eng, st['v'] <= lim))]
                thr = lambda e: [('rejected only above the limit', chars.settled(eng, st['v'] > lim))]
                ctx.prove(thunk, post, thr, label='ElementMod%s::fromHex(%d digits, unchecked=%s): ' % (kind, n, unchecked))
    return run

def from_uint(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        for unchecked in (False, True):
            st = {}
            def thunk():
                a = h.var('a', 0, 2**64 - 1)
                st.update(a=a)
                return h.val(ctx.call(NS + 'ElementMod%s::fromUint64' % kind, [Cell(a), Cell(unchecked)]))
            ctx.prove(thunk, lambda r: [('exactly the integer', eqz(r, st['a']))], label='fromUint64(%s): ' % kind)
    return run

def copies(kind):
    def run(ctx):
        eng = ctx.engine(1, merge=True)
        h = L1(ctx)
        hi = MOD[kind]
        cls = ctx.prog.classes[NS + 'ElementMod' + kind]
        for fixed in ((False, True) if kind == 'P' else (None,)):
            st = {}
            def thunk():
                a = h.var('a', 0, hi)
                ca = h.q(a) if kind == 'Q' else h.p(a, fixed)
                c1 = ctx.call(NS + 'ElementMod%s::clone' % kind, [], this=ca)
                c2 = Cell(eng.construct(cls, [ca], [NS + 'ElementMod' + kind]))
                b = h.var('b', 0, hi)
                cb = h.q(b) if kind == 'Q' else h.p(b, not fixed)
                ctx.call(NS + 'ElementMod%s::operator=' % kind, [Cell(eng.construct(cls, [ca], [NS + 'ElementMod' + kind]))], this=cb)
                st.update(a=a, ca=ca)
                return c1, c2, cb
            def post(r):
                for nm, c in zip(('clone', 'copy', 'assignment'), r):
                    yield nm + ' has the same value', eqz(h.val(c), st['a'])
                    if kind == 'P':
                        yield nm + ' keeps the fixed-base mark', h.fixed(c) == fixed
                    yield nm + ' is independent storage', h.impl(c) is not h.impl(st['ca'])
                yield 'source unchanged', eqz(h.val(st['ca']), st['a'])
            ctx.prove(thunk, post, label='copies(%s): ' % kind)
    return run

def embed(ctx):
    eng = ctx.engine(1, merge=True)
    h = L1(ctx)
    st = {}
    def thunk():
        a = h.var('a', 0, 2**256 - 1)
        ca = h.q(a)
        st.update(a=a, ca=ca)
        return h.val(ctx.call(NS + 'ElementModQ::toElementModP', [], this=ca))
    ctx.prove(thunk, lambda r: [('same integer', eqz(r, st['a'])), ('element unchanged', eqz(h.val(st['ca']), st['a']))], label='toElementModP: ')

def obligations(tier):
    obs = []
    for k in 'QP':
        obs += [Ob('construction from limb array (%s)' % k, ctor_array(k)),
                Ob('comparison operators (%s)' % k, compare(k)), Ob('isInBounds (%s)' % k, bounds(k)),
                Ob('toBytes (%s)' % k, to_bytes(k)), Ob('fromUint64 (%s)' % k, from_uint(k)), Ob('copies (%s)' % k, copies(k))]
    obs += [Ob('isValidResidue', residue(False)), Ob('toElementModP', embed)]
    for n in range(0, 5):
        obs.append(Ob('construction from vector of %d limbs (Q)' % n, ctor_vector('Q', n)))
    obs.append(Ob('construction from vector of 5 limbs (Q)', ctor_vector('Q', 5), bounded='over-long vectors: lengths 5 (Q), 65 (P)'))
    for n in ([0, 1, 2, 33, 63, 64] if tier == 'quick' else range(65)):
        obs.append(Ob('construction from vector of %d limbs (P)' % n, ctor_vector('P', n), bounded='sampled vector lengths' if tier == 'quick' else None))
    obs.append(Ob('construction from vector of 65 limbs (P)', ctor_vector('P', 65), bounded='over-long vectors: lengths 5 (Q), 65 (P)'))
    obs.append(Ob('toHex (Q)', to_hex('Q', False)))
    obs.append(Ob('fromHex of toHex (Q)', to_hex('Q', True)))
    for k in (0, 510, 511, 512):
        obs.append(Ob('toHex (P) with %d leading zero bytes' % k, to_hex('P', False, k), bounded='%d leading zero bytes' % k))
        obs.append(Ob('fromHex of toHex (P) with %d leading zero bytes' % k, to_hex('P', True, k), bounded='%d leading zero bytes' % k))
    for ns in ((1, 2, 3, 4, 5, 16, 17), (63,), (64,), (65,)):
        nm = ', '.join(map(str, ns))
        obs.append(Ob('fromHex (Q) of any %s digits' % nm, from_hex('Q', ns), bounded=nm + ' digits'))
    obs.append(Ob('bytes_to_q, every length 0..32', from_bytes('Q', range(0, 33))))
    obs.append(Ob('bytes_to_q, over-long', from_bytes('Q', (33, 40)), bounded='over-long inputs: lengths 33, 40'))
    if tier == 'quick':
        obs.append(Ob('bytes_to_p, sampled lengths', from_bytes('P', (0, 1, 7, 8, 9, 32, 64, 65, 511, 512, 513)), bounded='byte lengths 0,1,7,8,9,32,64,65,511,512,513'))
    else:
        for a in range(0, 514, 32):
            obs.append(Ob('bytes_to_p, lengths %d..%d' % (a, min(a + 31, 513)), from_bytes('P', range(a, min(a + 32, 514))), limit=1800))
    return obs

HARNESS = ['main.cpp', 'group.cpp']
def concrete(h, rng, tier, hints):
    p, q = O.P, O.Q
    hv = [int(v, 16) for m in hints for k, v in m.items() if isinstance(v, str) and v.startswith('0x')]
    big = tier != 'quick'
    qs = sorted(set(x for x in hv + O.qvals(rng, 2**256 - 1, 30) + [q + 1, q + 2, 2**256 - 1, 2**256 - 2] + O.limb_patterns(4) + [1 << i for i in range(256)] + [(1 << i) - 1 for i in range(0, 257, 4)] if 0 <= x < 2**256))
    ps = sorted(set(x for x in hv + O.pvals(rng, 2**4096 - 1, 20) + [p, p + 1, p + 2, 2**4096 - 1] + [1 << i for i in range(0, 4096, 37 if not big else 5)] + [(1 << i) - 1 for i in range(0, 4097, 61 if not big else 8)] if 0 <= x < 2**4096))
    def res(r):
        return int(r[1], 16) if r[0] == 'ok' else r[0]
    for kind, vals, m, nb, nl in (('q', qs, q, 32, 4), ('p', ps, p, 512, 64)):
        for x in vals:
            exp = O.hexu(x)
            r = h.cmd('info' + kind, '%x' % x)
            by = x.to_bytes(nb, 'big').hex()
            if kind == 'q':
                if x <= q:
                    e = ['ok', '1' if 0 < x < m else '0', exp, by, '%x' % x, '%x' % x, '%x' % x, '%x' % x]
                    if r != e:
                        yield {'what': 'infoq', 'x': hex(x), 'expected': e, 'got': r}
            else:
                e = ['ok', '1' if 0 < x < m else '0', exp, by, exp, '%x' % x, '%x' % x, '%x' % x, '000']
                if r != e:
                    yield {'what': 'infop', 'x': hex(x), 'expected': e, 'got': r}
                e[-1] = '111'
                r = h.cmd('infop', '%x' % x, '1')
                if r != e:
                    yield {'what': 'infop (fixed base)', 'x': hex(x), 'expected': e, 'got': r}
            for un in '01':
                w = x if un == '1' or x <= m else 'throw'
                for nm, t in (('mk' + kind, '%x' % x), ('fromhex' + kind, exp.encode().hex()), ('fromhex' + kind, ('%x' % x).encode().hex()), ('fromhex' + kind, ('000' + exp).encode().hex() if x < 2**200 else exp.lower().encode().hex()),
                              ('bytes' + kind, by)):
                    r = h.cmd(nm, t, un)
                    if res(r) != w:
                        yield {'what': nm, 'argument': t, 'unchecked': un, 'expected': str(w), 'got': r}
                n = (x.bit_length() + 7) // 8
                if n and n < nb:
                    r = h.cmd('bytes' + kind, x.to_bytes(n, 'big').hex(), un)
                    if res(r) != w:
                        yield {'what': 'bytes' + kind, 'x': hex(x), 'size': n, 'expected': str(w), 'got': r}
                ls = [(x >> (64 * i)) & (2**64 - 1) for i in range((x.bit_length() + 63) // 64)]
                r = h.cmd('mk%sv' % kind, un, *ls)
                if res(r) != w:
                    yield {'what': 'element from limb vector', 'limbs': ls, 'unchecked': un, 'expected': str(w), 'got': r}
            yield None
        for n in (nl + 1, nl + 2):
            r = h.cmd('mk%sv' % kind, '1', *([0] * n))
            if r[0] != 'throw':
                yield {'what': 'vector of %d limbs accepted' % n, 'got': r}
        for n in (nb + 1, nb + 8):
            for un in '01':
                r = h.cmd('bytes' + kind, '01' * n, un)
                if r[0] != 'throw':
                    yield {'what': '%d bytes accepted' % n, 'got': r}
        pairs = [(a, b) for a in vals for b in (a, a ^ 1, a ^ (1 << (64 * rng.randrange(nl))), a ^ (1 << rng.randrange(64 * nl)), rng.choice(vals), a ^ (1 << (64 * rng.randrange(nl) + 63)))]
        for a, b in pairs:
            r = h.cmd('cmp' + kind, '%x' % a, '%x' % b)
            e = '%d%d%d' % (a == b, a != b, a < b)
            if r != ['ok', e]:
                yield {'what': 'comparison (==,!=,<)', 'a': hex(a), 'b': hex(b), 'expected': e, 'got': r}
            yield None
        for i in range(64 * nl if kind == 'q' or big else 0):
            a = rng.getrandbits(64 * nl)
            r = h.cmd('cmp' + kind, '%x' % a, '%x' % (a ^ (1 << i)))
            e = '01%d' % (a < a ^ (1 << i))
            if r != ['ok', e]:
                yield {'what': 'comparison (==,!=,<)', 'a': hex(a), 'bit': i, 'expected': e, 'got': r}
            yield None
        for x in (0, 1, 2, 255, 256, 2**32 - 1, 2**32, 2**63, 2**64 - 1, rng.getrandbits(64)):
            for un in '01':
                r = h.cmd('fromu' + kind, x, un)
                if res(r) != x:
                    yield {'what': 'fromUint64 (%s)' % kind, 'x': x, 'got': r}
    for x in [0, 1, p - 1, p, p + 1, p + O.G, O.G, 2, 3, pow(3, (p - 1) // O.Q, p), p - O.G, 2**4096 - 1, pow(O.G, rng.getrandbits(250), p), p - pow(O.G, 77, p), rng.getrandbits(4095)] + hv[:3]:
        e = '1' if 0 < x < p and pow(x, q, p) == 1 else '0'
        r = h.cmd('residue', '%x' % x)
        if r != ['ok', e]:
            yield {'what': 'isValidResidue', 'x': hex(x), 'expected': e, 'got': r}
        yield None
    for i in range(200 if tier == 'quick' else 3000):
        r = h.cmd('randq')
        if r[0] != 'ok' or not int(r[1], 16) < q:
            yield {'what': 'rand_q out of range', 'got': r}
        if i % 10 == 0:
            r = h.cmd('randp')
            if r[0] != 'ok' or not int(r[1], 16) < p:
                yield {'what': 'rand_p out of range', 'got': r}
        yield None
