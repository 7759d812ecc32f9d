from common import *
import oracle as O
import harness as HN
import star
LEVEL = 'proof'
TUS = ['src/electionguard/elgamal.cpp']
TRUST = L2_TRUST + ['contracts on Hacl_Bignum4096_mod_exp/mod_inv_prime/mul/mod used by decrypt: exact residues modulo the prime p']
ASSUME = ['the public key lies in the order-q subgroup (as every key made by fromSecret does)']

def encrypt(m, pre):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            r, s = qatom('r'), qatom('s')
            K = ppow(G_TERM, s)
            if pre:
                c = ctx.call(NS + 'elgamalEncrypt_with_precomputed', [Cell(m), h.E(ppow(G_TERM, r)), h.E(ppow(K, r))])
            else:
                c = ctx.call(NS + 'elgamalEncrypt', [Cell(m), h.E(r), h.E(K)])
            d = ctx.call(NS + 'ElGamalCiphertext::decrypt', [h.E(s)], this=Cell(h.obj(c)))
            return h.g(c, 'getPad'), h.g(c, 'getData'), d
        def post(v):
            r, s = qatom('r'), qatom('s')
            pad, data, d = v
            yield 'pad is g^r', l2.p_eq(pad, ppow(G_TERM, r))
            yield 'data is g^m K^r', l2.p_eq(data, ppow(G_TERM, QTerm.const(m)) * ppow(ppow(G_TERM, s), r))
            yield 'decryption with the secret key returns m', eqv(d, m)
            if not pre:
                yield 'the nonce is not zero', zneg(l2.q_eq(r, QTerm({})))
        thr = None if pre else (lambda e: [('only a zero nonce is refused', l2.q_eq(qatom('r'), QTerm({})))])
        ctx.prove(thunk, post, thr, label='encrypt(%d)%s: ' % (m, ' precomputed' if pre else ''))
    return run
def zneg(b):
    return z3.Not(zbool(b))

def zero_nonce(ctx):
    eng = ctx.engine(2)
    h = L2(ctx)
    def thunk():
        return ctx.call(NS + 'elgamalEncrypt', [Cell(z3.Int('m')), h.E(QTerm.const(0)), h.E(h.K)])
    ctx.prove(thunk, lambda r: [('a zero nonce is refused', False)], lambda e: [], min_ret=0, label='encrypt: ')

def add(n):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            cs, cells = [], []
            for i in range(n):
                a, b = patom('a%d' % i), patom('b%d' % i)
                cs.append((a, b))
                cells.append(h.ct(a, b))
            v = Vec([Cell(RefWrap(c)) for c in cells], 'std::reference_wrapper<ElGamalCiphertext>')
            r = ctx.call(NS + 'elgamalAdd', [Cell(v)])
            return r, cells
        def post(v):
            r, cells = v
            a = b = ONE
            for i in range(n):
                a, b = a * patom('a%d' % i), b * patom('b%d' % i)
            yield 'pads multiply', l2.p_eq(h.g(r, 'getPad'), a)
            yield 'data multiply', l2.p_eq(h.g(r, 'getData'), b)
            for i, c in enumerate(cells):
                yield 'operand %d unchanged' % i, h.g(c, 'getPad') == patom('a%d' % i) and h.g(c, 'getData') == patom('b%d' % i)
        if n == 0:
            ctx.prove(thunk, lambda r: [('an empty list is rejected', False)], lambda e: [], min_ret=0, label='elgamalAdd: ')
        else:
            ctx.prove(thunk, post, label='elgamalAdd of %d: ' % n)
    return run

def add_any(ctx):
    """a list of any length: the result is the product over the list; an empty list is refused"""
    eng = ctx.engine(2)
    h = L2(ctx)
    def thunk():
        c = h.ct(patom('a'), patom('b'))
        root = star.Root(eng, 'cts')
        v = Vec(star.StarList([(Cell(RefWrap(c)), root)]), 'std::reference_wrapper<ElGamalCiphertext>')
        return ctx.call(NS + 'elgamalAdd', [Cell(v)]), c, root
    def post(v):
        r, c, root = v
        yield 'the list is not empty', root.n > 0
        yield 'pads multiply', l2.p_eq(h.g(r, 'getPad'), star.bigprod(root, patom('a')))
        yield 'data multiply', l2.p_eq(h.g(r, 'getData'), star.bigprod(root, patom('b')))
        yield 'operands unchanged', h.g(c, 'getPad') == patom('a') and h.g(c, 'getData') == patom('b')
    ctx.prove(thunk, post, lambda e: [('only an empty list is refused', z3.Int('len!cts') == 0)], label='elgamalAdd of any number: ')

def homomorphic_any(ctx):
    eng = ctx.engine(2)
    h = L2(ctx)
    star.CONST_BASES.update(h.K.f)
    def thunk():
        m, r = qatom('mi'), qatom('ri')
        root = star.Root(eng, 'cts')
        c = h.ct(*h.enc(m, r))
        v = Vec(star.StarList([(Cell(RefWrap(c)), root)]), 'std::reference_wrapper<ElGamalCiphertext>')
        return ctx.call(NS + 'elgamalAdd', [Cell(v)]), root
    def post(v):
        r, root = v
        a, b = h.enc(star.bigsum(root, qatom('mi')), star.bigsum(root, qatom('ri')))
        yield 'encrypts the sum of the votes under the sum of the nonces', zand(l2.p_eq(h.g(r, 'getPad'), a), l2.p_eq(h.g(r, 'getData'), b))
    ctx.prove(thunk, post, lambda e: [('only an empty list is refused', z3.Int('len!cts') == 0)], label='elgamalAdd of any number: ')

def homomorphic(ctx):
    """lemma: the product of encryptions encrypts the sum of votes under the sum of nonces"""
    eng = ctx.engine(2)
    h = L2(ctx)
    def thunk():
        m1, m2, r1, r2 = (qatom(x) for x in ('m1', 'm2', 'r1', 'r2'))
        c1, c2 = h.ct(*h.enc(m1, r1)), h.ct(*h.enc(m2, r2))
        return ctx.call(NS + 'elgamalAdd', [Cell(Vec([Cell(RefWrap(c)) for c in (c1, c2)], 'std::reference_wrapper<ElGamalCiphertext>'))])
    def post(r):
        m1, m2, r1, r2 = (qatom(x) for x in ('m1', 'm2', 'r1', 'r2'))
        a, b = h.enc(m1 + m2, r1 + r2)
        yield 'encrypts the sum under the summed nonce', zand(l2.p_eq(h.g(r, 'getPad'), a), l2.p_eq(h.g(r, 'getData'), b))
    ctx.prove(thunk, post, label='elgamalAdd: ')

def keypair(ctx):
    eng = ctx.engine(2)
    h = L2(ctx)
    for fixed in (True, False):
        def thunk():
            s = qatom('s')
            k = ctx.call(NS + 'ElGamalKeyPair::fromSecret', [h.E(s), Cell(fixed)])
            return h.g(k, 'getSecretKey'), h.g(k, 'getPublicKey')
        small = lambda: z3.Or(*[zbool(l2.q_eq(qatom('s'), QTerm.const(i))) for i in (0, 1)])
        ctx.prove(thunk, lambda v: [('secret key kept', v[0] == qatom('s')), ('public key is g^s', l2.p_eq(v[1], ppow(G_TERM, qatom('s')))), ('secret is at least 2', z3.Not(small()))],
                  lambda e: [('only secrets below 2 are refused', small())], label='fromSecret: ')

def obligations(tier):
    obs = [Ob('encrypt %d%s and decrypt' % (m, ' with precomputed powers' if pre else ''), encrypt(m, pre)) for m in (0, 1) for pre in (False, True)]
    obs += [Ob('zero nonce', zero_nonce), Ob('key pair from secret', keypair), Ob('homomorphic sum', homomorphic), Ob('elgamalAdd of a list of any length', add_any),
            Ob('homomorphic sum of a list of any length', homomorphic_any)]
    obs += [Ob('elgamalAdd of %d' % n, add(n), bounded='list length %d' % n) for n in range(0, 6 if tier == 'quick' else 20)]
    return obs

HARNESS = ['main.cpp', 'crypto.cpp']
def hx(x):
    return '%x' % x
def concrete(h, rng, tier, hints):
    p, q = O.P, O.Q
    n = 12 if tier == 'quick' else 200
    def bad(what, **kw):
        d = {'what': what}
        d.update({k: (hex(v) if isinstance(v, int) else v) for k, v in kw.items()})
        return d
    secs = [2, 3, q - 1, q - 2, 2**255] + [rng.randrange(2, q) for _ in range(n)]
    rs = [1, 2, q - 1, q, q - 2, 2**64, 2**192 + 1] + [rng.randrange(1, q) for _ in range(n)]
    for s in (0, 1):
        for fb in '01':
            r = h.cmd('keypair', hx(s), fb)
            if r[0] != 'throw':
                yield bad('secret key below 2 accepted', secret=s, got=r)
    for s in secs:
        for fb in '01':
            r = h.cmd('keypair', hx(s), fb)
            K = O.pk(s)
            if r[0] != 'ok' or [int(x, 16) for x in r[1:5]] != [s, K, s, K] or r[5] != fb:
                yield bad('key pair', secret=s, fixed=fb, expected=K, got=r)
            yield None
    for m in (0, 1):
        r = h.cmd('enc', m, '0', hx(O.pk(5)))
        if r[0] != 'throw':
            yield bad('zero nonce accepted', m=m, got=r)
    r = h.cmd('ctadd')
    if r[0] != 'throw':
        yield bad('empty list accepted', got=r)
    cts = []
    for i in range(max(len(secs), len(rs))):
        s, rr = secs[i % len(secs)], rs[i % len(rs)]
        K = O.pk(s)
        for m in (0, 1):
            e = O.encrypt(m, rr, K)
            r = h.cmd('enc', m, hx(rr), hx(K), *(['fixed'] if i % 2 else []))
            if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [e[0], e[1], rr, K]:
                yield bad('elgamalEncrypt', m=m, nonce=rr, key=K, got=r)
            g1, k1 = e[0], pow(K, rr, p)
            r = h.cmd('encpre', m, hx(g1), hx(k1))
            if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [e[0], e[1], g1, k1]:
                yield bad('elgamalEncrypt_with_precomputed', m=m, nonce=rr, key=K, got=r)
            r = h.cmd('dec', hx(e[0]), hx(e[1]), hx(s))
            if r[0] != 'ok' or int(r[1]) != m or [int(x, 16) for x in r[2:]] != list(e):
                yield bad('decrypt', m=m, nonce=rr, secret=s, got=r)
            cts.append(e)
            yield None
    s = rng.randrange(2, q)
    for rr, m, ds in HN.walk(rng, [rng.randrange(2, q), 1, 0], [q, 1, 1], 12 if tier == 'quick' else 200):
        K = O.pk(s + ds)
        if not rr:
            continue
        e = O.encrypt(m, rr, K)
        r = h.cmd('enc', m, hx(rr), hx(K))
        if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [e[0], e[1], rr, K]:
            yield bad('elgamalEncrypt', m=m, nonce=rr, key=K, got=r)
        r = h.cmd('dec', hx(e[0]), hx(e[1]), hx(s + ds))
        if r[0] != 'ok' or int(r[1]) != m:
            yield bad('decrypt', m=m, nonce=rr, secret=s + ds, got=r)
    vals = [1, p - 1, p - 2, 2, 2**4095, O.G]
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33):
        for _ in range(3):
            l = [rng.choice(cts) if rng.random() < .7 else (rng.choice(vals), rng.choice(vals)) for _ in range(n)]
            a = b = 1
            for x, y in l:
                a, b = a * x % p, b * y % p
            flat = [x for t in l for x in t]
            r = h.cmd('ctadd', *map(hx, flat))
            if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [a, b] + flat:
                yield bad('elgamalAdd', n=n, list=[hx(x) for x in flat], got=r[:3])
            c = rng.choice(cts)
            r = h.cmd('ctaddsame', hx(c[0]), hx(c[1]), n)
            if r[0] != 'ok' or [int(x, 16) for x in r[1:]] != [pow(c[0], n, p), pow(c[1], n, p), c[0], c[1]]:
                yield bad('elgamalAdd of one ciphertext repeated', n=n, got=r[:3])
            yield None
