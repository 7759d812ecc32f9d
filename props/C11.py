from common import *
from ballots import *
import itertools
LEVEL = 'proof'
TUS = BALLOT_TUS + ENCRYPT_TUS
TRUST = L2_TRUST + ['the system clock returns any time']
ASSUME = ['distinct sequence orders of the contests of a ballot', 'mediator histories: every state a mediator can be in after any history is reached by the listed ones, because a successful encryption leaves an arbitrary code']
U64 = 2**64 - 1
MED = NS + 'EncryptionMediator'

def dec(x):
    return ('dec', z3.simplify(x).sexpr()) if not isinstance(x, int) else ('dec', z3.IntVal(x).sexpr())
def codeH(seed, ts, ch):
    return l2.hash_term((('hexQ', seed), ts, ('hexQ', ch)))
def num(eng, x):
    return 'null' if eng.branch(z(x) == 0) else dec(x)

def functions(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    d, s, l, t = (z3.Int(n) for n in ('device', 'session', 'launch', 'ts'))
    def thunk():
        for v in (d, s, l, t):
            eng.fact(z3.And(v >= 0, v <= U64))
        loc = S('location')
        seed, ch = qatom('seed'), qatom('ch')
        a = h.el(ctx.call(NS + 'BallotCode::getHashForDevice', [Cell(d), Cell(s), Cell(l), Cell(loc)]))
        dev = h.make('EncryptionDevice', [Cell(d), Cell(s), Cell(l), Cell(loc)], ['const uint64_t', 'const uint64_t', 'const uint64_t', 'const std::string &'])
        b = h.el(h.get(dev, 'getHash'))
        c = h.el(ctx.call(NS + 'BallotCode::getBallotCode', [h.E(seed), Cell(t), h.E(ch)]))
        w = l2.hash_term((num(eng, d), num(eng, s), num(eng, l), 'null' if eng.branch(eng.str_compare('==', loc, '')) else strnode(loc)))
        mh, n, oid = qatom('mh'), qatom('n'), S('ballot')
        nonempty(eng, oid)
        ns = h.el(ctx.call(NS + 'CiphertextBallot::nonceSeed', [h.E(mh), Cell(oid), h.E(n)]))
        return a, b, c, w, codeH(seed, num(eng, t), ch), ns, l2.hash_term((('hexQ', mh), strnode(oid), ('hexQ', n))), [h.get(dev, x) for x in ('getDeviceUuid', 'getSessionUuid', 'getLaunchCode')]
    def post(x):
        a, b, c, w, wc, ns, wn, g = x
        yield 'device hash covers device, session, launch code and location', a == w
        yield 'the device reports that hash', b == w
        yield 'ballot code is the hash of seed, timestamp and ballot hash', c == wc
        yield 'nonce seed is the hash of manifest hash, ballot id and nonce', ns == wn
        for v, y in zip((d, s, l), g):
            yield 'device identifiers', eqv(y, v)
    ctx.prove(thunk, post, label='hashes: ')

ANY = 'any'
def contests(h, n):
    out = []
    if n == ANY:
        sq = z3.Int('cseq')
        h.eng.fact(z3.And(sq >= 0, sq <= U64))
        c = h.ccontest(S('c'), sq, qatom('cdh'), [h.csel(S('s'), 1, qatom('sdh'), (patom('A'), patom('B')), nonce=qatom('sn'), ch=qatom('sch'), proof=h.dproof('p'))],
                       nonce=qatom('cn'), acc=(patom('X'), patom('Y')), ch=qatom('cch'), proof=h.cproof('q'), hashed=h.hashed('he'))
        return many(h.eng, 'contests', c, key=sq)[0]
    for i in range(n):
        out.append(h.ccontest(S('c%d' % i), 3 * i + 1, qatom('cdh%d' % i), [h.csel(S('s%d' % i), 1, qatom('sdh%d' % i), (patom('A%d' % i), patom('B%d' % i)), nonce=qatom('sn%d' % i), ch=qatom('sch%d' % i), proof=h.dproof('p%d' % i))],
                              nonce=qatom('cn%d' % i), acc=(patom('X%d' % i), patom('Y%d' % i)), ch=qatom('cch%d' % i), proof=h.cproof('q%d' % i), hashed=h.hashed('he%d' % i)))
    return out

def hash_of(h, oid, mh, n):
    if n == ANY:
        return listH_any(oid, mh, star.Root(h.eng, 'contests'), qatom('cch'))
    return listH(oid, mh, [qatom('cch%d' % i) for i in range(n)])
def hashes_of(h, vec):
    v = vec.get() if hasattr(vec, 'get') else vec
    if isinstance(v.items, star.StarList):
        return [(h.g(h.obj(c.get()), 'getCryptoHash'), None if r is None else (r.base, r.order)) for c, r in v.items.segs]
    return [h.g(c, 'getCryptoHash') for c in h.refs(v)]
def expected_hashes(n):
    return [(qatom('cch'), ('contests', 'ascending'))] if n == ANY else [qatom('cch%d' % i) for i in range(n)]

def making(cls, n, perm):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        clock(eng)
        for has_seed, has_code, zero_ts in itertools.product((1, 0), (0, 1), (0, 1)):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 1, ts <= U64))
                oid, style, mh = S('id'), S('style'), qatom('mh')
                nonempty(eng, oid)
                cs = contests(h, n)
                a = [Cell(oid), Cell(style), h.E(mh), h.V(cs if n == ANY else [cs[i] for i in perm]), h.U(qatom('nonce')), Cell(0 if zero_ts else ts), h.U(qatom('seed') if has_seed else None), h.U(qatom('code') if has_code else None)]
                if cls == 'SubmittedBallot':
                    a.append(Cell(1))
                o = h.obj(ctx.call(NS + cls + '::make', a))
                got = {x: h.g(o, 'get' + x) for x in ('ManifestHash', 'BallotCodeSeed', 'BallotCode', 'Nonce', 'CryptoHash')}
                t = h.get(o, 'getTimestamp')
                ch = hash_of(h, oid, mh, n)
                seed = qatom('seed') if has_seed else mh
                code = qatom('code') if has_code else codeH(seed, num(eng, t), ch)
                got['ids'] = (h.get(o, 'getObjectId'), h.get(o, 'getStyleId'))
                got['cons'] = hashes_of(h, h.get(o, 'getContests'))
                return got, t, ts, ch, seed, code, mh, (oid, style)
            def post(x):
                got, t, ts, ch, seed, code, mh, ids = x
                yield 'crypto hash', got['CryptoHash'] == ch
                yield 'seed is the given one, or the manifest hash', got['BallotCodeSeed'] == seed
                yield 'code is the hash of seed, timestamp and crypto hash, or the given one', got['BallotCode'] == code
                yield 'manifest hash', got['ManifestHash'] == mh
                yield 'nonce', got['Nonce'] == qatom('nonce')
                yield 'ids', [strnode(a) for a in got['ids']] == [strnode(a) for a in ids]
                yield 'contests', got['cons'] == expected_hashes(n)
                if not zero_ts:
                    yield 'timestamp', eqv(t, ts)
            ctx.prove(thunk, post, throws=(lambda e: [('only a ballot without contests is refused', z3.Int('len!contests') == 0)]) if n == ANY else None,
                      label='%s::make, %s contests stored as %s (seed %d, code %d, %s): ' % (cls, n, list(perm), has_seed, has_code, 'no timestamp' if zero_ts else 'timestamp'))
    return run

def no_contests(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    clock(eng)
    for cls in ('CiphertextBallot', 'SubmittedBallot'):
        def thunk():
            a = [Cell(S('id')), Cell(S('style')), h.E(qatom('mh')), h.V([]), h.U(qatom('nonce')), Cell(5), h.U(qatom('seed')), h.U(None)] + ([Cell(1)] if cls == 'SubmittedBallot' else [])
            return ctx.call(NS + cls + '::make', a)
        ctx.prove(thunk, lambda r: [('a ballot without contests is refused', False)], throws=lambda e: [], min_ret=0, label=cls + ': ')

class Env:
    """manifest, context and ballot around a contract on encryptBallot that records the seed it is given"""
    def __init__(self, ctx, h, outcome):
        eng = self.eng = h.eng
        self.calls = []
        self.outcome = outcome
        def enc(eng, this, a, f):
            i = len(self.calls)
            seed = h.el(a[3])
            self.calls.append(seed)
            if self.outcome[i] == 'throw':
                raise CppThrow('std::runtime_error')
            self.last = h.cballot('b%d' % i, 'style', qatom('mh'), seed, contests(h, 1), qatom('code%d' % i), 1000 + i, qatom('n%d' % i), qatom('bch%d' % i))
            return UPtr(Ptr(self.last))
        eng.contracts[NS + 'encryptBallot'] = enc
        clock(eng)
        cd = h.cdescp('c0', 'gp', 1, 1, 'name', [h.sdesc('s0', 'cand0', 1)], [h.sdesc('ph', 'phc', 2)])
        self.im = h.imanifest([cd], [h.style('style', ['gp'])], qatom('mh'))
        self.context = h.context(h.K, qatom('mh'))
        self.dev = h.device()
        self.ballot = h.pballot('b', 'style', [h.pcontest('c0', [h.psel('s0', 1)])])
        self.med = h.make('EncryptionMediator', [self.im, self.context, self.dev], ['const InternalManifest &', 'const CiphertextElectionContext &', 'const EncryptionDevice &'])

def history(ops):
    """ops: list of (full|compact, ok|throw)"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            nonempty(eng, S('location'))
            e = Env(ctx, h, [o for _, o in ops])
            got = []
            for kind, out in ops:
                try:
                    r = ctx.call(MED + ('::encrypt' if kind == 'full' else '::compactEncrypt'), [e.ballot, Cell(True)], this=e.med)
                    got.append(('ok', h.g(r, 'getBallotCode'), h.g(r, 'getBallotCodeSeed')))
                except CppThrow as x:
                    got.append(('throw',))
            dh = h.el(h.get(e.dev, 'getHash'))
            return got, e.calls, dh
        def post(x):
            got, calls, dh = x
            seed = dh
            yield 'one encryption per call', len(calls) == len(ops)
            for i, (kind, out) in enumerate(ops):
                yield 'ballot %d is seeded with the code before it (the device hash for the first)' % i, i < len(calls) and calls[i] == seed
                yield 'ballot %d: outcome is that of the encryption' % i, got[i][0] == out
                if out == 'ok' and got[i][0] == 'ok':
                    yield 'ballot %d keeps its code and seed' % i, got[i][1] == qatom('code%d' % i) and got[i][2] == seed
                    seed = qatom('code%d' % i)
        ctx.prove(thunk, post, label=' then '.join('%s %s' % o for o in ops) + ': ')
    return run

def creation(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    for same in (True, False):
        def thunk():
            im = h.imanifest([], [], qatom('mh'))
            m2 = qatom('mh') if same else qatom('other')
            if not same:
                eng.assume(l2.neg(l2.q_eq(qatom('mh'), m2)))
            cx = h.context(h.K, m2)
            return h.make('EncryptionMediator', [im, cx, h.device()], ['const InternalManifest &', 'const CiphertextElectionContext &', 'const EncryptionDevice &'])
        if same:
            ctx.prove(thunk, lambda r: [('created', True)], label='equal hashes: ')
        else:
            ctx.prove(thunk, lambda r: [('a mediator whose manifest and context hashes differ cannot be created', False)], throws=lambda e: [], min_ret=0, label='different hashes: ')

def encrypting(n, given_nonce, zero_ts, verify):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for known_style in (True, False):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 1, ts <= U64))
                clock(eng)
                rec = {}
                def encs(eng, this, a, f):
                    rec['seed'] = h.el(a[3])
                    rec['verify'] = a[4].get()
                    return h.V(contests(h, n)).get()
                eng.contracts[NS + 'encryptContests'] = encs
                def valid(eng, this, a, f):
                    rec['ok'] = l2.bool_atom('ballotvalid', h.el(a[0]), h.el(a[1]), h.el(a[2]))
                    return rec['ok']
                eng.contracts[NS + 'CiphertextBallot::isValidEncryption'] = valid
                mh, seed, oid = qatom('mh'), qatom('seed'), S('ballot')
                nonempty(eng, oid)
                im = h.imanifest([h.cdescp('c0', 'gp', 1, 1, 'name', [h.sdesc('s0', 'cand0', 1)], [h.sdesc('ph', 'phc', 2)])], [h.style('style', ['gp'])], mh)
                cx = h.context(h.K, mh)
                b = h.pballot(oid, 'style' if known_style else 'other', [h.pcontest('c0', [h.psel('s0', 1)])])
                r = ctx.call(NS + 'encryptBallot', [b, im, cx, h.E(seed), h.U(qatom('nonce') if given_nonce else None), Cell(0 if zero_ts else ts), Cell(verify)])
                o = h.obj(r)
                t = h.get(o, 'getTimestamp')
                ch = hash_of(h, oid, mh, n)
                nn = h.g(o, 'getNonce')
                return rec, h.g(o, 'getBallotCodeSeed'), h.g(o, 'getBallotCode'), codeH(seed, num(eng, t), ch), t, ts, ch, h.g(o, 'getCryptoHash'), nn, l2.hash_term((('hexQ', mh), strnode(oid), ('hexQ', nn))) if nn is not None else None, h.g(cx, 'getCryptoExtendedBaseHash')
            def post(x):
                rec, s, code, want, t, ts, ch, gch, nn, ns, q = x
                yield 'a ballot with an unknown style is refused', known_style
                yield 'the ballot is seeded with the given code', s == qatom('seed')
                yield 'code is the hash of seed, timestamp and crypto hash', code == want
                yield 'crypto hash', gch == ch
                yield 'the nonce is the given one, or a new one', (nn == qatom('nonce')) if given_nonce else nn is not None
                yield 'contests are encrypted with the nonce seed of the ballot', rec.get('seed') == ns
                if not zero_ts:
                    yield 'timestamp', eqv(t, ts)
                if verify:
                    yield 'only a ballot that verifies is returned', l2.bool_atom('ballotvalid', qatom('mh'), h.K, q)
            ctx.prove(thunk, post, throws=lambda e: [], min_ret=1 if known_style else 0, label='encryptBallot (%s style): ' % ('known' if known_style else 'unknown'))
    return run

def obligations(tier):
    obs = [Ob('hashes of device, ballot code and nonce seed', functions), Ob('creation of a mediator', creation), Ob('ballots without contests', no_contests)]
    for cls in ('CiphertextBallot', 'SubmittedBallot'):
        obs.append(Ob('%s::make with any number of contests' % cls, making(cls, ANY, ())))
        for n, perms in ((1, [(0,)]), (2, [(0, 1), (1, 0)]), (3, [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)] if cls == 'CiphertextBallot' else [(1, 2, 0)])):
            for p in perms:
                obs.append(Ob('%s::make with %d contests stored as %s' % (cls, n, list(p)), making(cls, n, p), bounded='%d contests' % n))
    for n, g, zt, v in ((1, True, False, True), (1, False, False, True), (2, True, True, True), (1, False, True, False), (3, True, False, False)):
        obs.append(Ob('encryptBallot, %d contests, %s nonce, %s timestamp%s' % (n, 'given' if g else 'no', 'no' if zt else 'given', ', verified' if v else ''), encrypting(n, g, zt, v), bounded='%d contests' % n))
    for g, zt, v in itertools.product((True, False), (False, True), (True, False)):
        obs.append(Ob('encryptBallot, any number of contests, %s nonce, %s timestamp%s' % ('given' if g else 'no', 'no' if zt else 'given', ', verified' if v else ''), encrypting(ANY, g, zt, v)))
    K = [(k, o) for k in ('full', 'compact') for o in ('ok', 'throw')]
    hs = [[a] for a in K] + [list(p) for p in itertools.product(K, repeat=2)] + [list(p) for p in itertools.product(K, repeat=3) if p[1][1] == 'throw' or tier != 'quick' or p in (((('full', 'ok'),) * 3), ((('compact', 'ok'),) * 3))]
    for ops in hs:
        obs.append(Ob('mediator: ' + ' then '.join('%s %s' % o for o in ops), history(ops)))
    return obs

HARNESS = ['main.cpp', 'ballot.cpp']
import wire as W
import oracle as O
from harness import batch
E = O.El
def mk_ballots(rng, m, k):
    out = []
    for i in range(k):
        style = rng.choice(['all', 'all', 'one'])
        cs = []
        for c in W.contests_for(m, style):
            if rng.random() < .8:
                n = rng.randrange(0, c.elected + 1)
                pick = rng.sample(c.sels, n)
                cs.append(W.R(id=c.id, sels=[W.R(id=s.id, vote=1, ph=False, writein='') for s in pick]))
        kind = rng.random()
        if kind < .15:
            style = 'nowhere'                       # fails: unknown style
        elif kind < .3 and cs:
            cs[0] = cs[0].but(sels=[W.R(id=m_id, vote=1, ph=False, writein='') for m_id in ['x%d' % j for j in range(40)]])   # unknown selections are dropped in a full ballot
        fails = style == 'nowhere'
        wide = [c for c in W.contests_for(m, 'all') if c.allowed >= 2 and c.elected < 2]
        if .3 < kind < .6 and wide:                 # fails: a vote that is neither 0 nor 1 and not an overvote
            style, fails = 'all', True
            cs = [W.R(id=wide[-1].id, sels=[W.R(id=wide[-1].sels[-1].id, vote=2, ph=False, writein='')])]
        out.append(W.R(id='ballot-%d' % i, style=style, contests=cs, _fails=fails))
    return out
def concrete(h, rng, tier, hints):
    big = [0, 1, 2, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**63, 2**64 - 1]
    for _ in range(60):
        d, s, l = (rng.choice(big + [rng.randrange(2**64)]) for _ in range(3))
        loc = rng.choice(['', 'polling-place', 'a|b', 'x' * 300, 'caf\xe9', '0'])
        r = h.cmd('device', d, s, l, 'x' + loc.encode('latin1').hex())
        w = '%x' % O.H(d, s, l, loc)
        if r[0] != 'ok' or r[1:3] != [w, w] or r[3:6] != [str(d), str(s), str(l)]:
            yield {'what': 'device hash', 'input': [d, s, l, loc], 'expected': w, 'got': r}
        yield None
    for _ in range(60):
        sd, ch = (rng.choice([0, 1, 255, O.Q - 1, rng.randrange(O.Q), rng.randrange(2**200)]) for _ in range(2))
        t = rng.choice(big + [rng.randrange(2**64)])
        r = h.cmd('code', '%x' % sd, t, '%x' % ch)
        w = '%x' % O.H(E(sd), t, E(ch))
        if r != ['ok', w]:
            yield {'what': 'ballot code', 'input': [hex(sd), t, hex(ch)], 'expected': w, 'got': r}
        yield None
    K, q = O.pk(rng.randrange(2, O.Q)), rng.randrange(1, O.Q)
    # ballots made from contests
    for shape in [(1,), (2, 1), (1, 1, 1), (1,) * 9]:
        b = W.mk_cbal(rng, K, q, shape)
        for seed in (b.seed, None):
            for code in (None, rng.randrange(O.Q)):
                for ts in (0, 1, rng.randrange(2**40), 2**64 - 1):
                    cons = rng.sample(b.contests, len(b.contests))
                    args = W.enc(W.S, b.id) + W.enc(W.S, b.style) + W.enc(W.El, b.mh) + W.enc(W.L(W.CCON), cons) + W.enc(W.El, b.nonce) + [str(ts)] + W.enc(W.El, seed) + W.enc(W.El, code)
                    r = h.cmd('balmake', *args)
                    if r[0] != 'ok':
                        yield {'what': 'making a ballot', 'got': r, 'input': ' '.join(args)[:3000]}
                        continue
                    o = W.dec(W.CBAL, iter(r[1:]))
                    sd = b.mh if seed is None else seed
                    want = dict(mh=b.mh, seed=sd, ch=b.ch, nonce=b.nonce, ts=ts or o.ts, code=code if code is not None else O.H(E(sd), o.ts, E(b.ch)))
                    bad = [k for k in want if o[k] != want[k]]
                    yield {'what': 'making a ballot', 'wrong': bad, 'expected': {k: want[k] for k in bad}, 'got': {k: o[k] for k in bad}, 'seed given': seed is not None, 'code given': code is not None, 'timestamp': ts, 'input': ' '.join(args)[:3000]} if bad else None
    if h.cmd('balmake', 'x61', 'x62', '5', '0', '7', '1', '8', '-')[0] != 'throw':
        yield {'what': 'a ballot without contests is accepted'}
    # mediator histories
    jobs = []
    for i in range(20 if tier == 'quick' else 120):
        m = W.mk_manifest(rng, contests=rng.choice([1, 1, 2]), sels=2, elected=1)
        cx = W.ctx(rng, K)
        k = rng.choice([1, 2, 3, 4]) if i else 12
        ops = [('C' if rng.random() < .4 else 'F', rng.randrange(2), b) for b in mk_ballots(rng, m, k)]
        dev = [rng.randrange(2**64), rng.randrange(2**64), rng.randrange(2**64), rng.choice(['here', ''])]
        a = ['mediator'] + [str(x) for x in dev[:3]] + W.enc(W.S, dev[3]) + [rng.choice(['0', '0', '20']), '1' if i % 7 == 6 else '0'] + W.enc(W.CTX, cx) + W.enc(W.MAN, m) + [str(len(ops))]
        for o, v, b in ops:
            a += [o, str(v)] + W.enc(W.PBAL, b)
        jobs.append((a, dev, ops, i % 7 == 6))
    for (a, dev, ops, bad), (_, r) in zip(jobs, batch(h, [j[0] for j in jobs])):
        if bad:
            yield None if r[0] == 'throw' else {'what': 'mediator created although manifest and context hashes differ', 'input': ' '.join(a)[:3000], 'got': r[:2]}
            continue
        why = check_history(r, dev, ops)
        yield {'what': 'mediator history', 'why': why, 'operations': [(o, b.style) for o, v, b in ops], 'input': ' '.join(a)[:4000]} if why else None
def check_history(r, dev, ops):
    if r[0] != 'ok':
        return 'answer %s' % r[:2]
    it = iter(r[1:])
    seed = O.H(*dev)
    for i, (o, v, b) in enumerate(ops):
        t = next(it)
        if t == 'E':
            if not b._fails:
                return 'ballot %d failed' % i
            continue
        if b._fails:
            return 'ballot %d that cannot be encrypted was encrypted' % i
        if t == 'F':
            c = W.dec(W.CBAL, it)
            ch = W.bal_hash(c, c.mh)
            if c.ch != ch:
                return 'ballot %d: crypto hash' % i
            if c.code != O.H(E(seed), c.ts, E(ch)):
                return 'ballot %d: code is not the hash of the previous code, timestamp and crypto hash' % i
        else:
            c = W.dec(W.CCBo, it)
        if c.seed != seed:
            return 'ballot %d is not seeded with the code before it' % i
        if c.ts == 0:
            return 'ballot %d has no timestamp' % i
        seed = c.code
    return None
