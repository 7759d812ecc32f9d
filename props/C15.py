from common import *
from ballots import *
import itertools
LEVEL = 'proof'
TUS = BALLOT_TUS + ENCRYPT_TUS
TRUST = L2_TRUST + ['contract of encryptBallot: returns a ballot with some code or throws (the code being the hash of seed, timestamp and crypto hash is C11)', 'collision resistance of the hash, for concluding equal crypto hashes from equal codes']
ASSUME = ['numbers of contests and selections as listed per obligation; larger ones by concrete execution', 'the plaintext ballot lists every contest and selection of its style, in manifest order']
U64 = 2**64 - 1

def manifest(h, shape, stored=None, extra=True):
    """contests of the given numbers of selections in district gp; one of another district in between"""
    cs = []
    for i, n in enumerate(shape):
        cs.append(h.cdescp(S('c%d' % i), 'gp', 10 * i + 2, 1, 'name', [h.sdesc(S('s%d.%d' % (i, j)), 'k', 3 * j + 1) for j in range(n)], [h.sdesc('ph%d' % i, 'phk', 100)]))
    cs = [cs[i] for i in (stored or range(len(cs)))]
    if extra:
        cs.insert(0, h.cdescp('foreign', 'elsewhere', 7, 1, 'name', [h.sdesc('f0', 'k', 1)], [h.sdesc('fph', 'k', 2)]))
    return h.imanifest(cs, [h.style('other', ['elsewhere']), h.style('style', ['gp'])], qatom('mh'))
def plain(eng, h, shape, oid):
    out = []
    for i, n in enumerate(shape):
        sels = []
        for j in range(n):
            v = z3.Int('vote%d.%d' % (i, j))
            eng.fact(z3.And(v >= 0, v <= U64))
            sels.append(h.psel(S('s%d.%d' % (i, j)), v, False, S('w%d.%d' % (i, j))))
        out.append(h.pcontest(S('c%d' % i), sels))
    return h.pballot(oid, 'style', out)
def view(h, b):
    return (h.get(b, 'getObjectId'), h.get(b, 'getStyleId'), [(h.get(c, 'getObjectId'), [(h.get(s, 'getObjectId'), h.get(s, 'getVote'), h.get(s, 'getWriteIn')) for s in h.refs(h.get(c, 'getSelections'))]) for c in h.refs(h.get(b, 'getContests'))])
def same_plain(a, shape, oid):
    yield 'ballot id and style', strnode(a[0]) == strnode(oid) and a[1] == 'style'
    yield 'as many contests', len(a[2]) == len(shape)
    for i, ((c, sels), n) in enumerate(zip(a[2], shape)):
        yield 'contest %d: id and number of selections' % i, strnode(c) == strnode(S('c%d' % i)) and len(sels) == n
        for j, (s, v, w) in enumerate(sels[:n]):
            yield 'selection %d.%d: id' % (i, j), strnode(s) == strnode(S('s%d.%d' % (i, j)))
            yield 'selection %d.%d: vote' % (i, j), eqv(v, z3.Int('vote%d.%d' % (i, j)))
            yield 'selection %d.%d: write-in' % (i, j), strnode(w) == strnode(S('w%d.%d' % (i, j)))

def roundtrip(shape, stored=None):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for fn in ('compressPlaintextBallot', 'CompactPlaintextBallot::make'):
            def thunk():
                b = plain(eng, h, shape, S('ballot'))
                c = Cell(h.obj(ctx.call(NS + fn, [b])))
                e = h.obj(ctx.call(NS + 'expandCompactPlaintextBallot', [c, manifest(h, shape, stored)]))
                return view(h, e), view(h, h.obj(b)), (h.get(c, 'getObjectId'), h.get(c, 'getStyleId'), len(h.get(c, 'getSelections').items if hasattr(h.get(c, 'getSelections'), 'items') else range(h.get(c, 'getSelections').n)))
            def post(x):
                e, b, c = x
                yield 'compact: ballot id, style and one entry per selection', strnode(c[0]) == strnode(S('ballot')) and c[1] == 'style' and c[2] == sum(shape)
                yield from same_plain(e, shape, S('ballot'))
                for n, t in same_plain(b, shape, S('ballot')):
                    yield 'original unchanged: ' + n, t
            ctx.prove(thunk, post, label='round trip (%s): ' % fn)
    return run

def cipher(h, seed, code, nonce, ts):
    return h.cballot('ballot', 'style', qatom('mh'), qatom('seed') if seed else None, [], qatom('code') if code else None, ts, qatom('nonce') if nonce else None, qatom('ch'))

def compressing(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    shape = (2, 1)
    for seed, code, nonce in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0)):
        for fn in ('compressCiphertextBallot', 'CompactCiphertextBallot::make'):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 0, ts <= U64))
                b = plain(eng, h, shape, S('ballot'))
                c = h.obj(ctx.call(NS + fn, [b, cipher(h, seed, code, nonce, ts)]))
                e = h.obj(ctx.call(NS + 'expandCompactPlaintextBallot', [Cell(h.obj(h.get(c, 'getPlaintext'))), manifest(h, shape)]))
                return c, ts, view(h, e)
            def post(x):
                c, ts, e = x
                yield 'a ballot without code, seed or nonce is refused', bool(seed and code and nonce)
                yield 'code, seed and nonce are kept', (h.g(c, 'getBallotCode'), h.g(c, 'getBallotCodeSeed'), h.g(c, 'getNonce')) == (qatom('code'), qatom('seed'), qatom('nonce'))
                yield 'the timestamp is kept', eqv(h.get(c, 'getTimestamp'), ts)
                yield 'the id is kept', strnode(h.get(c, 'getObjectId')) == strnode(S('ballot'))
                yield from same_plain(e, shape, S('ballot'))
            ctx.prove(thunk, post, throws=lambda e: [], min_ret=1 if seed and code and nonce else 0, label='compressing (%s): ' % fn)

def compact(h, c, seed, code, nonce, ts):
    return h.make('CompactCiphertextBallot', [h.UO(c), Cell(0), h.U(seed), h.U(code), Cell(ts), h.U(nonce)],
                  ['std::unique_ptr<CompactPlaintextBallot>', 'BallotBoxState', UQ, UQ, 'const uint64_t', UQ])

def expanding(shape):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for missing in (None, 'plain', 'seed', 'code', 'nonce'):
            for same in (True, False):
                if missing and not same:
                    continue
                def thunk():
                    ts = z3.Int('ts')
                    eng.fact(z3.And(ts >= 0, ts <= U64))
                    calls = []
                    def enc(eng, this, a, f):
                        b, im, cx = (h.obj(x) for x in a[:3])
                        nonce = h.el(a[4])
                        calls.append((view(h, b), h.g(im, 'getManifestHash'), h.g(cx, 'getElGamalPublicKey'), h.el(a[3]), nonce, a[5].get()))
                        code = qatom('code') if same else qatom('newcode')
                        return UPtr(Ptr(h.cballot('ballot', 'style', qatom('mh'), h.el(a[3]), [], code, a[5].get(), nonce, qatom('newch'))))
                    eng.contracts[NS + 'encryptBallot'] = enc
                    if not same:
                        eng.assume(l2.neg(l2.q_eq(qatom('code'), qatom('newcode'))))
                    b = plain(eng, h, shape, S('ballot'))
                    c = Cell(h.obj(ctx.call(NS + 'compressPlaintextBallot', [b])))
                    k = compact(h, None if missing == 'plain' else c, *[None if missing == n else qatom(n) for n in ('seed', 'code', 'nonce')], ts)
                    cx = h.context(h.K, qatom('mh'))
                    r = h.obj(ctx.call(NS + 'expandCompactCiphertextBallot', [k, manifest(h, shape), cx]))
                    return r, calls, ts
                def post(x):
                    r, calls, ts = x
                    yield 'a compact ballot with a missing part is refused', missing is None
                    yield 'a ballot whose code differs is refused', same
                    if missing or not same:
                        return
                    yield 'one encryption', len(calls) == 1
                    b, mh, K, seed, nonce, t = calls[0]
                    yield 'with the recorded seed and nonce, manifest and key', (mh, K, seed, nonce) == (qatom('mh'), h.K, qatom('seed'), qatom('nonce'))
                    yield 'with the recorded timestamp', eqv(t, ts)
                    yield from same_plain(b, shape, S('ballot'))
                    yield 'that ballot is returned', (h.g(r, 'getBallotCode'), h.g(r, 'getCryptoHash')) == (qatom('code'), qatom('newch'))
                ctx.prove(thunk, post, throws=lambda e: [], min_ret=1 if missing is None and same else 0, label='expanding (%s, %s code): ' % ('no ' + missing if missing else 'complete', 'the' if same else 'another'))
    return run

def compact_encryption(shape, given):
    """the ballot encrypted and the ballot compressed are the same, with every contest and selection of the style"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            calls = []
            for i, n in enumerate(shape):
                for a, b in itertools.combinations(range(n), 2):
                    eng.assume(l2.neg(eng.str_compare('==', S('s%d.%d' % (i, a)), S('s%d.%d' % (i, b)))))
            for a, b in itertools.combinations(range(len(shape)), 2):
                eng.assume(l2.neg(eng.str_compare('==', S('c%d' % a), S('c%d' % b))))
            def enc(eng, this, a, f):
                calls.append((view(h, h.obj(a[0])), h.el(a[3]), h.el(a[4]), a[5].get()))
                return UPtr(Ptr(h.cballot(h.get(a[0], 'getObjectId'), 'style', qatom('mh'), h.el(a[3]), [], qatom('code'), a[5].get(), qatom('nonce'), qatom('ch'))))
            eng.contracts[NS + 'encryptBallot'] = enc
            bal = []
            for c, l in given:
                sels = []
                for j in l:
                    v = z3.Int('vote%d.%d' % (c, j))
                    eng.fact(z3.And(v >= 0, v <= U64))
                    sels.append(h.psel(S('s%d.%d' % (c, j)), v, False, S('w%d.%d' % (c, j))))
                bal.append(h.pcontest(S('c%d' % c), sels))
            im, cx = manifest(h, shape, extra=False), h.context(h.K, qatom('mh'))
            r = h.obj(ctx.call(NS + 'encryptCompactBallot', [h.pballot(S('ballot'), 'style', bal), im, cx, h.E(qatom('seed')), h.U(None), Cell(77), Cell(True)]))
            e = h.obj(ctx.call(NS + 'expandCompactPlaintextBallot', [Cell(h.obj(h.get(r, 'getPlaintext'))), im]))
            return calls, view(h, e), r
        def post(x):
            calls, e, r = x
            yield 'one encryption, with the seed and timestamp given', len(calls) == 1 and calls[0][1] == qatom('seed') and calls[0][3] == 77
            yield 'code, seed, nonce and timestamp of that encryption', (h.g(r, 'getBallotCode'), h.g(r, 'getBallotCodeSeed'), h.g(r, 'getNonce'), h.get(r, 'getTimestamp')) == (qatom('code'), qatom('seed'), qatom('nonce'), 77)
            b = calls[0][0]
            g = {(c, j) for c, l in given for j in l}
            for who, v in (('expanded', e),):
                yield who + ': ballot id and style', strnode(v[0]) == strnode(S('ballot')) and v[1] == 'style'
                yield who + ': every contest', [strnode(c) for c, _ in v[2]] == [strnode(S('c%d' % i)) for i in range(len(shape))]
                for i, (c, sels) in enumerate(v[2]):
                    yield who + ': every selection of contest %d' % i, [strnode(s) for s, _, _ in sels] == [strnode(S('s%d.%d' % (i, j))) for j in range(shape[i])]
                    for j, (s, vote, w) in enumerate(sels):
                        yield who + ': vote %d.%d' % (i, j), eqv(vote, z3.Int('vote%d.%d' % (i, j)) if (i, j) in g else 0)
                        if (i, j) in g:
                            yield who + ': write-in %d.%d' % (i, j), strnode(w) == strnode(S('w%d.%d' % (i, j)))
            # what was encrypted is what expanding returns, so that re-encryption is of the same ballot
            for (c, sels), (c2, sels2) in zip(b[2], e[2]):
                yield 'encrypted as expanded', strnode(c) == strnode(c2) and len(sels) == len(sels2)
                for (s, vote, w), (s2, vote2, w2) in zip(sels, sels2):
                    yield 'encrypted as expanded: id and write-in', strnode(s) == strnode(s2) and strnode(w) == strnode(w2)
                    yield 'encrypted as expanded: vote', eqv(vote, vote2)
        ctx.prove(thunk, post, label='compact encryption: ')
    return run

# ---- ballots of any size: the encrypted forms against the contracts of the plaintext forms
CP, MK = NS + 'compressPlaintextBallot', NS + 'CompactPlaintextBallot::make'
XP = NS + 'expandCompactPlaintextBallot'
def flat_contract(h, plain, flat):
    def f(eng, this, a, g):
        if h.obj(a[0]) is not h.obj(plain):
            raise Unsupported('another ballot is compressed')
        return UPtr(Ptr(Cell(h.obj(flat))))
    h.eng.contracts[CP] = h.eng.contracts[MK] = f
def cpb(h):
    """what compressing made: a compact plaintext ballot recognised by its id"""
    for n in (CP, MK):
        h.eng.contracts.pop(n, None)
    return Cell(h.obj(h.ctx.call(CP, [h.pballot(S('ballot'), 'style', [])])))
def compressing_any(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    for seed, code, nonce in itertools.product((1, 0), repeat=3):
        for fn in ('compressCiphertextBallot', 'CompactCiphertextBallot::make'):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 0, ts <= U64))
                b, flat = h.pballot(S('ballot'), 'style', []), cpb(h)
                flat_contract(h, b, flat)
                c = h.obj(ctx.call(NS + fn, [b, cipher(h, seed, code, nonce, ts)]))
                return c, ts, flat
            def post(x):
                c, ts, flat = x
                yield 'a ballot without code, seed or nonce is refused', bool(seed and code and nonce)
                yield 'code, seed and nonce are kept', (h.g(c, 'getBallotCode'), h.g(c, 'getBallotCodeSeed'), h.g(c, 'getNonce')) == (qatom('code'), qatom('seed'), qatom('nonce'))
                yield 'the timestamp is kept', eqv(h.get(c, 'getTimestamp'), ts)
                yield 'the id is kept', strnode(h.get(c, 'getObjectId')) == strnode(S('ballot'))
                yield 'the compressed plaintext ballot is kept', h.obj(h.get(c, 'getPlaintext')) is h.obj(flat)
            ctx.prove(thunk, post, throws=lambda e: [], min_ret=1 if seed and code and nonce else 0, label='compressing (%s): ' % fn)
def expanding_any(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    for missing in (None, 'plain', 'seed', 'code', 'nonce'):
        for outcome in ('same', 'other', 'refused'):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 0, ts <= U64))
                calls = []
                flat, b = cpb(h), h.pballot(S('ballot'), 'style', [])
                im, cx = h.imanifest([], [], qatom('mh')), h.context(h.K, qatom('mh'))
                def expand(eng, this, a, f):
                    if h.obj(a[0]) is not h.obj(flat) or h.obj(a[1]) is not h.obj(im):
                        raise Unsupported('another ballot is expanded')
                    return UPtr(Ptr(Cell(h.obj(b))))
                eng.contracts[XP] = expand
                def enc(eng, this, a, f):
                    calls.append((h.obj(a[0]) is h.obj(b), h.obj(a[1]) is h.obj(im), h.obj(a[2]) is h.obj(cx), h.el(a[3]), h.el(a[4]), a[5].get()))
                    if outcome == 'refused':
                        raise CppThrow('std::invalid_argument')
                    return UPtr(Ptr(h.cballot('ballot', 'style', qatom('mh'), h.el(a[3]), [], qatom('code' if outcome == 'same' else 'newcode'), a[5].get(), h.el(a[4]), qatom('newch'))))
                eng.contracts[NS + 'encryptBallot'] = enc
                if outcome == 'other':
                    eng.assume(l2.neg(l2.q_eq(qatom('code'), qatom('newcode'))))
                k = compact(h, None if missing == 'plain' else flat, *[None if missing == n else qatom(n) for n in ('seed', 'code', 'nonce')], ts)
                return h.obj(ctx.call(NS + 'expandCompactCiphertextBallot', [k, im, cx])), calls, ts
            def post(x):
                r, calls, ts = x
                yield 'a compact ballot with a missing part is refused', missing is None
                yield 'a ballot whose code differs, or that cannot be encrypted, is refused', outcome == 'same'
                yield 'one encryption, of the expanded ballot, with this manifest and context, the recorded seed and nonce', [c[:5] for c in calls] == [(True, True, True, qatom('seed'), qatom('nonce'))]
                yield 'with the recorded timestamp', eqv(calls[0][5], ts)
                yield 'that ballot is returned', (h.g(r, 'getBallotCode'), h.g(r, 'getCryptoHash')) == (qatom('code'), qatom('newch'))
            ctx.prove(thunk, post, throws=lambda e: [], min_ret=1 if missing is None and outcome == 'same' else 0, label='expanding (%s, %s): ' % ('no ' + missing if missing else 'complete', outcome))
def encryption_any(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    for given in (True, False):
        for vf in (True, False):
            def thunk():
                ts = z3.Int('ts')
                eng.fact(z3.And(ts >= 0, ts <= U64))
                b, full, flat = h.pballot(S('ballot'), 'style', []), h.pballot(S('ballot'), 'style', []), cpb(h)
                im, cx = h.imanifest([], [], qatom('mh')), h.context(h.K, qatom('mh'))
                calls = []
                def fill(eng, this, a, f):
                    if h.obj(a[0]) is not h.obj(b) or h.obj(a[1]) is not h.obj(im):
                        raise Unsupported('something else is filled in')
                    return UPtr(Ptr(Cell(h.obj(full))))
                eng.contracts[NS + 'emplaceMissingValues'] = fill
                flat_contract(h, full, flat)
                def enc(eng, this, a, f):
                    # filling in what is filled in already changes nothing (C09): encrypting either ballot is the same
                    calls.append((h.obj(a[0]) is h.obj(full) or h.obj(a[0]) is h.obj(b), h.obj(a[1]) is h.obj(im), h.obj(a[2]) is h.obj(cx), h.el(a[3]), h.el(a[4]) if h.obj(a[4]) is not None else None, a[6].get()))
                    if not eng.branch(l2.bool_atom('encrypts')):
                        raise CppThrow('std::invalid_argument')
                    return UPtr(Ptr(h.cballot(S('ballot'), 'style', qatom('mh'), h.el(a[3]), [], qatom('code'), a[5].get(), qatom('nonce'), qatom('ch'))))
                eng.contracts[NS + 'encryptBallot'] = enc
                try:
                    r = h.obj(ctx.call(NS + 'encryptCompactBallot', [b, im, cx, h.E(qatom('seed')), h.U(qatom('nonce') if given else None), Cell(ts), Cell(vf)]))
                except CppThrow:
                    r = None
                return r, calls, ts, flat
            def post(x):
                r, calls, ts, flat = x
                yield 'refused exactly where encryption is', zbool(r is not None) == l2.bool_atom('encrypts')
                yield 'one encryption, of this ballot, manifest, context, seed and nonce, verified as asked', calls == [(True, True, True, qatom('seed'), qatom('nonce') if given else None, vf)]
                if r is None:
                    return
                yield 'code, seed and nonce of that encryption', (h.g(r, 'getBallotCode'), h.g(r, 'getBallotCodeSeed'), h.g(r, 'getNonce')) == (qatom('code'), qatom('seed'), qatom('nonce'))
                yield 'its timestamp', eqv(h.get(r, 'getTimestamp'), ts)
                yield 'the filled-in ballot, compressed', h.obj(h.get(r, 'getPlaintext')) is h.obj(flat)
            ctx.prove(thunk, post, label='compact encryption (%s nonce): ' % ('given' if given else 'no'))

def obligations(tier):
    obs = [Ob('compressing an encrypted ballot of any size', compressing_any), Ob('expanding a compact encrypted ballot of any size', expanding_any), Ob('compact encryption of a ballot of any size', encryption_any)]
    for shape, st in (((1,), None), ((3,), None), ((2, 1), None), ((2, 1), (1, 0)), ((1, 2, 3), (2, 0, 1)), ((2, 2, 1), (1, 2, 0)), ((1, 1, 1, 1), (3, 1, 2, 0)), ((5, 4), None)):
        obs.append(Ob('round trip of a ballot of %s selections%s' % (list(shape), '' if st is None else ', contests stored as %s' % list(st)), roundtrip(shape, st), bounded='%d contests' % len(shape)))
    obs.append(Ob('compressing an encrypted ballot', compressing, bounded='2 contests'))
    for shape in ((1,), (2, 1), (1, 3, 2)):
        obs.append(Ob('expanding a compact encrypted ballot of %s selections' % list(shape), expanding(shape), bounded='%d contests' % len(shape)))
    for shape, given in (((2,), [(0, [0, 1])]), ((2,), [(0, [1])]), ((2,), []), ((2, 1), [(1, [0])]), ((2, 2), [(1, [1, 0]), (0, [0])])):
        obs.append(Ob('compact encryption, style of %s selections, ballot gives %s' % (list(shape), given), compact_encryption(shape, given), bounded='%d contests' % len(shape)))
    return obs

HARNESS = ['main.cpp', 'ballot.cpp']
import wire as W
import oracle as O
from harness import batch
WI = ['', '', 'Jane Doe', 'caf\xe9', 'a|b', 'x' * 200, ' ']
def full(rng, m, style, votes=None):
    cs = []
    for c in W.contests_for(m, style):
        # one place for each seat
        yes = rng.sample(range(len(c.sels)), rng.randrange(0, c.elected + 1)) if votes is None else None
        sels = [W.R(id=s.id, vote=(1 if j in yes else 0) if votes is None else rng.choice(votes), ph=False, writein=rng.choice(WI)) for j, s in enumerate(W._sorted(c.sels))]
        cs.append(W.R(id=c.id, sels=sels))
    return W.R(id=rng.choice(['ballot', 'b|1', 'x' * 70]), style=style, contests=cs)
BIG = [0, 1, 2, 255, 256, 2**31, 2**32 - 1, 2**32, 2**63, U64]
def flat(b):
    return W.R(id=b.id, style=b.style, sels=[s.vote for c in b.contests for s in c.sels], writeins=[s.writein for c in b.contests for s in c.sels])
def concrete(h, rng, tier, hints):
    for i in range(150 if tier == 'quick' else 2000):
        m = W.mk_manifest(rng, contests=rng.choice([1, 2, 3, 5, 7]) if i % 12 else rng.choice([9, 17, 34]), sels=[1, 2, 3, 4] if i % 8 else [1, 5, 9, 17, 40], elected=1, shuffle=rng.random() < .5, districts=rng.choice([1, 2, 3]))
        for c in m.contests:
            c.sels = W._sorted(c.sels)
        b = full(rng, m, rng.choice(['all', 'one']), BIG)
        r = h.cmd('compress', *W.enc(W.PBAL, b))
        bad = r[0] != 'ok'
        if not bad:
            it = iter(r[1:])
            c1, c2 = W.dec(W.CPB, it), W.dec(W.CPB, it)
            bad = (c1.id, c1.style, len(c1.sels), len(c1.writeins)) != (b.id, b.style, len(flat(b).sels), len(flat(b).sels)) or W.diff(c1, c2)
        if bad:
            yield {'what': 'compressing a plaintext ballot', 'ballot': b, 'got': r[:3]}
            continue
        r = h.cmd('expand', *(W.enc(W.CPB, c1) + W.enc(W.MAN, m)))
        d = 'answer %s' % r[:2] if r[0] != 'ok' else W.diff(b, W.dec(W.PBAL, iter(r[1:])))
        yield {'what': 'compressing and expanding a plaintext ballot', 'difference': d, 'ballot': b, 'manifest': m} if d else None
    K = O.pk(rng.randrange(2, O.Q))
    first = []
    for i in range(14 if tier == 'quick' else 120):
        m = W.mk_manifest(rng, contests=rng.choice([1, 1, 2]) if i != 5 else 6, sels=[1, 2, 3] if i != 7 else [9], elected=1, shuffle=rng.random() < .4)
        for c in m.contests:
            c.sels = W._sorted(c.sels)
        b = full(rng, m, rng.choice(['all', 'one']))
        cx = W.ctx(rng, K)
        # the nonce is kept as given whatever its size
        n = rng.choice([rng.randrange(O.Q), rng.randrange(2**64), rng.randrange(2**200)])
        sd = rng.choice([rng.randrange(O.Q), rng.randrange(2**100)])
        ts = rng.choice([1, rng.randrange(2**40), 2**32, U64])
        first.append((['encbal', '0', '0'] + W.enc(W.El, sd) + W.enc(W.El, n) + [str(ts)] + W.enc(W.CTX, cx) + W.enc(W.PBAL, b) + W.enc(W.MAN, m), m, b, cx))
    second = []
    for (a, m, b, cx), (_, r) in zip(first, batch(h, [x[0] for x in first])):
        if r[0] != 'ok':
            yield {'what': 'encrypting a ballot', 'got': r[:2], 'input': ' '.join(a)[:3000]}
            continue
        e = W.dec(W.CBAL, iter(r[1:]))
        r = h.cmd('compressc', *(W.enc(W.PBAL, b) + W.enc(W.CBAL, e)))
        c = W.dec(W.CCBo, iter(r[1:])) if r[0] == 'ok' else None
        w = W.R(plain=c.plain, seed=e.seed, code=e.code, ts=e.ts, nonce=e.nonce, id=b.id) if c else None
        if c is None or W.diff(w, c):
            yield {'what': 'compressing an encrypted ballot', 'difference': W.diff(w, c) if c else r[:2], 'input': ' '.join(a)[:3000]}
            continue
        yield None
        variants = [('as made', c)]
        k = rng.randrange(6)
        j = rng.randrange(len(c.plain.sels))
        variants.append([('another code', c.but(code=(c.code + 1) % O.Q)), ('another seed', c.but(seed=(c.seed + 1) % O.Q)), ('another nonce', c.but(nonce=(c.nonce + 1) % O.Q)),
                         ('another timestamp', c.but(ts=c.ts ^ 1 or 2)), ('another vote', c.but(plain=c.plain.but(sels=[v ^ (i == j) for i, v in enumerate(c.plain.sels)]))), ('another id', c.but(plain=c.plain.but(id=c.plain.id + '.')))][k])
        for name, v in variants:
            second.append((['expandc', '0'] + W.enc(W.CCB, v) + W.enc(W.CTX, cx) + W.enc(W.MAN, m), name, e))
    for (a, name, e), (_, r) in zip(second, batch(h, [x[0] for x in second])):
        if name == 'as made':
            g = W.dec(W.CBAL, iter(r[1:])) if r[0] == 'ok' else None
            why = 'answer %s' % r[:2]
            if g is not None:
                ids = lambda x: [(c.id, c.seq, c.ch, [(s.id, s.ct, s.nonce) for s in W._sorted(c.sels)]) for c in W._sorted(x.contests)]
                why = None if (g.code, g.ch, g.seed, g.ts, g.nonce, g.id, g.style, ids(g)) == (e.code, e.ch, e.seed, e.ts, e.nonce, e.id, e.style, ids(e)) else 'another ballot'
        else:
            why = None if r[0] == 'throw' else 'a compact ballot with %s expands' % name
        yield {'what': 'expanding a compact encrypted ballot', 'why': why, 'input': ' '.join(a)[:4000]} if why else None
