from common import *
from ballots import *
import itertools
LEVEL = 'proof'
TUS = BALLOT_TUS
TRUST = L2_TRUST + ['contracts of the proof verifiers: the predicates established by C06 and C08']
ASSUME = ['sequence orders of the selections of a contest (contests of a ballot) are distinct', 'fewer than 2^62 members']
U64 = 2**64 - 1

def selection(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    for same_seed in (True, False):
        for good_hash in (True, False):
            for has_proof in (True, False):
                def thunk():
                    proof_contracts(h)
                    dh, K, q, oid = qatom('dh'), h.K, qatom('ext'), S('id')
                    nonempty(eng, oid)
                    seed = dh if same_seed else qatom('seed')
                    if not same_seed:
                        eng.assume(l2.neg(l2.q_eq(seed, dh)))
                    ct = (patom('A'), patom('Bt'))
                    good = selH(oid, seed, ct)
                    ch = good if good_hash else qatom('ch')
                    if not good_hash:
                        eng.assume(l2.neg(l2.q_eq(ch, good)))
                    p = h.dproof('x') if has_proof else None
                    o = h.csel(oid, 3, dh, ct, nonce=None, ch=ch, proof=p)
                    want = zand(l2.bool_atom('dvalid', h.dkey(p), ct, K, q)) if has_proof and same_seed and good_hash else False
                    r = ctx.call(NS + 'CiphertextBallotSelection::isValidEncryption', [h.E(seed), h.E(K), h.E(q)], this=o)
                    return r, want, (h.g(o, 'getCryptoHash') == ch and h.ctkey(h.get(o, 'getCiphertext')) == ct and h.g(o, 'getDescriptionHash') == dh)
                def post(x):
                    r, want, un = x
                    yield 'accepted iff seed, crypto hash and proof agree', zbool(r) == zbool(want)
                    yield 'selection unchanged', un
                ctx.prove(thunk, post, label='selection (%s seed, %s hash, %s proof): ' % ('expected' if same_seed else 'other', 'right' if good_hash else 'wrong', 'a' if has_proof else 'no'))

def contest(n, perm):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for same_seed, good_hash, good_acc, has_proof in [(1, 1, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1), (1, 1, 2, 1), (1, 1, 1, 0), (0, 0, 0, 0)]:
            def thunk():
                proof_contracts(h)
                dh, K, q, oid = qatom('dh'), h.K, qatom('ext'), S('id')
                nonempty(eng, oid)
                seed = dh if same_seed else qatom('seed')
                if not same_seed:
                    eng.assume(l2.neg(l2.q_eq(seed, dh)))
                cts = [(patom('A%d' % i), patom('B%d' % i)) for i in range(n)]
                chs = [qatom('ch%d' % i) for i in range(n)]
                # selections stored in the order perm; position in the hash follows the sequence order
                sq = [z3.Int('seq%d' % i) for i in range(n)]
                for i in range(n):
                    eng.fact(z3.And(sq[i] >= 0, sq[i] <= U64))
                    if i:
                        eng.assume(sq[i - 1] < sq[i])
                sels = [h.csel(S('s%d' % i), sq[i], qatom('sdh%d' % i), cts[i], nonce=qatom('nonce%d' % i), ch=chs[i], proof=h.dproof('p%d' % i)) for i in perm]
                acc = (ONE, ONE)
                for a, b in cts:
                    acc = (acc[0] * a, acc[1] * b)
                good = listH(oid, seed, chs)
                ch = good if good_hash else qatom('cch')
                if not good_hash:
                    eng.assume(l2.neg(l2.q_eq(ch, good)))
                A = acc
                if good_acc != 1:
                    A = (patom('X'), acc[1]) if good_acc == 0 else (acc[0], patom('X'))
                    eng.assume(l2.neg(l2.p_eq(patom('X'), acc[0] if good_acc == 0 else acc[1])))
                p = h.cproof('x') if has_proof else None
                o = h.ccontest(oid, 7, dh, sels, nonce=None, acc=A, ch=ch, proof=p)
                want = cvalid(h, p, acc, K, q) if same_seed and good_hash and good_acc == 1 and has_proof else False
                r = ctx.call(NS + 'CiphertextBallotContest::isValidEncryption', [h.E(seed), h.E(K), h.E(q)], this=o)
                return r, want, (h.g(o, 'getCryptoHash') == ch and h.ctkey(h.get(o, 'getCiphertextAccumulation')) == A)
            def post(x):
                yield 'accepted iff seed, crypto hash, total and proof agree', zbool(x[0]) == zbool(x[1])
                yield 'contest unchanged', x[2]
            ctx.prove(thunk, post, label='contest of %d stored as %s (seed %d, hash %d, total %d, proof %d): ' % (n, perm, same_seed, good_hash, good_acc, has_proof))
    return run

def contest_any(ctx):
    """any number of selections, stored in any order"""
    eng = ctx.engine(2)
    h = B(ctx)
    for same_seed, good_hash, good_acc, has_proof in [(1, 1, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 0, 1), (1, 1, 2, 1), (1, 1, 1, 0), (0, 0, 0, 0)]:
        def thunk():
            proof_contracts(h)
            dh, K, q, oid = qatom('dh'), h.K, qatom('ext'), S('id')
            nonempty(eng, oid)
            seed = dh if same_seed else qatom('seed')
            if not same_seed:
                eng.assume(l2.neg(l2.q_eq(seed, dh)))
            sq = z3.Int('seq')
            eng.fact(z3.And(sq >= 0, sq <= U64))
            ct, sch = (patom('A'), patom('B')), qatom('sch')
            sels, root = many(eng, 'selections', h.csel(S('s'), sq, qatom('sdh'), ct, nonce=qatom('nonce'), ch=sch, proof=h.dproof('p')), key=sq)
            acc = (star.bigprod(root, ct[0]), star.bigprod(root, ct[1]))
            good = listH_any(oid, seed, root, sch)
            ch = good if good_hash else qatom('cch')
            if not good_hash:
                eng.assume(l2.neg(l2.q_eq(ch, good)))
            A = acc
            if good_acc != 1:
                A = (patom('X'), acc[1]) if good_acc == 0 else (acc[0], patom('X'))
                eng.assume(l2.neg(l2.p_eq(patom('X'), acc[0] if good_acc == 0 else acc[1])))
            p = h.cproof('x') if has_proof else None
            o = h.ccontest(oid, 7, dh, sels, nonce=None, acc=A, ch=ch, proof=p)
            want = cvalid(h, p, acc, K, q) if same_seed and good_hash and good_acc == 1 and has_proof else False
            r = ctx.call(NS + 'CiphertextBallotContest::isValidEncryption', [h.E(seed), h.E(K), h.E(q)], this=o)
            return r, want, (h.g(o, 'getCryptoHash') == ch and h.ctkey(h.get(o, 'getCiphertextAccumulation')) == A), root
        def post(x):
            yield 'accepted iff seed, crypto hash, total and proof agree', zbool(x[0]) == zbool(x[1])
            yield 'contest unchanged', x[2]
            yield 'there are selections', x[3].n > 0
        ctx.prove(thunk, post, throws=lambda e: [('only a contest without selections is refused by an exception', z3.Int('len!selections') == 0)],
                  label='contest of any number of selections (seed %d, hash %d, total %d, proof %d): ' % (same_seed, good_hash, good_acc, has_proof))

def empty_contest(ctx):
    eng = ctx.engine(2)
    h = B(ctx)
    def thunk():
        proof_contracts(h)
        o = h.ccontest(S('id'), 1, qatom('dh'), [], acc=(ONE, ONE), ch=qatom('ch'), proof=h.cproof('x'))
        return ctx.call(NS + 'CiphertextBallotContest::isValidEncryption', [h.E(qatom('dh')), h.E(h.K), h.E(qatom('q'))], this=o)
    def post(r):
        yield 'a contest without selections is not accepted', zbool(r) == z3.BoolVal(False)
    ctx.prove(thunk, post, throws=lambda e: [], min_ret=0, label='empty contest: ')

def ballot(shape, perm, ids):
    """shape: selections per contest; ids: identifiers of contests and selections (may coincide)"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for same_mh, good_hash in ((1, 1), (0, 1), (1, 0)):
            def thunk():
                cls = {NS + 'CiphertextBallotSelection::isValidEncryption': 'selvalid', NS + 'CiphertextBallotContest::isValidEncryption': 'convalid'}
                def mk(kind):
                    def f(eng, this, a, fn):
                        o = h.obj(this)
                        return l2.bool_atom(kind, h.g(o, 'getCryptoHash'), h.el(a[0]), h.el(a[1]), h.el(a[2]))
                    return f
                for qn, kind in cls.items():
                    eng.contracts[qn] = mk(kind)
                K, q, oid, mh = h.K, qatom('ext'), S('id'), qatom('mh')
                nonempty(eng, oid)
                exp = mh if same_mh else qatom('mh2')
                if not same_mh:
                    eng.assume(l2.neg(l2.q_eq(exp, mh)))
                want = []
                cs, chs = [], []
                for i, n in enumerate(shape):
                    sels = []
                    for j in range(n):
                        sd, sc = qatom('sdh%d.%d' % (i, j)), qatom('sch%d.%d' % (i, j))
                        sels.append(h.csel(ids[1][i][j], j + 1, sd, (patom('A%d.%d' % (i, j)), patom('B%d.%d' % (i, j))), ch=sc, proof=h.dproof('p%d.%d' % (i, j))))
                        want.append(l2.bool_atom('selvalid', sc, sd, K, q))
                    dh, ch = qatom('cdh%d' % i), qatom('cch%d' % i)
                    chs.append(ch)
                    cs.append(h.ccontest(ids[0][i], 10 * i + 2, dh, sels, acc=(patom('acA%d' % i), patom('acB%d' % i)), ch=ch, proof=h.cproof('cp%d' % i)))
                    want.append(l2.bool_atom('convalid', ch, dh, K, q))
                good = listH(oid, exp, chs)
                ch = good if good_hash else qatom('bch')
                if not good_hash:
                    eng.assume(l2.neg(l2.q_eq(ch, good)))
                o = h.cballot(oid, S('style'), mh, qatom('seed'), [cs[i] for i in perm], qatom('code'), 5, None, ch)
                w = zand(*want) if same_mh and good_hash else False
                r = ctx.call(NS + 'CiphertextBallot::isValidEncryption', [h.E(exp), h.E(K), h.E(q)], this=o)
                return r, w
            def post(x):
                yield 'accepted iff hashes agree and every contest and selection is valid', zbool(x[0]) == zbool(x[1])
            ctx.prove(thunk, post, label='ballot %s stored as %s (manifest %d, hash %d): ' % (shape, perm, same_mh, good_hash))
    return run

def ballot_any(ctx):
    """any number of contests of any numbers of selections, with any identifiers"""
    eng = ctx.engine(2)
    eng.flag_maps = True
    h = B(ctx)
    for same_mh, good_hash in ((1, 1), (0, 1), (1, 0)):
        def thunk():
            def mk(kind):
                def f(eng, this, a, fn):
                    o = h.obj(this)
                    return l2.bool_atom(kind, h.g(o, 'getCryptoHash'), h.el(a[0]), h.el(a[1]), h.el(a[2]))
                return f
            for qn, kind in ((NS + 'CiphertextBallotSelection::isValidEncryption', 'selvalid'), (NS + 'CiphertextBallotContest::isValidEncryption', 'convalid')):
                eng.contracts[qn] = mk(kind)
            K, q, oid, mh = h.K, qatom('ext'), S('id'), qatom('mh')
            nonempty(eng, oid)
            exp = mh if same_mh else qatom('mh2')
            if not same_mh:
                eng.assume(l2.neg(l2.q_eq(exp, mh)))
            sq, cq = z3.Int('seq'), z3.Int('cseq')
            eng.fact(z3.And(sq >= 0, sq <= U64, cq >= 0, cq <= U64))
            sd, sc, dh, cch = qatom('sdh'), qatom('sch'), qatom('cdh'), qatom('cch')
            sels, sroot = many(eng, 'selections', h.csel(S('s'), sq, sd, (patom('A'), patom('B')), ch=sc, proof=h.dproof('p')), key=sq)
            cs, croot = many(eng, 'contests', h.ccontest(S('c'), cq, dh, sels, acc=(patom('acA'), patom('acB')), ch=cch, proof=h.cproof('cp')), key=cq)
            good = listH_any(oid, exp, croot, cch)
            ch = good if good_hash else qatom('bch')
            if not good_hash:
                eng.assume(l2.neg(l2.q_eq(ch, good)))
            o = h.cballot(oid, S('style'), mh, qatom('seed'), cs, qatom('code'), 5, None, ch)
            # of the arbitrary contest and its arbitrary selection
            w = zand(z3.Or(sroot.n == 0, zbool(l2.bool_atom('selvalid', sc, sd, K, q))), l2.bool_atom('convalid', cch, dh, K, q)) if same_mh and good_hash else False
            r = ctx.call(NS + 'CiphertextBallot::isValidEncryption', [h.E(exp), h.E(K), h.E(q)], this=o)
            return r, w
        def post(x):
            yield 'accepted iff hashes agree and every contest and selection is valid', zbool(x[0]) == zbool(x[1])
        ctx.prove(thunk, post, throws=lambda e: [('only a ballot without contests is refused by an exception', z3.Int('len!contests') == 0)],
                  label='ballot of any size (manifest %d, hash %d): ' % (same_mh, good_hash))

def obligations(tier):
    obs = [Ob('ballot of any number of contests and selections', ballot_any), Ob('selection', selection), Ob('contest without selections', empty_contest), Ob('contest of any number of selections', contest_any)]
    for n in (1, 2, 3):
        for perm in itertools.permutations(range(n)):
            obs.append(Ob('contest of %d selections stored as %s' % (n, list(perm)), contest(n, perm), bounded='%d selections' % n))
    d = (['c0', 'c1', 'c2'], [['s0', 's1', 's2'], ['t0', 't1'], ['u0']])
    for shape in ((1,), (2,), (1, 1), (2, 1), (1, 1, 1)):
        for perm in itertools.permutations(range(len(shape))):
            obs.append(Ob('ballot %s stored as %s' % (list(shape), list(perm)), ballot(shape, perm, d), bounded='at most 3 contests, 2 selections'))
    obs.append(Ob('ballot whose contests share one identifier', ballot((1, 2), (0, 1), (['c', 'c'], [['s'], ['s', 's']])), bounded='2 contests'))
    obs.append(Ob('ballot whose joined identifiers coincide', ballot((1, 1), (1, 0), (['a-b', 'a'], [['c'], ['b-c']])), bounded='2 contests'))
    obs.append(Ob('ballot with a selection identifier equal to a contest identifier', ballot((1, 1), (0, 1), (['a', 'a-b'], [['b'], ['']])), bounded='2 contests'))
    return obs

HARNESS = ['main.cpp', 'ballot.cpp']
import wire as W
import oracle as O
from harness import batch
def tampered(rng, b, K, q):
    """(what, ballot, manifest hash): one inconsistency each; the rest of the ballot is repaired so that only that check can refuse it"""
    def fixup(b, con=None):
        b = W.R(b)
        b.ch = W.bal_hash(b, b.mh)
        return b
    def setc(i, c, rehash=True):
        c = W.R(c)
        if rehash:
            c.ch = W.con_hash(c, c.dh)
        return fixup(b.but(contests=b.contests[:i] + [c] + b.contests[i + 1:]))
    def sets(i, j, s, rehash=True, reacc=True, chain=True):
        c = b.contests[i]
        s = W.R(s)
        if rehash:
            s.ch = W.sel_hash(s, s.dh)
        c = c.but(sels=c.sels[:j] + [s] + c.sels[j + 1:])
        if reacc:
            c.acc = W.ct_sum([x.ct for x in c.sels])
        return setc(i, c, chain)
    yield 'nothing', b, b.mh
    yield 'manifest hash', b, (b.mh + 1) % O.Q
    yield 'ballot crypto hash', b.but(ch=(b.ch + 1) % O.Q), b.mh
    yield 'ballot id', b.but(id='other'), b.mh
    yield 'ballot manifest hash field', fixup(b.but(mh=(b.mh + 1) % O.Q)), b.mh
    yield 'no contests', b.but(contests=[]), b.mh
    for i, c in enumerate(b.contests):
        yield 'contest %d crypto hash' % i, fixup(b.but(contests=b.contests[:i] + [c.but(ch=(c.ch + 1) % O.Q)] + b.contests[i + 1:])), b.mh
        yield 'contest %d proof missing' % i, setc(i, c.but(proof=None)), b.mh
        yield 'contest %d proof constant' % i, setc(i, c.but(proof=c.proof.but(L=c.proof.L + 1))), b.mh
        yield 'contest %d proof response' % i, setc(i, c.but(proof=c.proof.but(v=(c.proof.v + 1) % O.Q))), b.mh
        X = O.gp(rng.randrange(1, O.Q))
        # total differs from the product, with a proof that is valid for that total
        r = rng.randrange(1, O.Q)
        al, be = O.encrypt(1, r, K)
        yield 'contest %d total replaced' % i, setc(i, c.but(acc=W.R(pad=al, data=be), proof=W.R(zip([k for k, _ in W.CP[1]], O.cp_proof(rng, 1, r, K, q, al, be))))), b.mh
        tot, rr = sum(s._v for s in c.sels), sum(s.nonce for s in c.sels) % O.Q
        be2 = c.acc.data * O.G % O.P
        yield 'contest %d total data component' % i, setc(i, c.but(acc=c.acc.but(data=be2), proof=W.R(zip([k for k, _ in W.CP[1]], O.cp_proof(rng, tot + 1, rr, K, q, c.acc.pad, be2))))), b.mh
        yield 'contest %d total missing' % i, setc(i, c.but(acc=c.acc.but(pad=c.acc.pad * X % O.P))), b.mh
        for j, s in enumerate(c.sels):
            yield 'selection %d.%d proof missing' % (i, j), sets(i, j, s.but(proof=None)), b.mh
            k = rng.choice([k for k, _ in W.DP[1]])
            bad = s.proof.but(**{k: (s.proof[k] + 1) % O.Q if k[0] in 'cv' else s.proof[k] * X % O.P})
            yield 'selection %d.%d proof field %s' % (i, j, k), sets(i, j, s.but(proof=bad)), b.mh
            yield 'selection %d.%d crypto hash' % (i, j), sets(i, j, s.but(ch=(s.ch + 1) % O.Q), rehash=False), b.mh
            yield 'selection %d.%d crypto hash without the contest' % (i, j), sets(i, j, s.but(ch=(s.ch + 1) % O.Q), rehash=False, chain=False), b.mh
            # vote of 2 with honest everything else
            r = s.nonce
            al, be = O.encrypt(s._v + 2, r, K)
            yield 'selection %d.%d vote' % (i, j), sets(i, j, s.but(ct=W.R(pad=al, data=be), proof=W.R(zip([k for k, _ in W.DP[1]], O.dj_proof(rng, s._v, r, K, q, al, be))))), b.mh
            yield 'selection %d.%d description hash' % (i, j), sets(i, j, s.but(dh=(s.dh + 1) % O.Q), rehash=False), b.mh
def agree(r, t, o, want):
    if r[0] == 'throw':
        return None if not want else r
    if r[0] != 'ok' or r[1] != ('11' if want else '00'):
        return r[:2]
    d = W.diff(W.by_seq(W.project(t, o)), W.by_seq(W.dec(t, iter(r[2:]))))
    return ['changed', d] if d else None
def concrete(h, rng, tier, hints):
    K, q = O.pk(rng.randrange(2, O.Q)), rng.randrange(1, O.Q)
    cs = list(cases(rng, tier, K, q))
    for (what, name, t, o, want, seed), (_, r) in zip(cs, batch(h, [[name, '%x' % seed, '%x' % K, '%x' % q] + W.enc(t, o) for what, name, t, o, want, seed in cs])):
        bad = agree(r, t, o, want)
        yield {'what': what, 'call': name, 'expected': want, 'got': bad, 'input': ' '.join(W.enc(t, o))[:4000]} if bad is not None else None
def cases(rng, tier, K, q):
    go = lambda *a: a
    shapes = [(1,), (3,), (2, 1)] + ([(4, 3, 2), (6,), (2,) * 5] if tier != 'quick' else [])
    for shape in shapes:
        b = W.mk_cbal(rng, K, q, shape)
        for what, o, mh in tampered(rng, b, K, q):
            try:
                want = W.bal_valid(o, mh, K, q)
            except ValueError:
                want = False
            yield go(what, 'balvalid', W.CBAL, o, want, mh)
        # storage order does not matter; coinciding identifiers neither
        for _ in range(3):
            cs = [c.but(sels=rng.sample(c.sels, len(c.sels))) for c in rng.sample(b.contests, len(b.contests))]
            yield go('storage order', 'balvalid', W.CBAL, b.but(contests=cs), True, b.mh)
        same = []
        for c in b.contests:
            ss = [s.but(id='x') for s in c.sels]
            for s in ss:
                s.ch = W.sel_hash(s, s.dh)
            c = c.but(id='x', sels=ss)
            c.ch = W.con_hash(c, c.dh)
            same.append(c)
        o = b.but(contests=same)
        o.ch = W.bal_hash(o, o.mh)
        yield go('coinciding ids', 'balvalid', W.CBAL, o, True, o.mh)
        for i in range(len(same)):
            for j in range(len(same[i].sels)):
                c = same[i].but(sels=list(same[i].sels))
                c.sels[j] = c.sels[j].but(proof=c.sels[j].proof.but(c1=(c.sels[j].proof.c1 + 1) % O.Q))
                yield go('coinciding ids, bad proof %d.%d' % (i, j), 'balvalid', W.CBAL, o.but(contests=same[:i] + [c] + same[i + 1:]), False, o.mh)
            c = same[i].but(proof=same[i].proof.but(v=(same[i].proof.v + 1) % O.Q))
            yield go('coinciding ids, bad contest proof %d' % i, 'balvalid', W.CBAL, o.but(contests=same[:i] + [c] + same[i + 1:]), False, o.mh)
        for c in b.contests:
            yield go('contest', 'convalid', W.CCON, c, True, c.dh)
            yield go('contest, other seed', 'convalid', W.CCON, c, False, (c.dh + 1) % O.Q)
            d = c.but(dh=(c.dh + 1) % O.Q)
            d.ch = W.con_hash(d, c.dh)
            yield go('contest, other description hash', 'convalid', W.CCON, d, False, c.dh)
            for s in c.sels:
                yield go('selection', 'selvalid', W.CSEL, s, True, s.dh)
                yield go('selection, other seed', 'selvalid', W.CSEL, s, False, (s.dh + 1) % O.Q)
                d = s.but(dh=(s.dh + 1) % O.Q)
                yield go('selection, other description hash', 'selvalid', W.CSEL, d, False, s.dh)
                d = s.but(id='other id')
                yield go('selection, other id', 'selvalid', W.CSEL, d, False, s.dh)
    # larger ballots: accepted as made, refused when a single part anywhere is wrong
    for shape in ([(1,) * 7, (9,)] if tier == 'quick' else [(1,) * 7, (9,), (2,) * 12, (17, 1), (1,) * 20]):
        b = W.mk_cbal(rng, K, q, shape)
        cs = [c.but(sels=rng.sample(c.sels, len(c.sels))) for c in rng.sample(b.contests, len(b.contests))]
        yield go('larger ballot', 'balvalid', W.CBAL, b.but(contests=cs), True, b.mh)
        places = [(i, j) for i, c in enumerate(b.contests) for j in range(len(c.sels))]
        for i, j in {places[-1], places[len(places) // 2], rng.choice(places)}:
            c = b.contests[i].but(sels=list(b.contests[i].sels))
            p = c.sels[j].proof
            c.sels[j] = c.sels[j].but(proof=rng.choice([p.but(c1=(p.c1 + 1) % O.Q), p.but(v0=(p.v0 + 1) % O.Q), p.but(v1=(p.v1 + 1) % O.Q)]))
            yield go('larger ballot, bad proof %d.%d' % (i, j), 'balvalid', W.CBAL, b.but(contests=b.contests[:i] + [c] + b.contests[i + 1:]), False, b.mh)
        i = rng.randrange(len(shape))
        c = b.contests[i].but(proof=b.contests[i].proof.but(v=(b.contests[i].proof.v + 1) % O.Q))
        yield go('larger ballot, bad contest proof %d' % i, 'balvalid', W.CBAL, b.but(contests=b.contests[:i] + [c] + b.contests[i + 1:]), False, b.mh)
    yield go('contest without selections', 'convalid', W.CCON, W.mk_ccon(rng, 1, K, q, 1).but(sels=[], acc=W.R(pad=1, data=1)), False, 5)
