from common import *
from ballots import *
import star
import itertools
LEVEL = 'proof'
TUS = BALLOT_TUS + ENCRYPT_TUS
TRUST = L2_TRUST + ['contracts of the proof makers: an honest call yields a proof that verifies (C05, C07), of the proof verifiers (C06, C08), of hashedElgamalEncrypt (C14)',
                    'getOvervoteAndWriteIns (JSON text of overvotes and write-ins) returns some string and changes nothing']
ASSUME = ['lists of any length, up to 2^62 elements; obligations of fixed sizes stand beside them', 'a described contest has as many placeholders as seats, as the internal manifest makes them (C16)', 'the contests of a ballot style, the described selections of a contest, and the selections of a ballot contest, have distinct ids',
          'votes, and the sums of the votes of a contest, are below 2^62 (below 2^32 in the obligations of fixed sizes)', 'precomputed values were filled for the public key used (C18)']
ES = NS + 'encryptSelection'

def throws(e):
    return []

# ---- one selection
def proof_makers(h, rec):
    eng = h.eng
    proof_contracts(h)
    n = [0]
    def out(ct, r, K, q, v):
        n[0] += 1
        p = h.dproof('made%d.' % n[0])
        rec.append((h.dkey(p), ct, r, K, q, v))
        return UPtr(Ptr(p))
    def make(eng, this, a, f):
        return out(h.ctkey(a[0]), h.el(a[1]), h.el(a[2]), h.el(a[3]), a[-1].get())
    def pre(eng, this, a, f):
        t = h.get(a[1], 'get_triple1')
        e = h.g(t, 'get_exp')
        return out(h.ctkey(a[0]), e, 'K', h.el(a[2]), a[3].get())
    eng.contracts[NS + 'DisjunctiveChaumPedersenProof::make'] = make
    eng.contracts[NS + 'DisjunctiveChaumPedersenProof::make_with_precomputed'] = pre

def selection(v, pre, ph, verify):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for match in (True, False):
            def thunk():
                rec = []
                proof_makers(h, rec)
                taken = [0]
                def take(eng, this, a, f):
                    taken[0] += 1
                    k = taken[0]
                    return h.ttq(qatom('t1', k), qatom('t2', k), qatom('q1', k), qatom('q2', k)).get() if pre else UPtr(NULL)
                eng.contracts[NS + 'PrecomputeBufferContext::getTwoTriplesAndAQuadruple'] = take
                oid, did, cand = S('sel'), S('sel') if match else S('desc'), S('cand')
                if not match:
                    eng.assume(l2.neg(eng.str_compare('==', oid, did)))
                nonempty(eng, oid, did, cand)
                sq = z3.Int('seq')
                eng.fact(z3.And(sq >= 1, sq < 2**64))
                vote = v
                if v is None:
                    vote = z3.Int('vote')
                    eng.fact(z3.And(vote >= 2, vote < 2**64))
                q, seed = qatom('ext'), qatom('nonceseed')
                d = h.sdesc(did, cand, sq)
                dh = h.el(ctx.call(NS + 'SelectionDescription::crypto_hash', [], this=d))
                o = h.obj(ctx.call(ES, [h.psel(oid, vote, ph), d, h.E(h.K), h.E(q), h.E(seed), Cell(ph), Cell(verify)]))
                return o, rec, dh, sq
            def post(x):
                o, rec, dh, sq = x
                yield 'a selection of another description or with a vote above 1 is refused', match and v is not None
                if not match or v is None:
                    return
                yield 'id, placeholder flag', strnode(h.get(o, 'getObjectId')) == strnode(S('sel')) and bool(h.get(o, 'getIsPlaceholder')) == ph
                yield 'sequence order', eqv(h.get(o, 'getSequenceOrder'), sq)
                yield 'description hash', h.g(o, 'getDescriptionHash') == dh
                ct, r, pk = h.ctkey(h.get(o, 'getCiphertext')), h.g(o, 'getNonce'), h.dkey(h.get(o, 'getProof'))
                yield 'there is a nonce', r is not None
                yield 'the ciphertext encrypts the vote under the public key with the recorded nonce', r is not None and ct == h.enc(v, r)
                yield 'crypto hash', h.g(o, 'getCryptoHash') == selH(S('sel'), dh, ct)
                hit = [m for m in rec if m[0] == pk]
                yield 'the proof was made for this ciphertext, nonce, key, base hash and vote', len(hit) == 1 and hit[0][1] == ct and hit[0][2] == r and hit[0][3] in ('K', h.K) and hit[0][4] == qatom('ext') and hit[0][5] == v
                if verify:
                    yield 'only a selection that verifies is returned', l2.bool_atom('dvalid', pk, ct, h.K, qatom('ext'))
            ctx.prove(thunk, post, throws=throws, min_ret=1 if match and v is not None else 0, label='selection (%s id): ' % ('the' if match else 'other'))
    return run

# ---- validity of a plaintext contest

def votes(eng, n, hi=2**32):
    l = [z3.Int('vote%d' % i) for i in range(n)]
    for v in l:
        eng.fact(z3.And(v >= 0, v < hi))
    return l
def is_over(vs, elected, allowed):
    cnt = sum([z3.If(v >= 1, 1, 0) for v in vs], z3.IntVal(0))
    tot = sum(vs, z3.IntVal(0))
    return z3.Or(cnt > elected, tot > (z3.If(z(allowed) == 0, z(elected), z(allowed))))
def validity(n):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for sup in (True, False):
            def thunk():
                vs = votes(eng, n)
                e, al, m = z3.Int('elected'), z3.Int('allowed'), z3.Int('expected')
                for x in (e, al, m):
                    eng.fact(z3.And(x >= 0, x < 2**64))
                oid, exp = S('id'), S('expectedid')
                c = h.pcontest(oid, [h.psel(S('s%d' % i), vs[i]) for i in range(n)])
                r = ctx.call(NS + 'PlaintextBallotContest::isValid', [Cell(exp), Cell(m), Cell(e), Cell(al), Cell(sup)], this=c)
                return r, vs, e, al, m, zbool(eng.str_compare('==', oid, exp))
            def post(x):
                r, vs, e, al, m, same = x
                over = is_over(vs, e, al)
                fit = z3.And(same, n <= m)
                ok, ov = ctx.prog.enums['SUCCESS'], ctx.prog.enums['OVERVOTE']
                yield 'accepted exactly when id and number of selections fit and it is no overvote', (z(r) == ok) == z3.And(fit, z3.Not(over))
                yield 'an overvote is reported as such exactly when overvotes are supported', (z(r) == ov) == z3.And(fit, over, sup)
            ctx.prove(thunk, post, label='validity of a contest of %d: ' % n)
    return run

def any_votes(eng, name='vote'):
    v = z3.Int(name)
    eng.fact(z3.And(v >= 0, v < 2**62))
    return v
def over_any(eng, root, v, elected, allowed):
    cnt, tot = star.isum(eng, root, z3.If(v >= 1, z3.IntVal(1), z3.IntVal(0))), star.isum(eng, root, v)
    return z3.Or(cnt > z(elected), tot > z3.If(z(allowed) == 0, z(elected), z(allowed))), cnt
def validity_any():
    def run(ctx):
        eng = ctx.engine(2)
        eng.int_sums = 2**62
        h = B(ctx)
        for sup in (True, False):
            def thunk():
                v = any_votes(eng)
                e, al, m = z3.Int('elected'), z3.Int('allowed'), z3.Int('expected')
                for x in (e, al, m):
                    eng.fact(z3.And(x >= 0, x < 2**64))
                oid, exp = S('id'), S('expectedid')
                sels, root = many(eng, 'given', h.psel(S('s'), v))
                r = ctx.call(NS + 'PlaintextBallotContest::isValid', [Cell(exp), Cell(m), Cell(e), Cell(al), Cell(sup)], this=h.pcontest(oid, sels))
                return r, over_any(eng, root, v, e, al)[0], z3.And(zbool(eng.str_compare('==', oid, exp)), root.n <= m)
            def post(x):
                r, over, fit = x
                ok, ov = ctx.prog.enums['SUCCESS'], ctx.prog.enums['OVERVOTE']
                yield 'accepted exactly when id and number of selections fit and it is no overvote', (z(r) == ok) == z3.And(fit, z3.Not(over))
                yield 'an overvote is reported as such exactly when overvotes are supported', (z(r) == ov) == z3.And(fit, over, sup)
            ctx.prove(thunk, post, label='validity of a contest of any number of selections: ')
    return run

# ---- a contest
EM = NS + 'emplaceMissingValues'
def fill_any():
    """emplaceMissingValues of a contest: any number of selections given and described"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            v, sq = any_votes(eng), z3.Int('seq')
            eng.fact(z3.And(sq >= 0, sq < 2**64))
            given, groot = many(eng, 'given', h.psel(S('s'), v))
            descs, droot = many(eng, 'described', h.sdesc(S('d'), S('cand'), sq), key=sq)
            desc = h.cdescp(S('contest'), 'gp', 3, 1, 'name', descs, [])
            r = h.obj(ctx.call(EM, [h.pcontest(S('contest'), given), desc], sub='ContestDescription'))
            return r, v, groot, droot
        def post(x):
            r, v, groot, droot = x
            yield 'the id of the contest', strnode(h.get(r, 'getObjectId')) == strnode(S('contest'))
            l = star.segs_of(h.get(r, 'getSelections').items)
            if not eng.branch(droot.n > 0):
                yield 'nothing described, nothing filled in', z(star.length(h.get(r, 'getSelections').items)) == 0
                return
            yield 'one selection per description', len(l) == 1 and l[0][1] is not None and l[0][1].base == 'described'
            o = h.obj(l[0][0].get())
            # of the given selections, the one at an arbitrary index: the first of that id, or any one where there is none
            hit = z3.And(groot.n > 0, zbool(eng.str_compare('==', S('s'), S('d'))))
            yield 'its id', zbool(eng.str_compare('==', h.get(o, 'getObjectId'), S('d')))
            yield 'the vote given for it, 0 where none is given', z(h.get(o, 'getVote')) == z3.If(hit, v, 0)
            yield 'no placeholder', not h.get(o, 'getIsPlaceholder')
        ctx.prove(thunk, post, label='filling in missing selections, any number: ')
    return run

def contest_any(verify=True, badid=False):
    """encryptContest for any number of selections and seats, against the contracts of the functions it calls"""
    def run(ctx):
        eng = ctx.engine(2)
        eng.int_sums = 2**62
        h = B(ctx)
        SUCCESS, OVER, BADID, TOOMANY = [ctx.prog.enums[k] for k in ('SUCCESS', 'OVERVOTE', 'INVALID_OBJECT_ID_ERROR', 'TOO_MANY_SELECTIONS_ERROR')]
        def thunk():
            proof_contracts(h)
            rec = []
            e, al, sq, psq, cq = [z3.Int(n) for n in ('seats', 'allowed', 'seq', 'placeholder seq', 'contest seq')]
            for x in (e, al, sq, psq, cq):
                eng.fact(z3.And(x >= 0, x < 2**62))
            given, groot = many(eng, 'given', h.psel(S('s'), any_votes(eng, 'given vote')))
            gv = z3.Int('given vote')
            descs, droot = many(eng, 'described', h.sdesc(S('d'), S('cand'), sq), key=sq)
            phs, proot = many(eng, 'placeholders', h.sdesc(S('ph'), S('phc'), psq), key=psq)
            droot.distinct = ('var', 'd')
            eng.assume(proot.n == e)           # as the internal manifest makes them (C16)
            desc = h.cdescp(S('contest'), 'gp', cq, e, 'name', descs, phs, allowed=al)
            c = h.pcontest(S('other') if badid else S('contest'), given)
            over, cnt = over_any(eng, groot, gv, e, al)
            fit = z3.And(zbool(eng.str_compare('==', S('other') if badid else S('contest'), S('contest'))), groot.n <= droot.n)
            # the vote for the described selection at an arbitrary index
            v = any_votes(eng, 'vote')
            def valid(eng, this, a, f):
                if not (a[3].get() is not None and eng.valid(zand(z(a[1].get()) == droot.n, z(a[2].get()) == e, z(a[3].get()) == al)) and strnode(a[0].get()) == strnode(S('contest')) and a[4].get() is True):
                    raise Unsupported('the contest is validated against something else')
                if not eng.branch(fit):
                    return BADID if badid else TOOMANY
                return OVER if eng.branch(over) else SUCCESS
            eng.contracts[NS + 'PlaintextBallotContest::isValid'] = valid
            def fill(eng, this, a, f):
                if h.obj(a[0]) is not c.get() or h.obj(a[1]) is not desc.get():
                    raise Unsupported('another contest is filled in')
                # established for any number of selections by the obligation on emplaceMissingValues: id as described, vote as given or 0.
                # Ids of a contest are distinct, so every given selection is used for at most one description:
                eng.fact(star.isum(eng, droot, z3.If(v >= 1, z3.IntVal(1), z3.IntVal(0))) <= cnt)
                return UPtr(Ptr(h.pcontest(S('contest'), star.StarList([(h.psel(S('d'), v), droot.derive())]))))
            eng.contracts[EM] = fill
            def esel(eng, this, a, f):
                p, d = h.obj(a[0]), h.obj(a[1])
                oid, w = h.get(p, 'getObjectId'), h.get(p, 'getVote')
                if eng.branch(l2.neg(eng.str_compare('==', oid, h.get(d, 'getObjectId')))):
                    raise CppThrow('std::invalid_argument')
                if eng.branch(z(w) > 1):
                    raise CppThrow('std::invalid_argument')
                w = 1 if eng.branch(z(w) == 1) else 0
                if (h.el(a[2]), h.el(a[3])) != (h.K, qatom('ext')) or bool(a[6].get()) != verify:
                    raise Unsupported('a selection is encrypted with another key')
                r = qatom('selnonce', strnode(h.get(d, 'getObjectId')), h.el(a[4]))
                return UPtr(Ptr(h.csel(oid, h.get(d, 'getSequenceOrder'), qatom('sdh', strnode(h.get(d, 'getObjectId'))), h.enc(w, r, h.el(a[2])), ph=bool(a[5].get()), nonce=r)))
            eng.contracts[ES] = esel
            eng.contracts[NS + 'getOvervoteAndWriteIns'] = lambda eng, this, a, f: 'extended data'
            eng.contracts[NS + 'hashedElgamalEncrypt'] = lambda eng, this, a, f: UPtr(Ptr(h.hashed('he')))
            ch = lambda eng, this, a, f: UPtr(Ptr(h.E(qatom('cdh'))))
            for n in ('ContestDescription::crypto_hash', 'ContestDescriptionWithPlaceholders::crypto_hash', 'ContestDescription::Impl::crypto_hash'):
                eng.contracts[NS + n] = ch
            def cmake(eng, this, a, f):
                rec.append((strnode(a[0].get()), a[1].get(), h.el(a[2]), a[3].get().items, h.el(a[4]), h.el(a[5]), a[7].get()))
                return UPtr(Ptr(h.ccontest(a[0].get(), a[1].get(), h.el(a[2]), [], acc=(patom('A'), patom('B')), ch=qatom('cch'), proof=h.cproof('made'))))
            eng.contracts[NS + 'CiphertextBallotContest::make'] = cmake
            eng.contracts[NS + 'CiphertextBallotContest::isValidEncryption'] = lambda eng, this, a, f: l2.bool_atom('contestvalid', h.el(a[0]), h.el(a[1]), h.el(a[2]))
            im = h.imanifest([], [h.style('style', ['gp'])], qatom('mh'))
            r = None
            try:
                r = h.obj(ctx.call(NS + 'encryptContest', [c, im, desc, h.E(h.K), h.E(qatom('ext')), h.E(qatom('nonceseed')), Cell(verify)]))
            except CppThrow:
                pass
            c0 = star.isum(eng, droot, v)
            ones = star.isum(eng, droot, z3.If(v >= 1, z3.IntVal(1), z3.IntVal(0)))
            return r, rec, fit, over, v, e, sq, psq, cq, droot, proot, c0, ones, cnt
        def post(x):
            r, rec, fit, over, v, e, sq, psq, cq, droot, proot, c0, ones, cnt = x
            proved = l2.bool_atom('contestvalid', qatom('cdh'), h.K, qatom('ext'))
            # of the described selections, the one at an arbitrary index: that with a vote above 1, or any one where there is none
            odd = z3.And(z3.Not(over), droot.n > 0, v > 1)
            if r is None:
                yield 'refused only for another id, too many selections, a vote above 1 or a proof that does not verify', z3.Or(z3.Not(fit), odd, z3.And(verify, z3.Not(proved)) if rec else False)
                return
            yield 'a contest with another id, too many selections or a vote that is neither 0 nor 1 is refused', z3.And(fit, z3.Not(odd))
            if verify:
                yield 'only a contest that verifies is returned', proved
            yield 'made once', len(rec) == 1
            oid, s3, dh, items, K, q, n = rec[0]
            yield 'contest id, description hash, key, base hash', oid in (strnode(S('contest')), strnode(S('other'))) and dh == qatom('cdh') and K == h.K and q == qatom('ext')
            yield 'contest order, number elected', z3.And(z(s3) == cq, z(n) == e)
            yield 'one encryption per selection and placeholder', z(star.length(items)) == droot.n + proot.n
            segs = {rt.base: h.obj(cl.get()) for cl, rt in star.segs_of(items) if rt is not None}
            if len(segs) != len(star.segs_of(items)) or not set(segs) <= {'described', 'placeholders'}:
                raise Unsupported('a list of another shape')
            # every vote is 0 or 1 where this is returned: the sum of the votes is the number of ones, at most the ones given
            eng.fact(z3.Implies(z3.Not(over), c0 == ones))
            # the order in which the placeholders are gone through is not prescribed: any will do
            pos = z3.Int('pos!placeholders!%s' % ([rt.order for cl, rt in star.segs_of(items) if rt is not None and rt.base == 'placeholders'] + ['stored'])[0])
            for base, root, id_, q_, ph in (('described', droot, S('d'), sq, False), ('placeholders', proot, S('ph'), psq, True)):
                if not eng.branch(root.n > 0):
                    continue
                yield base + ': encrypted', base in segs
                o = segs[base]
                yield base + ': id, placeholder flag, description hash', strnode(h.get(o, 'getObjectId')) == strnode(id_) and bool(h.get(o, 'getIsPlaceholder')) == ph and h.g(o, 'getDescriptionHash') == qatom('sdh', strnode(id_))
                yield base + ': order', eqv(h.get(o, 'getSequenceOrder'), q_)
                ct, nc = h.ctkey(h.get(o, 'getCiphertext')), h.g(o, 'getNonce')
                w = 1 if ct == h.enc(1, nc) else 0 if ct == h.enc(0, nc) else None
                yield base + ': encrypts 0 or 1', w is not None
                if w is None:
                    return
                if not ph:
                    yield "a selection carries the voter's vote, or 0 for an overvote", z3.If(over, w == 0, w == v)
                else:
                    yield 'a placeholder is 1 for an overvote', z3.Implies(over, z3.BoolVal(w == 1))
                    # exactly the first (elected - votes) of the placeholders are 1, so that the total is the number elected
                    yield 'placeholders are 1 until the total is the number elected', z3.Implies(z3.Not(over), z3.And(c0 <= e, zbool(w == 1) == (c0 + pos < e)))
        ctx.prove(thunk, post, label='contest of any number of selections: ')
    return run

def describe(h, n, seats, perm, cid, allowed):
    sels = [h.sdesc('d%d' % i, 'cand%d' % i, 2 * i + 1) for i in range(n)]
    phs = [h.sdesc('ph%d' % i, 'phc%d' % i, 2 * n + 1 + i) for i in range(seats)]
    return h.cdescp(cid, 'gp', 3, seats, 'name', [sels[i] for i in perm], phs, allowed=allowed), sels, phs

def contest(n, seats, given, perm=None, allowed=None, unknown=0, badid=False, verify=True):
    """n described selections, the ballot gives those in `given` (in that order) and `unknown` others"""
    perm = perm if perm is not None else range(n)
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            proof_contracts(h)
            made, count = [], [0]
            def esel(eng, this, a, f):
                p, d = h.obj(a[0]), h.obj(a[1])
                oid, v = h.get(p, 'getObjectId'), h.get(p, 'getVote')
                if eng.branch(l2.neg(eng.str_compare('==', oid, h.get(d, 'getObjectId')))):
                    raise CppThrow('std::invalid_argument')
                if eng.branch(z(v) > 1):
                    raise CppThrow('std::invalid_argument')
                v = 1 if eng.branch(z(v) == 1) else 0
                count[0] += 1
                r = qatom('selnonce', count[0])
                K = h.el(a[2])
                ct = h.enc(v, r, K)
                dh = h.el(ctx.call(NS + 'SelectionDescription::crypto_hash', [], this=Cell(d)))
                made.append((h.el(a[3]), h.el(a[4])))
                return UPtr(Ptr(h.csel(oid, h.get(d, 'getSequenceOrder'), dh, ct, ph=bool(a[5].get()), nonce=r, ch=selH(oid, dh, ct), proof=h.dproof('p%d' % count[0]))))
            eng.contracts[ES] = esel
            eng.contracts[NS + 'getOvervoteAndWriteIns'] = lambda eng, this, a, f: 'extended data'
            eng.contracts[NS + 'hashedElgamalEncrypt'] = lambda eng, this, a, f: UPtr(Ptr(h.hashed('he')))
            rec = []
            def cmake(eng, this, a, f):
                p = h.cproof('made')
                rec.append((h.ckey(p), h.ctkey(a[0]), h.el(a[1]), h.el(a[2]), h.el(a[4]), a[5].get()))
                return UPtr(Ptr(p))
            eng.contracts[NS + 'ConstantChaumPedersenProof::make'] = cmake
            vs = votes(eng, len(given) + unknown)
            desc, sels, phs = describe(h, n, seats, perm, 'contest', allowed)
            c = h.pcontest('other' if badid else 'contest', [h.psel('d%d' % g, vs[i]) for i, g in enumerate(given)] + [h.psel('unknown%d' % i, vs[len(given) + i]) for i in range(unknown)])
            im = h.imanifest([describe(h, n, seats, perm, 'contest', allowed)[0]], [h.style('style', ['gp'])], qatom('mh'))
            dhs = [h.el(ctx.call(NS + 'SelectionDescription::crypto_hash', [], this=s)) for s in sels + phs]
            cdh = h.g(desc, 'crypto_hash')
            r, q = None, qatom('ext')
            try:
                r = h.obj(ctx.call(NS + 'encryptContest', [c, im, desc, h.E(h.K), h.E(q), h.E(qatom('nonceseed')), Cell(verify)]))
            except CppThrow:
                pass
            return r, vs, dhs, cdh, rec
        def post(x):
            o, vs, dhs, cdh, rec = x
            over = is_over(vs, seats, allowed or 0)
            odd = lor([v > 1 for v in vs[:len(given)]])
            bad = badid or len(vs) > n
            invalid = z3.BoolVal(True) if bad else z3.And(z3.Not(over), odd)
            if o is None:
                if verify:
                    key = ()
                    # the only other reason is a proof that does not verify
                    yield 'a valid contest or overvote is refused only if its proof does not verify', z3.Or(invalid, z3.Not(l2.bool_atom('cvalid', rec[0][0][:4] + (str(rec[0][0][4]),), rec[0][1], h.K, qatom('ext'))) if rec else z3.BoolVal(False))
                else:
                    yield 'refused only if invalid', invalid
                return
            yield 'a contest with another id, too many selections or a vote that is neither 0 nor 1 is refused', z3.Not(invalid)
            got = h.refs(h.get(o, 'getSelections'))
            yield 'one encryption per selection and placeholder', len(got) == n + seats
            if len(got) != n + seats:
                return
            tot = z3.IntVal(0)
            for i, s in enumerate(got):
                ph = i >= n
                name = 'placeholder %d' % (i - n) if ph else 'selection %d' % i
                yield name + ': id, order, placeholder flag', h.get(s, 'getObjectId') == ('ph%d' % (i - n) if ph else 'd%d' % i) and h.get(s, 'getSequenceOrder') == (2 * n + 1 + i - n if ph else 2 * i + 1) and bool(h.get(s, 'getIsPlaceholder')) == ph
                yield name + ': description hash', h.g(s, 'getDescriptionHash') == dhs[i]
                ct, r = h.ctkey(h.get(s, 'getCiphertext')), h.g(s, 'getNonce')
                v = 1 if ct == h.enc(1, r) else 0 if ct == h.enc(0, r) else None
                yield name + ' encrypts 0 or 1', v is not None
                if v is None:
                    return
                tot = tot + v
                if not ph:
                    mine = vs[given.index(i)] if i in given else z3.IntVal(0)
                    yield name + " carries the voter's vote, or 0 for an overvote", z3.If(over, v == 0, v == mine)
                else:
                    yield name + ' is 1 for an overvote', z3.Implies(over, z3.BoolVal(v == 1))
            yield 'the total is the number elected', tot == seats
            acc = (ONE, ONE)
            rs = QTerm({})
            for s in got:
                ct = h.ctkey(h.get(s, 'getCiphertext'))
                acc = (acc[0] * ct[0], acc[1] * ct[1])
                rs = rs + h.g(s, 'getNonce')
            yield 'contest id, order, hash', h.get(o, 'getObjectId') == 'contest' and h.get(o, 'getSequenceOrder') == 3 and h.g(o, 'getDescriptionHash') == cdh
            yield 'accumulation', h.ctkey(h.get(o, 'getCiphertextAccumulation')) == acc
            yield 'the proof was made for the total, its nonce, key, base hash and number elected', len(rec) == 1 and rec[0] == (h.ckey(h.get(o, 'getProof')), acc, rs, h.K, qatom('ext'), seats)
        ctx.prove(thunk, post, label='contest: ')
    return run
def lor(l):
    return z3.Or(*[zbool(x) for x in l]) if l else z3.BoolVal(False)

# ---- the contests of a ballot
def contests(shape, given, styles_units=('gp0', 'gp1'), unknown_contest=False):
    """shape: selections per contest; given: list of (contest, [selections]) on the ballot; contest i is in district gp(i%3)"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for known in (True, False):
            def thunk():
                calls = []
                def enc(eng, this, a, f):
                    c, d = h.obj(a[0]), h.obj(a[2])
                    i = len(calls)
                    vs = [(h.get(s, 'getObjectId'), h.get(s, 'getVote')) for s in h.refs(h.get(c, 'getSelections'))]
                    calls.append((h.get(c, 'getObjectId'), h.get(d, 'getObjectId'), vs, h.el(a[3]), h.el(a[4]), h.el(a[5]), bool(a[6].get())))
                    return UPtr(Ptr(h.ccontest(h.get(d, 'getObjectId'), h.get(d, 'getSequenceOrder'), qatom('dh', i), [], acc=(patom('A'), patom('B')), ch=qatom('ch', i))))
                eng.contracts[NS + 'encryptContest'] = enc
                cs = []
                for i, n in enumerate(shape):
                    cs.append(h.cdescp('c%d' % i, 'gp%d' % (i % 3), 5 * (len(shape) - i), 1, 'name', [h.sdesc('d%d.%d' % (i, j), 'k', j + 1) for j in range(n)], [h.sdesc('ph%d' % i, 'k', n + 1)]))
                im = h.imanifest(cs, [h.style('other', ['gp2']), h.style('style', list(styles_units))], qatom('mh'))
                cx = h.context(h.K, qatom('mh'))
                bal, vs = [], {}
                for c, l in given:
                    for j in l:
                        vs[c, j] = v = z3.Int('vote%d.%d' % (c, j))
                        eng.fact(z3.And(v >= 0, v < 2**32))
                    bal.append(h.pcontest('c%d' % c, [h.psel('d%d.%d' % (c, j), vs[c, j]) for j in l]))
                if unknown_contest:
                    bal.insert(0, h.pcontest('stray', [h.psel('d0.0', 1)]))
                r = ctx.call(NS + 'encryptContests', [h.pballot('b', 'style' if known else 'nostyle', bal), im, cx, h.E(qatom('seed')), Cell(True)])
                return calls, [(h.get(c, 'getObjectId'), h.g(c, 'getCryptoHash')) for c in h.refs(r)], vs, h.g(cx, 'getCryptoExtendedBaseHash')
            def post(x):
                calls, out, vs, q = x
                yield 'a ballot with an unknown style is refused', known
                if not known:
                    return
                mine = [i for i in reversed(range(len(shape))) if 'gp%d' % (i % 3) in styles_units]
                yield 'exactly the contests of the style, in sequence order', [c[0] for c in out] == ['c%d' % i for i in mine]
                yield 'each encrypted once', sorted(c[1] for c in calls) == sorted('c%d' % i for i in mine)
                for k, (c, d, l, K, qq, seed, vf) in enumerate(calls):
                    i = int(d[1:])
                    yield 'contest %d: its own choices, key, base hash, seed, verified' % i, c == d and K == h.K and qq == q and seed == qatom('seed') and vf
                    for j in range(shape[i]):
                        v = [w for o, w in l if o == 'd%d.%d' % (i, j)]
                        yield 'contest %d selection %d: at most one vote' % (i, j), len(v) <= 1
                        yield 'contest %d selection %d carries the vote of the ballot, 0 when absent' % (i, j), z(v[0] if v else 0) == vs.get((i, j), z3.IntVal(0))
                    yield 'contest %d: nothing else' % i, len(l) <= shape[i]
                    yield 'contest %d: the result is kept' % i, ('c%d' % i, qatom('ch', k)) in out
            ctx.prove(thunk, post, throws=throws, min_ret=1 if known else 0, label='contests of a ballot (%s style): ' % ('known' if known else 'unknown'))
    return run

def is_ballot(h, a):
    return h.obj(a[0]).cls.qn.endswith('PlaintextBallot')
def style_contracts(h, cs, asked):
    """the style of the ballot is known or not; its contests are cs (the lookup itself: C16)"""
    eng = h.eng
    only = h.imanifest(cs, [], qatom('mh'))
    st = h.style(asked, ['gp'])
    def by_id(eng, this, a, f):
        if strnode(a[0].get()) != strnode(asked):
            raise Unsupported('another style is looked up')
        return Ptr(st) if eng.branch(l2.bool_atom('known style')) else NULL
    def of(eng, this, a, f):
        if strnode(a[0].get()) != strnode(asked):
            raise Unsupported('another style is looked up')
        if not eng.branch(l2.bool_atom('known style')):
            raise CppThrow('std::invalid_argument')
        return h.get(only, 'getContests')
    eng.contracts[NS + 'InternalManifest::getBallotStyle'] = by_id
    eng.contracts[NS + 'InternalManifest::getContestsFor'] = of
    return h.imanifest([], [], qatom('mh'))
def ballot_fill_any():
    """emplaceMissingValues of a ballot: any number of contests given and described, of any number of selections"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            sq, cq = z3.Int('seq'), z3.Int('contest seq')
            for x in (sq, cq):
                eng.fact(z3.And(x >= 0, x < 2**62))
            descs, droot = many(eng, 'described', h.sdesc(S('d'), S('cand'), sq), key=sq)
            cs, croot = many(eng, 'contests', h.cdescp(S('c'), 'gp', cq, 1, 'name', descs, []), key=cq)
            given, groot = many(eng, 'given', h.pcontest(S('g'), []))
            gloc = star.segs_of(given)[0][0]
            im = style_contracts(h, cs, S('style'))
            def fill(eng, this, a, f):
                if is_ballot(h, a):
                    return NotImplemented
                if h.obj(a[0]) is not h.obj(gloc) or strnode(h.get(h.obj(a[1]), 'getObjectId')) != strnode(S('c')):
                    raise Unsupported('another contest is filled in')
                return UPtr(Ptr(h.pcontest(S('c'), [h.psel('filled in from what is given', 1)])))
            eng.contracts[EM] = fill
            try:
                return h.obj(ctx.call(EM, [h.pballot(S('b'), S('style'), given), im], sub='InternalManifest')), croot, groot, droot
            except CppThrow:
                return None, croot, groot, droot
        def post(x):
            r, croot, groot, droot = x
            known = l2.bool_atom('known style')
            yield 'refused exactly for an unknown style', zbool(r is not None) == known
            if r is None:
                return
            yield 'the id of the ballot, its style', (strnode(h.get(r, 'getObjectId')), strnode(h.get(r, 'getStyleId'))) == (strnode(S('b')), strnode(S('style')))
            items = h.get(r, 'getContests').items
            yield 'one contest per contest of the style', z(star.length(items)) == croot.n
            if not eng.branch(croot.n > 0):
                return
            l = star.segs_of(items)
            if len(l) != 1 or l[0][1] is None or l[0][1].base != 'contests':
                raise Unsupported('a list of another shape')
            o = h.obj(l[0][0].get())
            yield 'its id', zbool(eng.str_compare('==', h.get(o, 'getObjectId'), S('c')))
            hit = z3.And(groot.n > 0, zbool(eng.str_compare('==', S('g'), S('c'))))
            sels = h.get(o, 'getSelections').items
            if isinstance(sels, list) and [h.get(x.get().loc, 'getObjectId') for x in sels] == ['filled in from what is given']:
                yield 'filled in from the contest of that id', hit
                return
            yield 'only a contest that is not given is made up', z3.Not(hit)
            yield 'no vote where the contest is not given: at most one selection for each described', z(star.length(sels)) <= droot.n
            for cl, rt in star.segs_of(sels):
                s = h.obj(cl.get())
                yield 'no vote where the contest is not given', z3.And(z(h.get(s, 'getVote')) == 0, zbool(eng.str_compare('==', h.get(s, 'getObjectId'), S('d'))), not h.get(s, 'getIsPlaceholder'))
        ctx.prove(thunk, post, label='filling in the contests of a ballot, any number: ')
    return run
def contests_any():
    """encryptContests for any number of contests, against the contracts of encryptContest and emplaceMissingValues"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        for vf in (True, False):
            def thunk():
                cq = z3.Int('contest seq')
                eng.fact(z3.And(cq >= 0, cq < 2**62))
                cs, croot = many(eng, 'contests', h.cdescp(S('c'), 'gp', cq, 1, 'name', [h.sdesc(S('d'), S('cand'), 1)], []), key=cq)
                croot.distinct = ('var', 'c')
                im = style_contracts(h, cs, S('style'))
                cx = h.context(h.K, qatom('mh'))
                given, groot = many(eng, 'given', h.pcontest(S('g'), []))
                bal = h.pballot(S('b'), S('style'), given)
                def fill(eng, this, a, f):
                    if not is_ballot(h, a) or h.obj(a[0]) is not h.obj(bal) or h.obj(a[1]) is not h.obj(im):
                        raise Unsupported('something else is filled in')
                    if not eng.branch(l2.bool_atom('known style')):
                        raise CppThrow('std::invalid_argument')
                    # as established by the obligation on filling in: one contest per contest of the style, with its id
                    return UPtr(Ptr(h.pballot(S('b'), S('style'), star.StarList([(h.pcontest(S('c'), [h.psel('filled in', 1)]), croot.derive(order='ascending'))]))))
                eng.contracts[EM] = fill
                q = h.g(cx, 'getCryptoExtendedBaseHash')
                def enc(eng, this, a, f):
                    c, d = h.obj(a[0]), h.obj(a[2])
                    if not (h.obj(a[1]) is h.obj(im) and (h.el(a[3]), h.el(a[4]), h.el(a[5])) == (h.K, q, qatom('seed')) and bool(a[6].get()) == vf):
                        raise Unsupported('a contest is encrypted with another key')
                    ids = strnode(h.get(c, 'getObjectId')), strnode(h.get(d, 'getObjectId'))
                    own = [h.get(s, 'getObjectId') for s in h.refs(h.get(c, 'getSelections'))] == ['filled in']
                    if not eng.branch(l2.bool_atom('contest encrypts', *ids)):
                        raise CppThrow('std::invalid_argument')
                    return UPtr(Ptr(h.ccontest(h.get(d, 'getObjectId'), h.get(d, 'getSequenceOrder'), qatom('dh', *ids), [], acc=(patom('A'), patom('B')), ch=qatom('ch', ids, own))))
                eng.contracts[NS + 'encryptContest'] = enc
                try:
                    return ctx.call(NS + 'encryptContests', [bal, im, cx, h.E(qatom('seed')), Cell(vf)]), cq, croot
                except CppThrow:
                    return None, cq, croot
            def post(x):
                r, cq, croot = x
                known, good = l2.bool_atom('known style'), l2.bool_atom('contest encrypts', strnode(S('c')), strnode(S('c')))
                # of the contests, the one at an arbitrary index: one that is refused, or any one where none is
                fine = z3.And(known, z3.Or(croot.n == 0, good))
                yield 'refused exactly for an unknown style or a contest that is refused', zbool(r is not None) == fine
                if r is None:
                    return
                items = r.items if hasattr(r, 'items') else r.get().items
                yield 'one contest per contest of the style', z(star.length(items)) == croot.n
                if not eng.branch(croot.n > 0):
                    return
                l = star.segs_of(items)
                if len(l) != 1 or l[0][1] is None or l[0][1].base != 'contests':
                    raise Unsupported('a list of another shape')
                yield 'in sequence order', l[0][1].order == 'ascending'
                o = h.obj(l[0][0].get())
                c = strnode(S('c'))
                yield 'the id and order of the contest', z3.And(strnode(h.get(o, 'getObjectId')) == c, eqv(h.get(o, 'getSequenceOrder'), cq))
                yield "encrypted from the ballot's own choices for it", h.g(o, 'getCryptoHash') == qatom('ch', (c, c), True)
            ctx.prove(thunk, post, label='contests of a ballot, any number%s: ' % ('' if vf else ', unverified'))
    return run

def obligations(tier):
    obs = []
    for v in (0, 1, None):
        for pre in (False, True):
            for ph, vf in ((False, True), (True, True), (False, False)):
                if v is None and (ph or not vf):
                    continue
                obs.append(Ob('encryptSelection: vote %s, %sprecomputed values%s%s' % ('above 1' if v is None else v, '' if pre else 'no ', ', placeholder' if ph else '', '' if vf else ', unverified'), selection(v, pre, ph, vf)))
    obs.append(Ob('validity of a plaintext contest of any number of selections', validity_any()))
    obs.append(Ob('filling in missing selections, any number given and described', fill_any()))
    for vf, bad in ((True, False), (False, False), (True, True)):
        obs.append(Ob('encryptContest: any number of selections and seats%s%s' % ('' if vf else ', unverified', ', another id' if bad else ''), contest_any(vf, bad)))
    obs.append(Ob('filling in missing contests, any number given and described', ballot_fill_any()))
    obs.append(Ob('encryptContests: any number of contests', contests_any()))
    for n in range(5):
        obs.append(Ob('validity of a plaintext contest of %d selections' % n, validity(n), bounded='%d selections' % n))
    def con(n, seats, given, **kw):
        obs.append(Ob('encryptContest: %d selections, %d seats, ballot gives %s%s' % (n, seats, list(given), ''.join(', %s %s' % x for x in sorted(kw.items()))), contest(n, seats, given, **kw), bounded='%d selections' % n))
    con(1, 1, [0])
    con(1, 1, [])
    con(1, 0, [0])
    con(2, 1, [0, 1])
    con(2, 1, [1, 0], perm=(1, 0))
    con(2, 1, [1])
    con(2, 2, [0, 1])
    con(2, 2, [], verify=False)
    con(2, 1, [0], allowed=2)
    con(2, 1, [0, 1], allowed=2, verify=False)
    con(3, 1, [0, 1, 2])
    con(3, 2, [2, 0, 1], perm=(2, 0, 1))
    con(3, 2, [0, 2], perm=(1, 2, 0))
    con(3, 3, [0, 1, 2], verify=False)
    con(3, 2, [1], unknown=1)
    con(1, 1, [0], unknown=1)
    con(2, 1, [0, 1], unknown=1)
    con(2, 1, [0], badid=True)
    for shape, given in (((1,), [(0, [0])]), ((2,), [(0, [1])]), ((2,), []), ((2, 1), [(1, [0]), (0, [0, 1])]), ((2, 1), [(0, [1])]), ((1, 2, 1), [(0, [0]), (2, [0]), (1, [1, 0])]), ((1, 1, 1, 2), [(3, [1])])):
        for st in (False, True):
            obs.append(Ob('encryptContests: contests of %s selections, ballot gives %s%s' % (list(shape), given, ', and a contest of no description' if st else ''), contests(shape, given, unknown_contest=st), bounded='%d contests' % len(shape)))
    obs.append(Ob('encryptContests: one unit', contests((1, 2), [(1, [0])], styles_units=('gp1',)), bounded='2 contests'))
    return obs

HARNESS = ['main.cpp', 'ballot.cpp']
import wire as W
import oracle as O
from harness import batch, pmap
E = O.El
def decrypt(ct, s):
    """the vote a ciphertext encrypts: beta / alpha^s is g^v"""
    x = ct.data * pow(pow(ct.pad, s, O.P), -1, O.P) % O.P
    for v in range(6):
        if x == pow(O.G, v, O.P):
            return v
    return None
def want_contest(d, vs):
    """expected outcome of encrypting: None (refused) or the votes of the described selections; vs: list of (id, vote)"""
    if len(vs) > len(d.sels):
        return None
    cnt, tot = sum(1 for _, v in vs if v >= 1), sum(v for _, v in vs)
    over = cnt > d.elected or tot > (d.allowed or d.elected)
    if over:
        return [0] * len(d.sels)
    out = []
    for s in W._sorted(d.sels):
        v = [v for i, v in vs if i == s.id]
        out.append(v[0] if v else 0)
    return None if any(v > 1 for v in out) else out
def check_contest(c, d, want, s, K, q, deep=True):
    """c: encrypted contest, d: description with placeholders"""
    exp = [(x, False) for x in W._sorted(d.sels)] + [(x, True) for x in W._sorted(d.phs)]
    got = W._sorted(c.sels)
    if len(got) != len(exp):
        return '%d encryptions for %d selections and placeholders' % (len(got), len(exp))
    if (c.id, c.seq) != (d.id, d.seq):
        return 'contest id or order'
    if c.dh != W.cd_hash(d):
        return 'description hash of the contest'
    tot = 0
    for i, ((x, ph), g) in enumerate(zip(exp, got)):
        if (g.id, g.seq, g.ph) != (x.id, x.seq, ph):
            return 'selection %d: id, order or placeholder flag: %s' % (i, (g.id, g.seq, g.ph))
        if g.dh != W.sd_hash(x):
            return 'selection %s: description hash' % x.id
        v = decrypt(g.ct, s)
        if not ph and v != want[i]:
            return 'selection %s encrypts %s, the vote is %s' % (x.id, v, want[i])
        if v not in (0, 1):
            return 'selection %s encrypts neither 0 nor 1' % x.id
        tot += v
        if g.nonce is None or (g.ct.pad, g.ct.data) != O.encrypt(v, g.nonce, K):
            return 'selection %s: nonce is not that of the ciphertext' % x.id
        if not W.sel_valid(g, g.dh, K, q):
            return 'selection %s does not verify' % x.id
    if tot != d.elected:
        return 'total %d for %d seats' % (tot, d.elected)
    if not W.con_valid(c, c.dh, K, q):
        return 'contest does not verify'
def with_phs(c):
    return c.but(phs=W.placeholders(c))
def pcon(d, rng, plain=False):
    """a voter's choices: under-, exact and overvotes, some selections absent, odd votes"""
    n = len(d.sels)
    kind = rng.random() * (.55 if plain else 1)
    order = rng.sample(d.sels, n)
    if kind < .35:
        vs = [(s.id, 1) for s in order[:rng.randrange(0, min(n, d.elected) + 1)]]
    elif kind < .55:
        k = rng.randrange(0, n + 1)
        yes = rng.sample(range(n), min(n, rng.randrange(0, d.elected + 1)))
        vs = [(s.id, 1 if j in yes else 0) for j, s in enumerate(order)]
    elif kind < .75:
        vs = [(s.id, rng.choice([0, 1, 1])) for s in order]
    elif kind < .9:
        vs = [(s.id, rng.choice([0, 1, 2, 3, 2**32 - 1, 2**31])) for s in order[:rng.randrange(1, n + 1)]]
    else:
        vs = [(s.id, rng.randrange(2)) for s in order] + [('stray', rng.randrange(2))] * rng.choice([1, 1, 2])
    return vs
def jobs_contest(rng, k, many=False):
    for i in range(k):
        n = rng.choice([1, 2, 2, 3, 4])
        cn = rng.choice([1, 2])
        if i < 3:                # some larger than any listed obligation
            cn, n = ((1, rng.randrange(6, 12)), (1, rng.randrange(12, 18)), (2, rng.randrange(5, 9)))[i] if not many else ((rng.randrange(4, 7), 2), (rng.randrange(7, 11), 1), (1, 9))[i]
        m = W.mk_manifest(rng, contests=cn, sels=n, elected=rng.randrange(max(1, n - 3), n + 1) if i < 3 else rng.choice([1, 1, 2, n, 0]) if n > 1 else rng.choice([1, 1, 0]), shuffle=rng.random() < .5)
        if rng.random() < .5:
            for c in m.contests:
                base = rng.choice([0, 7, 2**32 - 2, 2**63 - 1])
                for s in c.sels:
                    s.seq += base
        for c in m.contests:
            if c.elected == 0:
                c.allowed = rng.choice([0, 1])
        m.large = i < 3
        yield m
def concrete(h, rng, tier, hints):
    s = rng.randrange(2, O.Q)
    K = O.pk(s)
    jobs = []
    # selections
    for i in range(26 if tier == 'quick' else 250):
        q, ns = rng.randrange(1, O.Q), rng.choice([0, 1, O.Q - 1, rng.randrange(O.Q)])
        v = rng.choice([0, 1, 0, 1, 2, 3, 2**32, 2**32 + 1, 2**64 - 1])
        d = W.R(id='sel', cand='cand', seq=rng.choice([0, 1, 5, 2**32, 2**63 + 5]))
        p = W.R(id=rng.choice(['sel'] * 5 + ['Sel']), vote=v, ph=False, writein='')
        ph, pre = rng.random() < .4, rng.choice([0, 2, 20])
        a = ['encsel'] + W.enc(W.El, K) + W.enc(W.El, q) + W.enc(W.El, ns) + ['1' if ph else '0', rng.choice('01'), str(pre)] + W.enc(W.PSEL, p) + W.enc(W.SD, d)
        jobs.append((a, ('sel', d, p, ph, q, ns, pre)))
    # contests
    for m in jobs_contest(rng, 36 if tier == 'quick' else 300):
        q, ns = rng.randrange(1, O.Q), rng.randrange(O.Q)
        k = rng.randrange(len(m.contests))
        d = W._sorted(m.contests)[k]
        vs = pcon(d, rng, m.large)
        cid = d.id if rng.random() < .93 else 'another'
        pc = W.R(id=cid, sels=[W.R(id=i, vote=v, ph=False, writein='') for i, v in vs])
        a = ['enccon'] + W.enc(W.El, K) + W.enc(W.El, q) + W.enc(W.El, ns) + [rng.choice('01'), rng.choice(['0', '0', '40']), str(k)] + W.enc(W.PCON, pc) + W.enc(W.MAN, m)
        jobs.append((a, ('con', d, pc, vs, q, m, k)))
    # ballots
    for m in jobs_contest(rng, 10 if tier == 'quick' else 80, True):
        cx = W.ctx(rng, K)
        style = rng.choice(['all', 'all', 'one', 'none'] if not m.large else ['all'])
        cs = []
        for d in m.contests:
            if rng.random() < .7:
                cs.append((d, pcon(d, rng, m.large)))
        rng.shuffle(cs)
        pb = W.R(id='ballot', style=style, contests=[W.R(id=d.id, sels=[W.R(id=i, vote=v, ph=False, writein='') for i, v in vs]) for d, vs in cs])
        a = ['encbal', rng.choice('01'), '0'] + W.enc(W.El, rng.randrange(O.Q)) + W.enc(W.El, rng.randrange(O.Q)) + ['12345'] + W.enc(W.CTX, cx) + W.enc(W.PBAL, pb) + W.enc(W.MAN, m)
        jobs.append((a, ('bal', m, style, cs, cx)))
    for i in range(200 if tier == 'quick' else 2000):
        n = rng.randrange(0, 5) if i % 8 else rng.randrange(5, 70)
        vs = [rng.choice([0, 0, 1, 1, 2, 2**31, 2**32 - 1]) for _ in range(n)]
        exp, el, al, ov, same = rng.choice([n, n, n, n + 1, max(n - 1, 0)]), rng.choice([0, 1, 1, 2, 3, 2**32]), rng.choice([0, 0, 1, 2, 3, 2**32, 2**64 - 1]), rng.random() < .5, rng.random() < .9
        pc = W.R(id='id' if same else 'other', sels=[W.R(id='s%d' % i, vote=v, ph=False, writein='') for i, v in enumerate(vs)])
        r = h.cmd('conplainvalid', *(W.enc(W.S, 'id') + [str(x) for x in (exp, el, al)] + ['1' if ov else '0'] + W.enc(W.PCON, pc)))
        over = sum(1 for v in vs if v >= 1) > el or sum(vs) > (al or el)
        fit = same and n <= exp
        good = r[0] == 'ok' and (r[1] == '0') == (fit and not over) and (r[1] == '1') == (fit and over and ov)
        yield None if good else {'what': 'validity of a plaintext contest', 'votes': vs, 'expected selections': exp, 'elected': el, 'allowed': al, 'overvotes supported': ov, 'id matches': same, 'got': r}
    ans = [r for _, r in batch(h, [x[0] for x in jobs])]
    for (a, j), why in zip(jobs, pmap(lambda x: check_job(x[0], x[1], s, K), [(j, r) for (a, j), r in zip(jobs, ans)])):
        yield {'what': {'sel': 'encrypting a selection', 'con': 'encrypting a contest', 'bal': 'encrypting a ballot'}[j[0]], 'why': why, 'input': ' '.join(a)[:4000]} if why else None
def check_job(j, r, s, K):
    if j[0] == 'sel':
        _, d, p, ph, q, ns, pre = j
        if p.id != d.id or p.vote > 1:
            return None if r[0] == 'throw' else 'vote %d of %s for %s was not refused' % (p.vote, p.id, d.id)
        if r[0] != 'ok':
            return 'answer %s' % r[:2]
        c = W.dec(W.CSEL, iter(r[1:]))
        if (c.id, c.seq, c.ph, c.dh) != (d.id, d.seq, ph, W.sd_hash(d)):
            return 'id, order, placeholder flag or description hash'
        if decrypt(c.ct, s) != p.vote:
            return 'encrypts %s, the vote is %d' % (decrypt(c.ct, s), p.vote)
        if c.nonce is None or (c.ct.pad, c.ct.data) != O.encrypt(p.vote, c.nonce, K):
            return 'nonce is not that of the ciphertext'
        return None if W.sel_valid(c, c.dh, K, q) else 'does not verify'
    if j[0] == 'con':
        _, d, pc, vs, q, m, k = j
        w = None if pc.id != d.id else want_contest(d, vs)
        if w is None:
            return None if r[0] == 'throw' else 'invalid contest %s was not refused' % vs
        if r[0] != 'ok':
            return 'answer %s for votes %s' % (r[:2], vs)
        return check_contest(W.dec(W.CCON, iter(r[1:])), with_phs(d), w, s, K, q)
    _, m, style, cs, cx = j
    try:
        ds = W.contests_for(m, style)
    except ValueError:
        return None if r[0] == 'throw' else 'unknown style was not refused'
    wants = []
    for d in ds:
        vs = [v for x, v in cs if x is d]
        # the selections of the ballot that are not described are not part of it
        wants.append(want_contest(d, [x for x in vs[0] if any(x[0] == t.id for t in d.sels)] if vs else []))
    if any(w is None for w in wants):
        return None if r[0] == 'throw' else 'a ballot with an invalid contest was not refused'
    if r[0] != 'ok':
        return 'answer %s' % r[:2]
    b = W.dec(W.CBAL, iter(r[1:]))
    got = W._sorted(b.contests)
    if [c.id for c in got] != [d.id for d in ds]:
        return 'contests %s where the style has %s' % ([c.id for c in got], [d.id for d in ds])
    mh = b.mh
    base = O.H(E(O.P), E(O.Q), E(O.G), cx.n, cx.k, E(mh))
    q = O.H(E(base), E(cx.c))
    for c, d, w in zip(got, ds, wants):
        why = check_contest(c, with_phs(d), w, s, K, q)
        if why:
            return 'contest %s: %s' % (d.id, why)
