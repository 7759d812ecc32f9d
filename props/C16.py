from common import *
from ballots import *
import itertools
import star
LEVEL = 'proof'
TUS = ['src/electionguard/manifest.cpp']
TRUST = L2_TRUST
ASSUME = ['lists of any length, up to 2^62 elements; obligations of fixed sizes stand beside them',
          'the highest sequence order plus the number of seats is below 2^64', 'contests of a manifest used for lookup have distinct sequence orders']
U64 = 2**64 - 1

def seq(eng, name):
    v = z3.Int(name)
    eng.fact(z3.And(v >= 0, v <= U64))
    return v
def lor(l):
    return z3.Or(*[zbool(x) for x in l]) if l else z3.BoolVal(False)
def present(eng, strs):
    return [l2.neg(eng.str_compare('==', s, '')) for s in strs]
def distinct(eng, strs):
    return [l2.neg(eng.str_compare('==', a, b)) for a, b in itertools.combinations(strs, 2)]
def uniq(eng, strs):
    return zand(*present(eng, strs), *distinct(eng, strs)) if strs else z3.BoolVal(True)
def among(eng, x, strs):
    return lor([eng.str_compare('==', x, s) for s in strs])

def contest(n, with_allowed, free):
    """free: which of the three sets are symbolic (the others are distinct constants)"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            ids = [S('id%d' % i) if 'i' in free else 'id%d' % i for i in range(n)]
            cands = [S('cand%d' % i) if 'c' in free else 'cand%d' % i for i in range(n)]
            sq = [seq(eng, 'seq%d' % i) if 's' in free else i for i in range(n)]
            e = seq(eng, 'elected')
            a = seq(eng, 'allowed') if with_allowed else None
            o = h.cdesc(S('contest'), S('district'), 4, e, S('name'), [h.sdesc(ids[i], cands[i], sq[i]) for i in range(n)], allowed=a)
            got = ctx.call(NS + 'ContestDescription::isValid', [], this=o)
            al = h.get(o, 'getVotesAllowed')
            want = zand(z(e) <= n, True if not with_allowed else z3.Or(z(al) == 0, z(e) <= z(al)), uniq(eng, ids), uniq(eng, cands), *[z(x) != z(y) for x, y in itertools.combinations(sq, 2)])
            return got, want, al, a
        def post(x):
            got, want, al, a = x
            yield 'valid exactly when the seats fit and ids, candidates and sequence orders are present and distinct', zbool(got) == want
            if with_allowed:
                yield 'votes allowed', eqv(al, a)
        ctx.prove(thunk, post, label='contest of %d: ' % n)
    return run

def manifest(ng, styles, np, nc, nk):
    """styles: units per style; every identifier symbolic; contests' own validity by contract"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            eng.contracts[NS + 'ContestDescription::isValid'] = lambda eng, this, a, f: l2.bool_atom('convalid', int(h.get(this, 'getNumberElected')))
            g = [S('gp%d' % i) for i in range(ng)]
            st = [S('style%d' % i) for i in range(len(styles))]
            su = [[S('su%d.%d' % (i, j)) for j in range(k)] for i, k in enumerate(styles)]
            p = [S('party%d' % i) for i in range(np)]
            c = [S('cand%d' % i) for i in range(nc)]
            cp = [S('cp%d' % i) for i in range(nc)]
            k = [S('contest%d' % i) for i in range(nk)]
            kd = [S('district%d' % i) for i in range(nk)]
            ks = [seq(eng, 'seq%d' % i) for i in range(nk)]
            tp = lambda: Cell(Opaque('time', 0))
            m = h.make('Manifest', [Cell(S('scope')), Cell(1), tp(), tp(), h.V([h.gpu(x) for x in g]), h.V([h.party(x) for x in p]), h.V([h.cand(x, y) for x, y in zip(c, cp)]),
                                    h.V([h.cdesc(k[i], kd[i], ks[i], 100 + i, 'name', []) for i in range(nk)]), h.V([h.style(st[i], su[i]) for i in range(len(styles))])],
                       ['const std::string &', 'ElectionType', 'std::chrono::system_clock::time_point', 'std::chrono::system_clock::time_point', 'std::vector<std::unique_ptr<GeopoliticalUnit>>',
                        'std::vector<std::unique_ptr<Party>>', 'std::vector<std::unique_ptr<Candidate>>', 'std::vector<std::unique_ptr<ContestDescription>>', 'std::vector<std::unique_ptr<BallotStyle>>'])
            got = ctx.call(NS + 'Manifest::isValid', [], this=m)
            want = [uniq(eng, g), uniq(eng, st), uniq(eng, p), uniq(eng, c), uniq(eng, k)]
            for us in su:
                want.append(bool(us))
                want += [among(eng, u, g) for u in us]
            want += [z3.Or(zbool(eng.str_compare('==', y, '')), among(eng, y, p)) for y in cp]
            want += [z(x) != z(y) for x, y in itertools.combinations(ks, 2)]
            want += [among(eng, d, g) for d in kd] + present(eng, kd)
            want += [l2.bool_atom('convalid', 100 + i) for i in range(nk)]
            return got, zand(*want)
        def post(x):
            yield 'valid exactly when every id is present and unique, every contest valid and every reference resolves', zbool(x[0]) == x[1]
        ctx.prove(thunk, post, label='manifest: ')
    return run

def contest_any(with_allowed):
    """any number of selections; 'distinct' and 'all present' are predicates of the whole list"""
    def run(ctx):
        eng = ctx.engine(2)
        eng.star_sets = True
        h = B(ctx)
        def thunk():
            ids, cands, sq = S('id'), S('cand'), seq(eng, 'seq')
            e = seq(eng, 'elected')
            a = seq(eng, 'allowed') if with_allowed else None
            sels, root = many(eng, 'selections', h.sdesc(ids, cands, sq), key=sq)
            o = h.cdesc(S('contest'), S('district'), 4, e, S('name'), sels, allowed=a)
            got = ctx.call(NS + 'ContestDescription::isValid', [], this=o)
            al = h.get(o, 'getVotesAllowed')
            return got, zand(z(e) <= root.n, True if not with_allowed else z3.Or(z(al) == 0, z(e) <= z(al)), uniq_any(eng, root, ids), uniq_any(eng, root, cands), star.injective(eng, root, sq))
        def post(x):
            yield 'valid exactly when the seats fit and ids, candidates and sequence orders are present and distinct', zbool(x[0]) == x[1]
        ctx.prove(thunk, post, label='contest of any number of selections: ')
    return run
def uniq_any(eng, root, s):
    return z3.And(star.all_of(eng, root, l2.neg(eng.str_compare('==', s, ''))), star.injective(eng, root, eng.str_rank(s)))
def among_any(eng, x, root, s):
    return star.member(eng, root, True, eng.str_rank(s), eng.str_rank(x))
def manifest_any(parts, present=False):
    """any number of units, parties, candidates, contests and styles (each over any number of units); parts: which of them are of any number, the others are none"""
    def run(ctx):
        eng = ctx.engine(2)
        eng.star_sets = True
        h = B(ctx)
        def thunk():
            eng.contracts[NS + 'ContestDescription::isValid'] = lambda eng, this, a, f: l2.bool_atom('convalid', int(h.get(this, 'getNumberElected')))
            def some(what, name, loc, key=None):
                return many(eng, name, loc, key) if what in parts else ([], None)
            g, gr = some('g', 'units', h.gpu(S('gp')))
            p, pr = some('p', 'parties', h.party(S('party')))
            c, cr = some('c', 'candidates', h.cand(S('cand'), S('cp')))
            ks = seq(eng, 'seq')
            k, kr = some('k', 'contests', h.cdesc(S('contest'), S('district'), ks, 100, 'name', []))
            su, sur = many(eng, 'style units', Cell(S('su')))
            st, sr = some('s', 'styles', h.style(S('style'), su))
            tp = lambda: Cell(Opaque('time', 0))
            m = h.make('Manifest', [Cell(S('scope')), Cell(1), tp(), tp(), h.V(g), h.V(p), h.V(c), h.V(k), h.V(st)],
                       ['const std::string &', 'ElectionType', 'std::chrono::system_clock::time_point', 'std::chrono::system_clock::time_point', 'std::vector<std::unique_ptr<GeopoliticalUnit>>',
                        'std::vector<std::unique_ptr<Party>>', 'std::vector<std::unique_ptr<Candidate>>', 'std::vector<std::unique_ptr<ContestDescription>>', 'std::vector<std::unique_ptr<BallotStyle>>'])
            for r, s in ((gr, 'gp'), (pr, 'party'), (cr, 'cand'), (kr, 'contest'), (sr, 'style')):
                if present and r is not None:
                    c = l2.neg(eng.str_compare('==', S(s), ''))
                    eng.assume(zand(r.n > 0, c, star.all_of(eng, r, c)))
            got = ctx.call(NS + 'Manifest::isValid', [], this=m)
            want = []
            there = lambda x, r, s: among_any(eng, x, r, s) if r is not None else z3.BoolVal(False)
            for r, s in ((gr, 'gp'), (pr, 'party'), (cr, 'cand'), (kr, 'contest'), (sr, 'style')):
                if r is not None:
                    want.append(uniq_any(eng, r, S(s)))
            # about the members at an arbitrary index: holds for all of them where the manifest is valid, fails for the one at fault where it is not
            if sr is not None:
                want.append(z3.Implies(sr.n > 0, z3.And(sur.n > 0, there(S('su'), gr, S('gp')))))
            if cr is not None:
                want.append(z3.Implies(cr.n > 0, z3.Or(zbool(eng.str_compare('==', S('cp'), '')), there(S('cp'), pr, S('party')))))
            if kr is not None:
                want += [star.injective(eng, kr, ks), z3.Implies(kr.n > 0, zand(l2.neg(eng.str_compare('==', S('district'), '')), there(S('district'), gr, S('gp')), l2.bool_atom('convalid', 100)))]
            return got, zand(*want)
        def post(x):
            yield 'valid exactly when every id is present and unique, every contest valid and every reference resolves', zbool(x[0]) == x[1]
        ctx.prove(thunk, post, label='manifest of any size: ')
    return run

def lookup(nk, units, nstyles):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            sq = [seq(eng, 'seq%d' % i) for i in range(nk)]
            for a, b in itertools.combinations(sq, 2):
                eng.assume(a != b)
            d = [S('district%d' % i) for i in range(nk)]
            u = [S('unit%d' % i) for i in range(units)]
            sid = [S('style%d' % i) for i in range(nstyles)]
            # other styles have one unit that is no contest's district
            ask = S('asked')
            cs = [h.cdescp('c%d' % i, d[i], sq[i], 1, 'name', [h.sdesc('s', 'c', 1)], [h.sdesc('p', 'pc', 2)]) for i in range(nk)]
            sts = [h.style(sid[i], u if i == nstyles - 1 else ['elsewhere']) for i in range(nstyles)]
            for x in d:
                eng.assume(l2.neg(eng.str_compare('==', x, 'elsewhere')))
            im = h.imanifest(cs, sts, qatom('mh'))
            st = h.get(im, 'getBallotStyle', ask)
            first = [zand(eng.str_compare('==', sid[i], ask), *[l2.neg(eng.str_compare('==', sid[j], ask)) for j in range(i)]) for i in range(nstyles)]
            try:
                r = h.get(im, 'getContestsFor', ask)
            except CppThrow:
                return None, sq, d, u, first, h.obj(st), sts
            return [h.get(c, 'getObjectId') for c in h.refs(r)], sq, d, u, first, h.obj(st), sts
        def post(x):
            got, sq, d, u, first, st, sts = x
            unknown = z3.Not(lor(first))
            yield 'no style of that id: none returned', zbool(st is None) == unknown
            for i in range(nstyles):
                if st is not None and st is sts[i].get():
                    yield 'the style returned has that id', first[i]
            empty = z3.BoolVal(units == 0)
            if got is None:
                yield 'refused only for an unknown style or one without units', z3.Or(unknown, z3.And(first[-1], empty))
                return
            yield 'an unknown style or one without units is refused', z3.Not(z3.Or(unknown, z3.And(first[-1], empty)))
            idx = [int(g[1:]) for g in got]
            for i in range(nk):
                mine = z3.And(first[-1], among(eng, d[i], u))
                yield 'contest %d is listed at most once' % i, idx.count(i) <= 1
                yield 'contest %d is listed exactly when its district belongs to the style' % i, zbool(i in idx) == mine
            for a, b in zip(idx, idx[1:]):
                yield 'in sequence order', sq[a] < sq[b]
        eng = ctx.eng
        ctx.prove(thunk, post, label='contests of a style: ')
    return run

def lookup_any():
    """any number of contests, of styles, and of units in the style"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            sq = seq(eng, 'seq')
            d, u, sid, ask = S('district'), S('unit'), S('style'), S('asked')
            cs, croot = many(eng, 'contests', h.cdescp('c', d, sq, 1, 'name', [h.sdesc('s', 'c', 1)], [h.sdesc('p', 'pc', 2)]), key=sq)
            units, uroot = many(eng, 'units', Cell(u))
            sty = h.style(sid, units)
            sts, sroot = many(eng, 'styles', sty)
            im = h.imanifest(cs, sts, qatom('mh'))
            try:
                r = h.get(im, 'getContestsFor', ask)
            except CppThrow:
                r = None
            return r, sq, d, u, sid, ask, croot, uroot, sroot
        def post(x):
            r, sq, d, u, sid, ask, croot, uroot, sroot = x
            # the style at an arbitrary index: the one that was found, or any one where none was
            found = zand(sroot.n > 0, eng.str_compare('==', sid, ask))
            if r is None:
                yield 'refused only for an unknown style or one without units', z3.Or(z3.Not(found), uroot.n == 0)
                return
            yield 'an unknown style or one without units is refused', z3.And(found, uroot.n > 0)
            segs = star.segs_of(r.items)
            listed = [(c, rt) for c, rt in segs if c is not None]
            yield 'a contest is listed at most once', len(listed) <= 1
            # of the units, the one at an arbitrary index: that of the contest, or any one where none is
            yield 'a contest is listed exactly when its district belongs to the style', z3.Implies(croot.n > 0, zbool(bool(listed)) == zbool(eng.str_compare('==', d, u)))
            for c, rt in listed:
                yield 'the contest listed is this one', rt is None or rt.base == 'some of contests' or rt.base.startswith('some of contests ')
                yield 'its own sequence order', eqv(h.get(c.get().loc, 'getSequenceOrder'), sq)
                yield 'in sequence order', rt is not None and rt.order == 'ascending'
        ctx.prove(thunk, post, label='contests of a style, any number: ')
    return run

def internal_any():
    """any number of contests, selections and seats"""
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            hs = lambda eng, this, a, f: UPtr(Ptr(h.E(qatom('manifesthash'))))
            eng.contracts[NS + 'Manifest::crypto_hash'] = hs
            eng.contracts[NS + 'Manifest::Impl::crypto_hash'] = hs
            e, al, sq, cq = seq(eng, 'seats'), seq(eng, 'allowed'), seq(eng, 'seq'), seq(eng, 'contest seq')
            eng.assume(al > 0)
            eng.assume(e < 2**62)
            eng.assume(sq <= U64 - e)
            ids, cands = S('s'), S('c')
            nonempty(eng, S('contest'), S('d'), S('n'), ids, cands)
            sels, sroot = many(eng, 'selections', h.sdesc(ids, cands, sq), key=sq, upper=U64 - e)
            # counting to the number of seats is a loop over a list of that length
            seats = star.Root(eng, 'seats', n=e)
            cds, croot = many(eng, 'contests', h.cdesc(S('contest'), S('d'), cq, e, S('n'), sels, allowed=al, var=6), key=cq)
            gps, groot = many(eng, 'units', h.gpu(S('g')))
            prt, proot = many(eng, 'parties', h.party(S('p')))
            cnd, kroot = many(eng, 'candidates', h.cand(S('k'), S('p'), True))
            us, uroot = many(eng, 'style units', Cell(S('u')))
            sts, yroot = many(eng, 'styles', h.style(S('st'), us))
            for r in (croot, groot, proot, kroot, uroot, yroot):
                eng.assume(r.n > 0)
            tp = lambda: Cell(Opaque('time', 0))
            m = h.make('Manifest', [Cell(S('scope')), Cell(1), tp(), tp(), h.V(gps), h.V(prt), h.V(cnd), h.V(cds), h.V(sts)],
                       ['const std::string &', 'ElectionType', 'std::chrono::system_clock::time_point', 'std::chrono::system_clock::time_point', 'std::vector<std::unique_ptr<GeopoliticalUnit>>',
                        'std::vector<std::unique_ptr<Party>>', 'std::vector<std::unique_ptr<Candidate>>', 'std::vector<std::unique_ptr<ContestDescription>>', 'std::vector<std::unique_ptr<BallotStyle>>'])
            im = h.make('InternalManifest', [m], ['const Manifest &'])
            return im, e, al, sq, cq, sroot
        def post(t):
            im, e, al, sq, cq, sroot = t
            loc = lambda x: x.loc
            def one(v, base):
                l = star.segs_of(v.items)
                if len(l) != 1 or l[0][1] is None:
                    raise Unsupported('a list of another shape')
                return l[0][0].get(), l[0][1].base == base
            st = lambda x, g: strnode(h.get(loc(x), g))
            yield 'manifest hash', h.g(im, 'getManifestHash') == qatom('manifesthash')
            x, ok = one(h.get(im, 'getGeopoliticalUnits'), 'units')
            yield 'units are kept', ok and st(x, 'getObjectId') == strnode(S('g'))
            x, ok = one(h.get(im, 'getCandidates'), 'candidates')
            yield 'candidates are kept', ok and st(x, 'getObjectId') == strnode(S('k')) and st(x, 'getPartyId') == strnode(S('p')) and bool(h.get(loc(x), 'isWriteIn'))
            x, ok = one(h.get(im, 'getBallotStyles'), 'styles')
            yield 'styles are kept', ok and st(x, 'getObjectId') == strnode(S('st'))
            u, ok = one(h.get(loc(x), 'getGeopoliticalUnitIds'), 'style units')
            yield 'units of a style are kept', ok and strnode(u) == strnode(S('u'))
            x, ok = one(h.get(im, 'getContests'), 'contests')
            c = loc(x)
            yield 'every contest is kept', ok
            yield 'contest: identifiers', strnode(h.get(c, 'getObjectId')) == strnode(S('contest')) and strnode(h.get(c, 'getElectoralDistrictId')) == strnode(S('d')) and strnode(h.get(c, 'getName')) == strnode(S('n'))
            yield 'contest: sequence order', eqv(h.get(c, 'getSequenceOrder'), cq)
            yield 'contest: seats', eqv(h.get(c, 'getNumberElected'), e)
            yield 'contest: votes allowed', eqv(h.get(c, 'getVotesAllowed'), al)
            yield 'contest: variation', h.get(c, 'getVoteVariation') == 6
            sl = h.get(c, 'getSelections')
            if eng.branch(sroot.n > 0):
                s, ok = one(sl, 'selections')
                yield 'contest: selections kept', ok and strnode(h.get(loc(s), 'getObjectId')) == strnode(S('s')) and strnode(h.get(loc(s), 'getCandidateId')) == strnode(S('c'))
                yield 'contest: their sequence orders', eqv(h.get(loc(s), 'getSequenceOrder'), sq)
            else:
                yield 'contest: no selections added', z(star.length(sl.items)) == 0
            ph = h.get(c, 'getPlaceholders')
            yield 'as many placeholders as seats', z(star.length(ph.items)) == e
            if not eng.branch(e > 0):
                return
            s, ok = one(ph, 'seats')
            yield 'the placeholders of this contest', ok
            q, i = z(h.get(loc(s), 'getSequenceOrder')), z3.Int('idx!seats')
            yield 'a placeholder is above every selection', z3.Implies(sroot.n > 0, q > sq)
            j = z3.Int('other seat')
            yield 'placeholder orders distinct', z3.Implies(z3.And(j >= 0, j < e, j != i), q != z3.substitute(q, (i, j)))
            for g in ('getObjectId', 'getCandidateId'):
                v = h.get(loc(s), g)
                yield 'placeholder ids name the contest', names(v, 'contest')
                tok = [t[1] for t in v.node[1:] if isinstance(t, tuple) and t[0] == 'dec']
                if str(z3.simplify(q)) not in tok and str(i) not in tok:
                    if any(str(i) in t for t in tok):
                        raise Unsupported('placeholder ids made from another number')
                    yield 'placeholder ids distinct', False
        ctx.prove(thunk, post, label='internal manifest, any number: ')
    return run

def internal(nsel, elected):
    def run(ctx):
        eng = ctx.engine(2)
        h = B(ctx)
        def thunk():
            hs = lambda eng, this, a, f: UPtr(Ptr(h.E(qatom('manifesthash'))))
            eng.contracts[NS + 'Manifest::crypto_hash'] = hs
            eng.contracts[NS + 'Manifest::Impl::crypto_hash'] = hs
            cds, info = [], []
            for k, (n, e) in enumerate(zip(nsel, elected)):
                sq = [seq(eng, 'seq%d.%d' % (k, i)) for i in range(n)]
                for v in sq:
                    eng.assume(v <= U64 - e)
                ids = [S('s%d.%d' % (k, i)) for i in range(n)]
                cands = [S('c%d.%d' % (k, i)) for i in range(n)]
                al = seq(eng, 'allowed%d' % k)
                eng.assume(al > 0)
                nonempty(eng, S('contest%d' % k), S('d%d' % k), S('n%d' % k), *ids, *cands)
                info.append((k, n, e, sq, ids, cands, al))
                cds.append(h.cdesc(S('contest%d' % k), S('d%d' % k), 10 * (len(nsel) - k), e, S('n%d' % k), [h.sdesc(*x) for x in zip(ids, cands, sq)], allowed=al, var=6))
            tp = lambda: Cell(Opaque('time', 0))
            m = h.make('Manifest', [Cell(S('scope')), Cell(1), tp(), tp(), h.V([h.gpu(S('g0')), h.gpu(S('g1'))]), h.V([h.party(S('p0'))]), h.V([h.cand(S('k0'), S('p0')), h.cand(S('k1'), '', True)]), h.V(cds), h.V([h.style(S('st0'), [S('g0'), S('g1')]), h.style(S('st1'), [S('g1')])])],
                       ['const std::string &', 'ElectionType', 'std::chrono::system_clock::time_point', 'std::chrono::system_clock::time_point', 'std::vector<std::unique_ptr<GeopoliticalUnit>>',
                        'std::vector<std::unique_ptr<Party>>', 'std::vector<std::unique_ptr<Candidate>>', 'std::vector<std::unique_ptr<ContestDescription>>', 'std::vector<std::unique_ptr<BallotStyle>>'])
            im = h.make('InternalManifest', [m], ['const Manifest &'])
            cs = h.refs(h.get(im, 'getContests'))
            out = []
            for c in cs:
                sel = lambda l: [(h.get(s, 'getObjectId'), h.get(s, 'getCandidateId'), h.get(s, 'getSequenceOrder')) for s in h.refs(l)]
                out.append(dict(id=h.get(c, 'getObjectId'), d=h.get(c, 'getElectoralDistrictId'), seq=h.get(c, 'getSequenceOrder'), var=h.get(c, 'getVoteVariation'), e=h.get(c, 'getNumberElected'), al=h.get(c, 'getVotesAllowed'),
                                name=h.get(c, 'getName'), sels=sel(h.get(c, 'getSelections')), phs=sel(h.get(c, 'getPlaceholders'))))
            rest = dict(gps=[h.get(x, 'getObjectId') for x in h.refs(h.get(im, 'getGeopoliticalUnits'))],
                        cands=[(h.get(x, 'getObjectId'), h.get(x, 'getPartyId'), h.get(x, 'isWriteIn')) for x in h.refs(h.get(im, 'getCandidates'))],
                        styles=[(h.get(x, 'getObjectId'), [c.get() for c in h.get(x, 'getGeopoliticalUnitIds').items]) for x in h.refs(h.get(im, 'getBallotStyles'))],
                        mh=h.g(im, 'getManifestHash'))
            return out, info, rest
        def same(a, b):
            return strnode(a) == strnode(b)
        def post(x):
            out, info, rest = x
            yield 'every contest is kept', len(out) == len(info)
            yield 'manifest hash', rest['mh'] == qatom('manifesthash')
            yield 'units are kept', [strnode(v) for v in rest['gps']] == [strnode(S('g%d' % i)) for i in (0, 1)]
            yield 'candidates are kept', [(strnode(a), strnode(b), bool(w)) for a, b, w in rest['cands']] == [(strnode(S('k0')), strnode(S('p0')), False), (strnode(S('k1')), '', True)]
            yield 'styles are kept', [(strnode(a), [strnode(u) for u in us]) for a, us in rest['styles']] == [(strnode(S('st0')), [strnode(S('g0')), strnode(S('g1'))]), (strnode(S('st1')), [strnode(S('g1'))])]
            for c, (k, n, e, sq, ids, cands, al) in zip(out, reversed(info)):
                yield 'contest %d: identifiers' % k, same(c['id'], S('contest%d' % k)) and same(c['d'], S('d%d' % k)) and same(c['name'], S('n%d' % k))
                yield 'contest %d: sequence order, variation, seats' % k, c['seq'] == 10 * (len(info) - k) and c['var'] == 6 and eqv(c['e'], e)
                yield 'contest %d: votes allowed' % k, eqv(c['al'], al)
                yield 'contest %d: selections kept' % k, len(c['sels']) == n
                # every selection is there with its candidate and order (the getter may list them in sequence order)
                for a, b, q in c['sels']:
                    hit = [i for i in range(n) if same(ids[i], a)]
                    yield 'contest %d: a described selection' % k, len(hit) == 1 and same(cands[hit[0]], b)
                    if hit:
                        yield 'contest %d: its sequence order' % k, eqv(q, sq[hit[0]])
                yield 'contest %d: no selection twice' % k, len(set(strnode(a) for a, _, _ in c['sels'])) == len(c['sels'])
                yield 'contest %d: as many placeholders as seats' % k, len(c['phs']) == e
                for i, (a, b, q) in enumerate(c['phs']):
                    for v in sq:
                        yield 'contest %d: placeholder %d is above every selection' % (k, i), z(q) > v
                    for a2, b2, q2 in c['phs'][:i]:
                        yield 'contest %d: placeholder orders distinct' % k, z(q) != z(q2)
                        yield 'contest %d: placeholder ids distinct' % k, strnode(a) != strnode(a2) and strnode(b) != strnode(b2)
                    yield 'contest %d: placeholder ids name the contest' % k, names(a, 'contest%d' % k) and names(b, 'contest%d' % k)
        ctx.prove(thunk, post, label='internal manifest: ')
    return run
def names(s, c):
    return not isinstance(s, str) and s.node[0] == 'cat' and s.node[1] == ('var', c)

def obligations(tier):
    obs = [Ob('contest of any number of selections%s' % (' with votes allowed' if al else ''), contest_any(al)) for al in (False, True)]
    for parts, text in (('g', 'units'), ('p', 'parties'), ('pc', 'parties and candidates'), ('gk', 'units and contests'), ('gs', 'units and styles over any number of units'),  ('gpcks', 'units, parties, candidates, contests and styles')):
        if len(parts) < 5 or tier != 'quick':
            obs.append(Ob('manifest of any number of ' + text, manifest_any(parts), limit=1500))
    obs.append(Ob('manifest of any number (at least one) of units, parties, candidates, contests and styles with non-empty ids', manifest_any('gpcks', True)))
    obs.append(Ob('contests of a style: any number of contests, styles and units', lookup_any()))
    obs.append(Ob('internal manifest: any number of contests, selections, seats, units, candidates and styles', internal_any()))
    for n, free in ((0, ''), (1, 'ics'), (2, 'ics'), (3, 'i'), (3, 'c'), (3, 's'), (3, 'is')):
        for al in (False, True):
            obs.append(Ob('contest of %d selections%s, %s symbolic' % (n, ' with votes allowed' if al else '', {'': 'nothing', 'ics': 'everything', 'i': 'ids', 'c': 'candidates', 's': 'orders', 'is': 'ids and orders'}[free]), contest(n, al, free), bounded='%d selections' % n))
    for sh in ((0, (), 0, 0, 0), (2, (), 0, 0, 0), (1, (1,), 0, 0, 0), (2, (2,), 0, 0, 0), (1, (1, 1), 0, 0, 0), (1, (0,), 0, 0, 0), (1, (1, 0), 0, 0, 0), (0, (1,), 0, 0, 0), (0, (), 2, 0, 0), (0, (), 1, 2, 0), (0, (), 2, 1, 0), (0, (), 0, 1, 0), (1, (), 0, 0, 2), (2, (), 0, 0, 1), (0, (), 0, 0, 1), (1, (1,), 1, 1, 1), (3, (), 0, 0, 0), (0, (), 3, 0, 0), (0, (), 0, 3, 0), (1, (), 0, 0, 3)):
        obs.append(Ob('manifest of %d units, styles over %s units, %d parties, %d candidates, %d contests' % sh, manifest(*sh), bounded='sizes as named'))
    for nk, u, s in ((0, 1, 1), (1, 1, 1), (1, 2, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (1, 0, 1), (1, 1, 2), (2, 1, 2), (3, 2, 1), (1, 1, 3)):
        obs.append(Ob('contests of a style: %d contests, %d units, %d styles' % (nk, u, s), lookup(nk, u, s), bounded='sizes as named'))
    for ns, el in (((1,), (1,)), ((2,), (1,)), ((2,), (0,)), ((3,), (2,)), ((0,), (1,)), ((2, 1), (2, 1)), ((1, 2), (0, 3))):
        obs.append(Ob('internal manifest, selections %s, seats %s' % (list(ns), list(el)), internal(ns, el), bounded='sizes as named'))
    return obs

HARNESS = ['main.cpp', 'ballot.cpp']
import wire as W
import oracle as O
ORD = [0, 1, 2, 3, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 1, 2**63, 2**63 + 1, U64 - 20]
WORDS = ['a', 'b', 'ab', 'a-1', 'A', 'a ', 'x' * 40, 'caf\xe9', '0']
def some(rng, n, p_dup=.25, p_empty=.1):
    """n identifiers, now and then with a repeated or empty one"""
    l = rng.sample(WORDS + ['w%d' % i for i in range(n + 12)], n)
    if n > 1 and rng.random() < p_dup:
        i, j = rng.sample(range(n), 2)
        l[i] = l[j]
    if n and rng.random() < p_empty:
        l[rng.randrange(n)] = ''
    return l
def orders(rng, n, p_dup=.2, top=U64 - 20):
    l = rng.sample(ORD, min(n, 6)) if rng.random() < .5 else rng.sample(range(2 * n + 3), n)
    while len(l) < n:
        l.append(100 + len(l))
    l = [min(x, top) for x in l]
    if n > 1 and rng.random() < p_dup:
        i, j = rng.sample(range(n), 2)
        l[i] = l[j]
    return l
LARGE = [9, 12, 17, 21, 33, 48, 65]
def mk_contest(rng, i, district, clean, big=False):
    n = rng.choice(LARGE if big else [0, 1, 2, 2, 3, 4, 5, 7])
    d = 0 if clean else .15
    ids, cands, sq = some(rng, n, d, d / 2), some(rng, n, d, d / 2), orders(rng, n, d)
    e = rng.choice([0, 1, 1, n, n + 1, max(n - 1, 0)] + ([2**32, 2**32 + 1, 2**63] if not clean else []))
    if clean:
        e = min(e, n)
    al = rng.choice([0, e, e, e + 1, max(e - 1, 0), 1, n, 2**32, U64])
    if clean and al and al < e:
        al = e
    return W.R(id='contest%d' % i, district=district, seq=i, var=rng.randrange(13), elected=e, allowed=al, name='n%d' % i, title=None, subtitle=None,
               sels=[W.R(id=a, cand=b, seq=c) for a, b, c in zip(ids, cands, sq)], parties=rng.choice([[], ['p'], ['p', 'q']]))
def mk_man(rng, clean, big=False):
    # big: one of the lists is long
    big = rng.choice('gpkcsu') if big else ''
    size = lambda what, l: rng.choice(LARGE if big == what else l)
    d = 0 if clean else .08
    gp = some(rng, size('g', [1, 2, 2, 3, 4]), d, d / 2)
    pt = some(rng, size('p', [0, 1, 2, 3]), d, d / 2)
    nk = size('k', [0, 1, 2, 3, 4])
    wrong = lambda: not clean and rng.random() < .06
    pick = lambda l: rng.choice(['nowhere', '', l[0] + 'x' if l else 'y']) if wrong() or not l else rng.choice(l)
    ks = [mk_contest(rng, i, pick(gp), clean or rng.random() < .8) for i in range(nk)]
    for c, s, i in zip(ks, orders(rng, nk, d), some(rng, nk, d, d / 2)):
        c.seq, c.id = s, i
    cs = [W.R(id=i, name=None, party='' if rng.random() < .4 or not pt else pick(pt), image='', writein=rng.random() < .2) for i in some(rng, size('c', [0, 1, 2, 3, 5]), d, d / 2)]
    st = [W.R(id=i, gps=[pick(gp) for _ in range(size('u', [1, 1, 2, 3]) if not wrong() else 0)], parties=rng.choice([[], ['p']]), image='') for i in some(rng, size('s', [0, 1, 2, 3]), d, d / 2)]
    return W.R(scope='scope', type=1, start=1600000000, end=1600086400, gps=[W.R(id=g, name='u', type=15, contact=None) for g in gp], parties=[W.R(id=x, name=None, abbr='', color='', logo='') for x in pt],
               cands=cs, contests=ks, styles=st, name=None, contact=None)
def near(rng, m):
    """one reference or identifier of a valid manifest broken"""
    import copy
    m = copy.deepcopy(m)
    fix = []
    for l in (m.gps, m.parties, m.cands, m.contests, m.styles):
        for x in l:
            fix.append((x, 'id', ''))
            for y in l:
                if y is not x:
                    fix.append((x, 'id', y.id))
    for c in m.contests:
        fix += [(c, 'district', ''), (c, 'district', 'nowhere'), (c, 'elected', len(c.sels) + 1), (c, 'elected', c.elected + 2**32)]
        fix += [(c, 'seq', k.seq) for k in m.contests if k is not c]
        if c.elected > 1:
            fix.append((c, 'allowed', c.elected - 1))
        for s in c.sels:
            fix += [(s, 'id', ''), (s, 'cand', '')] + [(s, f, t[f]) for t in c.sels if t is not s for f in ('id', 'cand', 'seq')]
    for c in m.cands:
        fix.append((c, 'party', 'nobody'))
    for s in m.styles:
        fix.append((s, 'gps', []))
        fix += [(s, 'gps', s.gps + ['nowhere']), (s, 'gps', ['nowhere'] + s.gps)]
    if fix:
        x, f, v = rng.choice(fix)
        x[f] = v
    return m
def check_internal(m, r):
    if r[0] != 'ok':
        return 'answer %s' % r[:2]
    im = W.dec(W.IMAN, iter(r[1:]))
    if len(im.contests) != len(m.contests):
        return '%d contests of %d kept' % (len(im.contests), len(m.contests))
    if W.diff(im.gps, m.gps) or W.diff(im.cands, m.cands) or W.diff(W.project(W.L(W.STYLE), im.styles), m.styles):
        return 'units, candidates or styles differ'
    left = list(m.contests)
    for c in im.contests:
        why = check_contest(left, c)
        if why:
            return why
def check_contest(left, c):
    for k in left:
        w = W.project(W.rec(id=W.S, district=W.S, seq=W.U, var=W.U, elected=W.U, name=W.S, title=W.TEXT, subtitle=W.TEXT), k)
        if not W.diff(w, c) and c.allowed == (k.allowed or c.allowed) and not W.diff(W._sorted(k.sels), W._sorted(c.sels)):
            left.remove(k)
            break
    else:
        return 'contest %s is not a described one (or its contents changed)' % c.id
    if len(c.phs) != c.elected:
        return 'contest %s: %d placeholders for %d seats' % (c.id, len(c.phs), c.elected)
    top = max([s.seq for s in c.sels], default=-1)
    if any(s.seq <= top for s in c.phs):
        return 'contest %s: a placeholder is not above every selection' % c.id
    if len(set(s.seq for s in c.phs)) != len(c.phs) or len(set(s.id for s in c.phs)) != len(c.phs) or set(s.id for s in c.phs) & set(s.id for s in c.sels):
        return 'contest %s: placeholders repeat' % c.id
def small_seats(m):
    return all(c.elected <= 70 for c in m.contests)
def concrete(h, rng, tier, hints):
    n = 1 if tier == 'quick' else 8
    for i in range(500 * n):
        c = mk_contest(rng, 0, 'gp', i % 2 == 0, i % 10 > 7)
        if i % 2 == 0:
            c = near(rng, W.R(gps=[], parties=[], cands=[], styles=[], contests=[c])).contests[0] if i % 4 else c
        r = h.cmd('conok', *W.enc(W.CD, c))
        w = W.cd_valid(c)
        yield None if r[0] == 'ok' and r[1] == ('1' if w else '0') else {'what': 'contest validity', 'contest': c, 'expected': w, 'got': r[:2]}
    for i in range(500 * n):
        m = mk_man(rng, i % 2 == 0, i % 10 > 7)
        if i % 4 == 2:
            m = near(rng, m)
        r = h.cmd('manok', *W.enc(W.MAN, m))
        w = W.man_valid(m)
        yield None if r[0] == 'ok' and r[1] == ('1' if w else '0') else {'what': 'manifest validity', 'manifest': m, 'expected': w, 'got': r[:2]}
        # the internal manifest is defined for any manifest, valid or not
        if not small_seats(m):
            continue
        why = check_internal(m, h.cmd('internal', *W.enc(W.MAN, m)))
        yield {'what': 'internal manifest', 'why': why, 'manifest': m} if why else None
        if len(set(c.seq for c in m.contests)) != len(m.contests):
            continue
        for s in [s.id for s in m.styles] + ['nostyle']:
            r = h.cmd('contestsfor', *(W.enc(W.S, s) + W.enc(W.MAN, m)))
            try:
                w = W.contests_for(m, s)
            except ValueError:
                yield None if r[0] == 'throw' else {'what': 'contests of an unknown style or one without units', 'style': s, 'manifest': m, 'got': r[:2]}
                continue
            why = 'answer %s' % r[:2]
            if r[0] == 'ok':
                it = iter(r[1:])
                got = W.dec(W.L(W.CDP), it)
                why = None
                if [(c.id, c.seq, c.district) for c in got] != [(c.id, c.seq, c.district) for c in w]:
                    why = 'contests %s where %s are expected' % ([c.id for c in got], [c.id for c in w])
                elif next(it) != 'x' + s.encode('latin1').hex():
                    why = 'another style'
            yield {'what': 'contests of a style', 'why': why, 'style': s, 'manifest': m} if why else None
