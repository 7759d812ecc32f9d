from common import *
import oracle as O
LEVEL = 'proof'
TUS = ['src/electionguard/election.cpp']
TRUST = L2_TRUST
ASSUME = ['hex arguments denote the values of the keys and hashes (conversion: C03)', 'the configuration and the extended data are opaque to the hashes']
C = NS + 'CiphertextElectionContext'

def overloads(ctx):
    return [f for f in ctx.prog.funcs[C + '::make'] if f.body is not None]

def made(sig):
    hexed, cfg, ext = sig
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        fs = [f for f in overloads(ctx) if ('string &' in f.type) == hexed and ('ContextConfiguration' in f.type) == cfg and ('unordered_map' in f.type) == ext]
        if len(fs) != 1:
            raise Unsupported('%d overloads of make(%s)' % (len(fs), sig))
        n, k = z3.Int('n'), z3.Int('quorum')
        K, c, m = patom('key'), qatom('commitment'), qatom('manifest')
        mb, ov = z3.Int('maxBallots'), z3.Bool('allowOvervotes')
        def thunk():
            for v in (n, k, mb):
                eng.fact(z3.And(v >= 0, v < 2**64))
            if hexed:
                a = [Cell(n), Cell(k), Cell(SymStr(('hexP', K))), Cell(SymStr(('hexQ', c))), Cell(SymStr(('hexQ', m)))]
            else:
                a = [Cell(n), Cell(k), h.U(K), h.U(c), h.U(m)]
            if cfg:
                a.append(Cell(UPtr(Ptr(h.make('ContextConfiguration', [Cell(ov), Cell(mb)], ['bool', 'uint64_t'])))))
            if ext:
                a.append(Cell(extmap(eng)))
            r = eng.call_function(fs[0], None, a)
            o = h.obj(r)
            g = {x: h.get(o, x) for x in ('getNumberOfGuardians', 'getQuorum')}
            e = {x: h.g(o, x) for x in ('getElGamalPublicKey', 'getCommitmentHash', 'getManifestHash', 'getCryptoBaseHash', 'getCryptoExtendedBaseHash')}
            conf = h.obj(h.get(o, 'getConfiguration'))
            cf = (h.get(conf, 'getAllowOverVotes'), h.get(conf, 'getMaxNumberOfBallots')) if conf is not None else None
            xd = h.get(o, 'getExtendedData') if ext else None
            num = lambda x: 'null' if eng.branch(x == 0) else ('dec', z3.simplify(x).sexpr())
            base = l2.hash_term((('hexP', patom('Pmod')), ('hexQ', 'order'), ('hexP', G_TERM), num(n), num(k), ('hexQ', m)))
            return g, e, cf, xd, base
        def post(x):
            g, e, cf, xd, base = x
            yield 'number of guardians', eqv(g['getNumberOfGuardians'], n)
            yield 'quorum', eqv(g['getQuorum'], k)
            yield 'public key', e['getElGamalPublicKey'] == K
            yield 'commitment hash', e['getCommitmentHash'] == c
            yield 'manifest hash', e['getManifestHash'] == m
            yield 'base hash covers p, q, g, number of guardians, quorum and manifest hash', e['getCryptoBaseHash'] == base
            yield 'extended base hash covers base hash and commitment hash', e['getCryptoExtendedBaseHash'] == l2.hash_term((('hexQ', base), ('hexQ', c)))
            yield 'a configuration is present', cf is not None
            if cfg and cf is not None:
                yield 'overvote setting', zbool(cf[0]) == ov
                yield 'maximum number of ballots', eqv(cf[1], mb)
            if ext:
                yield 'extended data', mapcontents(xd) == [('k', 'v'), ('k2', 'v2')]
        ctx.prove(thunk, post, label='make(%s%s%s): ' % ('hex' if hexed else 'elements', ', configuration' if cfg else '', ', extended data' if ext else ''))
    return run
def extmap(eng):
    m = MapV(False)
    m.items = [('k', Cell('v')), ('k2', Cell('v2'))]
    return m
def mapcontents(m):
    if hasattr(m, 'get'):
        m = m.get()
    return sorted((k, c.get()) for k, c in m.items)

def obligations(tier):
    return [Ob('make(%s%s%s)' % ('hex strings' if s[0] else 'elements', ', configuration' if s[1] else '', ', extended data' if s[2] else ''), made(s))
            for s in [(h, c, e) for h in (False, True) for c in (False, True) for e in (False, True)]]

HARNESS = ['main.cpp', 'election.cpp']
def concrete(h, rng, tier, hints):
    nums = [0, 1, 2, 3, 5, 9, 10, 255, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1]
    for i in range(160 if tier == 'quick' else 3000):
        hexed, cfg, ext = i & 1, (i >> 1) & 1, (i >> 2) & 1
        n, k = rng.choice(nums + [rng.randrange(2**64)]), rng.choice(nums + [rng.randrange(2**64)])
        K = rng.choice([O.gp(rng.randrange(2, O.Q)), rng.randrange(1, O.P), rng.randrange(1, 2**64), 2, O.P - 1])
        c, m = (rng.choice([0, 1, O.Q - 1, rng.randrange(O.Q), rng.randrange(2**128), rng.randrange(2**248)]) for _ in range(2))
        allow, mx = rng.randrange(2), rng.choice(nums[1:])
        xd = {'a': '1', 'key two': 'x|y'} if ext else {}
        r = h.cmd('ctx', hexed, cfg, ext, n, k, '%x' % K, '%x' % c, '%x' % m, allow, mx)
        base = O.H(O.El(O.P), O.El(O.Q), O.El(O.G), n, k, O.El(m))
        want = [n, k, K, c, m, base, O.H(O.El(base), O.El(c))]
        got = [int(r[1]), int(r[2])] + [int(x, 16) for x in r[3:8]] if r[0] == 'ok' else None
        if got != want:
            yield {'what': 'election context', 'hex': hexed, 'configuration': cfg, 'extended': ext, 'arguments': [n, k, hex(K), hex(c), hex(m)], 'expected': [hex(x) for x in want], 'got': r}
        elif r[8:10] != ([str(allow), str(mx)] if cfg else ['1', '1000000']) or r[10] != ('2:1:x|y'.encode().hex() if ext else '30'):
            yield {'what': 'configuration or extended data', 'configuration': [cfg, allow, mx], 'extended': ext, 'got': r[8:]}
        yield None
