from common import *
import oracle as O
LEVEL = 'proof'
TUS = ['src/electionguard/chaum_pedersen.cpp', 'src/electionguard/nonces.cpp', 'src/electionguard/elgamal.cpp', 'src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST
ASSUME = ['the public key lies in the order-q subgroup', 'precomputed values satisfy their defining relations (C18)']
D = NS + 'DisjunctiveChaumPedersenProof::'
FIELDS_P = ('getProofZeroPad', 'getProofZeroData', 'getProofOnePad', 'getProofOneData')
FIELDS_Q = ('getProofZeroChallenge', 'getProofOneChallenge', 'getChallenge', 'getProofZeroResponse', 'getProofOneResponse')

def make_proof(ctx, h, mode, msg, r, K, q, v):
    if mode == 'fresh':
        f = [g for g in ctx.prog.funcs[D + 'make'] if len(g.params) == 5][0]
        return ctx.eng.call_function(f, None, [msg, h.E(r), h.E(K), h.E(q), Cell(v)])
    if mode == 'seeded':
        f = [g for g in ctx.prog.funcs[D + 'make'] if len(g.params) == 6][0]
        return ctx.eng.call_function(f, None, [msg, h.E(r), h.E(K), h.E(q), h.E(qatom('seed')), Cell(v)])
    pre = h.ttq(r, qatom('u'), qatom('q1'), qatom('q2'), K)
    return ctx.call(D + 'make_with_precomputed', [msg, pre, h.E(q), Cell(v)])

def honest(mode, v):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            r, q, K = qatom('r'), qatom('basehash'), h.K
            msg = h.ct(*h.enc(v, r))
            p = make_proof(ctx, h, mode, msg, r, K, q, v)
            ok = ctx.call(D + 'isValid', [msg, h.E(K), h.E(q)], this=Cell(h.obj(p)))
            return ok, [h.g(p, n) for n in FIELDS_Q], msg
        def post(x):
            ok, f, msg = x
            nz = [z3.Not(zbool(l2.q_eq(t, QTerm({})))) for n, t in zip(FIELDS_Q, f) if n != 'getChallenge']
            yield 'the verifier accepts unless a challenge or response is zero', z3.Implies(z3.And(*nz), zbool(ok))
            yield 'the ciphertext is unchanged', (h.g(msg, 'getPad'), h.g(msg, 'getData')) == h.enc(v, qatom('r'))
        ctx.prove(thunk, post, label='proof of %d (%s): ' % (v, mode))
    return run

def refused(mode):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            m = z3.Int('plaintext')
            eng.fact(z3.And(m >= 2, m < 2**64))
            r, q, K = qatom('r'), qatom('basehash'), h.K
            msg = h.ct(patom('alpha'), patom('beta'))
            return make_proof(ctx, h, mode, msg, r, K, q, m)
        ctx.prove(thunk, lambda r: [('a vote above 1 is refused', False)], lambda e: [], min_ret=0, label='%s: ' % mode)
    return run

def obligations(tier):
    obs = []
    for m in ('fresh', 'seeded', 'precomputed'):
        for v in (0, 1):
            obs.append(Ob('proof of %d (%s) verifies' % (v, m), honest(m, v)))
        obs.append(Ob('vote above 1 refused (%s)' % m, refused(m)))
    return obs

HARNESS = ['main.cpp', 'crypto.cpp']
def hx(x):
    return '%x' % x
def concrete(h, rng, tier, hints):
    q = O.Q
    n = 14 if tier == 'quick' else 250
    rs = [1, 2, q - 1, q - 2, 2**64, 2**255] + [rng.randrange(1, q) for _ in range(n)]
    for i, r in enumerate(rs):
        s = 2 + i if i < 3 else rng.randrange(2, q)
        K, bh, seed = O.pk(s), rng.choice([0, 1, q - 1, rng.randrange(q), rng.randrange(q)]), rng.choice([0, 1, q - 1, rng.randrange(q), rng.randrange(q)])
        for v in (0, 1):
            al, be = O.encrypt(v, r, K)
            base = [hx(al), hx(be), hx(r), hx(K), hx(bh), v]
            uvw = [rng.choice([0, 1, q - 1] + [rng.randrange(q)] * 7) for _ in range(3)]
            for mode, extra in (('djfresh', []), ('djseed', [hx(seed)]), ('djpre', [hx(x) for x in uvw])):
                x = h.cmd(mode, *(base + extra))
                if x[0] == 'ok':
                    f = [int(t, 16) for t in x[2:11]]
                    good = O.dj_valid(al, be, K, bh, f)
                    degenerate = not all(O.inb(f[k]) for k in (4, 5, 7, 8))
                    ok = (x[1] == '11' and good or degenerate) and [int(t, 16) for t in x[11:13]] == [al, be] and (mode != 'djseed' or x[13] == '1')
                else:
                    ok = False
                if not ok:
                    yield {'what': mode, 'vote': v, 'args': base + extra, 'got': x}
                yield None
    for v in (2, 3, 255, 2**32, 2**32 + 1, 2**63, 2**64 - 1):
        al, be = O.encrypt(1, 5, O.pk(7))
        base = [hx(al), hx(be), '5', hx(O.pk(7)), '9', v]
        for mode, extra in (('djfresh', []), ('djseed', ['3']), ('djpre', ['4', '5', '6'])):
            x = h.cmd(mode, *(base + extra))
            if x[0] != 'throw':
                yield {'what': mode + ' accepted a vote above 1', 'vote': v, 'got': x}
            yield None
