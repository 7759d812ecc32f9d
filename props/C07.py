from common import *
import oracle as O
LEVEL = 'proof'
TUS = ['src/electionguard/chaum_pedersen.cpp', 'src/electionguard/nonces.cpp', 'src/electionguard/elgamal.cpp', 'src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST
ASSUME = ['the public key lies in the order-q subgroup', 'a precomputed triple satisfies its defining relation for the same key (C18)']
D = NS + 'ConstantChaumPedersenProof::'
FIELDS = ('getPad', 'getData', 'getChallenge', 'getResponse')

def honest(pre):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def triple(eng, this, args, f):
            return h.triple(qatom('t')).get() if pre else UPtr(NULL)
        eng.contracts[NS + 'PrecomputeBufferContext::getTriple'] = triple
        L = z3.Int('L')
        def thunk():
            eng.fact(z3.And(L >= 0, L < 2**64))
            r, q, K = qatom('r'), qatom('basehash'), h.K
            msg = h.ct(*h.enc(l2.qint(L), r))
            p = ctx.call(D + 'make', [msg, h.E(r), h.E(K), h.E(qatom('seed')), h.E(q), Cell(L)])
            ok = ctx.call(D + 'isValid', [msg, h.E(K), h.E(q)], this=Cell(h.obj(p)))
            return ok, [h.g(p, n) for n in FIELDS], h.get(p, 'getConstant')
        def post(x):
            ok, f, k = x
            nz = [z3.Not(zbool(l2.q_eq(t, QTerm({})))) for t in f[2:]]
            yield 'the verifier accepts unless challenge or response is zero', z3.Implies(z3.And(*nz), zbool(ok))
            yield 'the constant is recorded', eqv(k, L)
        ctx.prove(thunk, post, label='constant proof%s: ' % (' (precomputed triple)' if pre else ''))
    return run

def obligations(tier):
    return [Ob('constant proof verifies', honest(False)), Ob('constant proof from a precomputed triple verifies', honest(True))]

HARNESS = ['main.cpp', 'crypto.cpp']
def concrete(h, rng, tier, hints):
    q = O.Q
    n = 14 if tier == 'quick' else 250
    Ls = [0, 1, 2, 3, 10, 255, 2**16, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1] + [rng.randrange(2**64) for _ in range(n)]
    for i, L in enumerate(Ls):
        r = rng.choice([1, 2, q - 1] + [rng.randrange(1, q)] * 5)
        K = O.pk(rng.choice([2, q - 1, rng.randrange(2, q)]))
        bh, seed = rng.choice([0, 1, q - 1, rng.randrange(q)]), rng.choice([0, 1, q - 1, rng.randrange(q)])
        al, be = O.encrypt(L, r, K)
        for pre in ([], ['pre']):
            a = ['%x' % al, '%x' % be, '%x' % r, '%x' % K, '%x' % seed, '%x' % bh, L] + pre
            x = h.cmd('cpmake', *a)
            ok = False
            if x[0] == 'ok':
                f = [int(t, 16) for t in x[2:6]] + [int(x[6])]
                degenerate = not (O.inb(f[2]) and O.inb(f[3]))
                ok = f[4] == L and (degenerate or x[1] == '1' and O.cp_valid(al, be, K, bh, f)) and [int(t, 16) for t in x[7:9]] == [al, be]
            if not ok:
                yield {'what': 'constant proof' + (' from a precomputed triple' if pre else ''), 'constant': L, 'args': a, 'got': x}
            yield None
