from common import *
import oracle as O
from C05 import FIELDS_P, FIELDS_Q, D
LEVEL = 'proof'
TUS = ['src/electionguard/chaum_pedersen.cpp', 'src/electionguard/nonces.cpp', 'src/electionguard/elgamal.cpp', 'src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST
ASSUME = ['proof components are well-formed elements (at most the modulus)']

def spec(al, be, K, q, f):
    """the acceptance condition of the 0-or-1 proof"""
    a0, b0, a1, b1, c0, c1, c, v0, v1 = f
    inb = lambda t: l2.neg(l2.q_eq(t, QTerm({})))
    res = lambda t: True if t.order_q() else l2.bool_atom('vres', t)
    g = lambda e: ppow(G_TERM, e)
    item = lambda t: ('hexQ' if isinstance(t, QTerm) else 'hexP', t)
    hh = l2.hash_term(tuple(item(t) for t in (q, al, be, a0, b0, a1, b1)))
    out = {'alpha residue': res(al), 'beta residue': res(be), 'a0 residue': res(a0), 'b0 residue': res(b0), 'a1 residue': res(a1), 'b1 residue': res(b1),
           'c0 in bounds': inb(c0), 'c1 in bounds': inb(c1), 'v0 in bounds': inb(v0), 'v1 in bounds': inb(v1),
           'challenges sum to c': l2.q_eq(c, c0 + c1), 'c is the hash': l2.q_eq(c, hh),
           'g^v0 = a0 alpha^c0': l2.p_eq(g(v0), a0 * ppow(al, c0)), 'g^v1 = a1 alpha^c1': l2.p_eq(g(v1), a1 * ppow(al, c1)),
           'K^v0 = b0 beta^c0': l2.p_eq(ppow(K, v0), b0 * ppow(be, c0)), 'g^c1 K^v1 = b1 beta^c1': l2.p_eq(g(c1) * ppow(K, v1), b1 * ppow(be, c1))}
    return out

def verifier(orderq):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        nm = ('a0', 'b0', 'a1', 'b1', 'c0', 'c1', 'c', 'v0', 'v1')
        st = {}
        def thunk():
            al, be = patom('alpha', order_q=orderq), patom('beta', order_q=orderq)
            f = [patom('x' + n, order_q=orderq) for n in nm[:4]] + [qatom('x' + n) for n in nm[4:]]
            msg = h.ct(al, be)
            p = h.make('DisjunctiveChaumPedersenProof', [h.U(t) for t in f], ['std::unique_ptr<ElementModP>'] * 4 + ['std::unique_ptr<ElementModQ>'] * 5)
            st.update(f=f, al=al, be=be, p=p, msg=msg)
            return ctx.call(D + 'isValid', [msg, h.E(h.K), h.E(qatom('basehash'))], this=p)
        def post(r):
            sp = spec(st['al'], st['be'], h.K, qatom('basehash'), st['f'])
            for n, c in sp.items():
                yield 'accepted only if %s' % n, z3.Implies(zbool(r), zbool(c))
            yield 'accepted whenever all checks pass', z3.Implies(zand(*sp.values()), zbool(r))
            yield 'proof unchanged', [h.g(st['p'], n) for n in FIELDS_P + FIELDS_Q] == st['f']
            yield 'ciphertext unchanged', (h.g(st['msg'], 'getPad'), h.g(st['msg'], 'getData')) == (st['al'], st['be'])
        ctx.prove(thunk, post, label='isValid: ')
    return run

def obligations(tier):
    return [Ob('verifier accepts exactly (arbitrary components)', verifier(False))]

HARNESS = ['main.cpp', 'crypto.cpp']
def concrete(h, rng, tier, hints):
    for _ in range(1 if tier == 'quick' else 20):
        for what, al, be, K, q, f in O.dj_adversarial(rng):
            exp = O.dj_valid(al, be, K, q, f)
            a = ['%x' % x for x in [al, be, K, q] + list(f)]
            r = h.cmd('djvalid', *a)
            if r[0] != 'ok' or r[1] != ('1' if exp else '0') or [int(x, 16) for x in r[2:]] != list(f) + [al, be]:
                yield {'what': 'isValid on a proof whose failing check is: ' + what, 'expected': exp, 'args': a, 'got': r[:2]}
            yield None
