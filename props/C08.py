from common import *
import oracle as O
from C07 import FIELDS, D
LEVEL = 'proof'
TUS = ['src/electionguard/chaum_pedersen.cpp', 'src/electionguard/nonces.cpp', 'src/electionguard/elgamal.cpp', 'src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST
ASSUME = ['proof components are well-formed elements (at most the modulus)']

def spec(al, be, K, q, f, L):
    a, b, c, v = f
    inb = lambda t: l2.neg(l2.q_eq(t, QTerm({})))
    res = lambda t: True if t.order_q() else l2.bool_atom('vres', t)
    item = lambda t: ('hexQ' if isinstance(t, QTerm) else 'hexP', t)
    hh = l2.hash_term(tuple(item(t) for t in (q, al, be, a, b)))
    return {'alpha residue': res(al), 'beta residue': res(be), 'a residue': res(a), 'b residue': res(b), 'c in bounds': inb(c), 'v in bounds': inb(v),
            'c is the hash': l2.q_eq(c, hh), 'g^v = a alpha^c': l2.p_eq(ppow(G_TERM, v), a * ppow(al, c)),
            'g^(L c) K^v = b beta^c': l2.p_eq(ppow(G_TERM, c * L) * ppow(K, v), b * ppow(be, c))}

def verifier(ctx):
    eng = ctx.engine(2)
    h = L2(ctx)
    st = {}
    L = z3.Int('L')
    def thunk():
        eng.fact(z3.And(L >= 0, L < 2**64))
        al, be = patom('alpha'), patom('beta')
        f = [patom('xa'), patom('xb'), qatom('xc'), qatom('xv')]
        msg = h.ct(al, be)
        p = h.make('ConstantChaumPedersenProof', [h.U(t) for t in f] + [Cell(L)], ['std::unique_ptr<ElementModP>'] * 2 + ['std::unique_ptr<ElementModQ>'] * 2 + ['uint64_t'])
        st.update(f=f, al=al, be=be, p=p, msg=msg)
        return ctx.call(D + 'isValid', [msg, h.E(h.K), h.E(qatom('basehash'))], this=p)
    def post(r):
        sp = spec(st['al'], st['be'], h.K, qatom('basehash'), st['f'], l2.qint(L))
        for n, c in sp.items():
            yield 'accepted only if %s' % n, z3.Implies(zbool(r), zbool(c))
        yield 'accepted whenever all checks pass', z3.Implies(zand(*sp.values()), zbool(r))
        yield 'proof unchanged', [h.g(st['p'], n) for n in FIELDS] == st['f'] and z3.is_true(z3.simplify(z(h.get(st['p'], 'getConstant')) == L))
        yield 'ciphertext unchanged', (h.g(st['msg'], 'getPad'), h.g(st['msg'], 'getData')) == (st['al'], st['be'])
    ctx.prove(thunk, post, label='isValid: ')

def obligations(tier):
    return [Ob('verifier accepts exactly (arbitrary components)', verifier)]

HARNESS = ['main.cpp', 'crypto.cpp']
def concrete(h, rng, tier, hints):
    for _ in range(1 if tier == 'quick' else 20):
        for what, al, be, K, q, f in O.cp_adversarial(rng):
            exp = O.cp_valid(al, be, K, q, f)
            a = ['%x' % x for x in [al, be, K, q] + list(f[:4])] + [f[4]]
            r = h.cmd('cpvalid', *a)
            if r[0] != 'ok' or r[1] != ('1' if exp else '0') or [int(x, 16) for x in r[2:6]] + [int(r[6])] != list(f) or [int(x, 16) for x in r[7:9]] != [al, be]:
                yield {'what': 'isValid on a proof whose failing check is: ' + what, 'expected': exp, 'args': a, 'got': r[:2]}
            yield None
