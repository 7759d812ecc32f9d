"""Independent reference semantics (Python integers, hashlib) for replaying counterexamples on the real library."""
import hashlib, hmac as _hmac
from consts import P, Q, G, R

def hexu(n, minlen=0):
    """upper-case hex without leading zero bytes"""
    s = '%X' % n
    if len(s) % 2:
        s = '0' + s
    return s
class El(int):
    """group element as hash item"""
class Hashable:
    def __init__(self, h):
        self.h = h
def enc(x):
    if x is None:
        return 'null'
    if isinstance(x, El):
        return hexu(int(x))
    if isinstance(x, Hashable):
        return hexu(x.h)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return str(x) if x else 'null'
    if isinstance(x, bytes):
        s = x.lstrip(b'\0')
        return s.hex().upper() if s else '00'
    if isinstance(x, str):
        return x if x else 'null'
    if isinstance(x, (list, tuple)):
        return hexu(H(*x)) if x else 'null'
    raise TypeError(x)
def H(*items):
    b = b'|'
    for x in items:
        e = enc(x)
        b += (e if isinstance(e, bytes) else e.encode('latin1')) + b'|'
    if not items:
        b += b'null|'
    return int.from_bytes(hashlib.sha256(b).digest(), 'big') % Q
def nonce(seed, i, header=None):
    return H(El(seed), i) if header is None else H(El(seed), i, header)
def nonces_seed(seed, *headers):
    return H(El(seed), *headers) if headers else seed
def hmac(key, msg):
    return _hmac.new(key, msg, hashlib.sha256).digest()

def limb_patterns(n):
    """values whose 64-bit limbs are extreme"""
    F = (1 << 64) - 1
    out = []
    for i in range(n):
        for x in (1, F, 1 << 63):
            out.append(x << (64 * i))
    for k in range(n + 1):
        out.append((1 << (64 * k)) - 1)
        out.append(((1 << (64 * n)) - 1) ^ ((1 << (64 * k)) - 1))
    return out

def qvals(rng, hi=Q, n=20):
    v = [0, 1, 2, 3, 187, 188, 189, 190, Q - 190, Q - 189, Q - 188, Q - 2, Q - 1, Q, (Q - 1) // 2, (Q + 1) // 2, 2**255, 2**255 - 1]
    v += limb_patterns(4)
    v += [rng.getrandbits(256) for _ in range(n)]
    v += [rng.getrandbits(rng.randrange(1, 257)) for _ in range(n)]
    return sorted(set(x for x in v if 0 <= x <= hi))
C4096 = 2**4096 - P
def pvals(rng, hi=P - 1, n=10):
    v = [0, 1, 2, 3, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2, 2**4095, 2**4095 - 1, G, R, C4096, C4096 - 1, C4096 + 1, P - C4096, Q, Q + 1, Q - 1, 2**256, 2**512 - 1, 2**512, 2**512 + 1]
    v += limb_patterns(64)[::7]
    v += [rng.getrandbits(4096) for _ in range(n)]
    v += [rng.getrandbits(rng.randrange(1, 4097)) for _ in range(n)]
    return sorted(set(x for x in v if 0 <= x <= hi))

# ---- ElGamal and Chaum-Pedersen reference semantics
def inb(x):
    return 0 < x < Q
_res = {}
def residue(x):
    if x not in _res:
        _res[x] = 0 < x < P and pow(x, Q, P) == 1
    return _res[x]
def gp(e):
    return pow(G, e, P)
def pk(s):
    return pow(G, s, P)
def encrypt(m, r, K):
    return gp(r), gp(m) * pow(K, r, P) % P
def dj_valid(al, be, K, q, f):
    a0, b0, a1, b1, c0, c1, c, v0, v1 = f
    return (all(residue(x) for x in (al, be, a0, b0, a1, b1)) and all(inb(x) for x in (c0, c1, v0, v1)) and c % Q == c and (c0 + c1) % Q == c
            and c == H(*[El(x) for x in (q, al, be, a0, b0, a1, b1)])
            and gp(v0) == a0 * pow(al, c0, P) % P and gp(v1) == a1 * pow(al, c1, P) % P
            and pow(K, v0, P) == b0 * pow(be, c0, P) % P and gp(c1) * pow(K, v1, P) % P == b1 * pow(be, c1, P) % P)
def cp_valid(al, be, K, q, f):
    a, b, c, v, L = f
    return (all(residue(x) for x in (al, be, a, b)) and inb(c) and inb(v) and c == H(*[El(x) for x in (q, al, be, a, b)])
            and gp(v) == a * pow(al, c, P) % P and pow(gp(L), c, P) * pow(K, v, P) % P == b * pow(be, c, P) % P)
def inv(x):
    return pow(x, -1, P)
def dj_proof(rng, v, r, K, q, al, be, tweak=None, c0=None, c1=None, v0=None, v1=None):
    """a proof made by the reference; tweak maps component name to a factor applied before the challenge is computed"""
    tweak = tweak or {}
    R_ = lambda: rng.randrange(1, Q)
    u = R_()
    if v == 0:
        c1 = R_() if c1 is None else c1
        v1 = R_() if v1 is None else v1
        a0, b0 = gp(u), pow(K, u, P)
        a1, b1 = gp(v1) * inv(pow(al, c1, P)) % P, gp(c1) * pow(K, v1, P) * inv(pow(be, c1, P)) % P
    else:
        c0 = R_() if c0 is None else c0
        v0 = R_() if v0 is None else v0
        a0, b0 = gp(v0) * inv(pow(al, c0, P)) % P, pow(K, v0, P) * inv(pow(be, c0, P)) % P
        a1, b1 = gp(u), pow(K, u, P)
    a0, b0, a1, b1 = [x * tweak.get(n, 1) % P for n, x in zip(('a0', 'b0', 'a1', 'b1'), (a0, b0, a1, b1))]
    c = H(*[El(x) for x in (q, al, be, a0, b0, a1, b1)])
    if v == 0:
        c0 = (c - c1) % Q
        v0 = (u + c0 * r) % Q
    else:
        c1 = (c - c0) % Q
        v1 = (u + c1 * r) % Q
    return [a0, b0, a1, b1, c0, c1, c, v0, v1]
def cp_proof(rng, L, r, K, q, al, be, u=None, tweak=None):
    tweak = tweak or {}
    u = rng.randrange(1, Q) if u is None else u
    a, b = gp(u) * tweak.get('a', 1) % P, pow(K, u, P) * tweak.get('b', 1) % P
    c = H(*[El(x) for x in (q, al, be, a, b)])
    return [a, b, c, (u + c * r) % Q, L]
def dj_adversarial(rng):
    """(what fails, alpha, beta, K, q, proof fields): proofs in which exactly one check of the verifier fails, for each check"""
    s, r, q = rng.randrange(2, Q), rng.randrange(1, Q), rng.randrange(1, Q)
    K = pk(s)
    X = gp(rng.randrange(1, Q))
    for v in (0, 1):
        al, be = encrypt(v, r, K)
        f = dj_proof(rng, v, r, K, q, al, be)
        yield 'nothing', al, be, K, q, f
        for n in ('a0', 'b0', 'a1', 'b1'):
            yield 'equation of ' + n, al, be, K, q, dj_proof(rng, v, r, K, q, al, be, tweak={n: X})
        # challenge sum: both branches simulated with unrelated challenges
        c0, c1, v0, v1 = [rng.randrange(1, Q) for _ in range(4)]
        a0, b0 = gp(v0) * inv(pow(al, c0, P)) % P, pow(K, v0, P) * inv(pow(be, c0, P)) % P
        a1, b1 = gp(v1) * inv(pow(al, c1, P)) % P, gp(c1) * pow(K, v1, P) * inv(pow(be, c1, P)) % P
        hh = H(*[El(x) for x in (q, al, be, a0, b0, a1, b1)])
        yield 'challenge sum', al, be, K, q, [a0, b0, a1, b1, c0, c1, hh, v0, v1]
        yield 'challenge hash', al, be, K, q, [a0, b0, a1, b1, c0, c1, (c0 + c1) % Q, v0, v1]
        # hash binds every input: same proof, other statement parts hashed
        for k in range(7):
            it = [q, al, be, a0, b0, a1, b1]
            it2 = it[:k] + it[k + 1:]
            c = H(*[El(x) for x in it2])
            c1_ = (c - c0) % Q
            a1_, b1_ = gp(v1) * inv(pow(al, c1_, P)) % P, gp(c1_) * pow(K, v1, P) * inv(pow(be, c1_, P)) % P
            if k < 5:
                yield 'hash input %d' % k, al, be, K, q, [a0, b0, a1_, b1_, c0, c1_, H(*[El(x) for i, x in enumerate([q, al, be, a0, b0, a1_, b1_]) if i != k]), v0, v1]
        if v == 0:
            for z in (0, Q):
                yield 'c1 in bounds', al, be, K, q, fix(dj_proof(rng, v, r, K, q, al, be, c1=0), 5, z)
                yield 'v1 in bounds', al, be, K, q, fix(dj_proof(rng, v, r, K, q, al, be, v1=0), 8, z)
        else:
            for z in (0, Q):
                yield 'c0 in bounds', al, be, K, q, fix(dj_proof(rng, v, r, K, q, al, be, c0=0), 4, z)
                yield 'v0 in bounds', al, be, K, q, fix(dj_proof(rng, v, r, K, q, al, be, v0=0), 7, z)
        # non-residue ciphertext parts that still satisfy the equations: negate with even challenges
        for which in ('alpha', 'beta', 'both'):
            a2 = P - al if which != 'beta' else al
            b2 = P - be if which != 'alpha' else be
            for _ in range(40):
                f = dj_proof(rng, v, r, K, q, a2, b2, **({'c1': 2 * rng.randrange(1, Q // 2)} if v == 0 else {'c0': 2 * rng.randrange(1, Q // 2)}))
                if f[4] % 2 == 0 and f[5] % 2 == 0:
                    break
            yield which + ' residue', a2, b2, K, q, f
        # non-residue commitments with odd challenges
        for which in ('alpha', 'beta'):
            a2 = P - al if which == 'alpha' else al
            b2 = P - be if which == 'beta' else be
            n = ('a0', 'a1') if which == 'alpha' else ('b0', 'b1')
            f = None
            for _ in range(40):
                tw = {n[v]: P - 1}
                f = dj_proof(rng, v, r, K, q, a2, b2, tweak=tw, **({'c1': 2 * rng.randrange(1, Q // 2)} if v == 0 else {'c0': 2 * rng.randrange(1, Q // 2)}))
                if f[5 if v else 4] % 2 == 1:
                    break
            yield which + ' and commitment residue', a2, b2, K, q, f
        # wrong statement
        f = dj_proof(rng, v, r, K, q, al, be)
        yield 'other key', al, be, pk(rng.randrange(2, Q)), q, f
        yield 'other base hash', al, be, K, (q + 1) % Q, f
        for k in range(9):
            g = list(f)
            g[k] = g[k] * X % P if k < 4 else (g[k] + 1) % Q
            yield 'field %d' % k, al, be, K, q, g
        # shifting both challenges keeps their sum
        g = list(f); g[4] = (g[4] + 1) % Q; g[5] = (g[5] - 1) % Q
        yield 'split', al, be, K, q, g
        al2, be2 = encrypt(v + 2, r, K)
        yield 'vote above 1', al2, be2, K, q, dj_proof(rng, v, r, K, q, al2, be2)
        yield 'zero ciphertext', 0, 0, K, q, f
def fix(f, i, x):
    f = list(f)
    f[i] = x
    return f
def cp_adversarial(rng):
    s, r, q = rng.randrange(2, Q), rng.randrange(1, Q), rng.randrange(1, Q)
    K = pk(s)
    X = gp(rng.randrange(1, Q))
    for L in (0, 1, 2, 5, rng.randrange(2**63), 2**64 - 1):
        al, be = encrypt(L, r, K)
        f = cp_proof(rng, L, r, K, q, al, be)
        yield 'nothing', al, be, K, q, f
        for n in ('a', 'b'):
            yield 'equation of ' + n, al, be, K, q, cp_proof(rng, L, r, K, q, al, be, tweak={n: X})
        yield 'wrong constant', al, be, K, q, fix(f, 4, (L + 1) % 2**64)
        c, v = rng.randrange(1, Q), rng.randrange(1, Q)
        a, b = gp(v) * inv(pow(al, c, P)) % P, pow(gp(L), c, P) * pow(K, v, P) * inv(pow(be, c, P)) % P
        yield 'challenge hash', al, be, K, q, [a, b, c, v, L]
        for k in range(5):
            u = rng.randrange(1, Q)
            a, b = gp(u), pow(K, u, P)
            c = H(*[El(x) for i, x in enumerate((q, al, be, a, b)) if i != k])
            yield 'hash input %d' % k, al, be, K, q, [a, b, c, (u + c * r) % Q, L]
        for k in range(4):
            g = list(f)
            g[k] = g[k] * X % P if k < 2 else (g[k] + 1) % Q
            yield 'field %d' % k, al, be, K, q, g
        # r = 0, u = 0: all equations hold, only the response is out of bounds
        al0, be0 = 1, gp(L)
        f0 = cp_proof(rng, L, 0, K, q, al0, be0, u=0)
        yield 'v in bounds', al0, be0, K, q, f0
        yield 'v in bounds', al0, be0, K, q, fix(f0, 3, Q)
        for which in ('alpha', 'beta', 'both'):
            a2 = P - al if which != 'beta' else al
            b2 = P - be if which != 'alpha' else be
            for _ in range(40):
                g = cp_proof(rng, L, r, K, q, a2, b2)
                if g[2] % 2 == 0:
                    break
            yield which + ' residue', a2, b2, K, q, g
        for which in ('alpha', 'beta'):
            a2 = P - al if which == 'alpha' else al
            b2 = P - be if which == 'beta' else be
            for _ in range(40):
                g = cp_proof(rng, L, r, K, q, a2, b2, tweak={'a' if which == 'alpha' else 'b': P - 1})
                if g[2] % 2 == 1:
                    break
            yield which + ' and commitment residue', a2, b2, K, q, g
        yield 'other key', al, be, pk(rng.randrange(2, Q)), q, f
        yield 'other base hash', al, be, K, (q + 1) % Q, f
        yield 'zero ciphertext', 0, 0, K, q, f
