"""Token grammar of harness/ballot.hpp, and the reference semantics of ballots and manifests over it."""
import oracle as O
from consts import P, Q, G

class R(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
    def __setattr__(self, k, v):
        self[k] = v
    def but(self, **kw):
        r = R(self)
        r.update(kw)
        return r
S, U, Bo, El, By = 'S', 'U', 'B', 'E', 'Y'
def L(t):
    return ('L', t)
def Opt(t):
    return ('O', t)
def rec(**kw):
    return ('R', list(kw.items()))
CT = rec(pad=El, data=El)
DP = rec(a0=El, b0=El, a1=El, b1=El, c0=El, c1=El, c=El, v0=El, v1=El)
CP = rec(a=El, b=El, c=El, v=El, L=U)
HE = rec(pad=El, data=By, mac=By)
PSEL = rec(id=S, vote=U, ph=Bo, writein=S)
PCON = rec(id=S, sels=L(PSEL))
PBAL = rec(id=S, style=S, contests=L(PCON))
CSEL = rec(id=S, seq=U, dh=El, ct=Opt(CT), ph=Bo, nonce=El, ch=El, proof=Opt(DP))
CCON = rec(id=S, seq=U, dh=El, sels=L(CSEL), nonce=El, acc=Opt(CT), ch=El, proof=Opt(CP), he=Opt(HE))
CBAL = rec(id=S, style=S, mh=El, seed=El, contests=L(CCON), code=El, ts=U, nonce=El, ch=El)
CPB = rec(id=S, style=S, sels=L(U), writeins=L(S))
CCB = rec(plain=CPB, state=U, seed=El, code=El, ts=U, nonce=El)
CCBo = rec(plain=CPB, state=U, seed=El, code=El, ts=U, nonce=El, id=S)
TEXT = Opt(rec(text=L(rec(value=S, lang=S))))
AS = rec(ann=S, value=S)
CI = Opt(rec(lines=L(S), email=L(AS), phone=L(AS), name=S))
GPU = rec(id=S, name=S, type=U, contact=CI)
PARTY = rec(id=S, name=TEXT, abbr=S, color=S, logo=S)
CAND = rec(id=S, name=TEXT, party=S, image=S, writein=Bo)
SD = rec(id=S, cand=S, seq=U)
CD = rec(id=S, district=S, seq=U, var=U, elected=U, allowed=U, name=S, title=TEXT, subtitle=TEXT, sels=L(SD), parties=L(S))
CDo = rec(id=S, district=S, seq=U, var=U, elected=U, allowed=U, name=S, title=TEXT, subtitle=TEXT, sels=L(SD))
CDP = rec(id=S, district=S, seq=U, var=U, elected=U, allowed=U, name=S, title=TEXT, subtitle=TEXT, sels=L(SD), phs=L(SD))
STYLE = rec(id=S, gps=L(S), parties=L(S), image=S)
def _man(cd):
    return rec(scope=S, type=U, start=U, end=U, gps=L(GPU), parties=L(PARTY), cands=L(CAND), contests=L(cd), styles=L(STYLE), name=TEXT, contact=CI)
MAN, MANo = _man(CD), _man(CDo)
IMAN = rec(mh=El, gps=L(GPU), cands=L(CAND), contests=L(CDP), styles=L(STYLE))
CTX = rec(n=U, k=U, K=El, c=El, ov=Bo, mx=U)

def enc(t, v, o=None):
    o = [] if o is None else o
    if t == S:
        o.append('x' + (v if isinstance(v, bytes) else v.encode('latin1')).hex())
    elif t == By:
        o.append('x' + bytes(v).hex())
    elif t == U:
        o.append(str(v))
    elif t == Bo:
        o.append('1' if v else '0')
    elif t == El:
        o.append('-' if v is None else '%x' % v)
    elif t[0] == 'L':
        o.append(str(len(v)))
        for x in v:
            enc(t[1], x, o)
    elif t[0] == 'O':
        if v is None:
            o.append('-')
        else:
            o.append('+')
            enc(t[1], v, o)
    else:
        for k, u in t[1]:
            enc(u, v[k], o)
    return o
def dec(t, it):
    if t == S:
        return bytes.fromhex(next(it)[1:]).decode('latin1')
    if t == By:
        return bytes.fromhex(next(it)[1:])
    if t == U:
        return int(next(it))
    if t == Bo:
        return next(it) == '1'
    if t == El:
        x = next(it)
        return None if x == '-' else int(x, 16)
    if t[0] == 'L':
        return [dec(t[1], it) for _ in range(int(next(it)))]
    if t[0] == 'O':
        return None if next(it) == '-' else dec(t[1], it)
    return R((k, dec(u, it)) for k, u in t[1])
def project(t, v):
    """v reduced to the fields of t"""
    if isinstance(t, str) or v is None:
        return v
    if t[0] == 'L':
        return [project(t[1], x) for x in v]
    if t[0] == 'O':
        return project(t[1], v)
    return R((k, project(u, v[k])) for k, u in t[1])
def diff(a, b, path=''):
    """first difference of two values"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            d = diff(a[k], b.get(k), path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: %d and %d members' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %s and %s' % (path, short(a), short(b))
def short(x):
    return hex(x)[:40] if isinstance(x, int) and x > 2**64 else repr(x)[:60]

# ---- reference semantics
E = O.El
def ct_hash(c):
    return O.H(E(c.pad), E(c.data))
def sel_hash(s, seed):
    return O.H(s.id, E(seed), E(ct_hash(s.ct)))
def _sorted(l):
    return sorted(l, key=lambda x: x.seq)
def con_hash(c, seed):
    if not c.sels:
        raise ValueError
    return O.H(c.id, E(seed), *[E(s.ch) for s in _sorted(c.sels)])
def bal_hash(b, mh):
    if not b.contests:
        raise ValueError
    return O.H(b.id, E(mh), *[E(c.ch) for c in _sorted(b.contests)])
def ct_sum(cts):
    a = d = 1
    for c in cts:
        a, d = a * c.pad % P, d * c.data % P
    return R(pad=a, data=d)
def fields(t, v):
    return [v[k] for k, _ in t[1]]
_memo = {}
def _dj(*k):
    k = ('d',) + k[:4] + tuple(k[4])
    if k not in _memo:
        _memo[k] = O.dj_valid(*k[1:5], list(k[5:]))
    return _memo[k]
def _cp(*k):
    k = ('c',) + k[:4] + tuple(k[4])
    if k not in _memo:
        _memo[k] = O.cp_valid(*k[1:5], list(k[5:]))
    return _memo[k]
def by_seq(v):
    """contests and selections in sequence order"""
    if isinstance(v, dict):
        return R((k, by_seq(x)) for k, x in v.items())
    if isinstance(v, list):
        l = [by_seq(x) for x in v]
        return _sorted(l) if l and isinstance(l[0], dict) and 'seq' in l[0] else l
    return v
def sel_valid(s, seed, K, q):
    return (s.dh == seed and s.ch == sel_hash(s, seed) and s.proof is not None and _dj(s.ct.pad, s.ct.data, K, q, fields(DP, s.proof)))
def con_valid(c, seed, K, q):
    return (c.dh == seed and bool(c.sels) and c.ch == con_hash(c, seed) and c.proof is not None and c.acc is not None and c.acc == ct_sum([s.ct for s in c.sels])
            and _cp(c.acc.pad, c.acc.data, K, q, fields(CP, c.proof)))
def bal_valid(b, mh, K, q):
    return (b.mh == mh and bool(b.contests) and b.ch == bal_hash(b, mh)
            and all(con_valid(c, c.dh, K, q) and all(sel_valid(s, s.dh, K, q) for s in c.sels) for c in b.contests))
def text_hash(t):
    return None if t is None else O.Hashable(O.H([O.Hashable(O.H(l.value, l.lang)) for l in t.text]))
def sd_hash(d):
    return O.H(d.id, d.seq, d.cand)
VAR = ['unknown', 'one_of_m', 'approval', 'borda', 'cumulative', 'majority', 'n_of_m', 'plurality', 'proportional', 'range', 'rcv', 'super_majority', 'other']
def cd_hash(c):
    return O.H(c.id, c.seq, c.district, VAR[c.var], text_hash(c.title), text_hash(c.subtitle), c.name, c.elected, c.allowed, [O.Hashable(sd_hash(s)) for s in c.sels])
def cd_valid(c):
    ids, cands, seqs = [s.id for s in c.sels], [s.cand for s in c.sels], [s.seq for s in c.sels]
    return (c.elected <= len(c.sels) and (c.allowed == 0 or c.elected <= c.allowed) and all(ids) and all(cands)
            and len(set(ids)) == len(ids) and len(set(cands)) == len(cands) and len(set(seqs)) == len(seqs))
def man_valid(m):
    uniq = lambda l: all(l) and len(set(l)) == len(l)
    gps, parties = [g.id for g in m.gps], [p.id for p in m.parties]
    return (uniq(gps) and uniq([s.id for s in m.styles]) and all(s.gps and all(g in gps for g in s.gps) for s in m.styles)
            and uniq(parties) and uniq([c.id for c in m.cands]) and all(not c.party or c.party in parties for c in m.cands)
            and uniq([c.id for c in m.contests]) and len(set(c.seq for c in m.contests)) == len(m.contests)
            and all(cd_valid(c) and c.district and c.district in gps for c in m.contests))
def placeholders(c):
    top = max([s.seq for s in c.sels], default=0)
    return [R(id='%s-%d-placeholder' % (c.id, top + 1 + i), cand='%s-%d-candidate' % (c.id, top + 1 + i), seq=top + 1 + i) for i in range(c.elected)]
def contests_for(m, style):
    st = [s for s in m.styles if s.id == style]
    if not st or not st[0].gps:
        raise ValueError
    return _sorted([c for c in m.contests if c.district in st[0].gps])
def nonce_at(seed, header, i):
    return O.H(E(O.H(E(seed), E(header))), i)

# ---- generators
def ctx(rng, K=None, ov=True):
    return R(n=5, k=3, K=K if K is not None else O.pk(rng.randrange(2, Q)), c=rng.randrange(Q), ov=ov, mx=1000)
def mk_manifest(rng, contests=2, sels=3, elected=None, shuffle=False, districts=2):
    cs = []
    v = rng.choice(['', 'x', 'y'])
    for i in range(contests):
        n = sels if isinstance(sels, int) else rng.choice(sels)
        e = elected if elected is not None else rng.randrange(1, max(2, n))
        e = min(e, n) if n else e
        # the same identifiers stand for different things in different manifests of one process
        ss = [R(id='s%d-%d' % (i, j), cand='c%d-%d%s' % (i, j, v), seq=j) for j in range(n)]
        if shuffle:
            rng.shuffle(ss)
        cs.append(R(id='contest%d' % i, district='gp%d' % (i % districts), seq=i, var=1 if e == 1 else 6, elected=e, allowed=rng.choice([e, n, 0]) if n >= e else e, name='name %d%s' % (i, v), title=None, subtitle=None, sels=ss, parties=[]))
    if shuffle:
        rng.shuffle(cs)
    cands = [R(id=s.cand, name=None, party='', image='', writein=False) for c in cs for s in c.sels]
    return R(scope='scope', type=1, start=1600000000, end=1600086400, gps=[R(id='gp%d' % i, name='unit %d' % i, type=15, contact=None) for i in range(districts)],
             parties=[R(id='party', name=None, abbr='', color='', logo='')], cands=cands, contests=cs,
             styles=[R(id='all', gps=['gp%d' % i for i in range(districts)], parties=[], image=''), R(id='one', gps=['gp0'], parties=[], image='')], name=None, contact=None)
def mk_csel(rng, i, K, q, v=None, ph=False, dh=None, seq=None):
    v = rng.randrange(2) if v is None else v
    r = rng.randrange(1, Q)
    al, be = O.encrypt(v, r, K)
    dh = rng.randrange(Q) if dh is None else dh
    s = R(id='sel%d' % i, seq=i if seq is None else seq, dh=dh, ct=R(pad=al, data=be), ph=ph, nonce=r, ch=0, proof=R(zip([k for k, _ in DP[1]], O.dj_proof(rng, v, r, K, q, al, be))))
    s.ch = sel_hash(s, dh)
    s._v = v
    return s
def mk_ccon(rng, i, K, q, n, seqs=None, idp='con'):
    sels = [mk_csel(rng, j, K, q, seq=None if seqs is None else seqs[j]) for j in range(n)]
    tot, r = sum(s._v for s in sels), sum(s.nonce for s in sels) % Q
    acc = ct_sum([s.ct for s in sels])
    c = R(id='%s%d' % (idp, i), seq=i, dh=rng.randrange(Q), sels=sels, nonce=rng.randrange(Q), acc=acc, ch=0, proof=R(zip([k for k, _ in CP[1]], O.cp_proof(rng, tot, r, K, q, acc.pad, acc.data))), he=None)
    c.ch = con_hash(c, c.dh)
    return c
def mk_cbal(rng, K, q, shape):
    cons = [mk_ccon(rng, i, K, q, n) for i, n in enumerate(shape)]
    b = R(id='ballot', style='style', mh=rng.randrange(Q), seed=rng.randrange(Q), contests=cons, code=0, ts=rng.randrange(1, 2**40), nonce=rng.randrange(Q), ch=0)
    b.ch = bal_hash(b, b.mh)
    b.code = O.H(E(b.seed), b.ts, E(b.ch))
    return b
