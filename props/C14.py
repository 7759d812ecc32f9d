from common import *
import oracle as O
import stl, hmac as _hmac, hashlib
LEVEL = 'proof'
TUS = ['src/electionguard/elgamal.cpp', 'src/electionguard/hmac.cpp', 'src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST + ['HMAC-SHA-256 (Hacl_HMAC_compute_sha2_256) is an uninterpreted function of its key and message bytes',
                    'tampering is detected up to collisions of SHA-256 / HMAC-SHA-256']
ASSUME = ['the secret key belongs to the public key', 'a precomputed triple satisfies its defining relation for the same key (C18)',
          'padded encryption: every message length 0..510; the other obligations are for the lengths they list']
HC = NS + 'HashedElGamalCiphertext'

def symbytes(eng, n, name, at=None):
    b = Buf(eng, 8, n, 0)
    for i in range(n):
        v = at(i) if at else None
        if v is None:
            v = z3.Int('%s%d' % (name, i))
            eng.fact(z3.And(v >= 0, v <= 255))
            eng.byte_ids[v.get_id()] = v
        b.write(i, v)
    return b
def contents(b):
    if isinstance(b, Vec):
        return [c.get() for c in b.items]
    return [b.read(i) for i in range(b.n)]
def same(a, b):
    if len(a) != len(b):
        return False
    return all((x == y) if isinstance(x, int) and isinstance(y, int) else (not isinstance(x, int) and not isinstance(y, int) and z3.eq(x, y)) for x, y in zip(a, b))
def ebytes(eng, e, kind):
    b = eng.contracts[NS + 'ElementMod%s::toBytes' % kind](eng, Cell(Elem(kind, e)), [], None)
    return stl.byte_key(eng, b, 0, b.n)
def le4(x):
    return tuple(x.to_bytes(4, 'little'))
def spec(eng, pad, shared, seed, nblocks):
    """session values of the specification: key stream bytes and mac key"""
    ses = ebytes(eng, l2.hash_term((('hexP', pad), ('hexP', shared))), 'Q')
    sd = ebytes(eng, seed, 'Q')
    ks = []
    for i in range(nblocks):
        ks += l2.hmac_bytes(eng, ses, le4(i + 1) + sd + le4(nblocks * 256))
    mk = l2.hmac_bytes(eng, ses, le4(0) + sd + le4(nblocks * 256))
    return ks, mk
def keyof(eng, bs):
    b = Buf(eng, 8, len(bs), 0)
    for i, v in enumerate(bs):
        b.write(i, v)
    return stl.byte_key(eng, b, 0, len(bs))
def spec_mac(eng, mk, pad, data):
    return l2.hmac_bytes(eng, keyof(eng, mk), ebytes(eng, pad, 'P') + keyof(eng, data))

def setup(ctx, pre):
    eng = ctx.engine(2)
    h = L2(ctx)
    eng.contracts[NS + 'PrecomputeBufferContext::getTriple'] = lambda eng, this, args, f: h.triple(qatom('t'), ppow(G_TERM, qatom('s'))).get() if pre else UPtr(NULL)
    return eng, h

def roundtrip(n, maxlen, trunc, pre):
    def run(ctx):
        eng, h = setup(ctx, pre)
        s, r, seed = qatom('s'), qatom('t' if pre else 'r'), qatom('seed')
        K = ppow(G_TERM, s)
        cut = n if maxlen == 0 or n <= maxlen else maxlen
        def thunk():
            m = symbytes(eng, n, 'm')
            c = ctx.call(NS + 'hashedElgamalEncrypt', [Cell(m.copy()), h.E(qatom('r')), h.E(K), h.E(seed), Cell(maxlen), Cell(trunc)])
            c = h.obj(c)
            data, mac = contents(h.obj(h.get(c, 'getData'))), contents(h.obj(h.get(c, 'getMac')))
            d = ctx.call(HC + '::decrypt', [h.E(s), h.E(seed), Cell(maxlen != 0)], this=Cell(c))
            return contents(m)[:cut], h.g(c, 'getPad'), data, mac, contents(h.obj(d))
        def post(x):
            m, pad, data, mac, dec = x
            pl = m if maxlen == 0 else list((maxlen - cut).to_bytes(2, 'big')) + m + [0] * (maxlen - cut)
            nb = len(pl) // 32
            ks, mk = spec(eng, pad, ppow(pad, s), seed, nb)
            yield 'pad is g^r', l2.p_eq(pad, ppow(G_TERM, r))
            yield 'the data is the padded message xored with the key stream', same(data, [eng.byte_xor(a, b) for a, b in zip(pl, ks)])
            yield 'the authentication code covers pad and data', same(mac, spec_mac(eng, mk, pad, data))
            yield 'decryption returns the message', same(dec, m)
        ctx.prove(thunk, post, label='%d bytes, capacity %d%s: ' % (n, maxlen, ' (precomputed)' if pre else ''))
    return run

def refused(n, maxlen, trunc):
    def run(ctx):
        eng, h = setup(ctx, False)
        def thunk():
            return ctx.call(NS + 'hashedElgamalEncrypt', [Cell(symbytes(eng, n, 'm')), h.E(qatom('r')), h.E(h.K), h.E(qatom('seed')), Cell(maxlen), Cell(trunc)])
        ctx.prove(thunk, lambda r: [('refused', False)], lambda e: [], min_ret=0, label='%d bytes, capacity %d: ' % (n, maxlen))
    return run

def ciphertext(ctx, h, eng, pad, data, mac):
    return Cell(eng.construct(ctx.prog.classes[HC], [h.U(pad), Cell(data), Cell(mac)], ['std::unique_ptr<ElementModP>', 'std::vector<uint8_t>', 'std::vector<uint8_t>']))

def decrypt_any(n):
    """arbitrary pad, data, mac, key, seed: bytes come out only if the mac is the specified one; they are the key stream xored"""
    def run(ctx):
        eng, h = setup(ctx, False)
        A, s, seed = patom('A'), qatom('s'), qatom('seed')
        st = {}
        def thunk():
            data, mac = symbytes(eng, n, 'd'), symbytes(eng, 32, 'mac')
            st['v'] = contents(data), contents(mac)
            ks, mk = spec(eng, A, ppow(A, s), seed, n // 32)
            good = z3.And(*[z(x) == z(y) for x, y in zip(st['v'][1], spec_mac(eng, mk, A, st['v'][0]))])
            st['good'], st['ks'] = good, ks
            c = ciphertext(ctx, h, eng, A, data, mac)
            return contents(h.obj(ctx.call(HC + '::decrypt', [h.E(s), h.E(seed), Cell(False)], this=c)))
        def post(d):
            yield 'the authentication code is the specified one', st['good']
            yield 'the bytes are the data xored with the key stream', same(d, [eng.byte_xor(a, b) for a, b in zip(st['v'][0], st['ks'])])
        ctx.prove(thunk, post, lambda e: [('only a wrong authentication code is refused', z3.Not(st['good']))], label='decrypt %d bytes: ' % n)
    return run

def badlen(n, maclen=32):
    def run(ctx):
        eng, h = setup(ctx, False)
        def thunk():
            c = ciphertext(ctx, h, eng, patom('A'), symbytes(eng, n, 'd'), symbytes(eng, maclen, 'mac'))
            return ctx.call(HC + '::decrypt', [h.E(qatom('s')), h.E(qatom('seed')), Cell(z3.Bool('look'))], this=c)
        ctx.prove(thunk, lambda r: [('refused', False)], lambda e: [], min_ret=0, label='decrypt %d bytes: ' % n)
    return run

def padding(n, L):
    """authentic data of n bytes whose plaintext records padding length L: accepted iff L fits and the last L bytes are 0"""
    def run(ctx):
        eng, h = setup(ctx, False)
        A, s, seed = patom('A'), qatom('s'), qatom('seed')
        st = {}
        def thunk():
            pl = contents(symbytes(eng, n, 'p', lambda i: L.to_bytes(2, 'big')[i] if i < 2 else None))
            ks, mk = spec(eng, A, ppow(A, s), seed, n // 32)
            data = [eng.byte_xor(a, b) for a, b in zip(pl, ks)]
            mac = spec_mac(eng, mk, A, data)
            st['pl'] = pl
            D, M = Buf(eng, 8, n, 0), Buf(eng, 8, 32, 0)
            for i, v in enumerate(data):
                D.write(i, v)
            for i, v in enumerate(mac):
                M.write(i, v)
            c = ciphertext(ctx, h, eng, A, D, M)
            return contents(h.obj(ctx.call(HC + '::decrypt', [h.E(s), h.E(seed), Cell(True)], this=c)))
        ok = lambda: z3.And(z3.BoolVal(L <= n - 2), *[z(x) == 0 for x in st['pl'][n - L:]]) if L <= n - 2 else z3.BoolVal(False)
        def post(d):
            yield 'the recorded padding is possible', ok()
            yield 'the unpadded bytes are returned', same(d, st['pl'][2:n - L])
        ctx.prove(thunk, post, lambda e: [('only impossible padding is refused', z3.Not(ok()))], min_ret=1 if L <= n - 2 else 0, label='padding %d of %d: ' % (L, n))
    return run

def obligations(tier):
    obs = []
    full = tier != 'quick'
    # every length that fits: together these cover padded encryption completely
    for n in range(0, 511):
        obs.append(Ob('round trip, padded, %d bytes' % n, roundtrip(n, 510, n % 2 == 0, False)))
    for n in ([511, 512, 544, 600, 1024] if full else [511, 512, 600]):
        obs.append(Ob('truncation, %d bytes' % n, roundtrip(n, 510, True, False), bounded='length %d' % n))
        obs.append(Ob('too long without truncation, %d bytes' % n, refused(n, 510, False), bounded='length %d' % n))
    for n in ([32 * k for k in range(1, 17)] if full else [32, 64, 96, 512]):
        obs.append(Ob('round trip, unpadded, %d bytes' % n, roundtrip(n, 0, n % 64 == 0, False), bounded='length %d' % n))
    for n in (1, 31, 33, 63, 65, 100):
        obs.append(Ob('misaligned unpadded, %d bytes' % n, refused(n, 0, n % 2 == 0), bounded='length %d' % n))
    for n, mx in ((0, 510), (100, 510), (510, 510), (32, 0), (64, 0)):
        obs.append(Ob('round trip with a precomputed triple, %d bytes, capacity %d' % (n, mx), roundtrip(n, mx, False, True), bounded='length %d' % n))
    for n in (32, 64, 96) if not full else [32 * k for k in range(1, 17)]:
        obs.append(Ob('decryption of arbitrary data, %d bytes' % n, decrypt_any(n), bounded='length %d' % n))
    for n in (0, 1, 31, 33, 63):
        obs.append(Ob('decryption of %d bytes is refused' % n, badlen(n), bounded='length %d' % n))
    obs.append(Ob('decryption with a short authentication code is refused', badlen(32, 31), bounded='length 32'))
    for n, Ls in ((32, (0, 1, 2, 15, 29, 30, 31, 32, 33, 256, 65535)), (64, (0, 31, 62, 63, 64, 65535)), (512, (0, 3, 511, 512, 65535))):
        for L in Ls:
            obs.append(Ob('padding length %d in %d bytes' % (L, n), padding(n, L), bounded='length %d' % n))
    return obs

# ---------------- executions of the real code ----------------
HARNESS = ['main.cpp', 'crypto.cpp']
def mac_(k, m):
    return _hmac.new(k, m, hashlib.sha256).digest()
def ref_stream(pad, shared, seed, nb):
    ses = O.H(O.El(pad), O.El(shared)).to_bytes(32, 'big')
    kdf = lambda i: mac_(ses, i.to_bytes(4, 'little') + seed.to_bytes(32, 'big') + (nb * 256).to_bytes(4, 'little'))
    return b''.join(kdf(i + 1) for i in range(nb)), kdf(0)
def ref_seal(pad, shared, seed, pl):
    ks, mk = ref_stream(pad, shared, seed, len(pl) // 32)
    data = bytes(a ^ b for a, b in zip(pl, ks))
    return data, mac_(mk, pad.to_bytes(512, 'big') + data)
def concrete(h, rng, tier, hints):
    hx = lambda b: b.hex() or '-'
    n = 60 if tier == 'quick' else 800
    lens = [0, 1, 2, 29, 30, 31, 32, 33, 62, 64, 255, 256, 300, 479, 480, 509, 510, 511, 512, 600]
    for k in range(n):
        s = rng.choice([2, 3, O.Q - 1, rng.randrange(2, O.Q)])
        r = rng.choice([1, 2, O.Q - 1, rng.randrange(1, O.Q), rng.randrange(1, 2**64)])
        seed = rng.choice([0, 1, O.Q - 1, rng.randrange(O.Q), rng.randrange(2**128)])
        K = O.pk(s)
        padded = k % 3 != 0
        ln = lens[k % len(lens)] if padded else rng.choice([32, 64, 96, 512, 544, 1, 33])
        m = bytes(rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(ln))
        if rng.random() < .2:
            m = bytes(ln)
        tr = rng.random() < .5
        pre = rng.random() < .3
        a = ['henc', hx(m), '%x' % r, '%x' % K, '%x' % seed, 510 if padded else 0, int(tr)] + ([1] if pre else [])
        res = h.cmd(*a)
        info = {'message': m.hex(), 'nonce': hex(r), 'secret': hex(s), 'seed': hex(seed), 'padded': padded, 'truncation': tr, 'precomputed': pre, 'got': res}
        if (padded and ln > 510 and not tr) or (not padded and ln % 32):
            if res[0] != 'throw':
                yield dict(info, what='a message that does not fit was accepted')
            yield None
            continue
        if res[0] != 'ok':
            yield dict(info, what='encryption refused')
            continue
        pad, data, mac = int(res[1], 16), bytes.fromhex('' if res[2] == '-' else res[2]), bytes.fromhex('' if res[3] == '-' else res[3])
        cut = m[:510] if padded else m
        pl = ((510 - len(cut)).to_bytes(2, 'big') + cut + bytes(510 - len(cut))) if padded else m
        shared = pow(pad, s, O.P)
        if not pre and pad != O.gp(r):
            yield dict(info, what='pad is not g^r')
        d2, m2 = ref_seal(pad, shared, seed, pl)
        if d2 != data or m2 != mac:
            yield dict(info, what='data or mac differ from the specified ones', want=[d2.hex(), m2.hex()])
        if int(res[4], 16) != O.H(O.El(pad), data, mac):
            yield dict(info, what='crypto hash of the ciphertext')
        if [int(x, 16) for x in res[5:8]] != [r, K, seed]:
            yield dict(info, what='an argument was changed')
        dec = h.cmd('hdec', '%x' % pad, hx(data), hx(mac), '%x' % s, '%x' % seed, int(padded))
        if dec[0] != 'ok' or dec[1] != hx(cut):
            yield dict(info, what='decryption does not return the message', dec=dec)
        elif dec[2:5] != res[1:4]:
            yield dict(info, what='decryption changed the ciphertext', dec=dec)
        yield None
        def flip(b):
            i = rng.randrange(len(b))
            return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
        T = [(pad * O.G % O.P, data, mac, s, seed, 'pad'), (pad, flip(data), mac, s, seed, 'data'), (pad, data, flip(mac), s, seed, 'mac'),
             (pad, data, mac, s ^ 1, seed, 'key'), (pad, data, mac, s, (seed + 1) % O.Q, 'seed'), (pad, data, mac, s, seed ^ (1 << rng.randrange(255)), 'seed'), (pad, data, mac, s ^ (1 << rng.randrange(2, 255)), seed, 'key'), (pad, data, mac[:31], s, seed, 'short mac'),
             (pad, data, b'', s, seed, 'no mac'), (pad, data, mac + b'\0', s, seed, 'long mac'), (pad, data[:-32], mac, s, seed, 'shorter data'), (pad, data + bytes(32), mac, s, seed, 'longer data'),
             (pad, data[:-1], mac, s, seed, 'misaligned'), (pad, data, flip(mac[:16]) + mac[16:], s, seed, 'mac'), (pad, data, mac[:16] + flip(mac[16:]), s, seed, 'mac'), (pad, data, mac[:31] + bytes([mac[31] ^ 1]), s, seed, 'last mac byte'), (pad, data[:-1] + bytes([data[-1] ^ 1]), mac, s, seed, 'last data byte')]
        for p_, d_, m_, s_, q_, what in T if k < 12 else rng.sample(T, 3):
            x = h.cmd('hdec', '%x' % p_, hx(d_), hx(m_), '%x' % s_, '%x' % q_, int(padded))
            if x[0] != 'throw':
                yield dict(info, what='decryption accepted although %s differs' % what, tampered=x)
            yield None
        # authentic data with arbitrary recorded padding
        for L, good in ((0, 1), (5, 1), (5, 0), (30, 1), (30, 0), (31, 0), (32, 0), (62, 0), (65535, 0), (1, 1), (1, 0), (29, 1)):
            if k >= 12 and rng.random() < .7:
                continue
            z_ = 30
            body = bytearray(rng.randrange(1, 256) for _ in range(z_))
            if L <= 30:
                for i in range(L):
                    body[29 - i] = 0
                if not good and L:
                    body[29 - rng.choice([0, L - 1, rng.randrange(L)])] = rng.randrange(1, 256)
            pl = L.to_bytes(2, 'big') + bytes(body)
            d_, m_ = ref_seal(pad, shared, seed, pl)
            x = h.cmd('hdec', '%x' % pad, hx(d_), hx(m_), '%x' % s, '%x' % seed, 1)
            if good and (x[0] != 'ok' or x[1] != hx(bytes(body[:30 - L]))) or not good and x[0] != 'throw':
                yield {'what': 'recorded padding %d of %d bytes (%s)' % (L, 30, 'possible' if good else 'impossible'), 'plaintext': pl.hex(), 'got': x}
            yield None
