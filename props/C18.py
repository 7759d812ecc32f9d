from common import *
import oracle as O
LEVEL = 'proof'
TUS = ['src/electionguard/precompute_buffers.cpp']
TRUST = L2_TRUST + ['rand_q returns a new independent value on every call']
ASSUME = ['queues hold fewer than 2^31 - 1 items and the limit is below that', 'concurrent use is serialised by the queue lock (C24 is not claimed)']
PB = NS + 'PrecomputeBufferContext::'

def triple_rel(h, t, K):
    """(exponent, facts)"""
    e = h.el(h.get(t, 'get_exp'))
    return e, l2.p_eq(h.el(h.get(t, 'get_g_to_exp')), ppow(G_TERM, e)), l2.p_eq(h.el(h.get(t, 'get_pubkey_to_exp')), ppow(K, e))
def quad_rel(h, t, K):
    e1, e2 = h.el(h.get(t, 'get_exp1')), h.el(h.get(t, 'get_exp2'))
    return (e1, e2), l2.p_eq(h.el(h.get(t, 'get_g_to_exp1')), ppow(G_TERM, e1)), l2.p_eq(h.el(h.get(t, 'get_g_to_exp2_mult_by_pubkey_to_exp1')), ppow(G_TERM, e2) * ppow(K, e1))

def generated(cls, rel):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            return h.make(cls, [h.E(h.K)], ['const ElementModP &']), h.make(cls, [h.E(h.K)], ['const ElementModP &'])
        def post(x):
            es = []
            for o in x:
                e, a, b = rel(h, o, h.K)
                es += list(e) if isinstance(e, tuple) else [e]
                yield 'generator power', a
                yield 'public key power', b
            for e in es:
                yield 'the exponent is random', e.single_atom() is not None and e.single_atom().kind == 'rand'
            yield 'exponents are drawn independently', len(set(es)) == len(es)
        ctx.prove(thunk, post, label=cls + ': ')
    return run

def fields(h, cls, o):
    if cls == 'Triple':
        return [h.el(h.get(o, n)) for n in ('get_exp', 'get_g_to_exp', 'get_pubkey_to_exp')]
    if cls == 'Quadruple':
        return [h.el(h.get(o, n)) for n in ('get_exp1', 'get_exp2', 'get_g_to_exp1', 'get_g_to_exp2_mult_by_pubkey_to_exp1')]
    return fields(h, 'Triple', h.get(o, 'get_triple1')) + fields(h, 'Triple', h.get(o, 'get_triple2')) + fields(h, 'Quadruple', h.get(o, 'get_quad'))
def build(h, cls, tag):
    if cls == 'Triple':
        return h.make('Triple', [h.U(qatom('e' + tag)), h.U(patom('a' + tag)), h.U(patom('b' + tag))], ['std::unique_ptr<ElementModQ>'] + ['std::unique_ptr<ElementModP>'] * 2)
    if cls == 'Quadruple':
        return h.make('Quadruple', [h.U(qatom('e' + tag)), h.U(qatom('f' + tag)), h.U(patom('a' + tag)), h.U(patom('b' + tag))], ['std::unique_ptr<ElementModQ>'] * 2 + ['std::unique_ptr<ElementModP>'] * 2)
    U = lambda o: Cell(UPtr(Ptr(o)))
    return h.make('TwoTriplesAndAQuadruple', [U(build(h, 'Triple', tag + '1')), U(build(h, 'Triple', tag + '2')), U(build(h, 'Quadruple', tag + '3'))],
                  ['std::unique_ptr<Triple>'] * 2 + ['std::unique_ptr<Quadruple>'])

def copies(cls, how):
    def run(ctx):
        eng = ctx.engine(2)
        h = L2(ctx)
        def thunk():
            o = build(h, cls, 'x')
            want = fields(h, cls, o)
            if how == 'clone':
                c = ctx.call(NS + cls + '::clone', [], this=o)
            elif how == 'copy':
                c = Cell(eng.construct(ctx.prog.classes[NS + cls], [o], ['const %s &' % cls]))
            elif how == 'move':
                c = Cell(eng.construct(ctx.prog.classes[NS + cls], [o], ['%s &&' % cls], rvs=[True])) if False else None
            else:
                c = build(h, cls, 'y')
                f = [f for f in ctx.prog.funcs[NS + cls + '::operator='] if ('&&' in f.type) == (how == 'move-assign')]
                eng.call_function(f[0], c, [o])
            return fields(h, cls, c), want, fields(h, cls, o) if how != 'move-assign' else want
        def post(x):
            yield 'every component is copied', x[0] == x[1]
            yield 'the source is unchanged', x[2] == x[1]
        ctx.prove(thunk, post, label='%s %s: ' % (cls, how))
    return run

def history(ops, label):
    """ops on the buffer; the n-th value taken must be the n-th value put, relations hold, nothing is handed out twice"""
    def run(ctx):
        eng = ctx.engine(2, merge=False)
        h = L2(ctx)
        def thunk():
            out = []
            call = lambda n, a: eng.call_function([f for f in ctx.prog.funcs[PB + n] if len(f.params) == len(a)][0], None, a)
            for op in ops:
                if op[0] == 'init':
                    call('init', [Cell(op[1])])
                elif op[0] == 'fill':
                    call('populate', [h.E(h.K)])
                elif op[0] == 'size':
                    out.append(('size', call('get_current_queue_size', []), op[1]))
                elif op[0] == 'ttq':
                    r = call('getTwoTriplesAndAQuadruple', [])
                    out.append(('ttq', h.obj(r), op[1] if len(op) > 1 else True))
                elif op[0] == 'triple':
                    r = call('getTriple', [])
                    out.append(('triple', h.obj(r), op[1] if len(op) > 1 else True))
                elif op[0] == 'stop':
                    call('stop_populate', [])
                elif op[0] == 'clear':
                    call('empty_queues', [])
            return out
        def post(out):
            used = []
            for n, (k, v, exp) in enumerate(out):
                if k == 'size':
                    yield '%d. number of values available' % n, eqv(v, exp)
                    continue
                if not exp:
                    yield '%d. an empty buffer yields nothing' % n, v is None
                    continue
                if v is None:
                    if k == 'ttq':      # how many triples a fill produces is not part of the property
                        yield '%d. a value is available' % n, False
                    continue
                if k == 'triple':
                    e, a, b = triple_rel(h, v, h.K)
                    es = [e]
                    yield '%d. g^e' % n, a
                    yield '%d. K^e' % n, b
                else:
                    es = []
                    for m in ('get_triple1', 'get_triple2'):
                        e, a, b = triple_rel(h, h.get(v, m), h.K)
                        es.append(e)
                        yield '%d. %s g^e' % (n, m), a
                        yield '%d. %s K^e' % (n, m), b
                    e, a, b = quad_rel(h, h.get(v, 'get_quad'), h.K)
                    es += list(e)
                    yield '%d. quad g^e1' % n, a
                    yield '%d. quad g^e2 K^e1' % n, b
                for e in es:
                    yield '%d. exponent is random' % n, e.single_atom() is not None and e.single_atom().kind == 'rand'
                    yield '%d. exponent was not handed out before' % n, e not in used
                    used.append(e)
        ctx.prove(thunk, post, label=label + ': ')
    return run

# ---- any state of the buffer ----
LIM = 2**31 - 2
def arbitrary(ctx, eng, h):
    """the buffer in an arbitrary state: queues of any length with unknown contents, any limit, populating allowed or stopped"""
    import queues
    eng.sym_queues = True
    inst = h.obj(ctx.call(PB + 'getInstance', []))
    qs = {}
    flags = []
    for name, loc in inst.f.items():
        v = loc.get()
        if isinstance(v, queues.QueueV):
            cls = next((c for c in ('TwoTriplesAndAQuadruple', 'Triple') if c in v.etype), None)
            if cls is None or cls in qs:
                raise Unsupported('queue of ' + v.etype)
            n = z3.Int('queued ' + cls)
            eng.fact(z3.And(n >= 0, n <= LIM))
            def item(eng, q, cls=cls):
                k = len(made)
                o = build(h, cls, '%s#%d' % (cls[0], k))
                made.append((q, fields(h, cls, o)))
                return Cell(UPtr(Ptr(o)))
            v.item = item
            v.st = ((), n, (), ())
            qs[cls] = (loc, n)
        elif isinstance(v, bool):
            f = z3.Bool('state ' + name)
            loc.set(f)
            flags.append(f)
        elif isinstance(v, int):
            m = z3.Int('state ' + name)
            eng.fact(z3.And(m >= 0, m <= LIM))
            loc.set(m)
        elif not isinstance(v, Opaque):
            raise Unsupported('buffer state ' + name)
    if set(qs) != {'TwoTriplesAndAQuadruple', 'Triple'}:
        raise Unsupported('the buffer is not two queues')
    made = []
    state = {n: loc.get() for n, loc in inst.f.items() if not isinstance(loc.get(), queues.QueueV)}
    rest = lambda: [same_val(loc.get(), state[n]) for n, loc in inst.f.items() if n in state]
    return qs, made, rest, flags
def same_val(a, b):
    return a is b or (a == b if isinstance(a, (bool, int, Opaque)) else zbool(z(a) == z(b)) if is_sym(a) and not isinstance(a, z3.BoolRef) else zbool(a) == zbool(b))
def now(qs):
    return {c: (l.get(), n) for c, (l, n) in qs.items()}
def pb(ctx, n, a):
    return ctx.eng.call_function([f for f in ctx.prog.funcs[PB + n] if len(f.params) == len(a)][0], None, a)

def take(fn, cls):
    def run(ctx):
        eng = ctx.engine(2, merge=False)
        h = L2(ctx)
        def thunk():
            import queues
            qs, made, rest, flags = arbitrary(ctx, eng, h)
            try:
                r = h.obj(pb(ctx, fn, []))
            except queues.CutEnd:
                raise Unsupported('a loop in ' + fn)
            return qs, made, rest(), r
        def post(x):
            qs, made, rest, r = x
            qs = now(qs)
            (q, n), (o, m) = qs[cls], next(v for c, v in qs.items() if c != cls)
            yield 'the other queue keeps its contents', zand(z(o.length()) == m, not o.st[3])
            yield 'nothing is put back', not any(k == 'push' for k, _ in q.st[3])
            if r is None:
                yield 'nothing only from an empty buffer', n == 0
                yield 'an empty buffer stays empty', z(q.length()) == 0
            else:
                yield 'an item only from a non-empty buffer', n > 0
                yield 'the item handed out has left the queue', z(q.length()) == n - 1
                mine = [f for w, f in made if w is q]
                yield 'it is the item that was removed', len(mine) == 1 and not q.st[0] and fields(h, cls, r) == mine[0]
            for c in rest:
                yield 'the settings are unchanged', c
        ctx.prove(thunk, post, label=fn + ': ', min_ret=2)
    return run

def fills(ctx):
    import queues
    eng = ctx.engine(2, merge=False)
    h = L2(ctx)
    def thunk():
        qs, made, rest, flags = arbitrary(ctx, eng, h)
        # populating allowed or not, by the operations that decide it
        stopped = eng.branch(z3.Bool('stopped'))
        if stopped:
            pb(ctx, 'stop_populate', [])
        else:
            pb(ctx, 'init', [Cell(z3.If(z3.Bool('default size'), z3.IntVal(0), z3.Int('limit')))])
        eng.fact(z3.And(z3.Int('limit') >= 0, z3.Int('limit') <= LIM))
        mx = pb(ctx, 'get_max_queue_size', [])
        mx = mx.get() if hasattr(mx, 'get') else mx
        done = True
        try:
            pb(ctx, 'populate', [h.E(h.K)])
        except queues.CutEnd:
            done = False
        return qs, made, stopped, done, mx
    def post(x):
        qs, made, stopped, done, mx = x
        qs = now(qs)
        pushed = {c: [v for k, v in q.st[3] if k == 'push'] for c, (q, n) in qs.items()}
        for c, (q, n) in qs.items():
            if stopped:
                yield 'a stopped buffer is not filled (%s)' % c, z(q.length()) == n
        used = []
        for v in pushed['Triple']:
            e, a, b = triple_rel(h, v, h.K)
            yield 'triple g^e', a
            yield 'triple K^e', b
            used.append(e)
        for v in pushed['TwoTriplesAndAQuadruple']:
            for m in ('get_triple1', 'get_triple2'):
                e, a, b = triple_rel(h, h.get(h.obj(v), m), h.K)
                yield m + ' g^e', a
                yield m + ' K^e', b
                used.append(e)
            e, a, b = quad_rel(h, h.get(h.obj(v), 'get_quad'), h.K)
            yield 'quadruple g^e1', a
            yield 'quadruple g^e2 K^e1', b
            used += list(e)
        for e in used:
            yield 'exponents are random', e.single_atom() is not None and e.single_atom().kind == 'rand'
        yield 'every exponent is used once', len(set(used)) == len(used)
        if done and not stopped:
            q, n = qs['TwoTriplesAndAQuadruple']
            yield 'the buffer is filled up to its limit', z(q.length()) >= z(mx)
    ctx.prove(thunk, post, label='populate: ', min_ret=3)

def clears(ctx):
    import queues
    eng = ctx.engine(2, merge=False)
    h = L2(ctx)
    def thunk():
        qs, made, rest, flags = arbitrary(ctx, eng, h)
        try:
            pb(ctx, 'empty_queues', [])
        except queues.CutEnd:
            raise Infeasible()
        return qs, rest()
    def post(x):
        qs, rest = x
        qs = now(qs)
        for c, (q, n) in qs.items():
            yield 'no %s is left' % c, z(q.length()) == 0
        for c in rest:
            yield 'the settings are unchanged', c
    ctx.prove(thunk, post, label='empty_queues: ')

def settings(fn, size=None):
    def run(ctx):
        import queues
        eng = ctx.engine(2, merge=False)
        h = L2(ctx)
        def thunk():
            qs, made, rest, flags = arbitrary(ctx, eng, h)
            try:
                args = []
                if fn == 'init':
                    a = z3.Int('size')
                    eng.fact(z3.And(a >= 0, a <= LIM))
                    args = [Cell(a)]
                r = pb(ctx, fn, args)
            except queues.CutEnd:
                raise Unsupported('a loop in ' + fn)
            mx = pb(ctx, 'get_max_queue_size', [])
            return qs, rest(), r.get() if hasattr(r, 'get') else r, mx.get() if hasattr(mx, 'get') else mx
        def post(x):
            qs, rest, r, mx = x
            qs = now(qs)
            for c, (q, n) in qs.items():
                yield 'the contents are unchanged (%s)' % c, zand(z(q.length()) == n, not q.st[3])
            if fn == 'get_current_queue_size':
                yield 'it is the number of values available', z(r) == qs['TwoTriplesAndAQuadruple'][1]
                for c in rest:
                    yield 'the settings are unchanged', c
            if fn == 'init':
                yield 'the limit is the one given', z3.Implies(z3.Int('size') != 0, z(mx) == z3.Int('size'))
        ctx.prove(thunk, post, label=fn + ': ')
    return run

def obligations(tier):
    obs = [Ob('getTwoTriplesAndAQuadruple from a buffer in any state', take('getTwoTriplesAndAQuadruple', 'TwoTriplesAndAQuadruple')),
           Ob('getTriple from a buffer in any state', take('getTriple', 'Triple')),
           Ob('populate of a buffer in any state, any number of rounds', fills),
           Ob('empty_queues of a buffer in any state', clears)] + [Ob('%s in any state' % f, settings(f)) for f in ('init', 'stop_populate', 'get_current_queue_size', 'get_max_queue_size')]
    obs += [Ob('triple generation', generated('Triple', triple_rel)), Ob('quadruple generation', generated('Quadruple', quad_rel))]
    for c in ('Triple', 'Quadruple', 'TwoTriplesAndAQuadruple'):
        for how in ('clone', 'copy', 'assign', 'move-assign'):
            obs.append(Ob('%s %s keeps all components' % (c, how), copies(c, how)))
    T, F = True, False
    def H_(n, ops):
        obs.append(Ob('history: ' + n, history(ops, n), bounded='%d operations' % len(ops)))
    H_('fill 1 and drain', [('init', 1), ('fill',), ('size', 1), ('ttq', T), ('size', 0), ('ttq', F), ('triple', T), ('triple', T), ('triple', F)])
    H_('fill 2 and drain', [('init', 2), ('fill',), ('size', 2), ('triple', T), ('ttq', T), ('size', 1), ('ttq', T), ('ttq', F), ('triple', T), ('triple', F)])
    H_('fill 4 and drain', [('init', 4), ('fill',), ('size', 4)] + [('ttq', T)] * 4 + [('ttq', F)] + [('triple', T)] * 4 + [('triple', F)])
    H_('refill', [('init', 2), ('fill',), ('ttq', T), ('fill',), ('size', 2), ('ttq', T), ('ttq', T), ('ttq', F), ('fill',), ('ttq', T)])
    H_('clear', [('init', 2), ('fill',), ('clear',), ('size', 0), ('ttq', F), ('triple', F), ('fill',), ('ttq', T), ('triple', T)])
    H_('stopped', [('init', 2), ('stop',), ('fill',), ('size', 0), ('ttq', F), ('triple', F)])
    H_('stop after fill', [('init', 1), ('fill',), ('stop',), ('fill',), ('size', 1), ('ttq', T), ('ttq', F)])
    H_('nothing before init', [('ttq', F), ('triple', F)])
    # every history of the listed operations up to the bound, each followed by draining both queues
    depth = 3 if tier == 'quick' else 4
    OPS = ['fill', 'stop', 'init', 'clear', 'ttq', 'triple']
    import itertools
    for first in OPS:
        for mx in (1, 2):
            hs = [(first,) + r for d in range(depth) for r in itertools.product(OPS, repeat=d)]
            obs.append(Ob('all histories starting with init(%d), %s, then drained' % (mx, first), all_histories(mx, hs), bounded='%d operations and draining' % (depth + 1)))
    return obs

def model(mx, ops):
    """expected availability (number of two-triples / triples in the buffer) of a history"""
    nq = nt = 0
    run = True
    out = [('init', mx)]
    for op in ops:
        if op == 'fill':
            out.append(('fill',))
            if run:
                it = 0
                while True:
                    nq += 1
                    nt += 2 if it % 3 == 0 else 0
                    it += 1
                    if nq >= mx:
                        break
        elif op == 'stop':
            run = False; out.append(('stop',))
        elif op == 'init':
            run = True; out.append(('init', mx))
        elif op == 'clear':
            nq = nt = 0; out.append(('clear',))
        elif op == 'ttq':
            out.append(('ttq', nq > 0)); nq = max(nq - 1, 0)
        else:
            out.append(('triple', nt > 0)); nt = max(nt - 1, 0)
    out += [('ttq', True)] * nq + [('ttq', False)] + [('triple', True)] * nt + [('triple', False)]
    return out
def all_histories(mx, hs):
    def run(ctx):
        for ops in hs:
            history(model(mx, ops), 'init(%d) %s' % (mx, ' '.join(ops)))(ctx)
    return run

HARNESS = ['main.cpp', 'crypto.cpp']
def concrete(h, rng, tier, hints):
    p = O.P
    used = set()
    def rel_t(t, K):
        return t[1] == pow(O.G, t[0], p) and t[2] == pow(K, t[0], p)
    def rel_f(f, K):
        return f[2] == pow(O.G, f[0], p) and f[3] == pow(O.G, f[1], p) * pow(K, f[0], p) % p
    def fresh(*es):
        for e in es:
            if e in used:
                return False
            used.add(e)
        return True
    K = O.pk(rng.randrange(2, O.Q))
    r = h.cmd('triple', '%x' % K)
    t = [int(x, 16) for x in r[2:5]]
    if not rel_t(t, K) or not fresh(t[0]):
        yield {'what': 'triple', 'key': hex(K), 'got': r}
    r = h.cmd('quad', '%x' % K)
    f = [int(x, 16) for x in r[2:6]]
    if not rel_f(f, K) or not fresh(f[0], f[1]) or r[6] != '1':
        yield {'what': 'quadruple', 'key': hex(K), 'got': r}
    K0 = O.pk(rng.randrange(2, O.Q))
    for rnd in range(5 if tier == 'quick' else 60):
        h.cmd('pbclear')
        K = K0
        mx = rng.choice([1, 2, 3, 4, 7])
        log = ['init %d' % mx]
        r = h.cmd('pbinit', mx)
        if r[:2] != ['ok', str(mx)]:
            yield {'what': 'init', 'size': mx, 'got': r}
        nq = nt = 0
        run = True
        for _ in range(14):
            op = rng.choice(['fill', 'get', 'get', 'triple', 'triple', 'stop', 'init', 'clear'] if rnd else ['fill', 'get', 'triple'])
            log.append(op)
            if op == 'fill':
                if run:
                    it = 0
                    while True:
                        nq += 1
                        if it % 3 == 0:
                            nt += 2
                        it += 1
                        if nq >= mx:
                            break
                r = h.cmd('pbfill', '%x' % K)
                if r[0] != 'ok' or int(r[1]) < nq and run or (not run and int(r[1]) != nq):
                    yield {'what': 'populate', 'history': log, 'expected': nq, 'got': r}
            elif op == 'stop':
                h.cmd('pbstop'); run = False
            elif op == 'init':
                h.cmd('pbinit', mx); run = True
            elif op == 'clear':
                r = h.cmd('pbclear'); nq = nt = 0
                if r[:2] != ['ok', '0']:
                    yield {'what': 'empty_queues', 'history': log, 'got': r}
            elif op == 'get':
                r = h.cmd('pbget')
                if nq == 0:
                    if r[:2] != ['ok', 'null']:
                        yield {'what': 'a value came out of an empty buffer', 'history': log, 'got': r}
                else:
                    nq -= 1
                    ok = r[0] == 'ok' and len(r) == 15
                    if ok:
                        t1, t2, f = [int(x, 16) for x in r[2:5]], [int(x, 16) for x in r[6:9]], [int(x, 16) for x in r[10:14]]
                        ok = rel_t(t1, K) and rel_t(t2, K) and rel_f(f, K) and fresh(t1[0], t2[0], f[0], f[1]) and r[14] == '1'
                    if not ok:
                        yield {'what': 'two triples and a quadruple taken from the buffer', 'history': log, 'key': hex(K), 'got': r}
            else:
                r = h.cmd('pbtriple')
                if nt == 0:
                    if r[:2] != ['ok', 'null']:
                        yield {'what': 'a triple came out of an empty buffer', 'history': log, 'got': r}
                elif r[:2] == ['ok', 'null']:
                    nt = 0       # how many triples are produced per fill is not part of the property
                else:
                    nt -= 1
                    t = [int(x, 16) for x in r[2:5]]
                    if not rel_t(t, K) or not fresh(t[0]) or r[5] != '1':
                        yield {'what': 'triple taken from the buffer', 'history': log, 'key': hex(K), 'got': r}
            yield None
        # drain: nothing comes out twice and the buffer ends up empty
        for cmd, cnt in (('pbget', nq), ('pbtriple', nt)):
            for i in range(cnt + 3):
                r = h.cmd(cmd)
                log.append(cmd)
                if r[:2] == ['ok', 'null']:
                    break
                ts = [[int(x, 16) for x in r[2:5]]] if cmd == 'pbtriple' else [[int(x, 16) for x in r[2:5]], [int(x, 16) for x in r[6:9]]]
                if not all(rel_t(t, K) and fresh(t[0]) for t in ts):
                    yield {'what': 'a value was handed out twice (or is inconsistent)', 'history': log, 'got': r}
                    break
            else:
                yield {'what': 'the buffer never runs empty although population has ended', 'history': log}
            yield None
    # long queues: filled, partly drained, cleared, and drained completely
    sizes = [rng.randrange(20, 60), 160]
    for hint in hints or []:
        for v in (hint or {}).values() if isinstance(hint, dict) else []:
            try:
                v = int(str(v), 0)
            except ValueError:
                continue
            if 8 < v <= 400 and v not in sizes:
                sizes.append(v)
    for mx in sizes[:4]:
        h.cmd('pbclear')
        h.cmd('pbinit', mx)
        h.cmd('pbfill', '%x' % K0)
        if mx != sizes[0]:
            r = h.cmd('pbclear')
            if r[:2] != ['ok', '0'] or h.cmd('pbget')[:2] != ['ok', 'null'] or h.cmd('pbtriple')[:2] != ['ok', 'null']:
                yield {'what': 'empty_queues leaves values behind', 'history': ['init %d' % mx, 'fill', 'clear'], 'got': r}
            h.cmd('pbfill', '%x' % K0)
        for cmd in ('pbget', 'pbtriple'):
            got = 0
            while got <= 3 * mx + 9:
                r = h.cmd(cmd)
                if r[:2] == ['ok', 'null']:
                    break
                got += 1
                ts = [[int(x, 16) for x in r[2:5]]] if cmd == 'pbtriple' else [[int(x, 16) for x in r[2:5]], [int(x, 16) for x in r[6:9]]]
                es = [t[0] for t in ts] + ([int(r[10], 16), int(r[11], 16)] if cmd == 'pbget' else [])
                if not fresh(*es) or got % 16 == 1 and not all(rel_t(t, K0) for t in ts):
                    yield {'what': 'a value was handed out twice (or is inconsistent)', 'history': ['init %d' % mx, 'fill', '%d times %s' % (got, cmd)], 'got': r}
                    break
            if cmd == 'pbget' and got != mx:
                yield {'what': 'number of values in a filled buffer', 'history': ['init %d' % mx, 'fill', 'drain'], 'expected': mx, 'got': got}
            elif got > 3 * mx:
                yield {'what': 'the buffer never runs empty although population has ended', 'history': ['init %d' % mx, 'fill', 'drain']}
            yield None
    # all short histories on a buffer of size 1, drained at the end
    import itertools
    OPS = ['fill', 'stop', 'init', 'clear', 'ttq', 'triple']
    for ops in [o for d in (1, 2, 3) for o in itertools.product(OPS, repeat=d) if 'fill' in o]:
        h.cmd('pbclear')
        log = []
        for op in model(1, ops):
            log.append(op[0])
            if op[0] == 'init':
                h.cmd('pbinit', op[1])
            elif op[0] == 'fill':
                h.cmd('pbfill', '%x' % K0)
            elif op[0] == 'stop':
                h.cmd('pbstop')
            elif op[0] == 'clear':
                h.cmd('pbclear')
            else:
                r = h.cmd('pbget' if op[0] == 'ttq' else 'pbtriple')
                none = r[:2] == ['ok', 'null']
                if none != (not op[1]) and (op[0] == 'ttq' or not none):
                    yield {'what': 'a value came out of an empty buffer' if not none else 'no value although the buffer is filled', 'history': log, 'got': r}
                if not none:
                    es = [int(r[2], 16)] if op[0] == 'triple' else [int(r[i], 16) for i in (2, 6, 10, 11)]
                    if not fresh(*es):
                        yield {'what': 'a value was handed out twice', 'history': log, 'got': r}
        yield None
    h.cmd('pbclear')
    # encryptions and proofs drain the buffer and never reuse an exponent: two constant proofs made from the buffer have different commitments
    K = O.pk(12345)
    pads = set()
    for _ in range(4):
        al, be = O.encrypt(1, 7, K)
        r = h.cmd('cpmake', '%x' % al, '%x' % be, '7', '%x' % K, '5', '9', 1, 'pre')
        if r[0] != 'ok' or r[2] in pads:
            yield {'what': 'two proofs were made from the same precomputed triple', 'got': r}
        pads.add(r[2] if len(r) > 2 else None)
        yield None
