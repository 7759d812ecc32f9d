from common import *
import time, os, subprocess, tempfile, shutil, json
import z3
import clist
from clist import Exec, Heap, TU, Bad, Dead, Unsupported, FIELDS, I, Bo
import libbuild, runner
from runner import Failed, Undecided
LEVEL = 'proof'
NOTE = ('Each list operation meets its contract for every list length and content: the invariant (ghost sequence of nodes, links, ownership of the key and value blocks) is '
        'assumed before and re-established after at an arbitrary position, by z3 over the real C code; loops are cut by inferred inductive invariants. Any history is then covered by '
        'induction over operations. Partial correctness: termination of the loops is only exercised.')
ASSUME = ['the handle was made by eg_linked_list_new and not yet freed; keys and values are valid C strings', 'strdup succeeds (a failing malloc of a node or list is covered)',
          'fewer than 2^63 elements', 'one thread uses a list at a time']
TRUST = ['clang 18 front end (C AST of the real source)', 'egv/clist.py (symbolic executor, field-map heap model)', 'z3 4.x', 'malloc, free, strdup as the C library defines them']
TECH = 'deductive verification of the real C code: list invariant over a ghost node sequence, contracts per operation, inferred loop invariants, z3'
FILE = 'src/electionguard/facades/collections.c'
_tu = []
def tu():
    if not _tu: _tu.append(TU(libbuild.REPO + '/' + FILE, libbuild.DEFS + libbuild.incs()))
    return _tu[0]
class Stat:
    def __init__(self): self.stat_solver, self.stat_queries, self.inlined, self.contracted = 0.0, 0, set(), set()

nd, kind, idx = z3.Function('nd', I, I), z3.Function('kind', I, I), z3.Function('idx', I, I)
L, n, j, x, pos = z3.Ints('L n j x position')
S, A = z3.Select, z3.And
def at(H, n, i, nd=nd, kind=kind, idx=idx, key=None):
    """what the invariant says about position i"""
    N, f = nd(i), H.f
    K, V = S(f['key'], N), S(f['value'], N)
    return z3.Implies(A(0 <= i, i < n), A(N > 0, S(H.alive, N), kind(N) == 1, idx(N) == i, K > 0, S(H.alive, K), kind(K) == 2, idx(K) == i,
        V > 0, S(H.alive, V), kind(V) == 3, idx(V) == i, S(f['next'], N) == z3.If(i == n - 1, 0, nd(i + 1)), S(f['previous'], N) == z3.If(i == 0, 0, nd(i - 1))))
def ends(H, L, n, nd=nd, kind=kind):
    return A(L > 0, S(H.alive, L), kind(L) == 0, S(H.f['count'], L) == n, n >= 0, S(H.f['head'], L) == z3.If(n == 0, 0, nd(0)), S(H.f['tail'], L) == z3.If(n == 0, 0, nd(n - 1)))
def owned(H, n, x):
    """x is one of the list's nodes, keys or values (in state H)"""
    i = idx(x)
    return A(0 <= i, i < n, z3.Or(x == nd(i), x == S(H.f['key'], nd(i)), x == S(H.f['value'], nd(i))))
TERMS = [z3.IntVal(0), z3.IntVal(1), n - 2, n - 1, j - 1, j, j + 1, idx(x), idx(x) + 1, idx(x) - 1, pos - 1, pos, pos + 1]
def setup(ctx, contracts, run, goals, empty=False, loopinv=None):
    """run(ex) on every path, then goals(ex, H0, result) -> [(name, formula)]"""
    ctx.eng = st = Stat()
    t0 = time.time()
    t = tu(); en = clist.enums(t.enumdecls)
    todo, k = [[]], 0
    while todo:
        d = todo.pop(); k += 1
        if k > 200: raise Unsupported('too many paths')
        H0 = Heap.fresh('0')
        hy = [n < 1 << 63, pos >= 0, pos < clist.U64, x > 0]
        if not empty: hy += [ends(H0, L, n)] + [at(H0, n, i) for i in TERMS]
        ex = Exec(t, en, H0.copy(), hy, d, contracts, TERMS, (lambda i: [at(H0, n, i)]) if not empty else None)
        ex.names, ex.ghost = {}, {'n': n, 'nd': nd, 'H0': H0}
        if loopinv: ex.ghost['loopinv'], ex.ghost['walkinv'] = loopinv(H0), lambda a: walk(H0, a)
        try:
            r = run(ex)
            gs = goals(ex, H0, r, en)
        except Dead:
            todo.extend(ex.pending); continue
        except Bad as b:
            st.stat_queries += ex.queries
            if ex.looped: raise Undecided('not proved: %s' % b)
            raise Failed('memory safety: %s' % b, model(ex, None))
        todo.extend(ex.pending)
        st.inlined |= ex.inlined; st.contracted |= ex.used
        ctx.paths += 1
        for name, g in gs:
            ctx.conds += 1
            if not ex.holds(g):
                if ex.looped: raise Undecided('not proved: %s' % name)
                raise Failed(name, model(ex, g))
        st.stat_queries += ex.queries
    st.stat_solver = time.time() - t0
def model(ex, g):
    s = z3.Solver(); s.set('timeout', 20000)
    for h in ex.hyps: s.add(h)
    if g is not None: s.add(z3.Not(g))
    if s.check() != z3.sat: return {}
    m = s.model()
    return {'model': {'n': str(m.eval(n, model_completion=True)), 'position': str(m.eval(pos, model_completion=True))}, 'branches': str(ex.taken)}
def same(H, H0, name=''):
    return [('heap unchanged' + name, A(*[H.f[k] == H0.f[k] for k in FIELDS] + [H.alive == H0.alive, H.text == H0.text]))]
def others(H, H0, n):
    """blocks that do not belong to the list keep their content"""
    o = A(S(H0.alive, x), x != L, z3.Not(owned(H0, n, x)))
    return ('objects outside the list untouched', z3.Implies(o, A(S(H.alive, x), S(H.text, x) == S(H0.text, x), *[S(H.f[k], x) == S(H0.f[k], x) for k in FIELDS])))

def ob_new(ctx):
    def run(ex):
        ex.cells['out'] = z3.Int('old')
        return ex.call('eg_linked_list_new', [('cell', 'out')], top=True)
    def goals(ex, H0, r, en):
        H, p = ex.H, ex.cells['out']
        if ex.holds(r == en['ELECTIONGUARD_STATUS_SUCCESS']):
            return [('new list is empty', A(p > 0, z3.Not(S(H0.alive, p)), S(H.alive, p), S(H.f['count'], p) == 0, S(H.f['head'], p) == 0, S(H.f['tail'], p) == 0)),
                    ('nothing else allocated or freed', z3.Implies(x != p, S(H.alive, x) == S(H0.alive, x))),
                    ('other objects untouched', z3.Implies(x != p, A(S(H.text, x) == S(H0.text, x), *[S(H.f[k], x) == S(H0.f[k], x) for k in FIELDS])))]
        return [('allocation failure is reported', r == en['ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC']), ('output untouched', ex.cells['out'] == z3.Int('old'))] + same(H, H0)
    setup(ctx, {}, run, goals, empty=True)
def ob_append(ctx):
    ik, iv = z3.Ints('in_key in_value')
    def run(ex):
        for p in (ik, iv): ex.assume(p > 0); ex.assume(S(ex.H.alive, p))
        return ex.call('eg_linked_list_append', [L, ik, iv], top=True)
    def goals(ex, H0, r, en):
        H = ex.H
        if not ex.holds(r == en['ELECTIONGUARD_STATUS_SUCCESS']):
            return [('allocation failure is reported', r == en['ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC'])] + same(H, H0)
        p = S(H.f['tail'], L); K, V = S(H.f['key'], p), S(H.f['value'], p)
        nd2 = lambda i: z3.If(i == n, p, nd(i))
        kind2 = lambda b: z3.If(b == p, 1, z3.If(b == K, 2, z3.If(b == V, 3, kind(b))))
        idx2 = lambda b: z3.If(z3.Or(b == p, b == K, b == V), n, idx(b))
        old = A(0 <= j, j < n)
        return [('count, head and tail', ends(H, L, n + 1, nd2, kind2)), ('links and ownership at every position', at(H, n + 1, j, nd2, kind2, idx2)),
                ('new key and value', A(S(H.text, K) == S(H0.text, ik), S(H.text, V) == S(H0.text, iv))),
                ('node, key and value are separate new blocks', A(z3.Not(S(H0.alive, p)), z3.Not(S(H0.alive, K)), z3.Not(S(H0.alive, V)), z3.Distinct(p, K, V))),
                ('earlier elements keep key and value', z3.Implies(old, A(S(H.f['key'], nd(j)) == S(H0.f['key'], nd(j)), S(H.f['value'], nd(j)) == S(H0.f['value'], nd(j)),
                    S(H.text, S(H0.f['key'], nd(j))) == S(H0.text, S(H0.f['key'], nd(j))), S(H.text, S(H0.f['value'], nd(j))) == S(H0.text, S(H0.f['value'], nd(j)))))),
                ('nothing else allocated or freed', z3.Implies(A(x != p, x != K, x != V), S(H.alive, x) == S(H0.alive, x))), others(H, H0, n)]
    setup(ctx, {}, run, goals)
def removed(H0, m):
    """liveness after removing position m-1"""
    N = nd(m - 1)
    a = H0.alive
    for b in (N, S(H0.f['key'], N), S(H0.f['value'], N)): a = z3.Store(a, b, False)
    return a
def ob_delete(ctx):
    def run(ex): return ex.call('eg_linked_list_delete_last', [L], top=True)
    def goals(ex, H0, r, en):
        H = ex.H
        g = [('succeeds', r == en['ELECTIONGUARD_STATUS_SUCCESS'])]
        if ex.holds(n == 0): return g + same(H, H0, ' on an empty list')
        if not ex.holds(n > 0): ex.branch(n > 0)
        if ex.holds(n == 0): return g + same(H, H0, ' on an empty list')
        old = A(0 <= j, j < n - 1)
        return g + [('count, head and tail', ends(H, L, n - 1)), ('links and ownership at every position', at(H, n - 1, j)),
                    ('exactly the last node, its key and its value are released', S(H.alive, x) == S(removed(H0, n), x)),
                    ('remaining elements keep key and value', z3.Implies(old, A(S(H.f['key'], nd(j)) == S(H0.f['key'], nd(j)), S(H.f['value'], nd(j)) == S(H0.f['value'], nd(j))))),
                    ('texts unchanged', z3.Implies(S(H.alive, x), S(H.text, x) == S(H0.text, x))), others(H, H0, n)]
    setup(ctx, {}, run, goals)
def ob_count(ctx):
    setup(ctx, {}, lambda ex: ex.call('eg_linked_list_get_count', [L], top=True), lambda ex, H0, r, en: [('is the number of elements', r == n)] + same(ex.H, H0))
def ob_get(fn, both):
    def f(ctx):
        def run(ex):
            ex.cells['k'], ex.cells['v'] = z3.Int('oldk'), z3.Int('oldv')
            return ex.call(fn, [L, pos] + ([('cell', 'k')] if both else []) + [('cell', 'v')], top=True)
        def goals(ex, H0, r, en):
            K, V = ex.cells['k'], ex.cells['v']
            g = same(ex.H, H0)
            N = nd(pos)
            if not ex.holds(pos < n) and not ex.holds(pos >= n): ex.branch(pos < n)
            if ex.holds(pos < n):
                g += [('succeeds', r == en['ELECTIONGUARD_STATUS_SUCCESS']), ('value at the position', V == S(H0.f['value'], N))]
                g.append(('key at the position', K == S(H0.f['key'], N)) if both else ('key output untouched', K == z3.Int('oldk')))
            else:
                g += [('out of range is reported', r == en['ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE']), ('outputs untouched', A(K == z3.Int('oldk'), V == z3.Int('oldv')))]
            return g
        setup(ctx, {}, run, goals)
    return f
def c_delete(ex, h):
    """contract of eg_linked_list_delete_last, proved above"""
    H = ex.H
    ex.need(h == L, 'list operation on another handle')
    m = S(H.f['count'], L)
    k = z3.Int('sk%d' % ex.nfresh); ex.nfresh += 1
    for i in (k - 1, k, k + 1): 
        for f in ex.ghost['inst'](ex, i): ex.assume(f)
    ex.need(A(ends(H, L, m), at(H, m, k)), 'list invariant before delete_last')
    if ex.branch(m == 0): return z3.IntVal(ex.en['ELECTIONGUARD_STATUS_SUCCESS'])
    ex.nfresh += 1
    H2 = Heap.fresh('del%d' % ex.nfresh)
    H2.alive, H2.text = removed(H, m), H.text
    ex.assume(ends(H2, L, m - 1))
    def inst(ex_, i, prev=ex.ghost['inst']):
        return prev(ex_, i) + [at(H2, m - 1, i), z3.Implies(A(0 <= i, i < m - 1), A(S(H2.f['key'], nd(i)) == S(H.f['key'], nd(i)), S(H2.f['value'], nd(i)) == S(H.f['value'], nd(i))))]
    ex.ghost = dict(ex.ghost, inst=inst)
    for i in TERMS + [m - 2, m - 1, m]:
        for f in inst(ex, i): ex.assume(f)
    o = A(S(H.alive, x), x != L, z3.Not(owned(H, m, x)))
    ex.assume(z3.Implies(o, A(*[S(H2.f[q], x) == S(H.f[q], x) for q in FIELDS])))
    ex.H = H2
    return z3.IntVal(ex.en['ELECTIONGUARD_STATUS_SUCCESS'])
def walk(H0, a):
    """a pointer walks from the head; the blocks of the positions before it are released, the links are untouched"""
    def f(ex, env, use=False):
        H, p = ex.H, env[a]
        t = z3.If(p == 0, n, idx(p))
        base = [z3.Or(p == 0, A(0 <= t, t < n, nd(t) == p)), H.text == H0.text, S(H.alive, L)] + [H.f[q] == H0.f[q] for q in FIELDS]
        base.append(S(H.alive, x) == A(S(H0.alive, x), z3.Not(A(owned(H0, n, x), idx(x) < t))))
        pt = lambda i: z3.Implies(A(t <= i, i < n), A(S(H.alive, nd(i)), S(H.alive, S(H0.f['key'], nd(i))), S(H.alive, S(H0.f['value'], nd(i)))))
        if use: return base + [pt(i) for i in TERMS + [t, t + 1]] + [at(H0, n, i) for i in (t, t + 1, t - 1)]
        k = z3.Int('sk%d' % ex.nfresh); ex.nfresh += 1
        for i in (k, k + 1, t, t + 1): ex.assume(at(H0, n, i))
        for g in ex.ghost.get('pts', []): ex.assume(g(k))
        return base + [pt(k)]
    def g(ex, env, use=False):
        r = f(ex, env, use)
        if use:
            H, p = ex.H, env[a]
            t = z3.If(p == 0, n, idx(p))
            ex.ghost = dict(ex.ghost, pts=ex.ghost.get('pts', []) + [lambda i: z3.Implies(A(t <= i, i < n), A(S(H.alive, nd(i)), S(H.alive, S(H0.f['key'], nd(i))), S(H.alive, S(H0.f['value'], nd(i)))))])
        return r
    return g
def ob_free(ctx):
    def inv(H0):
        """while some are left: the first m elements are a list, the blocks of the others are released"""
        def shrink(ex, env, use=False):
            H = ex.H
            m = S(H.f['count'], L)
            o = A(S(H0.alive, x), x != L, z3.Not(owned(H0, n, x)))
            base = [ends(H, L, m), m <= n, z3.Implies(o, A(*[S(H.f[q], x) == S(H0.f[q], x) for q in FIELDS])), H.text == H0.text,
                    S(H.alive, x) == A(S(H0.alive, x), z3.Not(A(owned(H0, n, x), idx(x) >= m)))]
            pt = lambda i: [at(H, m, i), z3.Implies(A(0 <= i, i < m), A(S(H.f['key'], nd(i)) == S(H0.f['key'], nd(i)), S(H.f['value'], nd(i)) == S(H0.f['value'], nd(i))))]
            if use:
                prev = ex.ghost.get('inst', lambda e, i: [])
                ex.ghost = dict(ex.ghost, inst=lambda e, i: prev(e, i) + pt(i) + [at(H0, n, i)])
                return base + [f for i in TERMS + [m - 1, m - 2, m] for f in pt(i)]
            k = z3.Int('sk%d' % ex.nfresh); ex.nfresh += 1
            if 'inst' in ex.ghost:
                for i in (k - 1, k, k + 1):
                    for f in ex.ghost['inst'](ex, i): ex.assume(f)
            else:
                for i in (k - 1, k, k + 1): ex.assume(at(H0, n, i))
            return base + pt(k)
        return [shrink]
    def run(ex):
        ex.ghost['inst'] = lambda e, i: [at(ex.ghost['H0'], n, i)]
        return ex.call('eg_linked_list_free', [L], top=True)
    def goals(ex, H0, r, en):
        gone = z3.Or(x == L, owned(H0, n, x))
        return [('succeeds', r == en['ELECTIONGUARD_STATUS_SUCCESS']), ('releases exactly the list, its nodes, keys and values', S(ex.H.alive, x) == A(S(H0.alive, x), z3.Not(gone)))] + [others(ex.H, H0, n)]
    setup(ctx, {'eg_linked_list_delete_last': c_delete}, run, goals, loopinv=inv)
def ob_freenull(ctx):
    setup(ctx, {'eg_linked_list_delete_last': c_delete}, lambda ex: ex.call('eg_linked_list_free', [z3.IntVal(0)], top=True),
          lambda ex, H0, r, en: [('succeeds', r == en['ELECTIONGUARD_STATUS_SUCCESS'])] + same(ex.H, H0), empty=True)
def obligations(tier):
    tu()
    return [Ob('new: an empty list', ob_new), Ob('append: adds one element at the end', ob_append), Ob('delete_last: removes the last element', ob_delete),
            Ob('get_count: number of elements', ob_count), Ob('get_element_at: key and value at the position, or out of range', ob_get('eg_linked_list_get_element_at', True)),
            Ob('get_value_at: value at the position, or out of range', ob_get('eg_linked_list_get_value_at', False)),
            Ob('free: releases every block exactly once', ob_free), Ob('free of a null handle', ob_freenull)]

HARNESS = ['main.cpp']
DRIVER = os.path.join(libbuild.HARN, 'list_driver.c')
def concrete(h, rng, tier, hints):
    d = tempfile.mkdtemp(prefix='egv.list.')
    try:
        fl = ['-Dmalloc=egv_malloc', '-Dcalloc=egv_calloc', '-Dfree=egv_free', '-Dstrdup=egv_strdup']
        exe = d + '/list'
        c1 = subprocess.run(['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] + fl + libbuild.DEFS + libbuild.incs() + ['-c', libbuild.REPO + '/' + FILE, '-o', d + '/l.o'], stderr=subprocess.PIPE)
        c2 = c1.returncode or subprocess.run(['gcc', '-g', '-O1', '-w', '-fsanitize=address,undefined'] + libbuild.DEFS + libbuild.incs() + [DRIVER, d + '/l.o', '-o', exe], stderr=subprocess.PIPE).returncode
        if c2: return          # the library itself does not build: reported by the runner
        try:
            p = subprocess.run([exe, '9' if tier == 'quick' else '13'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
            out, rc, err = p.stdout.decode(errors='replace'), p.returncode, p.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired:
            out, rc, err = '', -1, 'no end within 120 s'
        last = (out.strip().splitlines() or [''])[-1]
        if rc == 0 and last.startswith('OK'):
            k = int(last.split()[1])
            h.count += k; h.distinct |= set(range(k)); h.samples.append('list_driver: every append/delete history up to the stated depth')
            yield None
        else:
            yield {'what': 'list history', 'got': last or err[:1500], 'status': rc}
    finally:
        shutil.rmtree(d, ignore_errors=True)
