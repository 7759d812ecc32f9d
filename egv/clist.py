"""Deductive verifier for the C linked list (src/electionguard/facades/collections.c).

The real functions (clang AST of the current tree) run symbolically over a heap of field maps (z3 arrays: one per struct
field, plus liveness and string contents).  The list invariant is indexed by a ghost sequence nd(0..n-1) of nodes; it is
assumed at the relevant indices, and re-established at an arbitrary index, so the proofs hold for every length.  Loops
are cut by invariants inferred from a fixed set of candidates (kept only if inductive); calls to list operations go
through their contracts."""
import z3
from values import Unsupported
from limb import TU, typ, ctype
U64 = 1 << 64
I, Bo = z3.IntSort(), z3.BoolSort()
FIELDS = ('count', 'head', 'tail', 'key', 'value', 'previous', 'next')
class Ret(Exception):
    def __init__(self, v): self.v = v
class Dead(Exception): pass
class Bad(Exception):
    """a memory-safety obligation that does not hold"""

class Heap:
    def __init__(self, f, alive, text): self.f, self.alive, self.text = dict(f), alive, text
    def copy(self): return Heap(self.f, self.alive, self.text)
    @staticmethod
    def fresh(tag):
        return Heap({n: z3.Array('%s.%s' % (n, tag), I, I) for n in FIELDS}, z3.Array('alive.' + tag, I, Bo), z3.Array('text.' + tag, I, I))

def enums(tu_json_inner):
    out = {}
    for d in tu_json_inner:
        if d.get('kind') == 'EnumDecl':
            v = -1
            for c in d.get('inner', []):
                if c['kind'] != 'EnumConstantDecl': continue
                v += 1
                for x in c.get('inner', []):
                    if 'value' in x: v = int(x['value'])
                out[c['name']] = v
    return out

class Exec:
    """one path of one function; branches are chosen by the decision string, infeasible ones are pruned"""
    def __init__(self, tu, en, heap, hyps, decisions, contracts, terms, havoc=None):
        self.tu, self.en, self.H, self.hyps = tu, en, heap, list(hyps)
        self.dec, self.pos, self.pending, self.taken = decisions, 0, [], []
        self.contracts, self.terms = contracts, terms
        self.loops, self.nfresh, self.looped, self.depth = 0, 0, False, 0
        self.inst = havoc          # callback: index term -> hypotheses about the list at that index
        self.inlined, self.used = set(), set()
        self.cells = {}            # out parameters: name -> value
        self.queries = 0
    def assume(self, c): self.hyps.append(c)
    def holds(self, g, extra=()):
        s = z3.Solver(); s.set('timeout', 20000)
        for h in self.hyps: s.add(h)
        for h in extra: s.add(h)
        s.add(z3.Not(g))
        self.queries += 1
        return s.check() == z3.unsat
    def feasible(self):
        s = z3.Solver(); s.set('timeout', 20000)
        for h in self.hyps: s.add(h)
        self.queries += 1
        return s.check() != z3.unsat
    def branch(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else c
        if isinstance(c, bool): return c
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            if self.holds(c): v = True
            elif self.holds(z3.Not(c)): v = False
            else:
                v = True
                self.pending.append(self.taken + [False])
        self.pos += 1
        self.taken.append(v)
        self.assume(c if v else z3.Not(c))
        if not self.feasible(): raise Dead()
        return v
    def need(self, c, what):
        if not self.holds(c): raise Bad(what)
    # memory
    def live(self, p, what):
        self.need(z3.And(p != 0, z3.Select(self.H.alive, p)), 'access to a %s that may be null or freed' % what)
    def alloc(self, what, may_fail=True):
        p = z3.Int('new%d.%s' % (self.nfresh, what)); self.nfresh += 1
        ok = z3.Bool('ok%d' % self.nfresh)
        if may_fail and not self.branch(ok):
            return z3.IntVal(0)
        self.assume(p > 0); self.assume(z3.Not(z3.Select(self.H.alive, p)))
        self.H.alive = z3.Store(self.H.alive, p, True)
        return p
    # statements
    def stmt(self, n, env):
        k = n.get('kind')
        if k == 'CompoundStmt':
            for c in n.get('inner', []): self.stmt(c, env)
        elif k == 'DeclStmt':
            for d in n['inner']:
                if d['kind'] != 'VarDecl': raise Unsupported(d['kind'])
                i = [c for c in d.get('inner', []) if 'Comment' not in c['kind']]
                env[d['id']] = self.expr(i[0], env) if i else None
        elif k == 'IfStmt':
            i = n['inner']
            if self.truth(self.expr(i[0], env)): self.stmt(i[1], env)
            elif len(i) > 2: self.stmt(i[2], env)
        elif k == 'ReturnStmt':
            raise Ret(self.expr(n['inner'][0], env) if n.get('inner') else None)
        elif k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            if init.get('kind'): self.stmt(init, env)
            self.loop(n['id'], cond, [body] + ([inc] if inc.get('kind') else []), env)
        elif k == 'WhileStmt':
            self.loop(n['id'], n['inner'][0], [n['inner'][1]], env)
        elif k == 'DoStmt':
            self.stmt(n['inner'][0], env)
            self.loop(n['id'], n['inner'][1], [n['inner'][0]], env)
        elif k in (None, 'NullStmt'): pass
        else: self.expr(n, env)
    def assigned(self, nodes):
        """(local variables assigned, whether the heap may be written) in a piece of code"""
        out, heap = set(), [False]
        def walk(n):
            k = n.get('kind')
            if k in ('BinaryOperator',) and n.get('opcode') == '=' or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and n.get('opcode') in ('++', '--')):
                l = n['inner'][0]
                while l.get('kind') == 'ParenExpr': l = l['inner'][0]
                if l.get('kind') == 'DeclRefExpr': out.add(l['referencedDecl']['id'])
                else: heap[0] = True
            if k == 'CallExpr': heap[0] = True
            if k in ('BreakStmt', 'ContinueStmt', 'ReturnStmt', 'GotoStmt'): heap.append('jump')
            for c in n.get('inner', []): walk(c)
        for n in nodes: walk(n)
        return out, heap[0], 'jump' in heap
    def loop(self, lid, cond, body, env):
        self.looped = True
        asg, heap, jump = self.assigned(body + [cond])
        if jump: raise Unsupported('jump out of a loop')
        cand = self.candidates(env, asg, heap)
        cand = [c for c in cand if self.ok_now(c, env)]
        # Houdini: drop candidates that the body does not preserve, until the rest is inductive
        while True:
            bad = self.preserved(cand, cond, body, env, asg, heap)
            if not bad: break
            cand = [c for c in cand if c not in bad]
        self.havoc(env, asg, heap)
        for c in cand: self.add(c, env)
        c = self.cond(cond, env)
        self.assume(z3.Not(c))
        if not self.feasible(): raise Dead()
    def cond(self, cond, env):
        if not cond.get('kind'): return z3.BoolVal(True)
        return self.boolean(self.expr(cond, env))
    def ok_now(self, c, env):
        f = c(self, env)
        return f is not None and self.holds(z3.And(*f))
    def add(self, c, env):
        for f in c(self, env, True): self.assume(f)
    def havoc(self, env, asg, heap):
        for v in asg:
            if v in env:
                self.nfresh += 1
                env[v] = z3.Int('lv%d' % self.nfresh)
                self.assume(env[v] >= 0); self.assume(env[v] < U64)
        if heap:
            self.nfresh += 1
            self.H = Heap.fresh('loop%d' % self.nfresh)
    def preserved(self, cand, cond, body, env, asg, heap):
        """candidates broken by one iteration from an arbitrary state satisfying all of them"""
        base, H0, hy, nf, gh = dict(env), self.H.copy(), list(self.hyps), self.nfresh, self.ghost
        bad, todo = [], [[]]
        try:
            while todo:
                d = todo.pop()
                env2 = dict(base)
                self.hyps = list(hy); self.H = H0.copy(); self.nfresh = nf + 1000; self.ghost = gh
                self.havoc(env2, asg, heap)
                for c in cand: self.add(c, env2)
                sub = Exec(self.tu, self.en, self.H, self.hyps, d, self.contracts, self.terms, self.inst)
                sub.nfresh = self.nfresh + 5000; sub.ghost = self.ghost; sub.cells = dict(self.cells); sub.names = self.names
                sub.depth = self.depth
                try:
                    sub.assume(sub.cond(cond, env2))
                    if not sub.feasible(): raise Dead()
                    for b in body: sub.stmt(b, env2)
                except Dead:
                    todo.extend(sub.pending); continue
                self.inlined |= sub.inlined; self.used |= sub.used
                todo.extend(sub.pending)
                for c in cand:
                    if c not in bad:
                        f = c(sub, env2)
                        if f is None or not sub.holds(z3.And(*f)): bad.append(c)
            return bad
        finally:
            self.H, self.hyps, self.nfresh, self.ghost = H0, hy, nf + 1, gh
    def candidates(self, env, asg, heap):
        """fixed shapes: order between integers, and a pointer standing at a position that is a linear term of them"""
        out = []
        g = self.ghost
        ids = [v for v in env if env[v] is not None and z3.is_expr(env[v]) and z3.is_int(env[v])]
        isptr = lambda v: self.names.get(v, ('', ''))[1].endswith('*')
        ints = [v for v in ids if not isptr(v)]
        ptrs = [v for v in ids if isptr(v)]
        consts = [lambda e: z3.IntVal(0), lambda e: z3.IntVal(1), lambda e: g['n'], lambda e: g['n'] - 1] + [lambda e: z3.Int('position')]
        tm = [(lambda e, v=v: e[v]) for v in ints] + consts
        def rel(f):
            return lambda ex, e, use=False: [f(e)]
        for a in asg:
            if a in ints:
                for t in tm:
                    for d in (-1, 0, 1):
                        out.append(rel(lambda e, t=t, d=d, a=a: e[a] <= t(e) + d))
                        out.append(rel(lambda e, t=t, d=d, a=a: e[a] >= t(e) + d))
        pos = []
        it = [(lambda e, v=v: e[v]) for v in ints]
        for x in it + consts:
            for d in (-2, -1, 0, 1, 2): pos.append(lambda e, x=x, d=d: x(e) + d)
        for x in it + consts[2:3] + consts[4:]:
            for y in it:
                for d in (-2, -1, 0, 1): pos.append(lambda e, x=x, y=y, d=d: x(e) - y(e) + d)
        for a in asg:
            if a in ptrs:
                for t in pos:
                    def at(ex, e, use=False, t=t, a=a):
                        i = t(e)
                        if use: ex.at(i)
                        r = [e[a] == z3.If(z3.And(i >= 0, i < g['n']), g['nd'](i), z3.IntVal(0)), i >= -1, i <= g['n']]
                        return r
                    out.append(at)
        if heap and 'loopinv' in g:
            out += g['loopinv']
            for a in asg:
                if a in ptrs: out.append(g['walkinv'](a))
        return out
    def at(self, i):
        """make the facts about position i, and its neighbours, available"""
        if self.inst:
            for k in (i, i - 1, i + 1):
                for f in self.inst(k): self.assume(f)
    # expressions
    def truth(self, v): return self.branch(self.boolean(v))
    def boolean(self, v):
        if isinstance(v, bool): return z3.BoolVal(v)
        if z3.is_bool(v): return v
        return v != 0
    def num(self, v):
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def lval(self, n, env):
        k = n['kind']
        if k == 'ParenExpr': return self.lval(n['inner'][0], env)
        if k == 'DeclRefExpr': return ('var', n['referencedDecl']['id'])
        if k == 'MemberExpr' and n.get('isArrow'):
            p = self.expr(n['inner'][0], env)
            if n['name'] not in FIELDS: raise Unsupported('field ' + n['name'])
            self.live(p, 'list or node')
            return ('fld', n['name'], p)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.expr(n['inner'][0], env)
            if isinstance(p, tuple) and p[0] == 'cell': return p
        raise Unsupported('lvalue ' + k)
    def rd(self, l, env):
        if l[0] == 'var':
            v = env.get(l[1])
            if v is None: raise Unsupported('read of an uninitialised variable')
            return v
        if l[0] == 'cell': return self.cells[l[1]]
        return z3.Select(self.H.f[l[1]], l[2])
    def wr(self, l, v, env):
        v = self.num(v)
        if l[0] == 'var': env[l[1]] = v
        elif l[0] == 'cell': self.cells[l[1]] = v
        else: self.H.f[l[1]] = z3.Store(self.H.f[l[1]], l[2], v)
    def arith(self, op, a, b, ct):
        a, b = self.num(a), self.num(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        if ct[0] != 'i' or ct[1] not in (32, 64): raise Unsupported('arithmetic on %r' % (ct,))
        M = 1 << ct[1]
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op in ('/', '%') and z3.is_int_value(b) and b.as_long() > 0: return a / b if op == '/' else a % b
        elif op == '>>' and z3.is_int_value(b): return a / (1 << b.as_long())
        else: raise Unsupported('operator ' + op)
        return z3.simplify(z3.If(r >= M, r - M, z3.If(r < 0, r + M, r)))
    def expr(self, n, env):
        k = n['kind']
        if k in ('ParenExpr', 'ConstantExpr'): return self.expr(n['inner'][0], env)
        if k == 'IntegerLiteral': return z3.IntVal(int(n['value']))
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl': return z3.IntVal(self.en[d['name']])
            if d['kind'] == 'FunctionDecl': return ('fn', d['name'])
            return self.rd(('var', d['id']), env)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            ck = n.get('castKind')
            if ck == 'NullToPointer': return z3.IntVal(0)
            v = self.expr(n['inner'][0], env)
            if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'ToVoid', 'PointerToBoolean', 'IntegralToBoolean'):
                if ck == 'BitCast' and isinstance(v, tuple) and v[0] == 'raw':
                    t = typ(n).replace('struct ', '').rstrip('* ').strip()
                    if v[1] is not None and v[1].replace('struct ', '').strip() != t and v[1] not in t and t not in v[1]: raise Unsupported('allocation of %s as %s' % (v[1], t))
                    return self.alloc(t)
                return v
            if ck == 'IntegralCast':
                s, d = ctype(typ(n['inner'][0])), ctype(typ(n))
                if d[0] == 'i' and s[0] == 'i' and d[1] < s[1]:
                    return self.num(v) % (1 << d[1])
                return v
            raise Unsupported('cast ' + str(ck))
        if k == 'BinaryOperator':
            op = n['opcode']
            if op == '=':
                v = self.expr(n['inner'][1], env)
                self.wr(self.lval(n['inner'][0], env), v, env)
                return v
            if op == '&&': return z3.And(True, True) if self.truth(self.expr(n['inner'][0], env)) and self.truth(self.expr(n['inner'][1], env)) else z3.BoolVal(False)
            if op == '||': return z3.BoolVal(self.truth(self.expr(n['inner'][0], env)) or self.truth(self.expr(n['inner'][1], env)))
            return self.arith(op, self.expr(n['inner'][0], env), self.expr(n['inner'][1], env), ctype(typ(n)))
        if k == 'CompoundAssignOperator':
            l = self.lval(n['inner'][0], env)
            v = self.arith(n['opcode'][:-1], self.rd(l, env), self.expr(n['inner'][1], env), ctype(typ(n)))
            self.wr(l, v, env)
            return v
        if k == 'UnaryOperator':
            op = n['opcode']
            if op in ('++', '--'):
                l = self.lval(n['inner'][0], env)
                a = self.rd(l, env)
                v = self.arith(op[0], a, z3.IntVal(1), ctype(typ(n)))
                self.wr(l, v, env)
                return a if n.get('isPostfix') else v
            if op == '!': return z3.Not(self.boolean(self.expr(n['inner'][0], env)))
            if op == '*': return self.rd(self.lval(n, env), env)
            if op == '&' :
                l = self.lval(n['inner'][0], env)
                if l[0] == 'cell': return l
            raise Unsupported('unary ' + op)
        if k == 'MemberExpr': return self.rd(self.lval(n, env), env)
        if k == 'ConditionalOperator':
            i = n['inner']
            return self.expr(i[1] if self.truth(self.expr(i[0], env)) else i[2], env)
        if k == 'UnaryExprOrTypeTraitExpr' and n.get('name') == 'sizeof':
            return ('sizeof', n['argType']['qualType'] if n.get('argType') else typ(n['inner'][0]))
        if k == 'CallExpr':
            f = self.expr(n['inner'][0], env)
            if not (isinstance(f, tuple) and f[0] == 'fn'): raise Unsupported('indirect call')
            return self.call(f[1], [self.expr(a, env) for a in n['inner'][1:]])
        raise Unsupported('expression ' + k)
    def call(self, name, args, top=False):
        if name == 'malloc' or name == 'calloc':
            a = [x for x in args if isinstance(x, tuple) and x[0] == 'sizeof']
            return ('raw', a[0][1] if a else None)
        if name == 'free':
            p = args[0]
            if not self.branch(p == 0):
                self.need(z3.Select(self.H.alive, p), 'free of a block that may be freed already')
                self.H.alive = z3.Store(self.H.alive, p, False)
            return z3.IntVal(0)
        if name == 'strdup':
            self.live(args[0], 'string')
            p = self.alloc('text', may_fail=False)
            self.H.text = z3.Store(self.H.text, p, z3.Select(self.H.text, args[0]))
            return p
        if name in self.contracts and not top:
            self.used.add(name)
            return self.contracts[name](self, *args)
        f = self.tu.funcs.get(name)
        if f is None: raise Unsupported('call of ' + name)
        self.inlined.add(name)
        self.depth += 1
        if self.depth > 8: raise Unsupported('recursion')
        env = {}
        for p, a in zip([c for c in f['inner'] if c['kind'] == 'ParmVarDecl'], args):
            env[p['id']] = a
        def walk(n):
            if n.get('kind') in ('VarDecl', 'ParmVarDecl'): self.names[n['id']] = (n.get('name'), typ(n))
            for c in n.get('inner', []): walk(c)
        walk(f)
        try:
            self.stmt([c for c in f['inner'] if c['kind'] == 'CompoundStmt'][0], env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
    names = {}
