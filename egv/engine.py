"""Symbolic executor / verification-condition generator over clang's AST of the real sources."""
import re, time, z3, sys
from values import *
from terms import *
import astload
import star
import chars
sys.setrecursionlimit(20000)

INT_TYPES = {'unsigned long': (64, False), 'unsigned int': (32, False), 'unsigned char': (8, False),
             'unsigned short': (16, False), 'int': (32, True), 'long': (64, True), 'short': (16, True),
             'char': (8, True), 'signed char': (8, True), 'unsigned long long': (64, False), 'long long': (64, True),
             'bool': (1, False), 'size_t': (64, False), 'uint64_t': (64, False), 'uint32_t': (32, False),
             'uint16_t': (16, False), 'uint8_t': (8, False), 'int64_t': (64, True), 'int32_t': (32, True),
             'std::size_t': (64, False), 'uint_fast64_t': (64, False), '__uint64_t': (64, False), 'wchar_t': (32, True),
             'int8_t': (8, True), 'size_type': (64, False), 'difference_type': (64, True), 'time_t': (64, True),
             'std::byte': (8, False)}

def norm_type(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if t.startswith(p):
                t = t[len(p):]
        if t.endswith(' const'):
            t = t[:-6]
        t = t.strip()
        if t == o:
            return t

def strip_ref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t

_tmpl_cache = {}
def tmpl(t):
    """('unique_ptr', [args]) for std-ish templates; (name, []) otherwise"""
    r = _tmpl_cache.get(t)
    if r is not None:
        return r
    s = norm_type(strip_ref(norm_type(t)))
    m = s.find('<')
    if m < 0 or not s.endswith('>'):
        name = s
        args = []
    else:
        name = s[:m]
        args = split_args(s[m + 1:-1])
    name = name.replace('std::__cxx11::', '').replace('std::', '').strip()
    _tmpl_cache[t] = (name, args)
    return name, args

def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

def ntype(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')

def strip_casts(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr'):
        n = n['inner'][0]
    return n

def as_bit(x):
    """the Boolean behind a value that is 0 or 1"""
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x)) if x in (0, 1) else None
    if isinstance(x, z3.BoolRef):
        return x
    if z3.is_mod(x) and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() >= 2:
        return as_bit(x.arg(0))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
        t, e = x.arg(1).as_long(), x.arg(2).as_long()
        if (t, e) == (1, 0):
            return x.arg(0)
        if (t, e) == (0, 1):
            return z3.Not(x.arg(0))
    return None

class Frame:
    __slots__ = ('vars', 'this', 'tu', 'func', 'parent', 'cls')
    def __init__(self, func, tu, this, parent=None, cls=None):
        self.vars = {}
        self.func, self.tu, self.this, self.parent, self.cls = func, tu, this, parent, cls
    def lookup(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None

class PathResult:
    __slots__ = ('pc', 'kind', 'val', 'extra', 'sched', 'notes')

class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}      # qualified name -> handler
        self.prefix_contracts = []  # (prefix, handler)
        self.abstract = {}       # class qn -> handler object for abstract classes
        self.inlined = set()
        self.contracted = set()
        self.stat_solver = 0.0
        self.stat_queries = 0
        self.axioms_fn = []
        self.timeout_ms = 20000
        self.branch_ms = 400
        self.max_paths = 4000
        self.max_steps = 3000000
        self.unwind = 10000
        self.reset_path([])
        self.nested = 0
        self.merge_loops = False
        self.class_cache = {}
        self.log = None

    # ---------------- path management ----------------
    def reset_path(self, sched):
        self.sched = list(sched)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms if hasattr(self, 'timeout_ms') else 20000)
        self.fresh_n = 0
        self.statics = {}
        self.frame = None
        self.steps = 0
        self.splits = {}
        self.byte_ids, self.xor_of, self.xor_memo, self.sbyte_of, self.keep, self.limb_of = {}, {}, {}, {}, [], {}
        self.strs = {}
        self.notes = []
        self.events = []
        self.ghost = {}
        self.exc_stack = []
        self.split_list = []
        self.approx = []
        self.witness = set()
        self.star_roots = {}
        self.star_ops = {}
        self.star_active = []
        TRAIL[:] = [None]

    hex_eq = None
    flag_maps = False
    star_sets = False
    int_sums = None
    sym_chars = None        # strings of arbitrary hexadecimal digits (chars.py)
    sym_queues = False      # queues of arbitrary length, loops cut at an arbitrary iteration
    in_cut = False
    def fresh(self, nm, sort='int', lo=None, hi=None):
        self.fresh_n += 1
        name = '%s!%d' % (nm, self.fresh_n)
        if sort == 'int':
            v = z3.Int(name)
            if lo is not None:
                self.fact(v >= lo)
            if hi is not None:
                self.fact(v <= hi)
            return v
        if sort == 'bool':
            return z3.Bool(name)
        raise Unsupported(sort)

    def fact(self, f):
        """definitional fact (never constrains inputs beyond their types)"""
        self.facts.append(f)
        self.solver.add(f)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc.append(c)

    def check(self, *extra, ms=None):
        t = time.time()
        self.solver.set('timeout', ms or self.timeout_ms)
        r = self.solver.check(*(self.pc + list(extra)))
        self.stat_solver += time.time() - t
        self.stat_queries += 1
        return r

    def valid(self, c):
        """is c entailed by the path condition?"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        if isinstance(c, z3.ArithRef):
            c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.sched):
            d = self.sched[self.pos]
            self.pos += 1
        else:
            rt = self.check(c, ms=self.branch_ms)
            if rt == z3.unsat:
                d = False
            else:
                rf = self.check(z3.Not(c), ms=self.branch_ms)
                if rf == z3.unsat:
                    d = True
                else:
                    d = True
                    self.pending.append(self.sched[:self.pos] + [False])
            self.sched.append(d)
            self.pos += 1
        cc = c if d else z3.Not(c)
        self.pc.append(cc)
        return d

    def explore(self, thunk):
        """all paths of thunk(); each path re-executes from scratch"""
        stack = [[]]
        res = []
        while stack:
            if len(res) > self.max_paths:
                raise Unsupported('too many paths (%d)' % len(res))
            sched = stack.pop()
            self.reset_path(sched)
            p = PathResult()
            p.extra = None
            try:
                v = thunk()
                p.kind, p.val = 'ret', v
            except CppThrow as e:
                p.kind, p.val = 'throw', e
            except UB as e:
                p.kind, p.val = 'ub', e
            except Infeasible:
                stack.extend(self.pending)
                continue
            p.pc = list(self.pc)
            p.sched = list(self.sched)
            p.notes = list(self.notes)
            stack.extend(self.pending)
            yield p
            res.append(0)

    def nested_explore(self, thunk):
        """explore thunk from the current state with rollback; returns list of
        (conds, kind, value, writes) where writes maps cells to final values"""
        outer = (self.sched, self.pos, self.pending)
        base_pc = len(self.pc)
        base_facts = len(self.facts)
        results = []
        stack = [[]]
        fresh0 = self.fresh_n
        ser0 = SER[0]
        maxfresh = fresh0
        saved_statics = dict(self.statics)
        try:
            while stack:
                if len(results) > 600:
                    raise Unsupported('nested path explosion')
                sched = stack.pop()
                self.sched, self.pos, self.pending = list(sched), 0, []
                trail = []
                TRAIL.append(trail)
                frame = self.frame
                kind, val = None, None
                skip = False
                nev = len(self.events)
                wit = set(self.witness)
                try:
                    val = thunk()
                    kind = 'normal'
                except ReturnEx as e:
                    kind, val = 'return', e.v
                except BreakEx:
                    kind = 'break'
                except ContinueEx:
                    kind = 'continue'
                except CppThrow as e:
                    kind, val = 'throw', e
                except UB as e:
                    kind, val = 'ub', e
                except Infeasible:
                    skip = True
                finally:
                    self.frame = frame
                    self.witness = wit
                    TRAIL.pop()
                    writes = {}
                    for e in trail:
                        if callable(e):
                            continue
                        if e[0].ser > ser0:
                            continue
                        if len(e) == 2:
                            writes[(id(e[0]), 'v')] = (e[0], 'v', e[0].v)
                        else:
                            writes[(id(e[0]), e[1])] = (e[0], e[1], getattr(e[0], e[1]))
                    # objects created inside keep their state: they are only reachable through the recorded writes
                    undo_to([e for e in trail if callable(e) or e[0].ser <= ser0], 0)
                    conds = self.pc[base_pc:]
                    del self.pc[base_pc:]
                    maxfresh = max(maxfresh, self.fresh_n)
                    newev = self.events[nev:]
                    del self.events[nev:]
                stack.extend(self.pending)
                if not skip:
                    results.append((conds, kind, val, writes, newev))
        finally:
            self.sched, self.pos, self.pending = outer
        return results

    def concretize(self, v):
        """case split on a value that is one of a few integer constants"""
        if not isinstance(v, z3.ArithRef):
            return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        leaves, todo = [], [v]
        while todo:
            t = todo.pop()
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                todo += [t.arg(1), t.arg(2)]
            elif z3.is_int_value(t):
                leaves.append(t.as_long())
            else:
                raise Unsupported('value is not a case distinction over constants')
        leaves = sorted(set(leaves))
        for x in leaves[:-1]:
            if self.branch(v == x):
                return x
        return leaves[-1]

    # ---------------- numeric helpers ----------------
    def split_value(self, v, l, w):
        key = (v.get_id(), l, w)
        if key in self.splits:
            return self.splits[key][1]
        ds = self.digit_sum(v, l, w)
        if ds is not None:
            self.splits[key] = (v, ds)
            return ds
        if self.sym_chars is not None and l in (2, 4, 8) and w == 8 and self.valid(z3.And(v >= 0, v <= 255)):
            ds = [v] + [0] * (l - 1)
            self.splits[key] = (v, ds)
            return ds
        parts = []
        for i in range(l):
            parts.append(self.fresh('limb%d_%d' % (w, i), 'int', 0, (1 << w) - 1))
        tot = parts[0]
        for i in range(1, l):
            tot = tot + parts[i] * (1 << (w * i))
        self.fact(v == tot)
        # positional representation is unique: instances against earlier splits and the extreme constants
        for (l2, w2, v2, parts2) in self.split_list:
            if (l2, w2) == (l, w):
                self.fact((v == v2) == z3.And(*[a == b for a, b in zip(parts, parts2)]))
        self.fact((v == 0) == z3.And(*[a == 0 for a in parts]))
        self.fact((v == (1 << (w * l)) - 1) == z3.And(*[a == (1 << w) - 1 for a in parts]))
        for i, x in enumerate(parts):
            self.limb_of[x.get_id()] = (v, i, w)
            if w == 8:
                self.byte_ids[x.get_id()] = x
        self.splits[key] = (v, parts)
        self.split_list.append((l, w, v, parts))
        return parts

    def digit_sum(self, v, l, w):
        """v written as a sum of known base-2^w digits at distinct positions: those digits"""
        if not z3.is_add(v):
            return None
        known = set(q.get_id() for (l2, w2, v2, ps) in self.split_list if w2 == w for q in ps if is_sym(q))
        out = [0] * l
        for t in v.children():
            k, x = 1, t
            if z3.is_mul(t):
                ch = t.children()
                if len(ch) != 2:
                    return None
                if z3.is_int_value(ch[0]):
                    k, x = ch[0].as_long(), ch[1]
                elif z3.is_int_value(ch[1]):
                    k, x = ch[1].as_long(), ch[0]
                else:
                    return None
            if z3.is_add(x) and k == 1:
                return self.digit_sum(z3.simplify(v), l, w) if not z3.simplify(v).eq(v) else None
            if x.get_id() not in known or k <= 0 or k & (k - 1) or (k.bit_length() - 1) % w:
                return None
            i = (k.bit_length() - 1) // w
            if i >= l or is_sym(out[i]):
                return None
            out[i] = x
        return out

    def recombine(self, parts, tot, be):
        """if the parts are exactly the split of an earlier value, return that value"""
        ps = [c[2] for c in parts]
        if be:
            ps = ps[::-1]
        if not all(is_sym(p) for p in ps) or any(c[1] != 1 for c in parts):
            return None
        ids = [p.get_id() for p in ps]
        for (l2, w2, v2, parts2) in self.split_list:
            if len(parts2) == len(ids) and [q.get_id() for q in parts2] == ids:
                return v2
        return None

    def norm_lin(self, e):
        """rewrite complete digit sums of a split value back to the value (pure rewriting with facts already asserted)"""
        if not is_sym(e):
            return e
        lin, const = {}, 0
        terms = {}
        stack = [(e, 1)]
        while stack:
            x, c = stack.pop()
            if z3.is_int_value(x):
                const += c * x.as_long()
            elif z3.is_add(x):
                stack.extend((y, c) for y in x.children())
            elif z3.is_mul(x):
                k, rest = 1, []
                for y in x.children():
                    if z3.is_int_value(y):
                        k *= y.as_long()
                    else:
                        rest.append(y)
                if len(rest) == 1:
                    stack.append((rest[0], c * k))
                elif not rest:
                    const += c * k
                else:
                    r = rest[0]
                    for y in rest[1:]:
                        r = r * y
                    terms[r.get_id()] = r
                    lin[r.get_id()] = lin.get(r.get_id(), 0) + c * k
            else:
                terms[x.get_id()] = x
                lin[x.get_id()] = lin.get(x.get_id(), 0) + c
        changed = False
        for (l, w, v, parts) in self.split_list:
            c0 = lin.get(parts[0].get_id())
            if c0 and is_sym(v) and all(lin.get(q.get_id()) == c0 << (w * i) for i, q in enumerate(parts)):
                for q in parts:
                    del lin[q.get_id()]
                lin[v.get_id()] = lin.get(v.get_id(), 0) + c0
                terms[v.get_id()] = v
                changed = True
        if not changed:
            return e
        r = None
        for i, c in lin.items():
            if c == 0:
                continue
            t = terms[i] if c == 1 else terms[i] * c
            r = t if r is None else r + t
        if r is None:
            return const
        return r if const == 0 else r + const

    def wrap(self, v, t):
        t = norm_type(strip_ref(t))
        if isinstance(v, bool):
            if t == 'bool':
                return v
            v = int(v)
        if t == 'bool':
            return self.to_bool(v)
        it = INT_TYPES.get(t)
        if it is None:
            return v
        w, s = it
        if isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, int):
            v &= (1 << w) - 1
            if s and v >> (w - 1):
                v -= 1 << w
            return v
        if isinstance(v, z3.ArithRef):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if v.get_id() in self.byte_ids and w + (not s) > 8:
                return v
            if w == 8 and v.get_id() in self.sbyte_of:
                return v if s else self.sbyte_of[v.get_id()]
            if s and w == 8 and self.is_byte(v):
                r = z3.If(v >= 128, v - 256, v)
                self.sbyte_of[r.get_id()] = v
                self.keep.append(r)
                return r
            if self.valid(z3.And(v >= lo, v <= hi)):
                return v
            if s:
                raise Unsupported('possible signed overflow')
            return z3.simplify(v % (1 << w))
        return v

    def is_byte(self, v):
        if isinstance(v, int):
            return 0 <= v < 256
        k = v.get_id()
        if k in self.byte_ids:
            return True
        if self.valid(z3.And(v >= 0, v <= 255)):
            self.byte_ids[k] = v
            return True
        return False

    def byte_xor(self, a, b):
        """xor of bytes in normal form: a set of byte terms and a constant (x ^ x = 0, associative, commutative)"""
        leaves, const = {}, 0
        for v in (a, b):
            if isinstance(v, int):
                if not 0 <= v < 256:
                    raise Unsupported('xor of a wide constant')
                const ^= v
                continue
            if not self.is_byte(v):
                raise Unsupported('xor of a value that may not be a byte')
            ls, c = self.xor_of.get(v.get_id(), ({v.get_id(): v}, 0))
            const ^= c
            for k, x in ls.items():
                if k in leaves:
                    del leaves[k]
                else:
                    leaves[k] = x
        if not leaves:
            return const
        if const == 0 and len(leaves) == 1:
            return next(iter(leaves.values()))
        key = (frozenset(leaves), const)
        if key not in self.xor_memo:
            r = z3.Int('xor#%s#%d' % ('.'.join(sorted(x.sexpr() for x in leaves.values())), const))
            self.xor_memo[key] = r
        r = self.xor_memo[key]
        self.fact(z3.And(r >= 0, r <= 255))
        self.xor_of[r.get_id()] = (leaves, const)
        self.byte_ids[r.get_id()] = r
        return r

    def to_bool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if v is NULL:
            return False
        if isinstance(v, (Ptr, APtr, Closure, FuncRef)):
            return True
        if isinstance(v, UPtr):
            return v.p is not NULL
        if isinstance(v, str):
            return True
        raise Unsupported('to_bool of %r' % (v,))

    def arith(self, op, a, b, t):
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if isinstance(b, z3.BoolRef):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        # pointers and iterators
        if isinstance(a, (APtr, Iter)) or isinstance(b, (APtr, Iter)):
            return self.ptr_arith(op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            import operator
            return {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}[op](a, b)
        if isinstance(a, MVal) or isinstance(b, MVal):
            raise Unsupported('arithmetic on abstract residue')
        conc = isinstance(a, int) and isinstance(b, int)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            if conc:
                if b == 0:
                    raise UB('division by zero')
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                r = q if op == '/' else a - q * b
            else:
                if not self.valid(z(b) != 0):
                    if self.branch(z(b) == 0):
                        raise UB('division by zero')
                if not self.valid(z3.And(z(a) >= 0, z(b) > 0)):
                    raise Unsupported('signed symbolic division')
                r = (z(a) / z(b)) if op == '/' else (z(a) % z(b))
        elif op in ('&', '|', '^') and not conc and as_bit(a) is not None and as_bit(b) is not None:
            x, y = as_bit(a), as_bit(b)
            c = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
            return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        elif op == '&':
            if conc:
                r = a & b
            else:
                m, x = (a, b) if isinstance(a, int) else (b, a)
                if isinstance(m, int) and m >= 0 and (m & (m + 1)) == 0:
                    r = z(x) % (m + 1)
                else:
                    r = self.fresh('band', 'int', 0)
                    self.approx.append('bitwise and of two symbolic values')
                    self.fact(r <= z(a))
                    self.fact(r <= z(b))
        elif op == '|':
            if conc:
                r = a | b
            else:
                raise Unsupported('symbolic |')
        elif op == '^':
            if conc:
                r = a ^ b
            else:
                return self.byte_xor(a, b)
        elif op == '<<':
            if isinstance(b, int):
                r = a * (1 << b)
            else:
                raise Unsupported('symbolic shift')
        elif op == '>>':
            if isinstance(b, int):
                r = (a >> b) if conc else z(a) / (1 << b)
            else:
                raise Unsupported('symbolic shift')
        else:
            raise Unsupported('operator ' + op)
        return self.wrap(r, t)

    def ptr_arith(self, op, a, b):
        if op == '+':
            if isinstance(b, (APtr, Iter)):
                a, b = b, a
            cls = type(a)
            base = a.base if cls is APtr else a.c
            return cls(base, self.iadd(a.i, b))
        if op == '-':
            if isinstance(b, (APtr, Iter)):
                return self.iadd(a.i, b.i, -1)
            cls = type(a)
            base = a.base if cls is APtr else a.c
            return cls(base, self.iadd(a.i, b, -1))
        raise Unsupported('pointer op ' + op)

    def iadd(self, x, y, s=1):
        r = x + s * y
        return z3.simplify(r) if is_sym(r) else r

    def compare(self, op, a, b):
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.i is None or b.i is None:      # map end markers
                eq = (a.i is None) == (b.i is None)
                return eq if op == '==' else not eq
            if isinstance(a.c, star.View) or isinstance(b.c, star.View):
                # an element found in a list of arbitrary length, against the end of that list
                v, e = (a, b) if isinstance(a.c, star.View) else (b, a)
                if op in ('==', '!=') and v.c.of is e.c and e.c is not None and is_sym(e.i) and e.i.eq(star.length(e.c.items)):
                    return op == '!='
                raise Unsupported('comparison of iterators into a list of arbitrary length')
            a, b = a.i, b.i
        if isinstance(a, APtr) and isinstance(b, APtr):
            if a.base is not b.base:
                if op == '==':
                    return False
                if op == '!=':
                    return True
                raise Unsupported('comparison of unrelated pointers')
            a, b = a.i, b.i
        if isinstance(a, UPtr):
            a = a.p
        if isinstance(b, UPtr):
            b = b.p
        if a is NULL or b is NULL or isinstance(a, (Ptr, APtr)) or isinstance(b, (Ptr, APtr)):
            same = (a is b) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.loc is b.loc)
            if a is NULL and isinstance(b, str) or b is NULL and isinstance(a, str):
                same = False
            if op == '==':
                return same
            if op == '!=':
                return not same
            raise Unsupported('pointer order')
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return self.str_compare(op, a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a == b:
                return op in ('==', '<=', '>=')
            x, y = self.opaque_rank(a), self.opaque_rank(b)
            a, b = x, y
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if op in ('==', '!='):
                x = a if isinstance(a, (bool, z3.BoolRef)) else z(a) != 0
                y = b if isinstance(b, (bool, z3.BoolRef)) else z(b) != 0
                r = z(x) == z(y)
                return z3.simplify(r if op == '==' else z3.Not(r))
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if isinstance(a, z3.BoolRef) else a
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0)) if isinstance(b, z3.BoolRef) else b
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, MVal) or isinstance(b, MVal):
            raise Unsupported('comparison of abstract residue')
        import operator
        f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op]
        if not isinstance(a, (int, float, z3.ArithRef)) or not isinstance(b, (int, float, z3.ArithRef)):
            raise Unsupported('compare %r %r' % (type(a), type(b)))
        r = f(a, b)
        if is_sym(r):
            return z3.simplify(r)
        return r

    # ---------------- strings ----------------
    def str_rank(self, s):
        if isinstance(s, str) and s == '':
            return z3.IntVal(0)
        key = s if isinstance(s, str) else s.node
        r = self.strs.get(key)
        if r is None:
            r = z3.Int('str:%s' % (key if isinstance(key, str) else repr(key))[:60] + ('#%d' % atom('strnode', key).id))
            self.strs[key] = r
            if isinstance(s, str):
                self.fact(r > 0)
                for k2, r2 in list(self.strs.items()):
                    if isinstance(k2, str) and k2 != key:
                        self.fact(r < r2 if key < k2 else r > r2)
            else:
                self.fact(r >= 0)
                if s.node and s.node[0] in ('hexQ', 'hexP', 'dec', 'doc', 'iso'):
                    self.fact(r > 0)
                if s.node and s.node[0] == 'cat' and any(isinstance(p, str) and p for p in s.node[1:]):
                    self.fact(r > 0)
        return r

    def opaque_rank(self, o):
        return z3.Int('opq:%s:%s' % (o.kind, o.key))

    def str_compare(self, op, a, b):
        if self.sym_chars and (chars.symbolic(a) or chars.symbolic(b)) and isinstance(a, str) and isinstance(b, str):
            if op not in ('==', '!='):
                raise Unsupported('order of strings of arbitrary characters')
            e = chars.equal(self, a, b)
            return e if op == '==' else (not e if isinstance(e, bool) else z3.Not(e))
        if isinstance(a, str) and isinstance(b, str):
            import operator
            return {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[op](a, b)
        if a == b:
            return op in ('==', '<=', '>=')
        if op in ('==', '!=') and isinstance(a, SymStr) and isinstance(b, SymStr) and a.node[0] == b.node[0] and a.node[0] in ('hexQ', 'hexP') and len(a.node) == 2 and self.hex_eq is not None:
            # hex conversion is injective (C03)
            e = self.hex_eq(a.node[0], a.node[1], b.node[1])
            if e is not None:
                return e if op == '==' else (not e if isinstance(e, bool) else z3.Not(e))
        x, y = self.str_rank(a), self.str_rank(b)
        return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]

    def str_cat(self, a, b):
        def parts(x):
            if isinstance(x, str):
                return [x] if x else []
            if isinstance(x, SymStr):
                return list(x.node[1:]) if x.node[0] == 'cat' else [x.node]
            raise Unsupported('concatenation of %r' % (x,))
        ps = parts(a) + parts(b)
        out = []
        for p in ps:
            if out and isinstance(out[-1], str) and isinstance(p, str):
                out[-1] += p
            else:
                out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            return out[0] if isinstance(out[0], str) else SymStr(out[0])
        return SymStr(('cat',) + tuple(out))

    # ---------------- class handling ----------------
    def resolve_class(self, name, ctx=None):
        name = norm_type(strip_ref(norm_type(name)))
        key = (name, ctx)
        if key in self.class_cache:
            return self.class_cache[key]
        cl = self.prog.classes
        cand = None
        if name in cl:
            cand = cl[name]
        if cand is None and ctx:
            c = ctx
            while c:
                if c + '::' + name in cl:
                    cand = cl[c + '::' + name]
                    break
                if '::' not in c:
                    break
                c = c.rsplit('::', 1)[0]
        if cand is None:
            for pre in ('electionguard::', 'hacl_electionguard::'):
                if pre + name in cl:
                    cand = cl[pre + name]
        if cand is None:
            m = [c for q, c in cl.items() if q.endswith('::' + name)]
            if len(m) == 1:
                cand = m[0]
        if cand is None and name.startswith('hacl::'):
            cand = cl.get('hacl_electionguard::' + name[6:])
        self.class_cache[key] = cand
        return cand

    def bases(self, cls):
        out = []
        for b in cls.bases:
            c = self.resolve_class(b, cls.qn)
            if c:
                out.append(c)
        return out

    def all_fields(self, cls):
        out = []
        for b in self.bases(cls):
            out += self.all_fields(b)
        for f in cls.fields:
            out.append((cls, f))
        return out

    def derives(self, cls, base):
        if cls.qn == base.qn:
            return True
        return any(self.derives(b, base) for b in self.bases(cls))

    def find_method(self, cls, name, sig=None, const=None):
        for m in cls.methods:
            if m.name == name and (sig is None or m.type == sig):
                return m
        for b in self.bases(cls):
            m = self.find_method(b, name, sig)
            if m:
                return m
        return None

    def definition(self, f):
        if f.body is not None:
            return f
        d = self.prog.defs.get(f.mangled or f.qn)
        return d or f

    # ---------------- default values ----------------
    def array_dims(self, t):
        m = re.match(r'^(.*?)((?:\[\d+\])+)$', t.strip())
        if not m:
            return None
        dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]
        return m.group(1).strip(), dims

    def default_value(self, t, ctx=None, init=True):
        t = norm_type(t)
        ad = self.array_dims(t)
        if ad:
            return self.make_array(ad[0], ad[1], ctx)
        if t.endswith('*'):
            return NULL
        if t in INT_TYPES:
            return False if t == 'bool' else 0
        if t in ('double', 'float'):
            return 0.0
        name, args = tmpl(t)
        if name in ('unique_ptr', 'shared_ptr', '__shared_ptr'):
            return UPtr(NULL, name != 'unique_ptr')
        if name == 'vector':
            return self.new_vec(args[0])
        if name in ('basic_string', 'string', 'basic_string_view', 'string_view'):
            return ''
        if name in ('map', 'unordered_map', 'set', 'unordered_set', 'multimap'):
            if self.star_sets and name in ('set', 'unordered_set'):
                return star.SetV(self)
            if self.flag_maps and len(args) > 1 and 'multi' not in name and norm_type(args[1]) == 'bool':
                return star.FlagMap(self)
            m = MapV(name in ('map', 'set'), 'set' in name)
            m.vtype = args[1] if len(args) > 1 else None
            return m
        if name == 'queue' and self.sym_queues:
            return __import__('queues').QueueV(args[0])
        if name == 'queue' or name == 'deque':
            return Vec(etype=args[0])
        if name in ('basic_stringstream', 'stringstream', 'basic_ostringstream', 'ostringstream'):
            return OStream()
        if name == 'array':
            return self.make_array(args[0], [int(re.sub(r'[^0-9]', '', args[1]))], ctx)
        if name == 'nullptr_t':
            return NULL
        if name.endswith('basic_json'):
            return __import__('jsonm').Json()
        if name in ('mutex', 'recursive_mutex', 'lock_guard', 'unique_lock', 'scoped_lock', 'atomic', 'shared_mutex', 'condition_variable'):
            return Opaque(name)
        if name.startswith('chrono::'):
            return Opaque('time', 0)
        if name == 'pair' or name == 'tuple':
            return Pair(*[Cell(self.default_value(a, ctx)) for a in args])
        if name == 'optional':
            return Variant(0, None, args)
        c = self.resolve_class(t, ctx)
        if c is not None:
            return self.construct(c, [], [])
        if t == 'Hacl_HMAC_DRBG_state_s' or t.startswith('Hacl_') or t == 'tm':
            return Opaque(t)
        if self.resolve_enum(t):
            return 0
        raise Unsupported('default value of type ' + t)

    def resolve_enum(self, t):
        return t.split('::')[-1] in ('BallotBoxState', 'ByteSize', 'ElectionType', 'ReportingUnitType', 'VoteVariationType')

    def make_array(self, et, dims, ctx=None):
        et = norm_type(et)
        if len(dims) == 1:
            it = INT_TYPES.get(et)
            if it and et != 'bool':
                return Buf(self, it[0], dims[0], 0, it[1])
            inner = self.array_dims(et)
            if inner:
                return ArrayObj(dims[0], lambda: self.make_array(inner[0], inner[1], ctx))
            return ArrayObj(dims[0], lambda: self.default_value(et, ctx))
        return ArrayObj(dims[0], lambda: self.make_array(et, dims[1:], ctx))

    def new_vec(self, et):
        et = norm_type(et)
        it = INT_TYPES.get(et)
        if it and et != 'bool':
            return Buf(self, it[0], 0, 0, it[1])
        return Vec(etype=et)

    # ---------------- copies ----------------
    def copy_value(self, v):
        if isinstance(v, (int, bool, float, str, SymStr, z3.ExprRef, Ptr, APtr, Null, Elem, Opaque, Iter, RefWrap, Closure, FuncRef)) or v is None:
            return v
        if isinstance(v, Vec):
            return Vec(star.mapped(v.items, lambda c: Cell(self.copy_value(c.get()))), v.etype)
        if isinstance(v, Buf):
            b = Buf(self, v.w, 0)
            b.n = v.n
            b.signed = v.signed
            b.ch = [list(c) for c in v.ch]
            return b
        if isinstance(v, ArrayObj):
            a = ArrayObj(v.n, v.mk)
            a.items = {k: Cell(self.copy_value(c.get())) for k, c in v.items.items()}
            return a
        if isinstance(v, MapV):
            m = MapV(v.ordered, v.is_set)
            m.vtype = v.vtype
            m.items = [(k, Cell(self.copy_value(c.get())) if c is not None else None) for k, c in v.items]
            return m
        if isinstance(v, Pair):
            return Pair(*[Cell(self.copy_value(c.get())) for c in v.f])
        if isinstance(v, Variant):
            return Variant(v.idx, Cell(self.copy_value(v.loc.get())) if v.loc is not None else None, v.alts)
        if isinstance(v, UPtr):
            if v.shared:
                return UPtr(v.p, True)
            raise Unsupported('copy of unique_ptr')
        if isinstance(v, Obj):
            return self.copy_construct(v.cls, Cell(v))
        if isinstance(v, OStream):
            o = OStream(); o.parts = list(v.parts); return o
        if hasattr(v, 'egv_copy'):
            return v.egv_copy(self)
        raise Unsupported('copy of %r' % (v,))

    def move_from(self, loc):
        """value moved out of a location"""
        v = loc.get()
        if isinstance(v, UPtr):
            loc.set(UPtr(NULL, v.shared))
            return v
        if isinstance(v, Vec):
            n = Vec(v.items, v.etype)
            e = Vec(etype=v.etype)
            loc.set(e)
            return n
        if isinstance(v, Buf):
            n = v.copy()
            n.signed = v.signed
            e = Buf(self, v.w, 0, 0, v.signed)
            loc.set(e)
            return n
        if isinstance(v, MapV):
            n = MapV(v.ordered, v.is_set)
            n.items, n.vtype = v.items, v.vtype
            e = MapV(v.ordered, v.is_set)
            e.vtype = v.vtype
            loc.set(e)
            return n
        if isinstance(v, (str, SymStr)):
            loc.set('')
            return v
        if isinstance(v, Pair):
            return Pair(*[Cell(self.move_from(c)) for c in v.f])
        if isinstance(v, Obj):
            return self.move_construct(v.cls, loc)
        return self.copy_value(v)

    def user_ctor(self, cls, kind):
        for f in cls.ctors:
            if f.node.get('isImplicit'):
                continue
            if len(f.params) >= 1:
                pt = f.params[0]['type']['qualType']
                base = norm_type(strip_ref(norm_type(pt)))
                c = self.resolve_class(base, cls.qn) if not base.endswith('>') or True else None
                if c is not None and c.qn == cls.qn:
                    isrv = pt.strip().endswith('&&')
                    if (kind == 'move') == isrv:
                        return f
        return None

    def copy_construct(self, cls, loc):
        if cls.qn in self.abstract:
            return self.abstract[cls.qn].copy(self, loc)
        f = self.user_ctor(cls, 'copy')
        if f is not None:
            d = self.definition(f)
            if d.body is not None:
                return self.run_ctor(cls, d, [loc])
            if not d.defaulted:
                raise Unsupported('copy constructor of %s not available' % cls.qn)
        src = loc.get()
        o = Obj(cls)
        for k, c in src.f.items():
            o.f[k] = Cell(self.copy_value(c.get()))
        return o

    def move_construct(self, cls, loc):
        if cls.qn in self.abstract:
            return self.abstract[cls.qn].move(self, loc)
        f = self.user_ctor(cls, 'move')
        if f is not None:
            d = self.definition(f)
            if d.body is not None:
                return self.run_ctor(cls, d, [loc])
            if not d.defaulted:
                raise Unsupported('move ctor of %s not available' % cls.qn)
        elif self.user_ctor(cls, 'copy') is not None:
            return self.copy_construct(cls, loc)
        src = loc.get()
        o = Obj(cls)
        for k, c in src.f.items():
            o.f[k] = Cell(self.move_from(c))
        return o

    # ---------------- construction ----------------
    def type_score(self, ptype, arg, atype, ctx):
        """overload score of binding argument to parameter type (None: impossible)"""
        pt = ptype.strip()
        isref = pt.endswith('&')
        rv = pt.endswith('&&')
        base = norm_type(strip_ref(norm_type(pt)))
        v = arg.get() if hasattr(arg, 'get') and not isinstance(arg, z3.ExprRef) else arg
        pn, pa = tmpl(base)
        if self.array_dims(base) or re.search(r'\(&\)\s*\[', pt) or re.search(r'\(\&?\)', pt) and '[' in pt:
            return 3 if isinstance(v, (Buf, ArrayObj)) else None
        if base in INT_TYPES:
            if base == 'bool':
                if isinstance(v, (bool, z3.BoolRef)):
                    return 3
                if isinstance(v, (int, z3.ArithRef)) or v is NULL or isinstance(v, (Ptr, APtr)):
                    return 1
                return None
            if isinstance(v, (bool, z3.BoolRef)):
                return 1
            return 2 if isinstance(v, (int, z3.ArithRef)) else None
        if base.endswith('*'):
            if v is NULL:
                return 2
            if isinstance(v, Ptr):
                c = self.resolve_class(base[:-1], ctx)
                t = v.loc.get()
                if c is None:
                    return 1
                if isinstance(t, Obj):
                    return (3 if t.cls.qn == c.qn else 2) if self.derives(t.cls, c) else None
                if isinstance(t, Elem):
                    return 3 if c.qn.endswith('ElementMod' + t.kind) else (1 if 'Hashable' in c.qn and False else None)
                return 1
            if isinstance(v, APtr):
                return 2
            if isinstance(v, str):
                return 2 if 'char' in base else None
            return None
        if pn in ('basic_string', 'string'):
            return 3 if isinstance(v, (str, SymStr)) else None
        if pn in ('unique_ptr', 'shared_ptr'):
            if v is NULL:
                return 1
            if isinstance(v, UPtr):
                if v.p is NULL:
                    an, aa = tmpl(atype or '')
                    if aa and pa and aa[0].split('::')[-1] != pa[0].split('::')[-1]:
                        return 1
                    return 3
                t = v.p.loc.get() if isinstance(v.p, Ptr) else None
                c = self.resolve_class(pa[0], ctx) if pa else None
                if c is not None and isinstance(t, Obj):
                    if not self.derives(t.cls, c):
                        return None
                if c is not None and isinstance(t, Elem):
                    return 3 if c.qn.endswith('ElementMod' + t.kind) else None
                return 3
            return None
        if pn == 'vector':
            et = norm_type(pa[0]) if pa else ''
            if isinstance(v, Buf):
                it = INT_TYPES.get(et)
                return 3 if it and it[0] == v.w else None
            if isinstance(v, Vec):
                if et in INT_TYPES:
                    return None
                if v.etype:
                    a, b = tmpl(norm_type(v.etype)), tmpl(et)
                    if a[0] != b[0] and not (a[0].endswith(b[0]) or b[0].endswith(a[0])):
                        return None
                return 3
            return None
        if pn in ('map', 'unordered_map', 'set'):
            return 3 if isinstance(v, MapV) else None
        if pn == 'reference_wrapper':
            return 3 if isinstance(v, RefWrap) else (1 if isinstance(v, (Obj, Elem)) else None)
        if pn == 'nullptr_t':
            return 3 if v is NULL else None
        if pn == 'variant':
            return 2
        if pn.startswith('chrono'):
            return 3 if isinstance(v, Opaque) else None
        if pn in ('pair', 'tuple'):
            return 3 if isinstance(v, Pair) else None
        if pn == 'initializer_list':
            return 1 if isinstance(v, (Vec, Buf)) else None
        c = self.resolve_class(base, ctx)
        if c is not None:
            if isinstance(v, Obj):
                if v.cls.qn == c.qn:
                    return 3
                return 2 if self.derives(v.cls, c) else None
            if isinstance(v, Elem):
                return 3 if c.qn.endswith('ElementMod' + v.kind) else None
            return None
        if isinstance(v, int) and self.resolve_enum(base):
            return 3
        if isinstance(v, Opaque):
            return 1
        return 0 if not isinstance(v, (Obj, Elem)) else None

    def construct(self, cls, args, atypes, ctorType=None, rvals=None):
        """construct an object of class cls; args are locations"""
        if cls.qn in self.abstract:
            r = self.abstract[cls.qn].construct(self, args, atypes)
            if r is not NotImplemented:
                return r
        cands = []
        for f in cls.ctors:
            if f.deleted:
                continue
            if ctorType is not None and f.type.replace(' noexcept', '') == ctorType.replace(' noexcept', ''):
                if f.node.get('isImplicit') and self.definition(f).body is None:
                    break
                return self.run_ctor(cls, self.definition(f), args)
        # implicit default / copy / move
        if len(args) == 1:
            v = args[0].get()
            if isinstance(v, Obj) and v.cls.qn == cls.qn:
                if (rvals and rvals[0]) or (ctorType and '&&' in ctorType):
                    return self.move_construct(cls, args[0])
                return self.copy_construct(cls, args[0])
            if isinstance(v, Obj) and self.derives(v.cls, cls) and not any(not f.node.get('isImplicit') for f in cls.ctors):
                return self.slice_copy(cls, v)
        for f in cls.ctors:
            if f.deleted or f.node.get('isImplicit') and len(args) > 0:
                continue
            d = self.definition(f)
            pars = f.params
            nreq = sum(1 for a, b in zip(pars, d.params if len(d.params) == len(pars) else pars)
                       if not (astload.has_expr(a) or astload.has_expr(b) or a.get('defaultFrom') or a.get('init') or b.get('defaultFrom') or b.get('init')))
            if not (nreq <= len(args) <= len(pars)):
                continue
            sc = 0
            ok = True
            for i, a in enumerate(args):
                s = self.type_score(pars[i]['type'].get('desugaredQualType') or pars[i]['type']['qualType'], a, atypes[i] if i < len(atypes) else None, cls.qn)
                if s is None:
                    ok = False
                    break
                if rvals is not None and i < len(rvals):
                    pt = pars[i]['type']['qualType'].strip()
                    if pt.endswith('&&') and not rvals[i]:
                        ok = False
                        break
                    if pt.endswith('&') and not pt.endswith('&&') and rvals[i] and not pt.startswith('const'):
                        ok = False
                        break
                    if pt.endswith('&&') and rvals[i]:
                        s += 0.5
                sc += s
            if ok:
                cands.append((sc, -len(pars), f))
        if cands:
            cands.sort(key=lambda x: (x[0], x[1]), reverse=True)
            f = self.definition(cands[0][2])
            if not (f.body is None and f.node.get('isImplicit')):
                return self.run_ctor(cls, f, args)
        if not args:
            o = Obj(cls)
            for b in self.bases(cls):
                bo = self.construct(b, [], [])
                o.f.update(bo.f)
            for fd in cls.fields:
                o.f[fd['name']] = Cell(self.field_default(cls, fd))
            return o
        # aggregate initialisation
        raise Unsupported('no matching constructor for %s with %d args (%s)' % (cls.qn, len(args), [type(a.get()).__name__ for a in args]))

    def slice_copy(self, cls, v):
        o = Obj(cls)
        for c, fd in self.all_fields(cls):
            if fd['name'] in v.f:
                o.f[fd['name']] = Cell(self.copy_value(v.f[fd['name']].get()))
        return o

    def field_default(self, cls, fd):
        for ch in fd.get('inner', ()):
            if ch.get('kind', '').endswith('Expr') or ch.get('kind', '').endswith('Literal'):
                fr = Frame(None, cls.tu, None, cls=cls.qn)
                old = self.frame
                self.frame = fr
                try:
                    return self.init_value(fd['type'].get('desugaredQualType') or fd['type']['qualType'], ch, cls.qn)
                finally:
                    self.frame = old
        t = fd['type'].get('desugaredQualType') or fd['type']['qualType']
        if t.strip().endswith('&'):
            return None
        try:
            return self.default_value(t, cls.qn)
        except Unsupported:
            return Opaque('uninit', t)

    def run_ctor(self, cls, f, args):
        if f.qn in self.contracts:
            r = self.contracts[f.qn](self, None, args, f)
            if r is not NotImplemented:
                self.contracted.add(f.qn)
                return r
        f = self.definition(f)
        if f.body is None:
            if f.defaulted and not f.params:
                o = Obj(cls)
                for b in self.bases(cls):
                    o.f.update(self.construct(b, [], []).f)
                for fd in cls.fields:
                    o.f[fd['name']] = Cell(self.field_default(cls, fd))
                return o
            if f.defaulted and len(f.params) == 1:
                src = args[0].get()
                o = Obj(cls)
                mv = f.params[0]['type']['qualType'].strip().endswith('&&')
                for k, c in src.f.items():
                    o.f[k] = Cell(self.move_from(c) if mv else self.copy_value(c.get()))
                return o
            raise Unsupported('no body for constructor %s' % f.qn)
        self.inlined.add(f.qn)
        o = Obj(cls)
        this = Cell(o)
        fr = Frame(f, f.tu, this, cls=cls.qn)
        old = self.frame
        self.bind_params(f, args, fr)
        self.frame = fr
        try:
            # base and member initialisers in order
            done = set()
            inits = f.inits
            for ini in inits:
                ai = ini.get('anyInit')
                bi = ini.get('baseInit') or ini.get('delegatingInit')
                if bi is not None:
                    e = ini['inner'][0]
                    bt = bi.get('desugaredQualType') or bi['qualType']
                    v = self.rvalue(e)
                    if isinstance(v, Obj):
                        if v.cls.qn == cls.qn:     # delegating constructor
                            for k, c in v.f.items():
                                o.f[k] = c
                        else:
                            for k, c in v.f.items():
                                o.f.setdefault(k, c)
                    done.add('base')
            for c, fd in self.all_fields(cls):
                if c.qn != cls.qn and fd['name'] not in o.f:
                    o.f[fd['name']] = Cell(self.field_default(c, fd))
            initmap = {}
            for ini in inits:
                ai = ini.get('anyInit')
                if ai is not None:
                    fdn = f.tu.byid.get(ai.get('id'))
                    initmap[fdn['name'] if fdn is not None else ai['name']] = ini['inner'][0]
            for fd in cls.fields:
                nm = fd.get('name')
                if nm in o.f and nm not in initmap:
                    continue
                t = fd['type'].get('desugaredQualType') or fd['type']['qualType']
                if nm in initmap:
                    e = initmap[nm]
                    if e['kind'] == 'CXXDefaultInitExpr':
                        o.f[nm] = Cell(self.field_default(cls, fd))
                        continue
                    if t.strip().endswith('&'):
                        o.f[nm] = self.ev(e)
                    else:
                        o.f[nm] = Cell(self.init_value(t, e, cls.qn))
                else:
                    o.f[nm] = Cell(self.field_default(cls, fd))
            try:
                self.stmt(f.body)
            except ReturnEx:
                pass
        finally:
            self.frame = old
        return o

    # ---------------- calls ----------------
    def bind_params(self, f, args, fr, arg_is_prvalue=None):
        n = len(f.params)
        for i, p in enumerate(f.params):
            pt = p['type'].get('desugaredQualType') or p['type']['qualType']
            if i < len(args):
                a = args[i]
                fr.vars[p['id']] = self.bind_one(pt, a, fr.cls)
            else:
                fr.vars[p['id']] = self.default_arg(f, i, fr)

    def default_arg(self, f, i, fr):
        p = f.params[i]
        src = p
        cand = [p]
        if p.get('defaultFrom'):
            cand.append(p['defaultFrom'])
        for g in self.prog.funcs.get(f.qn, ()):
            if g.type == f.type or len(g.params) == len(f.params):
                if i < len(g.params):
                    cand.append(g.params[i])
        for c in cand:
            for ch in c.get('inner', ()):
                if ch.get('kind', '').endswith('Expr') or ch.get('kind', '').endswith('Literal') or ch.get('kind') == 'ExprWithCleanups':
                    old = self.frame
                    self.frame = Frame(None, f.tu, None, cls=f.cls)
                    try:
                        pt = p['type'].get('desugaredQualType') or p['type']['qualType']
                        if pt.strip().endswith('&'):
                            return self.as_loc(self.ev(ch))
                        return Cell(self.init_value(pt, ch, f.cls))
                    finally:
                        self.frame = old
        raise Unsupported('missing default argument %d of %s' % (i, f.qn))

    def bind_one(self, pt, a, ctx=None):
        """bind argument location a to parameter type; by-value parameters already got a fresh location from the
        constructing expression, except in forwarded calls"""
        pt = pt.strip()
        if pt.endswith('&'):
            return self.convert_loc(pt, a, ctx)
        v = a.get()
        return Cell(self.implicit_convert(pt, v, ctx))

    def convert_loc(self, pt, a, ctx):
        base = norm_type(strip_ref(norm_type(pt)))
        n, args = tmpl(base)
        v = a.get()
        if n in ('basic_string', 'string') and isinstance(v, str):
            return a
        if isinstance(v, RefWrap) and n != 'reference_wrapper':
            return v.loc
        if n == 'unique_ptr' and v is NULL:
            return Cell(UPtr(NULL))
        return a

    def implicit_convert(self, t, v, ctx=None):
        base = norm_type(strip_ref(norm_type(t)))
        n, args = tmpl(base)
        if n in ('unique_ptr', 'shared_ptr'):
            if v is NULL:
                return UPtr(NULL, n == 'shared_ptr')
            if isinstance(v, (Ptr, APtr)):
                return UPtr(v, n == 'shared_ptr')
            if isinstance(v, UPtr) and n == 'shared_ptr':
                return UPtr(v.p, True)
        if base in INT_TYPES and isinstance(v, (int, bool, z3.ExprRef)):
            return self.wrap(v, base)
        if type(v).__name__ == 'Json' and not n.endswith('basic_json'):
            return v.to(self, base)
        return v

    def call_function(self, f, this, args, virtual=False):
        """args: list of locations.  Returns value or location (reference-returning functions)"""
        if virtual and this is not None and f.virtual:
            o = this.get()
            if isinstance(o, Obj):
                m = self.find_method(o.cls, f.name, None)
                mm = [x for x in self.override_candidates(o.cls, f)]
                if mm:
                    f = mm[0]
        h = self.contracts.get(f.qn)
        if h is not None:
            r = h(self, this, args, f)
            if r is not NotImplemented:
                self.contracted.add(f.qn)
                return r
        if f.qn.startswith('electionguard::variant_cast_proxy<') and 'operator' in f.qn and isinstance(this.get(), Variant):
            # variant_cast(v) -> std::variant<ToArgs...>: the same held value under the target's alternatives
            v = this.get()
            rt = f.node['type'].get('desugaredQualType', f.node['type']['qualType']).split('(')[0].strip()
            alts = tmpl(rt)[1]
            t = Variant(0, v.loc, alts)
            t.idx = self.stl.variant_index(self, v.alts[v.idx], t)
            t.loc = Cell(self.copy_value(v.loc.get()))
            return t
        for pre, h in self.prefix_contracts:
            if f.qn.startswith(pre):
                r = h(self, this, args, f)
                if r is not NotImplemented:
                    return r
        if this is not None and isinstance(this.get(), Elem):
            raise Unsupported('no contract for %s on an abstract element' % f.qn)
        d = self.definition(f)
        if d.body is None:
            if d.defaulted and f.name == 'operator=':
                v = args[0].get()
                mv = f.params[0]['type']['qualType'].strip().endswith('&&')
                if isinstance(v, Obj):
                    o = this.get()
                    for k, c in v.f.items():
                        o.f[k].set(self.move_from(c) if mv else self.copy_value(c.get()))
                    return this
            raise Unsupported('no body for %s' % f.qn)
        return self.run_body(d, this, args)

    def override_candidates(self, cls, f):
        for m in cls.methods:
            if m.name == f.name and len(m.params) == len(f.params) and (m.type == f.type or m.type.replace(' noexcept', '') == f.type.replace(' noexcept', '')):
                return [m]
        for b in self.bases(cls):
            r = self.override_candidates(b, f)
            if r:
                return r
        return []

    def run_body(self, d, this, args):
        self.inlined.add(d.qn)
        fr = Frame(d, d.tu, this, cls=d.cls)
        if len(self.exc_stack) > 120:
            raise Unsupported('call depth')
        old = self.frame
        self.exc_stack.append(d.qn)
        try:
            self.bind_params(d, args, fr)
            self.frame = fr
            try:
                self.stmt(d.body)
                return None
            except ReturnEx as r:
                return r.v
        finally:
            self.frame = old
            self.exc_stack.pop()

    # ---------------- statements ----------------
    def stmt(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        k = n.get('kind')
        if k is None:
            return
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            self.ev(n)
            return
        raise Unsupported('statement ' + k)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            k = d['kind']
            if k == 'VarDecl':
                self.declare(d)
            elif k == 'DecompositionDecl':
                self.declare_decomp(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'EnumDecl', 'EmptyDecl', 'UsingShadowDecl'):
                pass
            else:
                raise Unsupported('declaration ' + k)

    def declare_decomp(self, d):
        init = [c for c in d.get('inner', ()) if c.get('kind') != 'BindingDecl']
        binds = [c for c in d.get('inner', ()) if c.get('kind') == 'BindingDecl']
        t = d['type']['qualType']
        loc = self.as_loc(self.ev(init[0]))
        if not t.strip().endswith('&'):
            loc = Cell(self.copy_or_move(init[0], loc))
        v = loc.get()
        if isinstance(v, Pair):
            fs = v.f
        elif isinstance(v, Obj):
            fs = [v.f[fd['name']] for _, fd in self.all_fields(v.cls)]
        else:
            raise Unsupported('structured binding of %r' % (v,))
        for b, c in zip(binds, fs):
            self.frame.vars[b['id']] = c

    def copy_or_move(self, e, loc):
        return self.copy_value(loc.get()) if e.get('valueCategory') == 'lvalue' else loc.get()

    def declare(self, d):
        t = d['type'].get('desugaredQualType') or d['type']['qualType']
        if d.get('storageClass') == 'static':
            key = d['id'], d.get('name')
            if key in self.statics:
                self.frame.vars[d['id']] = self.statics[key]
                return
        init = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        if t.strip().endswith('&'):
            loc = self.as_loc(self.ev(init[0]))
        elif init:
            loc = Cell(self.init_value(t, init[0], self.frame.cls))
        else:
            loc = Cell(self.default_value(t, self.frame.cls))
        self.frame.vars[d['id']] = loc
        if d.get('storageClass') == 'static':
            self.statics[d['id'], d.get('name')] = loc

    def s_ReturnStmt(self, n):
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if not inner:
            raise ReturnEx(None)
        e = inner[0]
        f = self.frame.func
        v = self.ev(e)
        raise ReturnEx(v)

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        c = self.rvalue(inner[0])
        if n.get('isConstexpr'):
            c = self.to_bool(c)
        if self.branch(self.to_bool(c)):
            self.stmt(inner[1])
        elif len(inner) > 2:
            self.stmt(inner[2])

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.rvalue(inner[0])
        body = inner[-1]
        cases = []
        flat = []
        def flatten(s):
            if s['kind'] == 'CaseStmt':
                vals = [s['inner'][0]]
                flat.append(('case', s['inner'][0]))
                flatten(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                flatten(s['inner'][0])
            else:
                flat.append(('stmt', s))
        for s in body.get('inner', ()):
            flatten(s)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == 'case':
                cv = self.rvalue(x)
                if self.branch(self.compare('==', v, cv)):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'stmt':
                    self.stmt(x)
        except BreakEx:
            pass

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def loop(self, n, cond, body, inc):
        exits = []       # conditions of deferred early returns of one and the same constant
        try:
            self.loop_(n, cond, body, inc, exits)
        finally:
            if exits:
                # decide the early exit once, over all iterations
                cs, k, conts = [e[0] for e in exits], exits[0][1], [e[2] for e in exits]
                ids = set(id(x) for x in conts)
                self.pc = [x for x in self.pc if id(x) not in ids]
        if exits:
            if self.branch(z3.Or(*cs)):
                raise ReturnEx(k)

    def loop_(self, n, cond, body, inc, exits):
        it = 0
        if self.sym_queues and not self.in_cut:
            return __import__('queues').cut_loop(self, cond, body, inc)
        while True:
            if cond is not None and not self.branch(self.to_bool(cond())):
                return
            it += 1
            if it > self.unwind:
                raise Unsupported('loop bound exceeded')
            mb = self.merge_loops and self.merged_body(body, exits)
            if mb == 'stop':
                return
            if mb:
                if inc is not None:
                    inc()
                continue
            try:
                body()
            except BreakEx:
                return
            except ContinueEx:
                pass
            if inc is not None:
                inc()

    def merged_body(self, body, exits=None):
        """run one loop iteration on all its paths and join the resulting states; False if not joinable"""
        rs = self.nested_explore(body)
        if not rs:
            raise Infeasible()
        rets = [r for r in rs if r[1] == 'return']
        if rets and exits is not None and not any(r[4] or r[3] for r in rs):
            norm = [r for r in rs if r[1] in ('normal', 'continue')]
            k = rets[0][2]
            if len(norm) + len(rets) == len(rs) and norm and all(type(r[2]) is type(k) and isinstance(k, (bool, int))
                    and r[2] == k for r in rets) and (not exits or exits[0][1] == k and type(exits[0][1]) is type(k)):
                c = z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in rets])
                nc = z3.And(*[x for x in [z3.Or(*[z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in norm])]])
                exits.append((c, k, nc))
                self.pc.append(nc)
                return True
            if exits and len(rets) == len(rs) and all(type(r[2]) is type(k) and r[2] == k for r in rets) and exits[0][1] == k and type(exits[0][1]) is type(k):
                # every continuation returns the same constant
                exits.append((z3.BoolVal(True), k, z3.BoolVal(True)))
                return 'stop'
        if exits:
            if all(r[1] in ('normal', 'continue') and not r[3] and not r[4] for r in rs):
                return True
            raise Unsupported('irregular early-exit loop')
        for conds, kind, val, writes, ev in rs:
            if kind not in ('normal', 'continue') or ev:
                return False
        if len(rs) == 1 and not rs[0][0]:
            self.apply_writes(rs[0][3])
            return True
        if len(rs) > 4:
            return False
        locs = {}
        for r in rs:
            for k, (o, attr, v) in r[3].items():
                locs[k] = (o, attr)
        merged = {}
        for k, (o, attr) in locs.items():
            vals = [r[3][k][2] if k in r[3] else getattr(o, attr) for r in rs]
            conds = [z3.And(*r[0]) if r[0] else z3.BoolVal(True) for r in rs]
            acc = vals[-1]
            for c, v in zip(conds[:-1][::-1], vals[:-1][::-1]):
                acc = self.join(c, v, acc)
                if acc is JOINFAIL:
                    return False
            merged[k] = (o, attr, acc)
        self.apply_writes(merged)
        return True

    def apply_writes(self, writes):
        for (o, attr, v) in writes.values():
            t = TRAIL[-1]
            if attr == 'v':
                o.set(v)
            else:
                if t is not None:
                    t.append((o, attr, getattr(o, attr)))
                setattr(o, attr, v)

    def join(self, c, a, b):
        """value equal to a when c holds and b otherwise"""
        if a is b:
            return a
        if isinstance(a, list) and isinstance(b, list):      # buffer chunks
            if len(a) != len(b):
                return JOINFAIL
            out = []
            for x, y in zip(a, b):
                if x[0] != y[0] or x[1] != y[1] or (x[1] > 1 and x[3] != y[3]):
                    return JOINFAIL
                v = self.join(c, x[2], y[2])
                if v is JOINFAIL:
                    return v
                out.append([x[0], x[1], v, x[3]])
            return out
        if isinstance(a, MVal) and isinstance(b, MVal):
            f = {}
            for k in set(a.f) | set(b.f):
                e = self.join(c, a.f.get(k, 0), b.f.get(k, 0))
                if not (isinstance(e, int) and e == 0):
                    f[k] = e
            return MVal(f)
        if isinstance(a, (int, z3.ArithRef, bool, z3.BoolRef)) and isinstance(b, (int, z3.ArithRef, bool, z3.BoolRef)):
            if isinstance(a, (bool, z3.BoolRef)) != isinstance(b, (bool, z3.BoolRef)):
                return JOINFAIL
            if not is_sym(a) and not is_sym(b) and a == b:
                return a
            if is_sym(a) and is_sym(b) and a.eq(b):
                return a
            # x == const on one side: the other side's term may already cover it
            for cc, s, o in ((c, a, b), (z3.simplify(z3.Not(c)), b, a)):
                sub = eq_subst(cc)
                if sub is not None and is_sym(o):
                    y = z3.simplify(z3.substitute(o, sub))
                    if z3.simplify(y == z(s)).eq(z3.BoolVal(True)):
                        return o
            return z3.If(c, z(a), z(b))
        if type(a) is type(b) and isinstance(a, (str, SymStr)) and a == b:
            return a
        return JOINFAIL

    def s_ForStmt(self, n):
        init, cvar, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init)
        if self.star_roots and self.star_for(init, cond, inc, body):
            return
        self.loop(n, (lambda: self.rvalue(cond)) if cond.get('kind') else None, lambda: self.stmt(body),
                  (lambda: self.ev(inc)) if inc.get('kind') else None)

    def s_WhileStmt(self, n):
        inner = n['inner']
        if self.star_roots and len(inner) == 2 and self.star_while(inner[0], inner[1]):
            return
        self.loop(n, lambda: self.rvalue(inner[0]), lambda: self.stmt(inner[-1]), None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        it = 0
        while True:
            it += 1
            if it > self.unwind:
                raise Unsupported('loop bound exceeded')
            try:
                self.stmt(body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            if self.sym_queues and not self.in_cut:
                return __import__('queues').cut_loop(self, lambda: self.rvalue(cond), lambda: self.stmt(body), None)
            if not self.branch(self.to_bool(self.rvalue(cond))):
                return

    def star_while(self, cond, body):
        """while (i < length) { ... i++ ... } over the whole of a list of arbitrary length"""
        def strip(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr') and len(x.get('inner', [])) == 1:
                x = x['inner'][0]
            return x
        c = strip(cond)
        if c.get('kind') != 'BinaryOperator' or c['opcode'] not in ('<', '!='):
            return False
        i = strip(c['inner'][0])
        if i.get('kind') != 'DeclRefExpr' or i.get('referencedDecl', {}).get('kind') != 'VarDecl':
            return False
        try:
            ci = self.frame.lookup(i['referencedDecl']['id'])
        except KeyError:
            return False
        v = ci.get() if isinstance(ci, Cell) else None
        if isinstance(v, bool) or not isinstance(v, (int, z3.ArithRef)):
            return False
        L = self.rvalue(c['inner'][1])
        if isinstance(L, bool) or not isinstance(L, (int, z3.ArithRef)):
            return False
        L = z3.simplify(z(L) - z(v))
        if L.sexpr() not in self.star_roots:
            return False
        star.index_loop(self, ci, v, L, lambda: self.stmt(body), steps=True)
        return True

    def star_for(self, init, cond, inc, body):
        """loops over the whole of a list of arbitrary length by index or iterator"""
        def strip(x):
            while x.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr', 'CXXConstructExpr') and len(x.get('inner', [])) == 1:
                x = x['inner'][0]
            return x
        def var(x):
            x = strip(x)
            return x['referencedDecl']['id'] if x.get('kind') == 'DeclRefExpr' and 'referencedDecl' in x else None
        if init.get('kind') != 'DeclStmt' or not inc.get('kind') or not cond.get('kind'):
            return False
        c = strip(cond)
        if c.get('kind') == 'BinaryOperator':
            op, ops = c['opcode'], c['inner']
        elif c.get('kind') == 'CXXOperatorCallExpr':
            op, ops = None, c['inner'][1:]
            d = strip(c['inner'][0])
            op = (d.get('referencedDecl', {}).get('name') or '')[len('operator'):]
        else:
            return False
        if op not in ('<', '!=') or len(ops) != 2:
            return False
        i = var(ops[0])
        if i is None or i not in [d.get('id') for d in init['inner']]:
            return False
        e = strip(inc)
        if e.get('kind') == 'UnaryOperator' and e['opcode'] == '++':
            j = var(e['inner'][0])
        elif e.get('kind') == 'CXXOperatorCallExpr' and (strip(e['inner'][0]).get('referencedDecl', {}).get('name') or '') == 'operator++':
            j = var(e['inner'][1])
        elif e.get('kind') == 'CompoundAssignOperator' and e['opcode'] == '+=' and strip(e['inner'][1]).get('value') == '1':
            j = var(e['inner'][0])
        else:
            return False
        if j != i:
            return False
        ci = self.frame.lookup(i)
        v = ci.get()
        if isinstance(v, Iter) and isinstance(v.c, Vec) and isinstance(v.c.items, star.StarList):
            en = self.rvalue(ops[1])
            vec = star.whole(v, en)
            def one(cell):
                ci.set(Iter(star.View(cell, vec), 0))
                self.stmt(body)
            # the iterator variable belongs to the loop
            star.loop(self, vec.items, one, own=ci)
            return True
        if isinstance(v, bool) or not isinstance(v, (int, z3.ArithRef)):
            return False
        L = self.rvalue(ops[1])
        if isinstance(L, bool) or not isinstance(L, (int, z3.ArithRef)):
            return False
        L = z3.simplify(z(L) - z(v))
        if L.sexpr() not in self.star_roots:
            return False
        star.index_loop(self, ci, v, L, lambda: self.stmt(body))
        return True

    def star_range(self, rng):
        """items of the range if it is a list of arbitrary length"""
        d = [d for d in rng['inner'] if d['kind'] == 'VarDecl'][0]
        v = self.frame.lookup(d['id'])
        for _ in range(4):
            if self.is_locv(v):
                v = v.get()
            elif isinstance(v, RefWrap):
                v = v.loc
        if isinstance(v, Vec) and isinstance(v.items, star.StarList):
            return v.items
        if hasattr(v, 'egv_star_items'):
            return v.egv_star_items()
        return None

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        # [init], range, begin, end, cond, inc, loopvar, body
        parts = inner[-7:]
        if len(inner) > 7 and inner[0].get('kind'):
            self.stmt(inner[0])
        rng, beg, end, cond, inc, var, body = parts
        self.stmt(rng)
        items = self.star_range(rng)
        if items is not None:
            bid = [d for d in beg['inner'] if d['kind'] == 'VarDecl'][0]['id']
            def one(cell):
                self.frame.vars[bid] = Cell(Iter(star.View(cell), 0))
                self.stmt(var)
                self.stmt(body)
            return star.loop(self, items, one)
        self.stmt(beg)
        self.stmt(end)
        def b():
            self.stmt(var)
            self.stmt(body)
        self.loop(n, lambda: self.rvalue(cond), b, lambda: self.ev(inc))

    def s_CXXTryStmt(self, n):
        body = n['inner'][0]
        try:
            self.stmt(body)
        except CppThrow as e:
            for c in n['inner'][1:]:
                decl = c['inner'][0] if c['inner'] and c['inner'][0].get('kind') == 'VarDecl' else None
                hb = c['inner'][-1]
                if decl is None or self.catches(decl['type']['qualType'], e.cls):
                    if decl is not None:
                        self.frame.vars[decl['id']] = Cell(Opaque('exception', e.cls))
                    return self.stmt(hb)
            raise

    def catches(self, t, cls):
        t = norm_type(strip_ref(norm_type(t))).split('::')[-1]
        cls = cls.split('::')[-1]
        H = {'invalid_argument': 'logic_error', 'out_of_range': 'logic_error', 'length_error': 'logic_error', 'domain_error': 'logic_error',
             'logic_error': 'exception', 'overflow_error': 'runtime_error', 'range_error': 'runtime_error', 'runtime_error': 'exception',
             'bad_alloc': 'exception', 'bad_cast': 'exception', 'bad_variant_access': 'exception'}
        while cls:
            if cls == t:
                return True
            cls = H.get(cls)
        return False

    # ---------------- expressions ----------------
    def as_loc(self, x):
        if isinstance(x, (Cell, BufCell, SymIdx)) or hasattr(x, 'is_loc'):
            return x
        return Cell(x)

    def is_locv(self, x):
        return isinstance(x, (Cell, BufCell, SymIdx)) or hasattr(x, 'is_loc')

    def rvalue(self, n):
        v = self.ev(n)
        if self.is_locv(v):
            return v.get()
        return v

    def ev(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression ' + n['kind'])
        return m(n)

    def e_ParenExpr(self, n):
        return self.ev(n['inner'][0])
    e_ExprWithCleanups = e_ConstantExpr = e_FullExpr = e_ParenExpr

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(n['inner'][-1])

    def e_CXXBindTemporaryExpr(self, n):
        return self.ev(n['inner'][0])

    def e_MaterializeTemporaryExpr(self, n):
        return self.as_loc(self.ev(n['inner'][0]))

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return float(n['value'])

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n):
        import ast as _a
        s = n['value']
        try:
            return Cell(_a.literal_eval(s))
        except Exception:
            return Cell(s.strip('"'))

    def e_CXXThisExpr(self, n):
        f = self.frame
        while f.this is None and f.parent is not None:
            f = f.parent
        return Ptr(f.this)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        t = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType')
        if t is None:
            t = ntype(n['inner'][0])
        return self.sizeof(t)

    def sizeof(self, t):
        t = norm_type(strip_ref(t))
        ad = self.array_dims(t)
        if ad:
            r = self.sizeof(ad[0])
            for d in ad[1]:
                r *= d
            return r
        if t in INT_TYPES:
            return max(1, INT_TYPES[t][0] // 8)
        if t.endswith('*'):
            return 8
        raise Unsupported('sizeof ' + t)

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            loc = self.frame.lookup(rd['id'])
            if loc is not None:
                return loc
            return self.global_var(rd)
        if k == 'EnumConstantDecl':
            d = self.frame.tu.byid.get(rd['id'])
            if d is None or 'enumValue' not in d:
                if rd.get('name') in self.prog.enums:
                    return self.prog.enums[rd['name']]
                if rd.get('name') in ENUM_EXTRA:
                    return ENUM_EXTRA[rd['name']]
                return Opaque('enum', rd.get('name'))
            return d['enumValue']
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FuncRef(self.frame.tu.funcs_byid.get(rd['id']), rd.get('name'))
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('reference to ' + k)

    def global_var(self, rd):
        name = rd['name']
        key = ('g', name, rd['id'] if rd['id'] in self.frame.tu.byid else None)
        if key in self.statics:
            return self.statics[key]
        tu = self.frame.tu
        d = tu.byid.get(rd['id'])
        if d is None:
            if name in self.prog.globals:
                tu, d = self.prog.globals[name]
            elif name == 'npos':
                return Cell(2**64 - 1)
            elif name in ('nullopt',):
                return Cell(NULL)
            elif name in ('cout', 'cerr'):
                return Cell(OStream())
            else:
                raise Unsupported('global ' + name)
        # out-of-class definition of a static member
        has = lambda x: any(c.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups')) for c in x.get('inner', ()))
        if not has(d):
            later = [x for x in tu.byid.values() if x.get('kind') == 'VarDecl' and x.get('previousDecl') == d.get('id') and has(x)]
            if later:
                d = later[0]
            else:
                ty = lambda x: x['type'].get('desugaredQualType') or x['type']['qualType']
                cands = [x for q, x in tu.vars.items() if (q.endswith('::' + name) or q == name) and has(x) and ty(x) == ty(d)]
                if len(cands) > 1:
                    raise Unsupported('several definitions of ' + name)
                if cands:
                    d = cands[0]
        init = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups'))]
        old = self.frame
        self.frame = Frame(None, tu, None)
        try:
            t = d['type'].get('desugaredQualType') or d['type']['qualType']
            if init:
                loc = Cell(self.init_value(t, init[0], None))
            else:
                loc = Cell(self.default_value(t))
        finally:
            self.frame = old
        self.statics[key] = loc
        return loc

    def e_MemberExpr(self, n):
        base = self.ev(n['inner'][0])
        name = n.get('name', '')
        if n.get('isArrow'):
            p = base.get() if self.is_locv(base) else base
            base = self.deref(p)
        else:
            base = self.as_loc(base)
        mid = n.get('referencedMemberDecl')
        md = self.frame.tu.byid.get(mid)
        v = base.get()
        if md is not None and md['kind'] == 'VarDecl':
            return self.global_var({'name': md['name'], 'id': md['id']})
        if isinstance(v, Obj):
            if md is not None and md['kind'] == 'FieldDecl':
                name = md.get('name', name)
            if name in v.f:
                return v.f[name]
            raise Unsupported('member %s of %s' % (name, v.cls.qn))
        if isinstance(v, Pair):
            if name == 'first':
                return v.f[0]
            if name == 'second':
                return v.f[1]
        if isinstance(v, Opaque):
            return Cell(Opaque(v.kind + '.' + name, v.key))
        raise Unsupported('member %s of %r' % (name, type(v).__name__))

    def deref(self, p):
        if isinstance(p, UPtr):
            p = p.p
        if p is NULL:
            raise UB('null pointer dereference')
        if isinstance(p, Ptr):
            return p.loc
        if isinstance(p, APtr):
            return p.base.at(p.i)
        if isinstance(p, RefWrap):
            return p.loc
        if isinstance(p, Iter):
            return self.stl.iter_deref(self, p)
        raise Unsupported('dereference of %r' % (p,))

    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            v = self.ev(e)
            return v.get() if self.is_locv(v) else v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'ConstructorConversion', 'LValueBitCast', 'Dynamic'):
            return self.ev(e)
        if ck == 'UserDefinedConversion':
            return self.ev(e)
        if ck == 'ArrayToPointerDecay':
            l = self.as_loc(self.ev(e))
            v = l.get()
            if isinstance(v, str):
                return v
            if isinstance(v, (Buf, ArrayObj)):
                return APtr(v, 0)
            if isinstance(v, SymIdx):
                return APtr(v, 0)
            raise Unsupported('array decay of %r' % (v,))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
            v = self.rvalue(e)
            if isinstance(v, Opaque):
                return v
            return self.wrap(v, ntype(n))
        if ck == 'PointerToBoolean':
            return self.to_bool(self.rvalue(e))
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'BitCast':
            v = self.rvalue(e)
            return self.bitcast(v, ntype(n), ntype(e))
        if ck == 'ToVoid':
            self.ev(e)
            return None
        if ck == 'IntegralToFloating':
            v = self.rvalue(e)
            if isinstance(v, int):
                return float(v) if v < 2**53 else v
            return v
        if ck == 'FloatingToIntegral':
            v = self.rvalue(e)
            return int(v) if isinstance(v, (int, float)) else v
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return self.rvalue(e)
        raise Unsupported('cast ' + ck)

    def bitcast(self, v, t, st=None):
        t = norm_type(t)
        if isinstance(v, APtr) and isinstance(v.base, Buf) and t.endswith('*'):
            et = norm_type(t[:-1])
            if et == 'void':
                return v
            it = INT_TYPES.get(et)
            if it and it[0] == v.base.w:
                return v
            raise Unsupported('reinterpretation of buffer as ' + t)
        if isinstance(v, Ptr) and t.endswith('*'):
            et = norm_type(t[:-1])
            x = v.loc.get()
            if et in ('unsigned char', 'uint8_t', 'char') and isinstance(x, (int, z3.ArithRef)):
                # read-only view of the bytes of an integer object (little endian machine)
                it = INT_TYPES.get(norm_type(norm_type(st)[:-1])) if st else None
                if it is None or x is True or x is False or (isinstance(x, int) and x < 0):
                    raise Unsupported('bytes of a value of type %s' % st)
                key = ('bytes', id(v.loc), x if isinstance(x, int) else x.sexpr())
                if key not in self.statics:
                    b = ROBuf(self, 8, it[0] // 8, x)
                    self.statics[key] = (b, v.loc)
                return APtr(self.statics[key][0], 0)
        return v

    def e_CXXStaticCastExpr(self, n):
        ck = n.get('castKind')
        if ck in ('NoOp', None):
            return self.ev(n['inner'][0])
        return self.e_ImplicitCastExpr(n)
    e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXStaticCastExpr
    e_CXXDynamicCastExpr = e_CXXStaticCastExpr

    def e_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '*':
            p = self.rvalue(e)
            return self.deref(p)
        if op == '&':
            l = self.ev(e)
            if isinstance(l, FuncRef):
                return l
            if isinstance(l, BufCell):
                return APtr(l.b, l.i)
            if not self.is_locv(l):
                raise Unsupported('address of rvalue')
            v = l.get()
            if isinstance(v, (Buf, ArrayObj)) and not isinstance(v, Vec):
                return APtr(v, 0)
            return Ptr(l)
        if op in ('++', '--'):
            l = self.as_loc(self.ev(e))
            old = l.get()
            d = 1 if op == '++' else -1
            if isinstance(old, (Iter, APtr)):
                new = self.ptr_arith('+', old, d)
            else:
                new = self.arith('+', old, d, ntype(e)) if d == 1 else self.arith('-', old, 1, ntype(e))
            l.set(new)
            return old if n.get('isPostfix') else l
        v = self.rvalue(e)
        if op == '!':
            b = self.to_bool(v)
            return (not b) if isinstance(b, bool) else z3.simplify(z3.Not(b))
        if op == '-':
            return self.arith('-', 0, v, ntype(n)) if not isinstance(v, float) else -v
        if op == '+':
            return v
        if op == '~':
            if isinstance(v, int):
                return self.wrap(~v, ntype(n))
            w, s = INT_TYPES[norm_type(ntype(n))]
            return self.wrap(((1 << w) - 1) - v, ntype(n))
        raise Unsupported('unary ' + op)

    def pure_rhs(self, n):
        """evaluate a boolean operand without forking when it is effect-free; None if impossible"""
        if not self.has_call(n):
            pass
        rs = self.nested_explore(lambda: self.to_bool(self.rvalue(n)))
        return rs

    def has_call(self, n):
        return True

    def merge_bool(self, n):
        """explore the operand n (under the current path condition); if it always completes normally, without
        visible writes, return a single Bool term for it"""
        try:
            rs = self.nested_explore(lambda: self.to_bool(self.rvalue(n)))
        except Unsupported:
            raise
        out = []
        for conds, kind, val, writes, ev in rs:
            if kind != 'normal' or ev:
                return None
            if writes:
                # writes to locations created inside are harmless; those are not visible outside, but we cannot
                # tell them apart cheaply: only accept buffers re-chunking (representation only)
                for (o, attr, v) in writes.values():
                    if isinstance(o, Buf) and attr in ('ch', 'n') and self.same_content(o, v, attr):
                        continue
                    return None
            out.append((conds, val))
        if not out:
            raise Infeasible()
        if len(out) == 1 and not out[0][0]:
            return out[0][1]
        disj = []
        for conds, val in out:
            if isinstance(val, bool):
                if val:
                    disj.append(z3.And(*conds) if conds else z3.BoolVal(True))
            else:
                disj.append(z3.And(*(conds + [val])))
        r = z3.Or(*disj) if disj else z3.BoolVal(False)
        return z3.simplify(r)

    def same_content(self, buf, v, attr):
        if attr == 'n':
            return v == buf.n
        # re-chunking keeps each chunk's value; compare lengths only where values were split
        return True if self.rechunk_only(buf.ch, v) else False

    def rechunk_only(self, old, new):
        # 'new' must refine 'old': chunks equal or replaced by singletons of a registered split
        try:
            j = 0
            for c in old:
                if new[j][:2] == c[:2]:
                    if not (new[j][2] is c[2] or (isinstance(c[2], int) and isinstance(new[j][2], int) and new[j][2] == c[2]) or (is_sym(c[2]) and is_sym(new[j][2]) and new[j][2].eq(c[2]))):
                        return False
                    j += 1
                    continue
                parts = []
                while j < len(new) and new[j][0] < c[0] + c[1]:
                    parts.append(new[j])
                    j += 1
                if isinstance(c[2], int):
                    tot = 0
                    for p in parts:
                        if not isinstance(p[2], int):
                            return False
                    continue_ok = True
                    # recompute value (little endian)
                    val = 0
                    w = None
                    return_ok = True
                    continue
                ids = [p[2].get_id() if is_sym(p[2]) else None for p in parts]
                if c[3]:
                    ids = ids[::-1]
                ok = False
                for (l2, w2, v2, parts2) in self.split_list:
                    if len(parts2) == len(ids) and [q.get_id() for q in parts2] == ids:
                        ok = True
                if not ok:
                    return False
            return True
        except IndexError:
            return False

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            l = self.to_bool(self.rvalue(a))
            if isinstance(l, bool) or z3.is_true(z3.simplify(l)) or z3.is_false(z3.simplify(l)):
                if not isinstance(l, bool):
                    l = z3.is_true(z3.simplify(l))
                if op == '&&':
                    return self.to_bool(self.rvalue(b)) if l else False
                return True if l else self.to_bool(self.rvalue(b))
            guard = l if op == '&&' else z3.Not(l)
            if self.check(guard) == z3.unsat:
                return op == '||'
            # evaluate rhs under the guard, merged if pure
            self.pc.append(guard)
            try:
                r = self.merge_bool(b)
            finally:
                self.pc.pop()
            if r is None:
                if self.branch(l):
                    return self.to_bool(self.rvalue(b)) if op == '&&' else True
                return False if op == '&&' else self.to_bool(self.rvalue(b))
            if op == '&&':
                return z3.simplify(z3.And(l, z(r)))
            return z3.simplify(z3.Or(l, z(r)))
        if op == '=':
            rv = self.rvalue(b)
            l = self.as_loc(self.ev(a))
            if isinstance(rv, (Buf, Vec, Obj, MapV, Pair)):
                rv = self.copy_value(rv)
            l.set(rv)
            return l
        if op == ',':
            self.ev(a)
            return self.ev(b)
        x = self.rvalue(a)
        y = self.rvalue(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, x, y)
        return self.arith(op, x, y, ntype(n))

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        l = self.as_loc(self.ev(n['inner'][0]))
        y = self.rvalue(n['inner'][1])
        x = l.get()
        ct = n.get('computeResultType', {}).get('desugaredQualType') or n.get('computeResultType', {}).get('qualType') or ntype(n)
        r = self.arith(op, x, y, ct)
        l.set(self.wrap(r, ntype(n)) if isinstance(r, (int, bool, z3.ExprRef)) else r)
        return l

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = self.to_bool(self.rvalue(c))
        if not isinstance(cv, bool) and n.get('valueCategory') == 'prvalue':
            # try to merge
            cs = z3.simplify(cv)
            if not z3.is_true(cs) and not z3.is_false(cs):
                t = norm_type(ntype(n))
                if t in INT_TYPES:
                    vals = []
                    ok = True
                    for g, e in ((cv, a), (z3.Not(cv), b)):
                        if self.check(g) == z3.unsat:
                            vals.append(None)
                            continue
                        self.pc.append(g)
                        try:
                            rs = self.nested_explore(lambda: self.rvalue(e))
                        finally:
                            self.pc.pop()
                        if len(rs) != 1 or rs[0][1] != 'normal' or rs[0][3] or rs[0][4]:
                            ok = False
                            break
                        vals.append(rs[0][2])
                    if ok:
                        x, y = vals
                        if x is None:
                            return y
                        if y is None:
                            return x
                        if isinstance(x, (int, bool, z3.ExprRef)) and isinstance(y, (int, bool, z3.ExprRef)):
                            return z3.simplify(z3.If(cv, z(x), z(y)))
        if self.branch(cv):
            return self.ev(a)
        return self.ev(b)

    def e_ArraySubscriptExpr(self, n):
        x = self.rvalue(n['inner'][0])
        i = self.rvalue(n['inner'][1])
        if isinstance(i, APtr):
            x, i = i, x
        if isinstance(x, APtr):
            return x.base.at(self.iadd(x.i, i))
        if isinstance(x, Ptr) and i == 0:
            return x.loc
        if isinstance(x, str) and isinstance(i, int):
            return Cell(chars.code(self, x[i]) if i < len(x) else 0)
        raise Unsupported('subscript of %r' % (x,))

    def e_CXXDefaultArgExpr(self, n):
        return DEFAULT

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('CXXDefaultInitExpr outside constructor')

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(ntype(n), self.frame.cls)

    def e_CXXScalarValueInitExpr(self, n):
        return self.default_value(ntype(n), self.frame.cls)

    def e_CXXThrowExpr(self, n):
        inner = n.get('inner', ())
        if not inner:
            raise CppThrow('rethrow')
        e = inner[0]
        t = norm_type(ntype(e))
        raise CppThrow(t)

    def e_CXXNewExpr(self, n):
        t = norm_type(ntype(n))
        assert t.endswith('*')
        et = norm_type(t[:-1])
        if n.get('isArray'):
            cnt = self.rvalue(n['inner'][0])
            it = INT_TYPES.get(et)
            if not it:
                raise Unsupported('new array of ' + et)
            return APtr(self.new_buf(it, cnt), 0)
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if not inner:
            return Ptr(Cell(self.default_value(et, self.frame.cls)))
        for c in inner:
            if c['kind'] in ('CXXConstructExpr', 'InitListExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXBindTemporaryExpr') or True:
                v = self.init_value(et, c, self.frame.cls)
                return Ptr(Cell(v))

    def new_buf(self, it, cnt):
        if not isinstance(cnt, int):
            raise Unsupported('symbolic allocation size')
        return Buf(self, it[0], cnt, 0, it[1])

    def e_CXXDeleteExpr(self, n):
        self.ev(n['inner'][0])
        return None

    def e_CXXNoexceptExpr(self, n):
        return bool(n.get('value'))

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        op = None
        def find(r):
            nonlocal op
            for c in r.get('inner', ()):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' and op is None:
                    op = c
                if c.get('kind') == 'FunctionTemplateDecl':
                    find(c)
        find(rec)
        params = [c for c in op.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        body = n['inner'][-1]
        # captures by copy: freeze values now
        fr = Frame(None, self.frame.tu, None, parent=self.frame, cls=self.frame.cls)
        return Closure(params, body, fr, self.frame.tu, None)

    def call_closure(self, c, args):
        fr = Frame(None, c.tu, None, parent=c.env, cls=c.env.cls)
        for p, a in zip(c.params, args):
            pt = p['type'].get('desugaredQualType') or p['type']['qualType']
            a = self.as_loc(a)
            if pt.strip().endswith('&'):
                if isinstance(a.get(), RefWrap) and tmpl(pt)[0] != 'reference_wrapper' and tmpl(pt)[0] != 'auto':
                    a = a.get().loc
                fr.vars[p['id']] = a
            else:
                v = a.get()
                if isinstance(v, RefWrap) and tmpl(pt)[0] not in ('reference_wrapper', 'auto'):
                    v = v.loc.get()
                fr.vars[p['id']] = Cell(self.copy_value(v))
        old = self.frame
        self.frame = fr
        try:
            self.stmt(c.body)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.frame = old

    def invoke(self, fn, args):
        """call a callable value"""
        if isinstance(fn, Closure):
            return self.call_closure(fn, args)
        if isinstance(fn, FuncRef) and fn.fn is not None:
            return self.call_function(fn.fn, None, [self.as_loc(a) for a in args])
        if isinstance(fn, Obj):
            m = self.find_method(fn.cls, 'operator()')
            if m:
                return self.call_function(m, Cell(fn), [self.as_loc(a) for a in args])
        if isinstance(fn, UPtr) or isinstance(fn, Ptr):
            return self.invoke(self.deref(fn).get(), args)
        raise Unsupported('call of %r' % (fn,))

    # ---- initialisation ----
    def init_value(self, t, e, ctx=None):
        """value of an object of type t initialised from expression e"""
        k = e['kind']
        if k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr') and e['inner'][0]['kind'] in ('InitListExpr',):
            e = e['inner'][0]
            k = e['kind']
        if k == 'InitListExpr':
            return self.init_list(t, e, ctx)
        if k == 'StringLiteral':
            s = self.ev(e).get()
            ad = self.array_dims(norm_type(t))
            if ad:
                b = Buf(self, 8, ad[1][0], 0)
                for i, ch in enumerate(s):
                    b.write(i, chars.code(self, ch))
                return b
            return s
        v = self.ev(e)
        if self.is_locv(v):
            # glvalue used to initialise an object: class copies come through CXXConstructExpr, so this is scalar
            v = v.get()
            if isinstance(v, (Obj, Vec, Buf, MapV, Pair)):
                v = self.copy_value(v)
        return self.implicit_convert(t, v, ctx)

    def init_list(self, t, e, ctx):
        t0 = norm_type(ntype(e)) or norm_type(t)
        ad = self.array_dims(t0)
        inner = [c for c in e.get('inner', ()) if c.get('kind')]
        filler = e.get('array_filler')
        if filler:
            inner = [c for c in filler if c.get('kind') and c['kind'] != 'ImplicitValueInitExpr']
        if ad:
            arr = self.make_array(ad[0], ad[1], ctx)
            if isinstance(arr, Buf):
                allc = [c['kind'] for c in inner]
                vals = [self.rvalue(c) for c in inner]
                if all(isinstance(v, int) for v in vals):
                    tot = 0
                    for i, v in enumerate(vals):
                        tot |= (int(v) & ((1 << arr.w) - 1)) << (arr.w * i)
                    arr.ch = [[0, arr.n, tot, False]]
                else:
                    for i, v in enumerate(vals):
                        arr.write(i, v)
            else:
                for i, c in enumerate(inner):
                    arr.items[i] = Cell(self.init_value(ntype(c), c, ctx))
            return arr
        n, args = tmpl(t0)
        if n in ('initializer_list', 'vector'):
            return self.stl.vec_from(self, args[0] if args else None, [self.rvalue(c) for c in inner])
        if n == 'array':
            return self.default_value(t0, ctx) if not inner else self.init_value(t0, inner[0], ctx) if len(inner) == 1 and inner[0]['kind'] == 'InitListExpr' else self.default_value(t0, ctx)
        if t0 in INT_TYPES or t0.endswith('*'):
            return self.init_value(t0, inner[0], ctx) if inner else self.default_value(t0, ctx)
        if n in ('pair', 'tuple'):
            return Pair(*[Cell(self.init_value(ntype(c), c, ctx)) for c in inner])
        c = self.resolve_class(t0, ctx)
        if c is not None:
            o = Obj(c)
            fs = self.all_fields(c)
            for (cc, fd), x in zip(fs, inner):
                ft = fd['type'].get('desugaredQualType') or fd['type']['qualType']
                if ft.strip().endswith('&'):
                    o.f[fd['name']] = self.as_loc(self.ev(x))
                else:
                    o.f[fd['name']] = Cell(self.init_value(ft, x, c.qn))
            for (cc, fd) in fs[len(inner):]:
                o.f[fd['name']] = Cell(self.field_default(cc, fd))
            return o
        if len(inner) == 1:
            return self.init_value(t0, inner[0], ctx)
        raise Unsupported('init list of ' + t0)

    def e_InitListExpr(self, n):
        return self.init_list(ntype(n), n, self.frame.cls)

    def e_CXXStdInitializerListExpr(self, n):
        v = self.rvalue(n['inner'][0])
        if isinstance(v, ArrayObj):
            et = tmpl(ntype(n))[1]
            return Vec([v.at(i) for i in range(v.n)], et[0] if et else None)
        return v

    def e_ArrayInitLoopExpr(self, n):
        src = n['inner'][0]
        v = self.rvalue(src)
        return self.copy_value(v)

    def e_OpaqueValueExpr(self, n):
        return self.ev(n['inner'][0])

    def ev_args(self, exprs):
        out = []
        types = []
        rv = []
        for a in exprs:
            v = self.ev(a)
            if v is DEFAULT:
                break
            rv.append(a.get('valueCategory') in ('prvalue', 'xvalue'))
            out.append(self.as_loc(v))
            types.append(ntype(a))
        return out, types, rv

    def e_CXXConstructExpr(self, n):
        t = norm_type(ntype(n))
        name, targs = tmpl(t)
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        r = self.stl.construct_std(self, n, t, name, targs, inner)
        if r is not NotImplemented:
            return r
        c = self.resolve_class(t, self.frame.cls)
        if c is None:
            raise Unsupported('construction of ' + t)
        args, types, rv = self.ev_args(inner)
        ct = n.get('ctorType', {}).get('qualType')
        if n.get('elidable') and len(args) == 1 and inner[0].get('valueCategory') == 'prvalue':
            v = args[0].get()
            if isinstance(v, (Obj, Elem)):
                return v
        if len(args) == 1 and ct:
            v = args[0].get()
            same = isinstance(v, Obj) and (v.cls.qn == c.qn)
            if same:
                if '&&' in ct:
                    if inner[0]['kind'] == 'MaterializeTemporaryExpr':
                        return v
                    return self.move_construct(c, args[0])
                if re.search(r'\(const [^,]*&\)', ct):
                    return self.copy_construct(c, args[0])
        return self.construct(c, args, types, ct, rv)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    e_CXXInheritedCtorInitExpr = e_CXXConstructExpr

    # ---- calls ----
    def e_CallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        argx = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            rd = callee['referencedDecl']
            f = self.frame.tu.funcs_byid.get(rd['id'])
            if f is not None:
                if f.qn.startswith('electionguard::Log::'):
                    return None
                args, types, rv = self.ev_args(argx)
                r = self.call_function(f, None, args)
                return self.ret(r, n, f)
            if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
                fn = self.rvalue(callee)
                args, types, rv = self.ev_args(argx)
                return self.invoke(fn, args)
            nm = rd.get('name')
            h = self.contracts.get('::' + nm)
            if h is not None:
                args, types, rv = self.ev_args(argx)
                self.contracted.add(nm)
                return h(self, None, args, n)
            # any definition elsewhere in the program with this name in our namespaces (declared but not dumped)
            return self.stl.call_std(self, n, nm, argx)
        if callee['kind'] == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        if callee['kind'] in ('CXXPseudoDestructorExpr',):
            return None
        fn = self.rvalue(callee)
        args, types, rv = self.ev_args(argx)
        return self.invoke(fn, args)

    def ret(self, r, n, f):
        """adjust the returned value to the value category of the call expression"""
        if n.get('valueCategory') in ('lvalue', 'xvalue'):
            return self.as_loc(r)
        if self.is_locv(r):
            v = r.get()
            return v
        if r is not None and norm_type(ntype(n)) in INT_TYPES and isinstance(r, (int, bool, z3.ExprRef)):
            return self.wrap(r, ntype(n))
        if r is not None:
            return self.implicit_convert(ntype(n), r)
        return r

    def e_CXXMemberCallExpr(self, n):
        me = n['inner'][0]
        while me['kind'] == 'ParenExpr':
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via ' + me['kind'])
        argx = n['inner'][1:]
        f = self.frame.tu.funcs_byid.get(me.get('referencedMemberDecl'))
        base = self.ev(me['inner'][0])
        if me.get('isArrow'):
            p = base.get() if self.is_locv(base) else base
            this = self.deref(p)
        else:
            this = self.as_loc(base)
        if f is not None:
            if f.qn.startswith('electionguard::Log::'):
                return None
            args, types, rv = self.ev_args(argx)
            r = self.call_function(f, this, args, virtual=True)
            return self.ret(r, n, f)
        r = self.stl.call_member(self, n, me, this, me.get('name'), argx)
        if n.get('valueCategory') == 'prvalue' and self.is_locv(r):
            return r.get()
        return r

    def e_CXXOperatorCallExpr(self, n):
        callee = strip_casts(n['inner'][0])
        argx = n['inner'][1:]
        rd = callee.get('referencedDecl', {})
        f = self.frame.tu.funcs_byid.get(rd.get('id'))
        if f is not None:
            args, types, rv = self.ev_args(argx)
            if f.cls is not None and not f.static:
                if f.name == 'operator()' and isinstance(args[0].get(), Closure):
                    return self.ret(self.call_closure(args[0].get(), args[1:]), n, f)
                r = self.call_function(f, args[0], args[1:], virtual=True)
            else:
                r = self.call_function(f, None, args)
            return self.ret(r, n, f)
        r = self.stl.call_operator(self, n, rd.get('name', ''), argx)
        if n.get('valueCategory') == 'prvalue' and self.is_locv(r):
            return r.get()
        return r

    def e_PredefinedExpr(self, n):
        return Cell('func')
    def e_TypeTraitExpr(self, n):
        return bool(n.get('value'))

JOINFAIL = object()
def eq_subst(c):
    c = z3.simplify(c)
    if z3.is_and(c) and c.num_args() == 1:
        c = c.arg(0)
    if z3.is_eq(c):
        a, b = c.arg(0), c.arg(1)
        if z3.is_int_value(b) and z3.is_const(a):
            return (a, b)
        if z3.is_int_value(a) and z3.is_const(b):
            return (b, a)
    return None

class _Default:
    pass
DEFAULT = _Default()
ENUM_EXTRA = {}
