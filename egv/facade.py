"""The C interface: every entry point of src/electionguard/facades, path by path.

The body of an entry point is executed symbolically from clang's AST.  The library functions it calls are replaced by their
contract: the call yields an unnamed result that depends on its arguments, or throws - any standard exception, unless the
function cannot throw (inferred from its body in the current tree: no throw expression and nothing but calls that cannot throw;
running out of memory aside).  Locals, casts, moves and copies are seen through, so that what an output refers to is a term over
the parameters and the calls.  A loop is executed once for an arbitrary iteration; what it appends is `each'."""
import json, os, re, subprocess
import astload
from values import Unsupported

SUCCESS = 'ELECTIONGUARD_STATUS_SUCCESS'
CLASSES = ['std::invalid_argument', 'std::out_of_range', 'std::runtime_error', 'std::bad_alloc', 'std::bad_cast', 'std::exception', 'nlohmann::json::exception']
BASES = {'std::invalid_argument': ('std::logic_error', 'std::exception'), 'std::out_of_range': ('std::logic_error', 'std::exception'), 'std::runtime_error': ('std::exception',),
         'std::bad_alloc': ('std::exception',), 'std::bad_cast': ('std::exception',), 'std::exception': (), 'nlohmann::json::exception': ('std::exception',)}

class Thrown(Exception):
    def __init__(self, cls, by):
        self.cls, self.by = cls, by
class Returned(Exception):
    def __init__(self, v):
        self.v = v
class Break(Exception):
    pass
class Continue(Exception):
    pass

ZERO = (('const', '0'), ('const', SUCCESS), ('const', 'SUCCESS'))     # enumerators whose value is 0 (the values: see C23)
WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
def width(n):
    return WIDTH.get(re.sub(r'\bconst ', '', qtype(n)).strip(), 32)
def base_type(t):
    t = t or ''
    t = re.sub(r'\b(const|volatile|struct|class|enum)\b', '', t)
    t = t.replace('&', '').replace('*', '').strip()
    m = re.match(r'(?:std::)?(?:unique_ptr|shared_ptr|reference_wrapper|__detail::__unique_ptr_t|__unique_ptr_t)<(.*)>$', t)
    if m:
        return base_type(m.group(1).split(', std::default_delete')[0])
    return t.split('::')[-1] if '<' not in t else t
def qtype(n):
    t = n.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

# standard functions that do not throw when memory suffices and their own preconditions hold
STD_OK = set('''move forward make_unique make_shared size empty begin end cbegin cend get release reset c_str data push_back emplace_back reserve resize insert emplace find count clear swap ref cref
 copy strdup strcpy strncpy memcpy memset strlen free malloc calloc realloc back front pop pop_back push first second operator* operator-> operator++ operator-- operator!= operator== operator[] operator=
 operator bool operator+ operator+= operator< operator> operator<= operator>= operator() sort max min tie make_pair to_string append assign substr_ok capacity shrink_to_fit lock unlock lock_guard unlock value_or has_value
 find_if any_of all_of none_of transform back_inserter fill to_string length compare'''.split())
# seen through: the value is that of the argument (or object)
TRANSPARENT = set('move forward get release c_str data operator* operator-> clone dynamicCopy uint64_to_size ref cref strdup value'.split())
MUTATING = {'push_back', 'emplace_back', 'insert', 'emplace', 'operator[]', 'reserve', 'resize', 'append', 'assign', 'operator=', 'operator+='}
IGNORED_MUT = {'reserve'}
LOGS = {'error', 'debug', 'trace', 'warn', 'info', 'fatal'}
C_OK = {'eg_linked_list_new', 'eg_linked_list_append', 'eg_linked_list_get_element_at', 'eg_linked_list_get_count', 'eg_linked_list_free'}

class Library:
    """which functions of the library may throw"""
    def __init__(self, prog):
        self.prog = prog
        self.byname = {}
        for qn, fs in prog.funcs.items():
            if not qn.startswith('electionguard::'):
                continue
            parts = qn.split('::')
            key = '::'.join(parts[-2:]) if fs[0].cls else parts[-1]
            self.byname.setdefault(key, []).extend(f for f in fs if f.body is not None)
            if not fs[0].cls and not parts[-1].startswith('operator'):
                self.byname.setdefault(parts[-1], [])
        self.memo = {}
        # established elsewhere
        self.trusted = {'DisjunctiveChaumPedersenProof::isValid': 'C06', 'ConstantChaumPedersenProof::isValid': 'C08',
                        'Q': 'C02', 'ZERO_MOD_Q': 'C02', 'ONE_MOD_Q': 'C02', 'TWO_MOD_Q': 'C02', 'P': 'C02', 'G': 'C02', 'R': 'C02', 'ZERO_MOD_P': 'C02', 'ONE_MOD_P': 'C02', 'TWO_MOD_P': 'C02'}
        self.used = set()
    def may_throw(self, key):
        if key in self.trusted:
            self.used.add(key)
            return False
        if key in self.memo:
            return self.memo[key]
        fs = self.byname.get(key)
        cls, _, m = key.rpartition('::')
        if not fs:
            # constructors and accessors defined in the class
            c = self.prog.classes.get('electionguard::' + cls)
            if cls and m == cls.split('::')[-1] and c is not None and not c.ctors:
                return False
            return True
        self.memo[key] = False          # assumed while looking at recursive calls
        r = any(self.body_throws(f.body, f) or any(self.body_throws(i, f) for i in f.inits) for f in fs)
        self.memo[key] = r
        return r
    def body_throws(self, n, f):
        k = n.get('kind')
        if k in ('CXXThrowExpr', 'CXXDynamicCastExpr'):
            return True
        if k == 'LambdaExpr':
            return any(self.body_throws(c, f) for c in n.get('inner', ()) if c.get('kind') == 'CompoundStmt')
        if k == 'CXXTryStmt':
            ins = n.get('inner', [])
            if any(handler_type(c) in ('...', 'exception') for c in ins[1:]):
                return any(self.body_throws(c, f) for h in ins[1:] for c in h.get('inner', ()))
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            key, name = callee(n)
            if name is None:
                return True
            if key in self.byname or key in self.trusted:
                if self.may_throw(key):
                    return True
            elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                c = base_type(qtype(n))
                if 'json' in c or 'basic_json' in c:
                    return True
                key = '%s::%s' % (c, c)
                if key in self.byname and self.may_throw(key):
                    return True
            elif name not in STD_OK and name not in LOGS:
                return True
        return any(isinstance(c, dict) and self.body_throws(c, f) for c in n.get('inner', ()))

def handler_type(h):
    v = [c for c in h.get('inner', ()) if c.get('kind') == 'VarDecl']
    return base_type(qtype(v[0])) if v else '...'

def callee(n):
    """(key, name): key is Class::method or the name of a function"""
    k = n.get('kind')
    ins = n.get('inner', [])
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        c = base_type(qtype(n))
        return '%s::%s' % (c, c), c
    if k == 'CXXMemberCallExpr':
        me = ins[0]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me.get('kind') != 'MemberExpr':
            return None, None
        return '%s::%s' % (base_type(qtype(me['inner'][0])), me.get('name')), me.get('name')
    if k == 'CXXOperatorCallExpr':
        d = find_ref(ins[0])
        return (d or {}).get('name'), (d or {}).get('name')
    d = find_ref(ins[0]) if ins else None
    if d is None:
        return None, None
    return d.get('name'), d.get('name')
def shown(n, key):
    """the name of a callee in terms: static member functions with the class they yield"""
    d = find_ref(n['inner'][0]) if n.get('kind') == 'CallExpr' else None
    if d is not None and d.get('kind') == 'CXXMethodDecl':
        return '%s::%s' % (base_type(qtype(n)), key)
    return key
def owns(n):
    """an expression whose value lives in this function only: a local that is neither a reference nor a pointer, or a temporary"""
    x = n
    while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr') and x.get('inner'):
        x = x['inner'][-1]
    t = qtype(x)
    if t.rstrip().endswith(('*', '&')) or 'reference_wrapper' in t and not t.startswith(('std::vector', 'vector')):
        return False
    if x.get('kind') == 'DeclRefExpr':
        d = x['referencedDecl']
        dt = qtype(d)
        return d.get('kind') == 'VarDecl' and not dt.rstrip().endswith(('*', '&')) and d.get('storageClass') != 'static'
    return x.get('valueCategory') == 'prvalue'
def nv(t):
    """the value seen through a pointer into this function"""
    while t[0] == 'view':
        t = t[1]
    return t
def find_ref(n):
    if n.get('kind') == 'DeclRefExpr':
        return n.get('referencedDecl')
    for c in n.get('inner', ()):
        r = find_ref(c)
        if r is not None:
            return r
    return None

class Entry:
    """all paths through one entry point"""
    def __init__(self, node, unit, lib):
        self.node, self.unit, self.lib = node, unit, lib
        self.name = node['name']
        self.casts = set()
        self.params = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        self.body = [c for c in node.get('inner', ()) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')][0]
        self.ret = qtype(node).split('(')[0].strip()
        self.status = 'eg_electionguard_status' in (node['type'].get('qualType', '').split('(')[0])
    def outs(self):
        """parameters results are returned through"""
        r = []
        for i, p in enumerate(self.params):
            t = (p.get('type') or {}).get('qualType', '')
            if p.get('name', '').startswith('out') and '*' in t:
                r.append(i)
        return r
    def paths(self):
        stack = [[]]
        n = 0
        while stack:
            n += 1
            if n > 4000:
                raise Unsupported('many paths in %s' % self.name)
            self.sched, self.pos, self.pending = stack.pop(), 0, []
            self.env, self.out, self.guards, self.throws, self.calls = {}, {}, [], [], []
            self.loops = 0
            self.depth = 0
            for i, p in enumerate(self.params):
                self.env[p['id']] = ('p', i)
            kind, val = 'end', None
            try:
                self.stmt(self.body)
            except Returned as e:
                kind, val = 'return', e.v
            except Thrown as e:
                kind, val = 'throw', e
            for p in self.pending:
                stack.append(p)
            yield kind, val, dict(self.out), list(self.guards), list(self.throws), list(self.calls)
    def choose(self, k):
        if self.pos < len(self.sched):
            r = self.sched[self.pos]
        else:
            r = 0
            for j in range(1, k):
                self.pending.append(self.sched[:self.pos] + [j])
            self.sched = self.sched + [0]
        self.pos += 1
        return r
    def branch(self, t):
        if t[0] == 'const' and t[1] in ('true', 'false', '0', '1'):
            return t[1] in ('true', '1')
        if t[0] == 'not':
            return not self.branch(t[1])
        for g, b in self.guards:
            if g == t:
                return b
        b = self.choose(2) == 0
        self.guards.append((t, b))
        return b
    # ---- statements
    def stmt(self, n):
        k = n.get('kind')
        if k is None or k in ('NullStmt',):
            return
        ins = n.get('inner', [])
        if k == 'CompoundStmt':
            for c in ins:
                self.stmt(c)
        elif k == 'DeclStmt':
            for c in ins:
                if c.get('kind') == 'VarDecl':
                    init = [x for x in c.get('inner', ()) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                    self.env[c['id']] = self.ev(init[0]) if init else ('uninit',)
        elif k == 'ReturnStmt':
            raise Returned(self.ev(ins[0]) if ins else None)
        elif k == 'IfStmt':
            ins = [c for c in ins if c.get('kind')]
            if n.get('hasInit') or n.get('hasVar'):
                self.stmt(ins[0])
                ins = ins[1:]
            c = self.cond(ins[0])
            if c:
                self.stmt(ins[1])
            elif len(ins) > 2:
                self.stmt(ins[2])
        elif k == 'CXXTryStmt':
            try:
                self.stmt(ins[0])
            except Thrown as e:
                for h in ins[1:]:
                    t = handler_type(h)
                    if t == '...' or any(t == b.split('::')[-1] for b in (e.cls,) + BASES[e.cls]):
                        self.throws.append(e.cls)
                        for c in h.get('inner', ()):
                            if c.get('kind') == 'CompoundStmt':
                                self.handling = e
                                self.stmt(c)
                        return
                raise
        elif k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            self.loop(n)
        elif k == 'BreakStmt':
            raise Break()
        elif k == 'ContinueStmt':
            raise Continue()
        elif k == 'SwitchStmt':
            raise Unsupported('switch in an entry point')
        else:
            self.ev(n)
    def cond(self, n):
        n0 = strip(n)
        if n0.get('kind') == 'BinaryOperator' and n0.get('opcode') in ('&&', '||'):
            a = self.cond(n0['inner'][0])
            if n0['opcode'] == '&&':
                return a and self.cond(n0['inner'][1])
            return a or self.cond(n0['inner'][1])
        if n0.get('kind') == 'UnaryOperator' and n0.get('opcode') == '!':
            return not self.cond(n0['inner'][0])
        return self.branch(self.truth(self.ev(n)))
    def truth(self, t):
        """canonical condition"""
        if t[0] == '==' and t[2] == ('const', 'null'):
            return ('null', t[1])
        if t[0] == '!=' and t[2] == ('const', 'null'):
            return ('not', ('null', t[1]))
        if t[0] == '==' and t[2] in ZERO:
            return ('not', ('true', t[1]))
        if t[0] == '!=' and t[2] in ZERO:
            return ('true', t[1])
        if t[0] in ('==', '!=', '<', '>', '<=', '>=', 'const', 'not', 'null', 'true'):
            return t
        return ('true', t)
    def below(self, i, c):
        """is i known to be an index of c on this path?"""
        z = ('size', c)
        return any((g, b) in ((('<', i, z), True), (('>=', i, z), False), (('>', z, i), True), (('<=', z, i), False)) for g, b in self.guards)
    def loop(self, n):
        ins = n.get('inner', [])
        k = n['kind']
        self.loops += 1
        tag = ('i', self.depth)
        self.depth += 1
        try:
            if k == 'ForStmt':
                init, _, cond, inc, body = (ins + [{}] * 5)[:5]
                self.stmt(init)
                var = [c['id'] for c in init.get('inner', ()) if c.get('kind') == 'VarDecl'] if init.get('kind') == 'DeclStmt' else []
                if not var:
                    r = find_ref(inc) if inc.get('kind') else None
                    var = [r['id']] if r is not None else []
                start = self.env.get(var[0]) if var else None
                for v in var:
                    self.env[v] = ('iter', start) if start is not None and start[0] == 'begin' else tag
                bound = self.ev(cond) if cond.get('kind') else ('const', 'true')
                # over a whole container, over the first so many elements
                over = ('in', start[1]) if start is not None and start[0] == 'begin' else ('upto', bound[2]) if bound[0] in ('<', '!=') and bound[1] == tag and start == ('const', '0') else ('while', start, bound)
            elif k == 'CXXForRangeStmt':
                decls = [c for c in ins if c.get('kind') == 'DeclStmt']
                rng = decls[0]['inner'][0]
                init = [x for x in rng.get('inner', ()) if x.get('kind')]
                cont = self.ev(init[0])
                over = ('in', cont)
                var = decls[-1]['inner'][0]
                self.env[var['id']] = ('element', cont)
                for c in var.get('inner', ()):
                    if c.get('kind') == 'DecompositionDecl' or c.get('kind') == 'BindingDecl':
                        self.env[c['id']] = ('field', c.get('name'), ('element', cont))
                if var.get('kind') == 'DecompositionDecl':
                    for j, c in enumerate([c for c in var.get('inner', ()) if c.get('kind') == 'BindingDecl']):
                        self.env[c['id']] = ('field', ('first', 'second')[j] if j < 2 else str(j), ('element', cont))
                body, inc = ins[-1], {}
            else:
                body = ins[-1] if k == 'WhileStmt' else ins[0]
                cn = ins[0] if k == 'WhileStmt' else ins[1]
                r = strip(strip(cn)['inner'][0]) if strip(cn).get('kind') == 'BinaryOperator' else {}
                if k == 'WhileStmt' and r.get('kind') == 'DeclRefExpr' and self.env.get(r['referencedDecl']['id']) == ('const', '0') and increments(body, r['referencedDecl']['id']):
                    self.env[r['referencedDecl']['id']] = tag
                b = self.ev(cn)
                over = ('upto', b[2]) if b[0] in ('<', '!=') and b[1] == tag else ('while', b)
                inc = {}
            before = dict(self.env)
            try:
                self.stmt(body)
            except (Break, Continue):
                pass
            for v, t in list(self.env.items()):
                o = before.get(v)
                if o is not None and t != o:
                    self.env[v] = ('each', over, o, t)
        finally:
            self.depth -= 1
    # ---- expressions
    def call(self, key, name, args, n):
        t = ('call', shown(n, key)) + tuple(args)
        if name in STD_OK or name in C_OK or key.startswith('Log::'):
            return t
        if self.lib.may_throw(key):
            j = self.choose(1 + len(CLASSES))
            if j:
                raise Thrown(CLASSES[j - 1], key)
        self.calls.append((t, qtype(n) == 'void'))
        return t
    def args(self, l):
        return [nv(self.ev(a)) for a in l if a.get('kind') != 'CXXDefaultArgExpr']
    def ev(self, n):
        k = n.get('kind')
        ins = n.get('inner', [])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'ParenExpr', 'ExprWithCleanups',
                 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXRewrittenBinaryOperator'):
            if n.get('castKind') == 'NullToPointer':
                return ('const', 'null')
            if k in ('CXXReinterpretCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and n.get('castKind') == 'BitCast':
                a, b = (n.get('type') or {}).get('qualType', ''), (ins[-1].get('type') or {}).get('qualType', '')
                if a.count('*') == 1 and b.count('*') == 1:
                    self.casts.add((base_type(b), base_type(a)))
            if n.get('castKind') == 'IntegralToBoolean':
                t = self.ev(ins[-1])
                return t if t[0] == 'const' else self.truth(('!=', t, ('const', '0')))
            if n.get('castKind') == 'IntegralCast' and width(n) < width(ins[-1]):
                t = self.ev(ins[-1])
                return t if t[0] == 'const' else ('narrow', width(n), t)
            return self.ev(ins[-1] if k != 'CXXRewrittenBinaryOperator' else ins[0])
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in self.env:
                return self.env[d['id']]
            if d.get('kind') == 'EnumConstantDecl':
                return ('const', d['name'])
            if d.get('kind') in ('VarDecl', 'BindingDecl'):
                return ('global', d['name'])
            return ('fn', d.get('name'))
        if k in ('IntegerLiteral', 'CharacterLiteral', 'FloatingLiteral', 'StringLiteral'):
            return ('const', str(n.get('value')))
        if k == 'CXXBoolLiteralExpr':
            return ('const', 'true' if n.get('value') else 'false')
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return ('const', 'null')
        if k == 'CXXDefaultArgExpr':
            return ('default',)
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '&':
                x = strip(ins[0])
                if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in self.env:
                    return ('addr', x['referencedDecl']['id'], self.env[x['referencedDecl']['id']], owns(ins[0]))
                return ('view', nv(self.ev(ins[0]))) if owns(ins[0]) else self.ev(ins[0])
            if op == '*':
                return self.ev(ins[0])
            if op in ('++', '--'):
                return self.ev(ins[0])
            if op == '!':
                t = self.truth(self.ev(ins[0]))
                return t[1] if t[0] == 'not' else ('not', t)
            return (op, self.ev(ins[0]))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = n['opcode']
            if op == '=':
                v = self.ev(ins[1])
                self.assign(ins[0], v)
                return v
            if k == 'CompoundAssignOperator':
                v = (op, self.ev(ins[0]), self.ev(ins[1]))
                self.assign(ins[0], v)
                return v
            if op == ',':
                self.ev(ins[0])
                return self.ev(ins[1])
            a, b = self.ev(ins[0]), self.ev(ins[1])
            if op in ('==', '!='):
                return self.truth((op, b, a) if a[0] == 'const' else (op, a, b))
            return (op, a, b)
        if k == 'ConditionalOperator':
            return self.ev(ins[1]) if self.cond(ins[0]) else self.ev(ins[2])
        if k == 'ArraySubscriptExpr':
            return ('at', self.ev(ins[0]), self.ev(ins[1]))
        if k == 'MemberExpr':
            return ('field', n.get('name'), self.ev(ins[0]))
        if k == 'CXXDeleteExpr':
            self.calls.append((('call', 'delete[]' if n.get('isArray') else 'delete', ('type', base_type(qtype(strip_implicit(ins[0])))), self.ev(ins[0])), True))
            return ('void',)
        if k == 'CXXNewExpr':
            t = base_type(qtype(n))
            if n.get('isArray'):
                return ('buffer', self.ev(ins[0]) if ins else ('const', '?'))
            if ins:
                return self.ev(ins[0])
            return ('call', '%s::%s' % (t, t))
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr':
            return ('const', '0')
        if k == 'InitListExpr':
            return ('list',) + tuple(self.ev(c) for c in ins)
        if k == 'UnaryExprOrTypeTraitExpr':
            return ('const', 'sizeof')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            c = base_type(qtype(n))
            a = self.args(ins)
            t = qtype(n)
            ct = (n.get('ctorType') or {}).get('qualType', '')
            if '<' in t or c in ('string', 'basic_string', 'iterator', 'exception') or 'std::' in t and 'electionguard' not in t:
                if 'chrono::duration' in t and 'time_point' not in t and a and a[0][0] != 'unit' and (n.get('ctorType') or {}).get('qualType', '').find('duration<') < 0:
                    return ('unit', t, a[0])
                # standard value: a copy, a view, a range or empty
                if len(a) >= 2 and a[0][0] == 'begin' and a[1] == ('end', a[0][1]):
                    return a[0][1]
                if len(a) >= 2 and a[1][0] == '+' and a[1][1] == a[0]:
                    return ('range', a[0], a[1][2])
                if len(a) >= 2 and ('vector' in t or 'string' in t) and a[1] not in (('default',), ('empty',)) and 'llocator' not in str(a[1]):
                    return ('range', a[0], a[1])
                return a[0] if a else ('empty',)
            if len(a) == 1 and re.search(r'\(\s*(const )?(electionguard::)?%s ?&&?\s*\)' % re.escape(c), ct):
                return a[0]
            if c.startswith('eg_'):
                return a[0] if a else ('empty',)
            return self.call('%s::%s' % (c, c), c, a, n)
        if k == 'CXXOperatorCallExpr':
            key, name = callee(n)
            a = self.args(ins[1:])
            if name in ('operator*', 'operator->'):
                return ('view', a[0]) if owns(ins[1]) else a[0]
            if name == 'operator[]':
                t = ('at' if self.below(a[1], a[0]) else '[]', a[0], a[1])
                return ('view', t) if owns(ins[1]) and 'reference_wrapper' not in qtype(ins[1]) else t
            if name == 'operator=':
                self.assign(ins[1], a[1])
                return a[1]
            if name in ('operator==', 'operator!='):
                return (name[8:], a[0], a[1])
            if name in ('operator++', 'operator--'):
                return a[0]
            if name == 'operator()':
                raise Unsupported('lambda in %s' % self.name)
            return ('call', name) + tuple(a)
        if k == 'CXXMemberCallExpr':
            key, name = callee(n)
            if name is None:
                raise Unsupported('call in %s' % self.name)
            me = ins[0]
            while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'):
                me = me['inner'][0]
            obj = nv(self.ev(me['inner'][0]))
            a = self.args(ins[1:])
            if key in self.lib.byname:
                if name == 'clone':
                    self.call(key, name, [obj], n)
                    return obj
                return self.call(key, name, [obj] + a, n)
            if name in TRANSPARENT or name.startswith('operator '):
                return ('view', obj) if name in ('get', 'c_str', 'data') and owns(me['inner'][0]) else obj
            if name in ('begin', 'cbegin'):
                return ('begin', obj)
            if name in ('end', 'cend'):
                return ('end', obj)
            if name == 'at':
                j = self.choose(2)
                if j:
                    raise Thrown('std::out_of_range', 'at')
                t = ('at', obj, a[0])
                return ('view', t) if owns(me['inner'][0]) and 'reference_wrapper' not in qtype(me['inner'][0]) else t
            if name in ('size', 'length'):
                return ('size', obj)
            if name in MUTATING:
                if name not in IGNORED_MUT:
                    self.assign(me['inner'][0], ('added', obj) + tuple(a))
                return ('void',)
            if name in STD_OK or name == 'what':
                return ('std', name, obj) + tuple(a)
            t = qtype(me['inner'][0])
            if 'electionguard' in t or base_type(t) in {x.split('::')[0] for x in self.lib.byname if '::' in x}:
                return self.call(key, name, [obj] + a, n)
            j = self.choose(2)
            if j:
                raise Thrown('std::runtime_error', name)
            return ('std', name, obj) + tuple(a)
        if k == 'CallExpr':
            key, name = callee(n)
            if name is None:
                raise Unsupported('call in %s' % self.name)
            d = find_ref(ins[0])
            f = self.unit.local(d)
            if f is not None:
                return self.inline(f, self.args(ins[1:]))
            a = self.args(ins[1:])
            if f is None and name == 'dynamicCopy' and len(a) == 2 and a[1][0] in ('addr', 'p'):
                if a[1][0] == 'addr':
                    self.env[a[1][1]] = ('size of copy', a[0])
                else:
                    self.out[a[1][1]] = ('size of copy', a[0])
                return a[0]
            if name in LOGS:
                return ('void',)
            if name in ('make_unique', 'make_shared'):
                c = base_type(qtype(n))
                if len(a) == 1 and base_type(qtype(strip(ins[1]))) == c:
                    return a[0]     # a copy
                return self.call('%s::%s' % (c, c), c, a, n)
            if name == 'memcpy' or name == 'copy' or name == 'strncpy':
                dst, src = (a[0], a[1]) if name != 'copy' else (a[2], a[0])
                if name == 'copy' and src[0] == 'begin':
                    src = src[1]
                for o, t in list(self.out.items()):
                    if t == dst or dst == ('p', o):
                        self.out[o] = src
                for v, t in list(self.env.items()):
                    if t == dst and t[0] != 'p':
                        self.env[v] = src
                return ('void',)
            if name in TRANSPARENT:
                if name not in STD_OK and self.lib.may_throw(key) and name in self.lib.byname:
                    j = self.choose(2)
                    if j:
                        raise Thrown('std::bad_alloc', name)
                return a[0]
            if name == 'eg_linked_list_append':
                self.assign(ins[1], ('added', a[0]) + tuple(a[1:]))
                return ('call', name)
            if name == 'free':
                self.calls.append((('call', 'free', a[0]), True))
                return ('void',)
            for j, x in enumerate(a):
                if x[0] == 'addr':
                    self.env[x[1]] = ('set by', key, j) + tuple(y for y in a if y[0] != 'addr')
            return self.call(key, name, [x if x[0] != 'addr' else ('&',) for x in a], n)
        if k == 'LambdaExpr':
            return ('lambda',)
        if k == 'CXXThrowExpr':
            if not ins:
                raise self.handling
            t = base_type(qtype(ins[0]))
            raise Thrown('std::' + t if 'std::' + t in CLASSES else 'std::exception', 'throw')
        raise Unsupported('%s in %s' % (k, self.name))
    def assign(self, lhs, v):
        x = strip(lhs)
        if x.get('kind') == 'DeclRefExpr':
            self.env[x['referencedDecl']['id']] = v
            return
        if x.get('kind') == 'UnaryOperator' and x['opcode'] == '*':
            p = self.ev(x['inner'][0])
            if p[0] == 'p':
                self.out[p[1]] = v
                return
            raise Unsupported('assignment through a pointer in %s' % self.name)
        if x.get('kind') in ('ArraySubscriptExpr', 'CXXOperatorCallExpr'):
            b = x['inner'][0] if x['kind'] == 'ArraySubscriptExpr' else x['inner'][1]
            i = self.ev(x['inner'][1] if x['kind'] == 'ArraySubscriptExpr' else x['inner'][2])
            base = strip(b)
            old = self.ev(b)
            if base.get('kind') == 'UnaryOperator' and base['opcode'] == '*':
                q = self.ev(base['inner'][0])
                if q[0] == 'p':
                    self.out[q[1]] = ('added', self.out.get(q[1]), i, v)
                    return
            if base.get('kind') == 'DeclRefExpr':
                if old[0] == 'p' and old[1] in self.outset:
                    self.out[old[1]] = ('added', self.out.get(old[1]), i, v)
                else:
                    self.env[base['referencedDecl']['id']] = ('added', old, i, v)
                return
        raise Unsupported('assignment to %s in %s' % (x.get('kind'), self.name))
    @property
    def outset(self):
        return set(self.outs())
    def inline(self, f, args):
        ps = [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for p, a in zip(ps, args):
            self.env[p['id']] = a
        body = [c for c in f.get('inner', ()) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')][0]
        try:
            self.stmt(body)
        except Returned as e:
            return e.v if e.v is not None else ('void',)
        return ('void',)

def strip_implicit(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('castKind') != 'BitCast':
        n = n['inner'][-1]
    return n
def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
        n = n['inner'][-1]
    return n

def increments(n, vid):
    if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '++':
        x = strip(n['inner'][0])
        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == vid:
            return True
    return any(isinstance(c, dict) and increments(c, vid) for c in n.get('inner', ()))
class Unit:
    def __init__(self, path):
        self.path = path
        self.docs = astload.run_clang(path, 'eg_')
        self.entries, self.helpers, self.asked = {}, {}, set()
        for d in self.docs:
            self.find(d)
    def find(self, d):
        if d.get('kind') == 'FunctionDecl' and any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in d.get('inner', ())):
            (self.entries if d.get('name', '').startswith('eg_') and d.get('storageClass') != 'static' and d.get('name') != 'eg_electionguard_get_status' else self.helpers)[d['name'] if d.get('name', '').startswith('eg_') else d['id']] = d
            return
        for c in d.get('inner', ()):
            if isinstance(c, dict) and d.get('kind') in ('LinkageSpecDecl', 'NamespaceDecl', 'FunctionTemplateDecl', 'TranslationUnitDecl'):
                self.find(c)
    def local(self, d):
        """a helper defined in this file (not in a namespace of the library), or None"""
        if d is None or d.get('kind') != 'FunctionDecl':
            return None
        nm = d.get('name', '')
        if nm.startswith('eg_'):
            return self.helpers.get(nm) or self.entries.get(nm)
        key = (nm, (d.get('type') or {}).get('qualType'))
        if nm in STD_OK or nm in TRANSPARENT or nm in ('make_unique', 'make_shared') or nm in LOGS:
            return None
        if key not in self.asked:
            self.asked.add(key)
            src = open(self.path).read()
            if re.search(r'\b%s\s*\([^;{]*\)\s*\{' % re.escape(nm), src):
                for x in astload.run_clang(self.path, nm):
                    self.by_name(x, nm)
        return self.helpers.get((nm, key[1]))
    def by_name(self, x, nm):
        if x.get('kind') == 'FunctionDecl' and x.get('name') == nm and any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in x.get('inner', ())):
            self.helpers[(nm, (x.get('type') or {}).get('qualType'))] = x
        for c in x.get('inner', ()):
            if isinstance(c, dict):
                self.by_name(c, nm)

def sig(t):
    """what a term refers to, without the ways of writing it"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'addr':
        return ['dangling', sig(t[2])] if t[3] else sig(t[2])
    if t[0] == 'view':
        return ['dangling', sig(t[1])]
    if t[0] == 'call':
        return ['call', t[1]] + [sig(x) for x in t[2:] if x != ('default',)]
    if t[0] == 'each':
        return ['each', sig(t[1]), sig(t[3])]
    if t[0] in ('iter', 'element'):
        return ['element', sig(t[1][1] if t[0] == 'iter' else t[1])]
    if t[0] == 'added':
        return ['added'] + [sig(x) for x in t[1:] if x is not None and x[0] not in ('empty', 'each', 'added', 'buffer')] + [sig(x) for x in t[1:2] if x is not None and x[0] in ('added', 'each')]
    return [sig(x) if isinstance(x, tuple) else x for x in t]

def vocabulary(s, calls, rest):
    """the calls, parameters and constants a signature mentions"""
    if isinstance(s, list):
        if s and s[0] == 'call':
            calls.add(s[1])
            for x in s[2:]:
                vocabulary(x, calls, rest)
        elif len(s) == 2 and s[0] in ('p', 'const', 'field'):
            rest.add(tuple(str(x) for x in s))
        else:
            for x in s[1:]:
                vocabulary(x, calls, rest)
            if s and s[0] in ('dangling', '[]', 'range', 'size', 'size of copy', 'narrow'):
                rest.add((s[0],))
def mentions(s, w):
    return isinstance(s, list) and (s and s[0] == w or any(mentions(x, w) for x in s))
def summary(e):
    """what the entry point does, as a contract: output, effect and result per way of ending"""
    r = {'success': [], 'value': [], 'thrown': []}
    for kind, val, out, guards, throws, calls in e.paths():
        if kind == 'throw':
            continue
        eff = sorted((sig(c) for c, v in calls if v), key=json.dumps)
        o = {e.params[i].get('name') or str(i): sig(t) for i, t in sorted(out.items())}
        o = {str(i): sig(t) for i, t in sorted(out.items())}
        if e.status and val == ('const', SUCCESS) and not throws:
            x, k = {'out': o, 'effects': eff}, 'success'
        elif not e.status:
            x, k = {'ret': sig(val) if val is not None else None, 'out': o, 'effects': eff}, 'thrown' if throws else 'value'
            if throws:
                x = {'ret': x['ret']}
            elif any(b and g[0] == 'null' for g, b in guards):
                continue
        else:
            continue
        if x not in r[k]:
            r[k].append(x)
    return r
