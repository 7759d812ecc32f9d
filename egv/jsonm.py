"""Model of nlohmann::json as the serializers use it: values null / bool / number / string / array / object, brace lists,
element access, and the text, BSON and MessagePack encodings as exact inverses on the values they can represent
(assumed contract on the JSON library; strings valid UTF-8, BSON only for objects)."""
import z3
from values import *
import engine as E
import star
from engine import ntype, norm_type, tmpl, INT_TYPES, DEFAULT

def type_error():
    return CppThrow('nlohmann::detail::type_error')

class Json:
    def __init__(self, kind='null', val=None):
        self.st = (kind, tuple(val) if isinstance(val, list) else val)     # arr: (Cell(Json)...); obj: ((key, Cell(Json))...); num: int or z3 int
        self.ser = serial()
    kind = property(lambda s: s.st[0])
    val = property(lambda s: s.st[1])
    def put(self, kind, val):
        t = TRAIL[-1]
        if t is not None:
            t.append((self, 'st', self.st))
        self.st = (kind, val if isinstance(val, star.StarList) else tuple(val))
    def add(self, x):
        self.put(self.kind, star.StarList(self.val.segs + [(x, None)]) if isinstance(self.val, star.StarList) else self.val + (x,))
    def __repr__(self):
        return 'Json(%s)' % self.kind
    def egv_copy(self, eng=None):
        if self.kind == 'arr':
            return Json('arr', star.mapped(self.val, lambda c: Cell(c.get().egv_copy())))
        if self.kind == 'obj':
            return Json('obj', [(k, Cell(c.get().egv_copy())) for k, c in self.val])
        return Json(self.kind, self.val)
    def egv_size(self):
        return 0 if self.kind == 'null' else star.length(self.val) if self.kind in ('arr', 'obj') else 1
    def egv_at(self, i):
        if self.kind == 'arr':
            return self.val[i]
        if self.kind == 'obj':
            return self.val[i][1]
        return Cell(self)
    def egv_star_items(self):
        return self.val if self.kind == 'arr' and isinstance(self.val, star.StarList) else None
    def egv_reach(self):
        if self.kind == 'arr':
            return [c for c, _ in star.segs_of(self.val) if c is not None]
        return [c for _, c in self.val] if self.kind == 'obj' else []
    def find(self, eng, k):
        for i, (k2, c) in enumerate(self.val):
            if eng.branch(eng.str_compare('==', k, k2)):
                return c
        return None
    def egv_operator(self, eng, n, op, args):
        this = args[0]
        if op == 'operator[]':
            k = args[1].get()
            const = ntype(n['inner'][1]).startswith('const ')
            if isinstance(k, int):
                if self.kind == 'arr' and 0 <= k < len(self.val):
                    return self.val[k]
                if self.kind in ('arr', 'null'):
                    raise UB('json array index out of range')
                raise type_error()
            if self.kind == 'null' and not const:
                self.put('obj', [])
            if self.kind != 'obj':
                raise type_error()
            c = self.find(eng, k)
            if c is None:
                if const:
                    raise UB('const json operator[] on a missing key')
                c = Cell(Json())
                self.add((k, c))
            return c
        if op == 'operator=':
            x = args[1].get()
            this.set(x.egv_copy() if isinstance(x, Json) else self.of(eng, x))
            return this
        if op in ('operator==', 'operator!='):
            x = args[1].get()
            if x is NULL or isinstance(x, Json) and x.kind == 'null':
                r = self.kind == 'null'
                return r if op == 'operator==' else not r
        raise Unsupported('json ' + op)

    @staticmethod
    def of(eng, v, t=None):
        if isinstance(v, Json):
            return v
        if v is NULL:
            return Json()
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return Json('bool', v)
        if isinstance(v, (int, z3.ArithRef)):
            if t is not None and norm_type(E.strip_ref(norm_type(t))) == 'bool':
                return Json('bool', eng.to_bool(v))
            return Json('num', v)
        if isinstance(v, (str, SymStr)):
            return Json('str', v)
        if isinstance(v, RefWrap):
            return Json.of(eng, v.loc.get(), t)
        if isinstance(v, Vec):
            return Json('arr', star.mapped(v.items, lambda c: Cell(Json.of(eng, eng.copy_value(c.get())))))
        if isinstance(v, Buf):
            return Json('arr', [Cell(Json('num', v.read(i))) for i in range(v.n)])
        if isinstance(v, MapV) and not v.is_set:
            return Json('obj', [(k, Cell(Json.of(eng, c.get()))) for k, c in v.items])
        raise Unsupported('json from %r' % (v,))
    @staticmethod
    def brace(eng, v):
        """initializer list of json values"""
        xs = [c.get() for c in v.items]
        pair = lambda x: x.kind == 'arr' and len(x.val) == 2 and x.val[0].get().kind == 'str'
        if all(pair(x) for x in xs):
            r = Json('obj', [])
            for x in xs:
                k = x.val[0].get().val
                if r.find(eng, k) is None:
                    r.add((k, Cell(x.val[1].get().egv_copy())))
            return r
        return Json('arr', [Cell(x.egv_copy()) for x in xs])

    def to(self, eng, t):
        t = norm_type(E.strip_ref(norm_type(t)))
        nm, ta = tmpl(t)
        if nm in ('basic_string', 'string'):
            if self.kind != 'str':
                raise type_error()
            return self.val
        if t == 'bool':
            if self.kind != 'bool':
                raise type_error()
            return self.val
        if t in INT_TYPES:
            if self.kind not in ('num', 'bool'):
                raise type_error()
            return eng.wrap(self.val if self.kind == 'num' else eng.wrap(self.val, t), t)
        if nm == 'vector':
            if self.kind != 'arr':
                raise type_error()
            it = norm_type(ta[0])
            if it in INT_TYPES and it != 'bool':
                b = eng.new_vec(ta[0])
                for c in self.val:
                    b.append(c.get().to(eng, ta[0]))
                return b
            return Vec(star.mapped(self.val, lambda c: Cell(c.get().to(eng, ta[0]))), ta[0])
        if nm in ('map', 'unordered_map'):
            if self.kind != 'obj':
                raise type_error()
            m = eng.default_value(t)
            m.items = [(k, Cell(c.get().to(eng, ta[1]))) for k, c in self.val]
            return m
        if is_json(nm, t):
            return self.egv_copy()
        if eng.resolve_enum(t):
            if self.kind != 'num':
                raise type_error()
            return self.val
        raise Unsupported('json converted to ' + t)

    def egv_member(self, eng, n, this, nm, argx):
        if nm == 'get' or nm.startswith('operator ') or nm == 'get_impl' or nm == 'get_ref':
            return self.to(eng, ntype(n))
        args, types, rvs = eng.ev_args(argx)
        A = lambda i: args[i].get()
        if nm == 'contains' or nm == 'count':
            r = self.kind == 'obj' and self.find(eng, A(0)) is not None
            return r if nm == 'contains' else int(r)
        if nm.startswith('is_'):
            k = nm[3:]
            m = {'null': ('null',), 'array': ('arr',), 'object': ('obj',), 'string': ('str',), 'boolean': ('bool',), 'number': ('num',), 'number_integer': ('num',), 'number_unsigned': ('num',),
                 'primitive': ('null', 'bool', 'num', 'str'), 'structured': ('arr', 'obj')}.get(k)
            if m:
                return self.kind in m
        if nm == 'size':
            return self.egv_size()
        if nm == 'empty':
            return self.egv_size() == 0
        if nm in ('begin', 'cbegin'):
            return Iter(self, 0)
        if nm in ('end', 'cend'):
            return Iter(self, self.egv_size())
        if nm == 'at':
            k = A(0)
            if isinstance(k, int):
                if self.kind != 'arr':
                    raise type_error()
                if k >= len(self.val):
                    raise CppThrow('nlohmann::detail::out_of_range')
                return self.val[k]
            if self.kind != 'obj':
                raise type_error()
            c = self.find(eng, k)
            if c is None:
                raise CppThrow('nlohmann::detail::out_of_range')
            return c
        if nm == 'value' and len(args) == 2:
            if self.kind != 'obj':
                raise type_error()
            c = self.find(eng, A(0))
            return A(1) if c is None else c.get().to(eng, ntype(n))
        if nm in ('push_back', 'emplace_back', 'operator+='):
            x = A(0) if args else Json()
            if isinstance(x, Vec) and tmpl(types[0])[0] == 'initializer_list':
                if self.kind == 'obj' and len(x.items) == 2 and x.items[0].get().kind == 'str':
                    if self.find(eng, x.items[0].get().val) is None:
                        self.add((x.items[0].get().val, Cell(x.items[1].get().egv_copy())))
                    return None
                x = Json.brace(eng, x)
            j = Json.of(eng, x, types[0] if types else None).egv_copy()
            if self.kind == 'null':
                self.put('arr', [])
            if self.kind != 'arr':
                raise type_error()
            self.add(Cell(j))
            return self.val[-1] if nm == 'emplace_back' else None
        if nm == 'emplace':
            if self.kind == 'null':
                self.put('obj', [])
            if self.kind != 'obj':
                raise type_error()
            c = self.find(eng, A(0))
            if c is None:
                self.add((A(0), Cell(Json.of(eng, A(1), types[1]).egv_copy())))
            return None
        if nm == 'erase':
            if self.kind == 'obj' and not isinstance(A(0), int):
                c = self.find(eng, A(0))
                self.put('obj', [kv for kv in self.val if kv[1] is not c])
                return int(c is not None)
        if nm == 'clear':
            if self.kind in ('arr', 'obj'):
                self.put(self.kind, [])
                return None
        if nm == 'items':
            if self.kind == 'obj':
                return Vec([Cell(Pair(Cell(k), c)) for k, c in self.val])
            if self.kind == 'null':
                return Vec([])
            if self.kind == 'arr':
                return Vec([Cell(Pair(Cell(str(i)), c)) for i, c in enumerate(self.val)])
        if nm == 'dump':
            return Text('json', self.egv_copy())
        raise Unsupported('json::' + nm)

class Text(SymStr):
    """the text of a json value"""
    __slots__ = ('doc',)
    def __init__(self, fmt, doc):
        self.doc = doc
        self.node = ('doc', fmt, serial())
class Bytes:
    """the BSON or MessagePack encoding of a json value"""
    def __init__(self, fmt, doc):
        self.fmt, self.doc = fmt, doc
    def egv_copy(self, eng):
        return self
    def egv_member(self, eng, n, this, nm, argx):
        raise Unsupported('vector::%s on an encoded document' % nm)

def is_json(name, t):
    return name in ('nlohmann::basic_json', 'basic_json', 'json', 'nlohmann::json', 'json_ref', 'nlohmann::detail::json_ref', 'detail::json_ref', 'nlohmann::json_abi_v3_11_2::basic_json') or name.endswith('::basic_json') or name.endswith('::json_ref') or name.endswith('basic_json::value_type')

def construct(eng, n, t, name, inner):
    args, types, rvs = eng.ev_args(inner)
    if not args:
        return Json()
    v = args[0].get()
    if isinstance(v, Json):
        if inner[0].get('valueCategory') == 'lvalue':
            return v.egv_copy()
        if inner[0].get('valueCategory') == 'xvalue' and inner[0]['kind'] != 'MaterializeTemporaryExpr':
            args[0].set(Json())     # moved from
        return v
    if isinstance(v, Vec) and tmpl(types[0])[0] in ('initializer_list', 'initializer_list_t') or isinstance(v, Vec) and inner[0]['kind'] == 'CXXStdInitializerListExpr':
        return Json.brace(eng, v)
    return Json.of(eng, eng.copy_value(v), types[0])

def static_call(eng, n, nm, args, types):
    """json::array(), json::object(), json::parse(s), ...; NotImplemented when this is something else"""
    A = lambda i: args[i].get()
    if nm in ('array', 'object') and is_json(tmpl(ntype(n))[0], ntype(n)):
        if not args:
            return Json('arr' if nm == 'array' else 'obj', [])
        v = A(0)
        if isinstance(v, Vec) and nm == 'array':
            return Json('arr', star.mapped(v.items, lambda c: Cell(Json.of(eng, c.get()).egv_copy())))
        if isinstance(v, Vec) and nm == 'object':
            r = Json.brace(eng, v)
            if r.kind != 'obj':
                raise type_error()
            return r
    if nm == 'parse' and args:
        v = A(0)
        if isinstance(v, Text) and v.doc is not None:
            return v.doc.egv_copy()
        if isinstance(v, (str, SymStr)):
            raise Unsupported('parsing text that was not written by the serializer')
    for f in ('bson', 'msgpack', 'cbor', 'ubjson'):
        if nm == 'to_' + f and args and isinstance(A(0), Json):
            if f == 'bson' and A(0).kind != 'obj':
                raise type_error()
            return Bytes(f, A(0).egv_copy())
        if nm == 'from_' + f and args and isinstance(A(0), Bytes):
            if A(0).fmt != f:
                raise Unsupported('reading %s as %s' % (A(0).fmt, f))
            return A(0).doc.egv_copy()
    return NotImplemented
