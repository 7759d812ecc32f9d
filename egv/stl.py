"""Models of the standard-library operations the sources use (assumed contracts on the C++ library)."""
import z3, re
from values import *
from terms import atom
from engine import Engine, tmpl, norm_type, strip_ref, ntype, strip_casts, INT_TYPES, DEFAULT
import engine as E
import jsonm
import star
import chars

def vec_from(eng, et, vals):
    if et is not None and norm_type(et) in INT_TYPES and norm_type(et) != 'bool':
        it = INT_TYPES[norm_type(et)]
        b = Buf(eng, it[0], 0, 0, it[1])
        for v in vals:
            b.append(v)
        return b
    return Vec([Cell(v) for v in vals], et)

def size_of(c):
    if hasattr(c, 'egv_size'):
        return c.egv_size()
    if isinstance(c, Vec):
        return star.length(c.items)
    if isinstance(c, Buf):
        return c.n
    if isinstance(c, MapV):
        return len(c.items)
    if isinstance(c, ArrayObj):
        return c.n
    raise Unsupported('size of %r' % (c,))

def iter_deref(eng, it):
    c = it.c
    if hasattr(c, 'egv_at'):
        return c.egv_at(it.i)
    if isinstance(c, MapV):
        if it.i is None:
            raise UB('dereference of end iterator')
        order = map_order(eng, c)
        if not isinstance(it.i, int) or not 0 <= it.i < len(order):
            raise UB('dereference of end iterator')
        k, l = order[it.i]
        if c.is_set:
            return Cell(k)
        return Cell(Pair(Cell(k), l))
    if isinstance(c, (Vec, Buf, ArrayObj)):
        return c.at(it.i)
    if isinstance(c, (str,)):
        return Cell(chars.code(eng, c[it.i]))
    raise Unsupported('iterator over %r' % (c,))

def map_order(eng, m):
    """iteration order: sorted by key for ordered containers; unordered containers keep insertion order (any order
    would be legal: recorded as an assumption)"""
    if not m.ordered or len(m.items) < 2:
        return m.items
    items = list(m.items)
    # insertion sort with branching on symbolic comparisons
    out = []
    for k, l in items:
        pos = len(out)
        for i, (k2, _) in enumerate(out):
            if eng.branch(eng.compare('<', k, k2)):
                pos = i
                break
        out.insert(pos, (k, l))
    if out != items:
        m.mut()
        m.items = out
    return m.items

def map_find(eng, m, k):
    for i, (k2, l) in enumerate(m.items):
        if eng.branch(eng.compare('==', k, k2)):
            return i
    return None

def rv(eng, x):
    return eng.rvalue(x)

def begin_of(eng, v):
    return iter_begin(eng, v)

def iter_begin(eng, v):
    if isinstance(v, MapV):
        map_order(eng, v)
        return Iter(v, 0 if v.items else 0)
    if isinstance(v, Buf) or isinstance(v, Vec) or isinstance(v, ArrayObj):
        return Iter(v, 0)
    if isinstance(v, str):
        return Iter(v, 0)
    raise Unsupported('begin of %r' % (v,))

def iter_end(eng, v):
    if isinstance(v, str):
        return Iter(v, len(v))
    return Iter(v, size_of(v))

def seq_range(eng, a, b):
    """locations in [a,b) for two iterators/pointers into the same sequence"""
    ca = a.c if isinstance(a, Iter) else a.base
    cb = b.c if isinstance(b, Iter) else b.base
    if ca is not cb:
        raise UB('iterator range over different containers')
    if not isinstance(a.i, int) or not isinstance(b.i, int):
        raise Unsupported('symbolic iterator range')
    return ca, a.i, b.i

def copy_range(eng, a, b, out):
    c, i, j = seq_range(eng, a, b)
    oc = out.c if isinstance(out, Iter) else out.base if isinstance(out, APtr) else None
    oi = out.i if oc is not None else None
    if isinstance(c, Buf) and isinstance(oc, Buf):
        if c.w == oc.w:
            blocks(eng, c, i, j, oc, oi)
            return type(out)(oc, oi + (j - i))
    if isinstance(oc, (Buf, Vec, ArrayObj)):
        for k in range(j - i):
            v = (c.at(i + k)).get()
            oc.at(oi + k).set(eng.copy_value(v))
        return type(out)(oc, oi + (j - i))
    raise Unsupported('copy to %r' % (out,))

def blocks(eng, src, i, j, dst, di):
    """block copy keeping chunk structure"""
    if i < 0 or j > src.n:
        raise UB('read [%d,%d) beyond buffer of %d elements' % (i, j, src.n))
    if di + (j - i) > dst.n:
        raise UB('write [%d,%d) beyond buffer of %d elements' % (di, di + j - i, dst.n))
    if j <= i:
        return
    src.save()
    src.cut(i)
    src.cut(j)
    parts = [list(c) for c in src.ch if c[0] >= i and c[0] + c[1] <= j]
    for s, l, v, be in parts:
        dst.setblock(di + s - i, l, v, be)

def buf_eq(eng, a, b):
    if a.n != b.n:
        return False
    if a.n == 0:
        return True
    if len(a.ch) > 1 and [c[:2] + [c[3] and c[1] > 1] for c in a.ch] == [c[:2] + [c[3] and c[1] > 1] for c in b.ch] and not any(isinstance(c[2], MVal) for c in a.ch + b.ch):
        return z3.simplify(z3.And(*[z(c[2]) == z(d[2]) for c, d in zip(a.ch, b.ch)]))
    x, y = a.block(0, a.n, True), b.block(0, b.n, True)
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, MVal) or isinstance(y, MVal):
        raise Unsupported('compare abstract')
    return z3.simplify(z(x) == z(y))

def construct_std(eng, n, t, name, targs, inner):
    if jsonm.is_json(name, t):
        return jsonm.construct(eng, n, t, name, inner)
    if name in ('unique_ptr', 'shared_ptr'):
        if not inner:
            return UPtr(NULL, name == 'shared_ptr')
        args, types, rvs = eng.ev_args(inner)
        if not args:
            return UPtr(NULL, name == 'shared_ptr')
        v = args[0].get()
        if v is NULL:
            return UPtr(NULL, name == 'shared_ptr')
        if isinstance(v, (Ptr, APtr)):
            return UPtr(v, name == 'shared_ptr')
        if isinstance(v, UPtr):
            if name == 'shared_ptr' and v.shared and inner[0].get('valueCategory') == 'lvalue':
                return UPtr(v.p, True)
            r = eng.move_from(args[0])
            return UPtr(r.p, name == 'shared_ptr')
        raise Unsupported('unique_ptr from %r' % (v,))
    if name in ('basic_string', 'string'):
        args, types, rvs = eng.ev_args(inner)
        if not args:
            return ''
        v = args[0].get()
        if isinstance(v, (str, SymStr)):
            if len(args) >= 2 and isinstance(args[1].get(), int):
                k = args[1].get()
                if isinstance(v, str):
                    return v[:k]
            ct = n.get('ctorType', {}).get('qualType', '')
            if '&&' in ct and inner[0].get('valueCategory') == 'xvalue' and strip_casts(inner[0])['kind'] == 'CallExpr':
                return eng.move_from(args[0])
            return v
        if isinstance(v, int) and len(args) >= 2 and isinstance(args[1].get(), int):
            return chr(args[1].get()) * v
        if isinstance(v, Iter) and len(args) >= 2:
            c, i, j = seq_range(eng, v, args[1].get())
            if isinstance(c, str):
                return c[i:j]
            if isinstance(c, Buf):
                xs = [c.read(k) for k in range(i, j)]
                if all(isinstance(x, int) for x in xs):
                    return ''.join(chr(x) for x in xs)
        if isinstance(v, APtr) and isinstance(v.base, Buf):
            xs = []
            k = v.i
            while k < v.base.n and (len(args) < 2 or k - v.i < args[1].get()):
                x = v.base.read(k)
                if not isinstance(x, int):
                    raise Unsupported('string from symbolic bytes')
                if x == 0 and len(args) < 2:
                    break
                xs.append(chr(x))
                k += 1
            return ''.join(xs)
        raise Unsupported('string construction from %r' % (v,))
    if name == 'vector' or name == 'initializer_list':
        ct = n.get('ctorType', {}).get('qualType', '')
        args, types, rvs = eng.ev_args(inner)
        if not args:
            return eng.new_vec(targs[0])
        v = args[0].get()
        if isinstance(v, jsonm.Bytes):
            return v
        if isinstance(v, (Vec, Buf)) and len(args) == 1:
            if inner[0]['kind'] in ('CXXStdInitializerListExpr',) or tmpl(types[0])[0] == 'initializer_list':
                r = eng.copy_value(v)
                if isinstance(r, Vec):
                    r.etype = targs[0]
                return r
            if inner[0].get('valueCategory') == 'prvalue' or inner[0]['kind'] == 'MaterializeTemporaryExpr':
                return v
            if '&&' in ct or inner[0].get('valueCategory') == 'xvalue':
                return eng.move_from(args[0])
            return eng.copy_value(v)
        if isinstance(v, (Iter, APtr)) and len(args) == 2:
            et = norm_type(targs[0])
            if star.whole(v, args[1].get()) is not None:
                c = v.c
                if tmpl(et)[0] == 'variant' and tmpl(c.etype or 'variant<>')[0] != 'variant':
                    alts = tmpl(et)[1]
                    ix = variant_index(eng, c.etype, Variant(0, None, alts))
                    return Vec(star.mapped(c.items, lambda x: Cell(Variant(ix, Cell(eng.copy_value(x.get())), alts))), et)
                return Vec(star.mapped(c.items, lambda x: Cell(convert_elem(eng, et, x))), et)
            c, i, j = seq_range(eng, v, args[1].get())
            if et in INT_TYPES and isinstance(c, Buf):
                it = INT_TYPES[et]
                b = Buf(eng, it[0], j - i, 0, it[1])
                if c.w == it[0]:
                    blocks(eng, c, i, j, b, 0)
                else:
                    for k in range(j - i):
                        b.write(k, c.read(i + k))
                return b
            if isinstance(c, str) and et in INT_TYPES:
                it = INT_TYPES[et]
                b = Buf(eng, it[0], j - i, 0, it[1])
                for k in range(j - i):
                    b.write(k, chars.code(eng, c[i + k]))
                return b
            if c is not None:
                if tmpl(et)[0] == 'variant':
                    m = re.search(r'__normal_iterator<(?:const )?(.*?) ?\*, ', norm_type(types[0]))
                    src = getattr(c, 'etype', None) or (m.group(1) if m else None)
                    if src is None:
                        raise Unsupported('variant from a range of unknown element type')
                    if tmpl(src)[0] != 'variant':
                        alts = tmpl(et)[1]
                        t = Variant(0, None, alts)
                        ix = variant_index(eng, src, t)
                        return Vec([Cell(Variant(ix, Cell(eng.copy_value(c.at(k).get())), alts)) for k in range(i, j)], et)
                return Vec([Cell(convert_elem(eng, et, c.at(k))) for k in range(i, j)], et)
        if isinstance(v, (int, z3.ArithRef)):
            if not isinstance(v, int):
                raise Unsupported('vector of symbolic size')
            fill = args[1].get() if len(args) > 1 else None
            et = norm_type(targs[0])
            if et in INT_TYPES and et != 'bool':
                it = INT_TYPES[et]
                b = Buf(eng, it[0], v, 0, it[1])
                if fill not in (None, 0):
                    for k in range(v):
                        b.write(k, fill)
                return b
            return Vec([Cell(eng.copy_value(fill) if fill is not None else eng.default_value(et)) for _ in range(v)], et)
        raise Unsupported('vector construction from %r' % (v,))
    if name == 'variant':
        args, types, rvs = eng.ev_args(inner)
        if not args:
            return Variant(0, Cell(eng.default_value(targs[0])), targs)
        v = args[0].get()
        if isinstance(v, Variant):
            return eng.copy_value(v)
        best = None
        at = norm_type(strip_ref(types[0]))
        for i, alt in enumerate(targs):
            if norm_type(alt) == at or norm_type(alt).replace('electionguard::', '') == at.replace('electionguard::', ''):
                best = (100, i)
                break
            s = eng.type_score(alt, args[0], types[0], None)
            if s is not None and (best is None or s > best[0]):
                best = (s, i)
        if best is None:
            raise Unsupported('variant alternative for %s' % at)
        i = best[1]
        return Variant(i, Cell(eng.copy_value(v) if inner[0].get('valueCategory') == 'lvalue' else v), targs)
    if name in ('pair', 'tuple'):
        args, types, rvs = eng.ev_args(inner)
        if len(args) == 1 and isinstance(args[0].get(), Pair):
            v = args[0].get()
            return v if inner[0].get('valueCategory') != 'lvalue' else eng.copy_value(v)
        ps = []
        for i, a in enumerate(args):
            tt = targs[i] if i < len(targs) else types[i]
            if tt.strip().endswith('&'):
                ps.append(a)
            else:
                v = a.get()
                if isinstance(v, UPtr) and not v.shared:
                    v = eng.move_from(a)
                elif inner[i].get('valueCategory') == 'lvalue':
                    v = eng.copy_value(v)
                ps.append(Cell(eng.implicit_convert(tt, v)))
        if not args:
            return Pair(*[Cell(eng.default_value(a)) for a in targs])
        return Pair(*ps)
    if name == 'reference_wrapper':
        args, types, rvs = eng.ev_args(inner)
        v = args[0].get()
        if isinstance(v, RefWrap):
            return v
        return RefWrap(args[0])
    if name in ('map', 'unordered_map', 'set', 'unordered_set'):
        args, types, rvs = eng.ev_args(inner)
        m = eng.default_value(t)
        if not args:
            return m
        v = args[0].get()
        if isinstance(v, MapV):
            if inner[0].get('valueCategory') == 'prvalue' or inner[0]['kind'] == 'MaterializeTemporaryExpr':
                return v
            if inner[0].get('valueCategory') == 'xvalue':
                return eng.move_from(args[0])
            return eng.copy_value(v)
        if isinstance(v, Vec):
            for c in v.items:
                x = c.get()
                if m.is_set:
                    map_insert(eng, m, x, None)
                else:
                    map_insert(eng, m, x.f[0].get(), x.f[1].get())
            return m
        if isinstance(v, Iter) and len(args) >= 2:
            c, i, j = seq_range(eng, v, args[1].get())
            for k in range(i, j):
                x = iter_deref(eng, Iter(c, k)).get()
                if m.is_set:
                    map_insert(eng, m, x, None)
                else:
                    map_insert(eng, m, x.f[0].get(), x.f[1].get())
            return m
        raise Unsupported('map construction')
    if name in ('basic_stringstream', 'basic_ostringstream'):
        return OStream()
    if name.startswith('chrono::'):
        args, types, rvs = eng.ev_args(inner)
        if args:
            return args[0].get()
        return Opaque('time', 0)
    if name in ('queue', 'deque', 'list'):
        args, types, rvs = eng.ev_args(inner)
        if args:
            return eng.move_from(args[0]) if inner[0].get('valueCategory') != 'lvalue' else eng.copy_value(args[0].get())
        if name == 'queue' and eng.sym_queues:
            return eng.default_value('std::queue<%s>' % targs[0])
        return Vec(etype=targs[0] if targs else None)
    if name in ('lock_guard', 'unique_lock', 'scoped_lock', 'mutex', 'thread'):
        return Opaque(name)
    if name in ('invalid_argument', 'runtime_error', 'out_of_range', 'bad_alloc', 'bad_cast', 'overflow_error', 'logic_error', 'exception', 'length_error', 'domain_error', 'range_error'):
        return Opaque('exception', name)
    if name.startswith('__gnu_cxx::__normal_iterator') or name in ('_Rb_tree_const_iterator', '_Rb_tree_iterator', '__normal_iterator', '__detail::_Node_iterator', '__detail::_Node_const_iterator', 'reverse_iterator', 'back_insert_iterator'):
        args, types, rvs = eng.ev_args(inner)
        return args[0].get()
    if name == 'function':
        args, types, rvs = eng.ev_args(inner)
        return args[0].get() if args else NULL
    if name == 'array':
        args, types, rvs = eng.ev_args(inner)
        if args:
            return eng.copy_value(args[0].get())
        return eng.default_value(t)
    if name == 'optional':
        args, types, rvs = eng.ev_args(inner)
        if not args or args[0].get() is NULL:
            return Variant(0, None, targs)
        v = args[0].get()
        if isinstance(v, Variant):
            return eng.copy_value(v)
        return Variant(1, Cell(eng.copy_value(v)), targs)
    if name == 'tm' or t.startswith('Hacl_'):
        return Opaque(t)
    return NotImplemented

def convert_elem(eng, et, loc):
    v = loc.get()
    n, a = tmpl(et)
    if n == 'reference_wrapper':
        return v if isinstance(v, RefWrap) else RefWrap(loc)
    if isinstance(v, RefWrap):
        return eng.copy_value(v.loc.get())
    return eng.copy_value(v)

def map_insert(eng, m, k, v, overwrite=False):
    i = map_find(eng, m, k)
    if i is not None:
        if overwrite:
            m.items[i][1].set(v)
        return Pair(Cell(Iter(m, i)), Cell(False))
    items = m.mut()
    items.append((k, Cell(v) if not m.is_set else None))
    return Pair(Cell(Iter(m, len(items) - 1)), Cell(True))

def make_object(eng, tname, args, types, rvs, ctx=None):
    """perfect-forwarding construction (make_unique, emplace_back)"""
    t = norm_type(tname)
    n, ta = tmpl(t)
    if t in INT_TYPES:
        return eng.wrap(args[0].get(), t) if args else 0
    if n in ('basic_string', 'string'):
        if not args:
            return ''
        v = args[0].get()
        if isinstance(v, (str, SymStr)):
            return v
    if n in ('unique_ptr', 'shared_ptr'):
        v = args[0].get() if args else NULL
        if isinstance(v, UPtr):
            r = eng.move_from(args[0])
            return r
        return UPtr(v)
    if n == 'reference_wrapper':
        v = args[0].get()
        return v if isinstance(v, RefWrap) else RefWrap(args[0])
    if n == 'vector':
        if not args:
            return eng.new_vec(ta[0])
        v = args[0].get()
        if isinstance(v, (Vec, Buf)) and len(args) == 1:
            return eng.move_from(args[0]) if rvs[0] else eng.copy_value(v)
    if n in ('pair', 'tuple'):
        if len(args) == 1 and isinstance(args[0].get(), Pair):
            return eng.move_from(args[0]) if rvs[0] else eng.copy_value(args[0].get())
        return Pair(*[Cell(eng.move_from(a) if r else eng.copy_value(a.get())) for a, r in zip(args, rvs)])
    if n == 'variant':
        v = args[0].get()
        if isinstance(v, Variant):
            return eng.copy_value(v)
        best = None
        for i, alt in enumerate(ta):
            s = eng.type_score(alt, args[0], types[0] if types else None, None)
            if s is not None and (best is None or s > best[0]):
                best = (s, i)
        if best is None:
            raise Unsupported('variant alternative')
        return Variant(best[1], Cell(v), ta)
    c = eng.resolve_class(t, eng.frame.cls if eng.frame else ctx)
    if c is None:
        if args and len(args) == 1:
            return eng.copy_value(args[0].get())
        raise Unsupported('make object of ' + t)
    if len(args) == 1:
        v = args[0].get()
        if isinstance(v, Obj) and v.cls.qn == c.qn:
            return eng.move_construct(c, args[0]) if rvs[0] else eng.copy_construct(c, args[0])
        if isinstance(v, RefWrap):
            args = [v.loc]
            return eng.construct(c, args, types, None, [False])
    return eng.construct(c, args, types, None, rvs)

def call_std(eng, n, nm, argx):
    if nm in ('move', 'forward', 'as_const', 'addressof'):
        if len(argx) == 1:
            l = eng.ev(argx[0])
            if nm == 'addressof':
                return Ptr(eng.as_loc(l))
            return eng.as_loc(l)
    args, types, rvs = eng.ev_args(argx)
    A = lambda i: args[i].get()
    r = jsonm.static_call(eng, n, nm, args, types)
    if r is not NotImplemented:
        return r
    if nm == 'make_unique' or nm == 'make_shared':
        name, ta = tmpl(ntype(n))
        if not ta:
            raise Unsupported('make_unique type ' + ntype(n))
        v = make_object(eng, ta[0], args, types, rvs)
        return UPtr(Ptr(Cell(v)), nm == 'make_shared')
    if nm in ('ref', 'cref'):
        v = A(0)
        return v if isinstance(v, RefWrap) else RefWrap(args[0])
    if nm == 'swap':
        a, b = args[0].get(), args[1].get()
        args[0].set(b)
        args[1].set(a)
        return None
    if nm in ('begin', 'cbegin'):
        v = A(0)
        if isinstance(v, (Buf, ArrayObj)) and '*' in ntype(n):
            return APtr(v, 0)
        return iter_begin(eng, v)
    if nm in ('end', 'cend'):
        v = A(0)
        if isinstance(v, (Buf, ArrayObj)) and '*' in ntype(n):
            return APtr(v, v.n)
        return iter_end(eng, v)
    if nm == 'size':
        return size_of(A(0))
    if nm == 'empty':
        s = size_of(A(0))
        return s == 0
    if nm == 'distance':
        return eng.ptr_arith('-', A(1), A(0))
    if nm in ('next', 'prev'):
        k = A(1) if len(args) > 1 else 1
        return eng.ptr_arith('+' if nm == 'next' else '-', A(0), k)
    if nm == 'advance':
        args[0].set(eng.ptr_arith('+', A(0), A(1)))
        return None
    if nm in ('copy', 'move', 'copy_backward'):
        return copy_range(eng, A(0), A(1), A(2))
    if nm == 'copy_n':
        return copy_range(eng, A(0), eng.ptr_arith('+', A(0), A(1)), A(2))
    if nm in ('memcpy', 'memmove'):
        d, s, k = A(0), A(1), A(2)
        return memcpy(eng, d, s, k)
    if nm == 'memset':
        d, v, k = A(0), A(1), A(2)
        if isinstance(d, APtr) and isinstance(d.base, Buf) and v == 0:
            w = d.base.w // 8
            d.base.setblock(d.i, k // w, 0)
            return d
        raise Unsupported('memset')
    if nm == 'fill' or nm == 'fill_n':
        c, i, j = seq_range(eng, A(0), A(1)) if nm == 'fill' else (A(0).c if isinstance(A(0), Iter) else A(0).base, A(0).i, A(0).i + A(1))
        for k in range(i, j):
            c.at(k).set(eng.copy_value(A(2)))
        return None
    if nm == 'reverse':
        c, i, j = seq_range(eng, A(0), A(1))
        if isinstance(c, Buf):
            if i == 0 and j == c.n:
                c.save()
                for ch in c.ch:
                    ch[0] = c.n - ch[0] - ch[1]
                    if ch[1] > 1:
                        ch[3] = not ch[3]
                c.ch.sort(key=lambda x: x[0])
                return None
            vals = [c.read(k) for k in range(i, j)]
            for k, v in enumerate(reversed(vals)):
                c.write(i + k, v)
            return None
        if isinstance(c, Vec):
            items = c.mut()
            items[i:j] = items[i:j][::-1]
            return None
        raise Unsupported('reverse')
    if nm in ('free', 'delete'):
        return None
    if nm == 'Lib_Memzero0_memzero':
        memzero(eng, A(0), A(1))
        return None
    if nm in ('__bswap_64', 'htobe64', 'be64toh', '__builtin_bswap64', 'bswap_64'):
        x = A(0)
        if isinstance(x, int):
            return int.from_bytes(x.to_bytes(8, 'little'), 'big')
        b = Buf(eng, 8, 8, x)
        return b.block(0, 8, True)
    if nm in ('__bswap_16',):
        x = A(0)
        if isinstance(x, int):
            return int.from_bytes(x.to_bytes(2, 'little'), 'big')
        b = Buf(eng, 8, 2, x)
        return b.block(0, 2, True)
    if nm == 'to_string':
        v = A(0)
        if isinstance(v, bool):
            return str(int(v))
        if isinstance(v, int):
            return str(v)
        if isinstance(v, z3.ArithRef):
            return SymStr(('dec', str(z3.simplify(v))))
        raise Unsupported('to_string of %r' % (v,))
    if nm in ('stoi', 'stoul', 'stoull', 'stol'):
        s = A(0)
        base = A(2) if len(args) > 2 else 10
        if chars.symbolic(s):
            if base != 16:
                raise Unsupported('digits of arbitrary value in another base')
            return chars.parse(eng, s)
        if isinstance(s, str) and isinstance(base, int):
            m = re.match(r'\s*[+-]?(0[xX])?([0-9a-zA-Z]+)', s)
            digits = ''
            body = s.lstrip()
            sign = 1
            if body[:1] in '+-':
                sign = -1 if body[:1] == '-' else 1
                body = body[1:]
            if base == 16 and body[:2].lower() == '0x':
                body = body[2:]
            for ch in body:
                try:
                    if int(ch, 36) < base:
                        digits += ch
                    else:
                        break
                except ValueError:
                    break
            if not digits:
                raise CppThrow('std::invalid_argument')
            return sign * int(digits, base)
        raise Unsupported('stoi of symbolic string')
    if nm == 'holds_alternative':
        v = A(0)
        alt = n_template_arg(eng, n, v)
        return v.idx == alt
    if nm == 'get':
        v = A(0)
        if isinstance(v, Variant):
            i = variant_index(eng, ntype(n), v)
            if i != v.idx:
                raise CppThrow('std::bad_variant_access')
            return v.loc
        if isinstance(v, Pair):
            raise Unsupported('std::get on tuple')
        raise Unsupported('std::get of %r' % (v,))
    if nm == 'visit':
        fn, v = A(0), A(1)
        return eng.invoke(fn, [v.loc])
    if nm == 'sort' or nm == 'stable_sort':
        return do_sort(eng, A(0), A(1), args[2].get() if len(args) > 2 else None)
    if nm in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if_not', 'for_each'):
        a, b, fn = A(0), A(1), A(2)
        if star.whole(a, b) is not None and nm != 'count_if':
            return star.algorithm(eng, nm, a.c, fn, b)
        c, i, j = seq_range(eng, a, b)
        cnt = 0
        for k in range(i, j):
            l = iter_deref(eng, Iter(c, k))
            r = eng.invoke(fn, [l])
            if nm == 'for_each':
                continue
            r = r.get() if eng.is_locv(r) else r
            d = eng.branch(eng.to_bool(r))
            if nm == 'find_if' and d or nm == 'find_if_not' and not d:
                return type(a)(c, k)
            if nm == 'any_of' and d:
                return True
            if nm == 'all_of' and not d:
                return False
            if nm == 'none_of' and d:
                return False
            cnt += int(d)
        return {'find_if': b, 'find_if_not': b, 'any_of': False, 'all_of': True, 'none_of': True, 'count_if': cnt, 'for_each': fn}[nm]
    if nm in ('find', 'count'):
        a, b, x = A(0), A(1), A(2)
        c, i, j = seq_range(eng, a, b)
        cnt = 0
        for k in range(i, j):
            l = iter_deref(eng, Iter(c, k))
            if eng.branch(val_eq(eng, l.get(), x)):
                if nm == 'find':
                    return type(a)(c, k)
                cnt += 1
        return b if nm == 'find' else cnt
    if nm == 'equal':
        a, b, x = A(0), A(1), A(2)
        c, i, j = seq_range(eng, a, b)
        c2 = x.c if isinstance(x, Iter) else x.base
        for k in range(i, j):
            if not eng.branch(val_eq(eng, c.at(k).get(), c2.at(x.i + k - i).get())):
                return False
        return True
    if nm == 'accumulate':
        a, b, acc = A(0), A(1), A(2)
        c, i, j = seq_range(eng, a, b)
        t = norm_type(strip_ref(types[2]))
        for k in range(i, j):
            l = iter_deref(eng, Iter(c, k))
            if len(args) > 3:
                acc = eng.invoke(A(3), [Cell(acc), l])
                if eng.is_locv(acc):
                    acc = acc.get()
            else:
                acc = eng.arith('+', acc, l.get(), t)
            if t in INT_TYPES:
                acc = eng.wrap(acc, t)
        return acc
    if nm == 'transform':
        a, b, out, fn = A(0), A(1), A(2), A(3)
        if star.whole(a, b) is not None and isinstance(out, BackIns):
            def one(l):
                r = eng.invoke(fn, [l])
                push_back(eng, out.loc, Cell(r.get() if eng.is_locv(r) else r), False)
            star.loop(eng, a.c.items, one)
            return out
        c, i, j = seq_range(eng, a, b)
        for k in range(i, j):
            l = iter_deref(eng, Iter(c, k))
            r = eng.invoke(fn, [l])
            v = r.get() if eng.is_locv(r) else r
            if isinstance(out, BackIns):
                push_back(eng, out.loc, Cell(v), False)
            else:
                oc = out.c if isinstance(out, Iter) else out.base
                oc.at(out.i + k - i).set(v)
        return out
    if nm == 'back_inserter':
        return BackIns(args[0])
    if nm in ('max', 'min'):
        if len(args) >= 2:
            a, b = A(0), A(1)
            c = eng.compare('<', a, b) if nm == 'max' else eng.compare('<', b, a)
            if isinstance(c, bool):
                return args[1] if c else args[0]
            return Cell(z3.simplify(z3.If(c, z(b), z(a))))
    if nm in ('make_pair', 'make_tuple'):
        return Pair(*[Cell(eng.move_from(a) if r else eng.copy_value(a.get())) for a, r in zip(args, rvs)])
    if nm == 'tie':
        return Pair(*args)
    if nm == 'now':
        return Opaque('time', 'now%d' % next_id(eng))
    if nm == 'time':
        return eng.fresh('time', 'int', 0, 2**40)
    if nm in ('ceil', 'floor'):
        import math
        v = A(0)
        return float(math.ceil(v) if nm == 'ceil' else math.floor(v)) if isinstance(v, (int, float)) else v
    if nm == 'duration_cast':
        return A(0)
    if nm in ('setw', 'setfill', 'put_time', 'get_time'):
        return Opaque(nm, A(0) if args and isinstance(A(0), (int, str)) else None)
    if nm == 'malloc':
        k = A(0)
        return APtr(Buf(eng, 8, k, 0), 0) if isinstance(k, int) else unsupported('malloc symbolic')
    if nm in ('operator==', 'operator!='):
        r = val_eq(eng, A(0), A(1))
        return r if nm.endswith('==') else neg(r)
    if nm in ('operator<<',):
        return stream_out(eng, args[0], args[1])
    if nm == 'operator+':
        return eng.str_cat(A(0), A(1))
    if nm in ('assert', '__assert_fail'):
        raise CppThrow('assert')
    if nm in ('terminate', 'abort'):
        raise CppThrow('terminate')
    if nm == 'array':
        return A(0)
    if nm in ('lock', 'unlock'):
        return None
    if nm == 'exchange':
        v = eng.move_from(args[0])
        args[0].set(A(1))
        return v
    raise Unsupported('library function ' + str(nm))

class BackIns:
    def __init__(self, loc):
        self.loc = loc

def unsupported(s):
    raise Unsupported(s)

def next_id(eng):
    eng.fresh_n += 1
    return eng.fresh_n

def neg(r):
    return (not r) if isinstance(r, bool) else z3.simplify(z3.Not(r))

def variant_index(eng, t, v):
    want = norm_type(strip_ref(norm_type(t)))
    w2 = want.replace('electionguard::', '').replace('std::', '').replace(' ', '').replace('const', '')
    hits = []
    for i, a in enumerate(v.alts):
        a2 = norm_type(a).replace('electionguard::', '').replace('std::', '').replace(' ', '').replace('const', '')
        a2 = a2.replace('__cxx11::', '').replace('basic_string<char>', 'string')
        if a2 == w2.replace('__cxx11::', '').replace('basic_string<char>', 'string'):
            hits.append(i)
    if len(hits) > 1:
        cl = lambda a: re.sub(r'^const ', '', norm_type(strip_ref(norm_type(a)))).replace('electionguard::', '').replace('std::', '').replace(' ', '')
        hits = [i for i in hits if cl(v.alts[i]) == cl(t)]
    if len(hits) == 1:
        return hits[0]
    raise Unsupported('variant alternative %s of %s' % (t, v.alts))

SRC = {}
def n_template_arg(eng, n, v):
    # holds_alternative<T>(v): clang's JSON does not print T; it is taken from the source text of the callee expression
    callee = strip_casts(n['inner'][0])
    r = callee.get('range', {})
    b, e = r.get('begin', {}), r.get('end', {})
    if 'offset' not in b or 'offset' not in e:
        raise Unsupported('holds_alternative')
    import re, os, astload
    tu = eng.frame.tu.path
    cands = [tu if os.path.isabs(tu) else os.path.join(astload.REPO, tu)]
    for p in cands:
        if p not in SRC:
            SRC[p] = open(p, 'rb').read()
        t = SRC[p][b['offset']:e['offset'] + e.get('tokLen', 1)].decode('utf8', 'replace')
        m = re.match(r'(?:std::)?holds_alternative\s*<(.*)>$', t, re.S)
        if m:
            return variant_index(eng, m.group(1).strip(), v)
    raise Unsupported('holds_alternative')

def byte_key(eng, b, i, n):
    """canonical description of the bytes [i, i+n) of a byte buffer, independent of how the buffer was assembled"""
    if i < 0 or i + n > b.n:
        raise UB('read [%d,%d) beyond buffer of %d bytes' % (i, i + n, b.n))
    out = []
    for s, l, v, be in b.ch:
        for j in range(l):
            if not i <= s + j < i + n:
                continue
            k = (l - 1 - j) if be else j
            if isinstance(v, int):
                out.append((v >> (8 * k)) & 255)
            elif isinstance(v, MVal):
                raise Unsupported('bytes of an abstract residue')
            elif l == 1:
                x = eng.limb_of.get(v.get_id())
                if x is not None and x[2] == 8:
                    out.append((x[0].sexpr(), x[1]))
                else:
                    out.append(z3.simplify(v).sexpr())
            else:
                out.append((v.sexpr(), k))
    return tuple(out)

def memzero(eng, p, k):
    """Lib_Memzero0_memzero(dst, len): len bytes are cleared"""
    if not isinstance(k, int):
        raise Unsupported('memzero of symbolic size')
    if k == 0:
        return
    if isinstance(p, APtr) and isinstance(p.base, Buf):
        b, wb = p.base, p.base.w // 8
        if p.i < 0 or p.i * wb + k > b.n * wb:
            raise UB('memzero of %d bytes beyond a buffer of %d' % (k, b.n * wb - p.i * wb))
        full, rest = divmod(k, wb)
        b.setblock(p.i, full, 0)
        if rest:
            b.write(p.i + full, eng.fresh('cleared', 'int', 0, (1 << b.w) - 1))
        return
    raise Unsupported('memzero')

def memcpy(eng, d, s, k):
    if isinstance(k, z3.ArithRef):
        k = z3.simplify(k)
        if z3.is_int_value(k):
            k = k.as_long()
    if not isinstance(k, int):
        raise Unsupported('memcpy of symbolic size')
    if isinstance(s, Ptr) and isinstance(s.loc.get(), (int, z3.ArithRef)):
        s = APtr(Buf(eng, 8, 8, s.loc.get()), 0)
    if isinstance(d, Ptr) and isinstance(s, APtr) and isinstance(s.base, Buf) and s.base.w == 8 and k in (1, 2, 4, 8):
        d.loc.set(s.base.block(s.i, k))     # little-endian scalar of exactly k bytes (the callers pass sizeof)
        return d
    if isinstance(d, APtr) and isinstance(s, APtr) and isinstance(d.base, Buf) and isinstance(s.base, Buf):
        db, sb = d.base, s.base
        if db.w == sb.w:
            wb = db.w // 8
            full, rest = divmod(k, wb)
            if full:
                blocks(eng, sb, s.i, s.i + full, db, d.i)
            if rest:
                # partial element (little endian): low `rest` bytes replaced
                x = sb.read(s.i + full)
                y = db.read(d.i + full)
                m = 1 << (8 * rest)
                if isinstance(x, int) and isinstance(y, int):
                    v = (x % m) + (y - y % m)
                else:
                    v = z3.simplify(z(x) % m + (z(y) - z(y) % m))
                db.write(d.i + full, v)
            return d
        if sb.w == 8 and db.w == 64 or sb.w == 64 and db.w == 8:
            wb = 8
            if sb.w == 64 and k % 8 == 0:
                v = sb.block(s.i, k // 8)
                db.setblock(d.i, k, v)
                return d
            if sb.w == 8 and k % 8 == 0:
                v = sb.block(s.i, k)
                db.setblock(d.i, k // 8, v)
                return d
        if sb.w == 16 and db.w == 8 and k % 2 == 0:
            db.setblock(d.i, k, sb.block(s.i, k // 2))
            return d
    raise Unsupported('memcpy %r %r' % (d, s))

def val_eq(eng, a, b):
    if isinstance(a, RefWrap):
        a = a.loc.get()
    if isinstance(b, RefWrap):
        b = b.loc.get()
    if isinstance(a, Buf) and isinstance(b, Buf):
        return buf_eq(eng, a, b)
    if hasattr(a, 'egv_eq'):
        return a.egv_eq(eng, b)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.items) != len(b.items):
            return False
        r = True
        for x, y in zip(a.items, b.items):
            e = val_eq(eng, x.get(), y.get())
            if e is False:
                return False
            r = e if r is True else (r if e is True else z3.And(r, e))
        return r
    if isinstance(a, Pair) and isinstance(b, Pair):
        r = True
        for x, y in zip(a.f, b.f):
            e = val_eq(eng, x.get(), y.get())
            if e is False:
                return False
            r = e if r is True else (r if e is True else z3.And(r, e))
        return r
    if isinstance(a, Obj):
        m = eng.find_method(a.cls, 'operator==')
        if m:
            return eng.to_bool(eng.call_function(m, Cell(a), [Cell(b)]))
    return eng.compare('==', a, b)

def do_sort(eng, a, b, fn):
    if star.whole(a, b) is not None:
        return star.sort(eng, a.c, fn)
    c, i, j = seq_range(eng, a, b)
    if isinstance(c, Buf):
        raise Unsupported('sort of numeric buffer')
    items = c.mut()
    seg = [Cell(x.get()) for x in items[i:j]]
    out = []
    for x in seg:
        pos = len(out)
        # insertion sort: place before the first element that is greater
        for k in range(len(out) - 1, -1, -1):
            y = out[k]
            if fn is not None:
                r = eng.invoke(fn, [x, y])
                r = r.get() if eng.is_locv(r) else r
            else:
                r = less(eng, x.get(), y.get())
            if eng.branch(eng.to_bool(r)):
                pos = k
            else:
                break
        out.insert(pos, x)
    for k, x in enumerate(out):
        items[i + k] = x
    eng.sorts = getattr(eng, 'sorts', 0) + 1
    return None

def less(eng, a, b):
    if isinstance(a, RefWrap):
        a = a.loc.get()
    if isinstance(b, RefWrap):
        b = b.loc.get()
    if isinstance(a, Obj):
        m = eng.find_method(a.cls, 'operator<')
        if m:
            return eng.to_bool(eng.call_function(m, Cell(a), [Cell(b)]))
    return eng.compare('<', a, b)

def push_back(eng, vloc, a, is_rv):
    v = vloc.get()
    if isinstance(v, Buf):
        v.append(a.get())
        return
    x = a.get()
    n, ta = tmpl(v.etype or '')
    if n == 'reference_wrapper' and not isinstance(x, RefWrap):
        x = RefWrap(a)
    elif isinstance(x, RefWrap) and n and n != 'reference_wrapper':
        x = eng.copy_value(x.loc.get())
    elif n in ('unique_ptr',) and x is NULL:
        x = UPtr(NULL)
    elif n == 'variant' and not isinstance(x, Variant):
        x = make_object(eng, v.etype, [a], [None], [is_rv])
    else:
        x = eng.move_from(a) if is_rv else eng.copy_value(x)
    v.mut().append(Cell(x))

def stream_out(eng, sl, vl):
    s = sl.get()
    if not isinstance(s, OStream):
        raise Unsupported('operator<<')
    s.mut().append(vl.get() if eng.is_locv(vl) else vl)
    return sl

def render_stream(eng, s):
    out = ''
    hexm = upper = False
    width, fill = 0, ' '
    for p in s.parts:
        if p is star.ACCUMULATING:
            raise Unsupported('a stream that is being filled is read')
        if isinstance(p, FuncRef):
            if p.name == 'hex':
                hexm = True
            elif p.name == 'dec':
                hexm = False
            elif p.name == 'uppercase':
                upper = True
            elif p.name == 'endl':
                out = eng.str_cat(out, '\n')
            continue
        if isinstance(p, Opaque):
            if p.kind == 'setw':
                width = p.key
            elif p.kind == 'setfill':
                fill = chr(p.key) if isinstance(p.key, int) else p.key
            else:
                out = eng.str_cat(out, SymStr((p.kind, str(p.key))))
            continue
        if isinstance(p, bool):
            p = int(p)
        if isinstance(p, int):
            t = ('%X' if upper else '%x') % p if hexm else str(p)
            t = t.rjust(width, fill) if width else t
            width = 0
            out = eng.str_cat(out, t)
        elif isinstance(p, (str, SymStr)):
            out = eng.str_cat(out, p)
            width = 0
        elif isinstance(p, z3.ArithRef) and eng.sym_chars is not None and hexm:
            out = eng.str_cat(out, chars.printed(eng, p, upper, width, fill))
            width = 0
        elif isinstance(p, z3.ArithRef):
            out = eng.str_cat(out, SymStr(('num', 'x' if hexm else 'd', upper, width, fill, str(p))))
            width = 0
        else:
            raise Unsupported('stream item %r' % (p,))
    return out

def call_member(eng, n, me, this, nm, argx):
    v = this.get()
    if hasattr(v, 'egv_member'):
        return v.egv_member(eng, n, this, nm, argx)
    if isinstance(v, UPtr):
        if nm == 'get':
            return v.p
        if nm == 'operator bool':
            return v.p is not NULL
        args, types, rvs = eng.ev_args(argx)
        if nm == 'swap':
            o = args[0].get()
            args[0].set(v)
            this.set(o)
            return None
        if nm == 'reset':
            x = args[0].get() if args else NULL
            this.set(UPtr(x, v.shared))
            return None
        if nm == 'release':
            this.set(UPtr(NULL, v.shared))
            return v.p
        raise Unsupported('unique_ptr::' + nm)
    if isinstance(v, RefWrap):
        if nm == 'get' or nm.startswith('operator '):
            return v.loc
        raise Unsupported('reference_wrapper::' + nm)
    args, types, rvs = eng.ev_args(argx)
    A = lambda i: args[i].get()
    if isinstance(v, (Vec, Buf, ArrayObj)):
        if nm in ('size', 'length'):
            return size_of(v)
        if nm == 'capacity':
            return size_of(v)
        if nm == 'empty':
            s = size_of(v)
            return s == 0
        if nm in ('begin', 'cbegin'):
            return iter_begin(eng, v)
        if nm in ('end', 'cend'):
            return iter_end(eng, v)
        if nm in ('reserve', 'shrink_to_fit'):
            return None
        if nm == 'clear':
            if isinstance(v, Buf):
                v.save()
                v.ch = []
                v.n = 0
            else:
                v.mut()
                v.items = []
            return None
        if nm == 'push_back' or nm == 'push':
            push_back(eng, this, args[0], rvs[0])
            return None
        if nm == 'emplace_back' or nm == 'emplace' and isinstance(v, Vec) and not (args and isinstance(A(0), Iter)):
            if isinstance(v, Buf):
                v.append(A(0))
                return BufCell(v, v.n - 1)
            x = make_object(eng, v.etype, args, types, rvs)
            c = Cell(x)
            v.mut().append(c)
            return c
        if nm == 'pop_back':
            if isinstance(v, Vec):
                if not v.items:
                    raise UB('pop_back on empty vector')
                v.mut().pop()
                return None
            v.save()
            v.cut(v.n - 1)
            v.ch.pop()
            v.n -= 1
            return None
        if nm == 'pop':
            if not v.items:
                raise UB('pop on empty queue')
            v.mut().pop(0)
            return None
        if nm == 'front':
            return v.at(0)
        if nm == 'back':
            return v.at(size_of(v) - 1)
        if nm == 'at':
            i = A(0)
            s = size_of(v)
            if isinstance(i, int) and isinstance(s, int):
                if i >= s:
                    raise CppThrow('std::out_of_range')
                return v.at(i)
            if eng.branch(z(i) >= z(s)):
                raise CppThrow('std::out_of_range')
            return v.at(i)
        if nm == 'data':
            return APtr(v, 0)
        if nm == 'resize':
            k = A(0)
            if isinstance(v, Buf) and isinstance(k, int):
                while v.n < k:
                    v.append(A(1) if len(args) > 1 else 0)
                if v.n > k:
                    v.save()
                    v.cut(k)
                    v.ch = [c for c in v.ch if c[0] < k]
                    v.n = k
                return None
            if isinstance(v, Vec) and isinstance(k, int):
                it = v.mut()
                while len(it) < k:
                    it.append(Cell(eng.default_value(v.etype)))
                del it[k:]
                return None
            raise Unsupported('resize')
        if nm == 'insert':
            pos = A(0)
            if len(args) == 3 and isinstance(A(1), (Iter, APtr)):
                c, i, j = seq_range(eng, A(1), A(2))
                if isinstance(v, Buf):
                    if pos.i == v.n and isinstance(c, Buf) and c.w == v.w:
                        v.save()
                        start = v.n
                        src = c
                        src.save()
                        src.cut(i)
                        src.cut(j)
                        parts = [list(x) for x in src.ch if x[0] >= i and x[0] + x[1] <= j]
                        for s0, l, val, be in parts:
                            v.ch.append([start + s0 - i, l, val, be])
                        v.n = start + (j - i)
                        return pos
                    vals = [c.at(k).get() for k in range(i, j)]
                    old = [v.read(k) for k in range(v.n)]
                    new = old[:pos.i] + vals + old[pos.i:]
                    v.save()
                    v.ch = [[k, 1, x, False] for k, x in enumerate(new)]
                    v.n = len(new)
                    return pos
                new = [Cell(convert_elem(eng, v.etype or '', c.at(k))) for k in range(i, j)]
                it = v.mut()
                it[pos.i:pos.i] = new
                return pos
            if len(args) == 2 and isinstance(v, Vec):
                tmp = Cell(Vec([], v.etype))
                push_back(eng, tmp, args[1], rvs[1])
                v.mut().insert(pos.i, tmp.get().items[0])
                return pos
            raise Unsupported('vector::insert')
        if nm == 'erase':
            pos = A(0)
            it = v.mut()
            if len(args) == 1:
                del it[pos.i]
            else:
                del it[pos.i:A(1).i]
            return pos
        if nm == 'swap':
            o = args[0].get()
            args[0].set(v)
            this.set(o)
            return None
        if nm == 'fill':
            for k in range(size_of(v)):
                v.at(k).set(A(0))
            return None
        raise Unsupported('vector::' + nm)
    if isinstance(v, (str, SymStr)):
        if nm in ('empty',):
            return v == '' if isinstance(v, str) else eng.str_compare('==', v, '')
        if nm in ('size', 'length'):
            if isinstance(v, str):
                return len(v)
            return sym_len(eng, v)
        if nm in ('c_str', 'data'):
            return v
        if nm == 'substr' and isinstance(v, str):
            i = A(0) if args else 0
            if not isinstance(i, int):
                raise Unsupported('substr')
            if i > len(v):
                raise CppThrow('std::out_of_range')
            k = A(1) if len(args) > 1 else len(v)
            return v[i:i + k]
        if nm in ('find_first_not_of',) and isinstance(v, str):
            for i, ch in enumerate(v):
                if not eng.branch(chars.is_in(eng, ch, A(0))):
                    return i
            return 2**64 - 1
        if nm == 'find' and isinstance(v, str) and len(args) == 1 and (isinstance(A(0), int) or chars.symbolic(v) and len(A(0)) == 1):
            for i, ch in enumerate(v):
                if eng.branch(chars.is_in(eng, ch, chr(A(0)) if isinstance(A(0), int) else A(0))):
                    return i
            return 2**64 - 1
        if nm in ('find', 'find_first_of', 'find_last_of', 'rfind', 'compare') and chars.symbolic(v):
            raise Unsupported('string::%s of arbitrary characters' % nm)
        if nm == 'find' and isinstance(v, str) and isinstance(A(0), str):
            r = v.find(A(0), A(1) if len(args) > 1 else 0)
            return r if r >= 0 else 2**64 - 1
        if nm == 'insert':
            if isinstance(v, str) and len(args) == 3:
                this.set(v[:A(0)] + chr(A(2)) * A(1) + v[A(0):])
                return this
        if nm == 'append':
            this.set(eng.str_cat(v, A(0)))
            return this
        if nm == 'push_back':
            c = A(0)
            if isinstance(c, int):
                this.set(eng.str_cat(v, chr(c)))
                return None
        if nm in ('begin', 'cbegin'):
            return Iter(v, 0)
        if nm in ('end', 'cend'):
            return Iter(v, len(v) if isinstance(v, str) else sym_len(eng, v))
        if nm == 'clear':
            this.set('')
            return None
        if nm in ('reserve', 'shrink_to_fit'):
            return None
        if nm == 'compare':
            r = eng.str_compare('==', v, A(0))
            if isinstance(r, bool):
                return 0 if r else (-1 if v < A(0) else 1)
            return z3.If(r, z3.IntVal(0), z3.If(eng.str_compare('<', v, A(0)), z3.IntVal(-1), z3.IntVal(1)))
        raise Unsupported('string::' + nm)
    if isinstance(v, MapV):
        if nm == 'size':
            return len(v.items)
        if nm == 'empty':
            return not v.items
        if nm in ('begin', 'cbegin'):
            map_order(eng, v)
            return Iter(v, 0)
        if nm in ('end', 'cend'):
            return Iter(v, len(v.items))
        if nm == 'find':
            i = map_find(eng, v, A(0))
            return Iter(v, len(v.items) if i is None else i)
        if nm in ('count', 'contains'):
            i = map_find(eng, v, A(0))
            return (1 if i is not None else 0) if nm == 'count' else i is not None
        if nm in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if v.is_set:
                if len(args) == 2 and isinstance(A(0), Iter):
                    c, i, j = seq_range(eng, A(0), A(1))
                    for k in range(i, j):
                        map_insert(eng, v, iter_deref(eng, Iter(c, k)).get(), None)
                    return None
                return map_insert(eng, v, A(0), None)
            if len(args) == 1:
                p = A(0)
                val = p.f[1]
                x = eng.move_from(val) if rvs[0] else eng.copy_value(val.get())
                return map_insert(eng, v, p.f[0].get(), eng.implicit_convert(v.vtype, x) if v.vtype else x)
            x = eng.move_from(args[1]) if rvs[1] else eng.copy_value(A(1))
            return map_insert(eng, v, A(0), eng.implicit_convert(v.vtype, x) if v.vtype else x, nm == 'insert_or_assign')
        if nm == 'at':
            i = map_find(eng, v, A(0))
            if i is None:
                raise CppThrow('std::out_of_range')
            return v.items[i][1]
        if nm == 'clear':
            v.mut()
            v.items = []
            return None
        if nm == 'erase':
            k = A(0)
            i = k.i if isinstance(k, Iter) else map_find(eng, v, k)
            if i is not None:
                del v.mut()[i]
            return None
        raise Unsupported('map::' + nm)
    if isinstance(v, OStream):
        if nm == 'str':
            return render_stream(eng, v)
        raise Unsupported('stream::' + nm)
    if isinstance(v, Variant):
        if nm == 'index':
            return v.idx
        if nm == 'has_value' or nm == 'operator bool':
            return v.loc is not None
        if nm == 'value':
            if v.loc is None:
                raise CppThrow('std::bad_optional_access')
            return v.loc
        raise Unsupported('variant::' + nm)
    if isinstance(v, Opaque):
        if nm in ('lock', 'unlock', 'wait', 'notify_one', 'notify_all', 'what'):
            return None
        if nm in ('time_since_epoch', 'count'):
            return Opaque(v.kind + '.' + nm, v.key) if nm != 'count' else z3.Int('%s_%s' % (v.kind, v.key))
        raise Unsupported('%s::%s' % (v.kind, nm))
    if isinstance(v, Closure):
        r = eng.call_closure(v, args)
        return r
    if isinstance(v, Obj):
        # method not in the dump (implicit)
        m = eng.find_method(v.cls, nm)
        if m:
            return eng.call_function(m, this, args, virtual=True)
    raise Unsupported('member call %s on %r' % (nm, type(v).__name__))

def sym_len(eng, s):
    l = z3.Int('len:%s#%d' % (repr(s.node)[:40], atom('strlen', s.node).id))
    r = eng.str_rank(s)
    eng.fact(z3.And(l >= 0, l < 2**48, (l == 0) == (r == 0)))
    return l

def call_operator(eng, n, op, argx):
    args, types, rvs = eng.ev_args(argx)
    v = args[0].get()
    A = lambda i: args[i].get()
    if hasattr(v, 'egv_operator'):
        return v.egv_operator(eng, n, op, args)
    if op == 'operator->':
        if isinstance(v, UPtr):
            return v.p
        if isinstance(v, Iter):
            l = iter_deref(eng, v)
            return Ptr(l)
        if isinstance(v, (Ptr, APtr)):
            return v
        if isinstance(v, Variant):
            return Ptr(v.loc)
    if op == 'operator*':
        if len(args) == 1:
            if isinstance(v, Variant):
                return v.loc
            return eng.deref(v)
    if op == 'operator[]':
        i = A(1)
        if isinstance(v, (Vec, Buf, ArrayObj)):
            return v.at(i)
        if isinstance(v, APtr):
            return v.base.at(v.i + i)
        if isinstance(v, MapV):
            k = map_find(eng, v, i)
            if k is None:
                items = v.mut()
                items.append((i, Cell(eng.default_value(v.vtype))))
                k = len(items) - 1
            return v.items[k][1]
        if isinstance(v, SymIdx):
            return SymIdx2(v, i)
        if isinstance(v, str) and isinstance(i, int):
            return Cell(chars.code(eng, v[i]))
    if op == 'operator=':
        dt = None
        x = A(1)
        if isinstance(v, UPtr):
            if x is NULL:
                args[0].set(UPtr(NULL, v.shared))
            elif isinstance(x, UPtr):
                if x.shared and not rvs[1]:
                    args[0].set(UPtr(x.p, True))
                else:
                    m = eng.move_from(args[1])
                    args[0].set(UPtr(m.p, v.shared))
            else:
                raise Unsupported('unique_ptr assignment')
            return args[0]
        if isinstance(x, Obj) and not isinstance(v, Obj):
            raise Unsupported('assignment of object')
        if isinstance(v, Variant) and not isinstance(x, Variant):
            n2, ta = tmpl(types[0])
            args[0].set(make_object(eng, types[0], [args[1]], [types[1]], [rvs[1]]) if n2 == 'variant' else Variant(1, Cell(x), v.alts))
            return args[0]
        if isinstance(x, int) and isinstance(v, (str, SymStr)):
            x = chr(x)
        val = eng.move_from(args[1]) if rvs[1] and eng.is_locv(args[1]) else eng.copy_value(x)
        if isinstance(val, Vec) and isinstance(v, Vec):
            val.etype = v.etype
        args[0].set(val)
        return args[0]
    if op in ('operator==', 'operator!='):
        x = A(1)
        r = val_eq(eng, v, x)
        return r if op == 'operator==' else neg(r)
    if op in ('operator<', 'operator>', 'operator<=', 'operator>='):
        return eng.compare(op[8:], v, A(1))
    if op == 'operator+':
        if isinstance(v, (Iter, APtr)) or isinstance(A(1), (Iter, APtr)):
            return eng.ptr_arith('+', v, A(1))
        x = A(1)
        if isinstance(x, int):
            x = chr(x)
        if isinstance(v, int):
            v = chr(v)
        return eng.str_cat(v, x)
    if op == 'operator-':
        if isinstance(v, (Iter, APtr)):
            return eng.ptr_arith('-', v, A(1))
        return Opaque('duration', 'd%d' % next_id(eng))
    if op == 'operator+=':
        if isinstance(v, (str, SymStr)):
            x = A(1)
            args[0].set(eng.str_cat(v, chr(x) if isinstance(x, int) else x))
            return args[0]
        if isinstance(v, (Iter, APtr)):
            args[0].set(eng.ptr_arith('+', v, A(1)))
            return args[0]
    if op in ('operator++', 'operator--'):
        new = eng.ptr_arith('+' if op == 'operator++' else '-', v, 1)
        args[0].set(new)
        if len(args) > 1:
            return v
        return args[0]
    if op == 'operator<<':
        return stream_out(eng, args[0], args[1])
    if op == 'operator()':
        return eng.invoke(v, args[1:])
    raise Unsupported('operator %s on %r' % (op, type(v).__name__))

class SymIdx2:
    """arr[i][s] with symbolic s (fixed-base table rows)"""
    is_loc = True
    def __init__(self, a, i):
        self.a, self.i = a, i
    def get(self):
        return self

Engine.stl = __import__('stl')
