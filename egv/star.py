"""Lists of arbitrary length.

A list of unknown length n >= 0 is a Root: its length, one representative element (the element at an arbitrary index) and
the order of the list.  A container that holds it has a StarList as items: a sequence of segments, each a single location
or (location, Root) standing for n locations, of which the given one is that at the arbitrary index.

A loop over a segment runs its body once, on the representative (when n > 0).  This projection of the execution onto one
arbitrary index is exact as long as iterations interact only in the ways handled here:
  * appending exactly one element per iteration to a container made before the loop: it gains a segment with the same Root;
  * folds: an accumulator acc becomes acc + h(x) or acc * h(x) with h free of acc: the accumulator gains a BigSum / BigProd
    term, compared by its summand at the arbitrary index (only when the body has a single continuing path);
  * counting with a constant step; overwriting with a function of the loop index alone;
  * a flag that changes at most once: either no element changes it, or the representative is one that does;
  * appending tokens to a stream (what a hash is computed from);
  * writes to what the representative itself owns;
  * leaving the loop by return, break or throw: the representative is then the element at which the loop was left; what
    earlier iterations wrote is unusable afterwards, and the list cannot be traversed again on this path.
Everything else (filtering, maps, random access, reading another element) is refused as Unsupported.
Loops by index or iterator over the whole list, and the standard algorithms over it, are treated alike.

A statement proved about the representative on every path holds for every index, hence for the whole list."""
import itertools
import z3
from values import *
import values
import terms
from terms import atom, QTerm, PTerm, XSum, G_TERM, Atom, ORDER_Q

class Root:
    _n = [0]
    def __init__(self, eng, name, n=None, order='stored', base=None, cond=False, key=None, upper=None):
        self.upper = upper                 # every key is at most this
        self.distinct = None               # the node of a string that differs between any two elements
        self.base = base if base is not None else name
        self.n = n
        if n is None:
            self.n = z3.Int('len!' + name)
            eng.fact(z3.And(self.n >= 0, self.n < 2**62))
        self.order, self.cond = order, cond
        self.key = key
        # loops that count up to this length run over this list
        eng.star_roots[self.n.sexpr()] = self
    def derive(self, order=None, cond=None):
        r = Root.__new__(Root)
        r.base, r.n, r.key, r.upper, r.distinct = self.base, self.n, self.key, self.upper, self.distinct
        r.order = self.order if order is None else order
        r.cond = self.cond or bool(cond)
        return r
    def tag(self):
        return ('root', self.base, self.order)
    def __repr__(self):
        return 'Root(%s,%s)' % (self.base, self.order)

def no(*a, **k):
    raise Unsupported('operation on a list of arbitrary length')

class StarList:
    """items of a container with segments; only code that knows about segments may look inside"""
    __slots__ = ('segs',)
    def __init__(self, segs):
        self.segs = list(segs)
    def append(self, c):
        self.segs.append((c, None))
    def copy(self):
        return StarList(self.segs)
    __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = __bool__ = __delitem__ = insert = pop = extend = remove = index = no
    def __repr__(self):
        return 'StarList(%r)' % (self.segs,)

class Poison:
    """what a loop that was left early had been writing"""
    def __repr__(self):
        return 'Poison'
POISON = Poison()
class PoisonList(StarList):
    __slots__ = ()
    def __init__(self):
        pass
    @property
    def segs(self):
        raise Unsupported('a list written by a loop that was left early')
    append = copy = no

def segs_of(items):
    """[(location, root or None)] of a list or StarList"""
    if isinstance(items, StarList):
        return items.segs
    return [(c, None) for c in items]

def visible(items):
    l = segs_of(items)
    if any(c is None for c, r in l):
        raise Unsupported('a filtered list traversed')
    return l

def mapped(items, fn):
    """items with fn applied to every location (fn must not write anything that existed before)"""
    if isinstance(items, StarList):
        if any(c is None for c, r in items.segs):
            raise Unsupported('a filtered list traversed')
        return StarList([(fn(c), r) for c, r in items.segs])
    return [fn(c) for c in items]

def length(items):
    if not isinstance(items, StarList):
        return len(items)
    k = 0
    for c, r in items.segs:
        k = k + (1 if r is None else r.n)
    return z3.simplify(k) if is_sym(k) else k

def nonempty(eng, items):
    """branches on emptiness"""
    k = length(items)
    return eng.branch(k > 0) if is_sym(k) else k > 0

# ---- big operators
CONST_BASES = set([list(G_TERM.f)[0]])
def bigsum(root, t):
    if root.cond:
        raise Unsupported('sum over a list whose elements depend on the case')
    r = QTerm({})
    for k, v in t.m.items():
        r = r + QTerm({(atom('bigsum', root.base, QTerm({k: 1})).id,): v})
    return r
def bigprod(root, t):
    if root.cond:
        raise Unsupported('product over a list whose elements depend on the case')
    f = PTerm({})
    for k, e in t.f.items():
        if k in CONST_BASES and isinstance(e, QTerm):
            f = f * PTerm({k: bigsum(root, e)})
        else:
            a = atom('bigprod', root.base, PTerm({k: e}))
            if k in ORDER_Q:
                ORDER_Q.add(a.id)
                f = f * PTerm({a.id: QTerm.const(1)})
            else:
                f = f * PTerm({a.id: XSum({(): 1})})
    return f

# ---- loops
class View:
    """what the loop variable is initialised from"""
    def __init__(self, cell, of=None):
        self.cell, self.of = cell, of
    def egv_at(self, i):
        return self.cell
    def egv_size(self):
        return 1

def reach(x, out, depth=0):
    """ids of the objects owned by x"""
    if isinstance(x, Cell):
        if id(x) in out:
            return
        out[id(x)] = x
        return reach(x.v, out, depth)
    if isinstance(x, UPtr):
        if x.p is not NULL and hasattr(x.p, 'loc') and not x.shared:
            reach(x.p.loc, out)
    elif isinstance(x, Obj):
        if id(x) in out:
            return
        out[id(x)] = x
        for c in x.f.values():
            reach(c, out)
    elif isinstance(x, Pair):
        for c in x.f:
            reach(c, out)
    elif isinstance(x, Variant):
        if x.loc is not None:
            reach(x.loc, out)
    elif isinstance(x, Vec):
        if id(x) in out:
            return
        out[id(x)] = x
        for c, r in segs_of(x.items):
            if c is not None:
                reach(c, out)
    elif hasattr(x, 'egv_reach'):
        if id(x) in out:
            return
        out[id(x)] = x
        for c in x.egv_reach():
            reach(c, out)

def elem_in(v):
    """(kind, term, rebuild) of an accumulator value"""
    if isinstance(v, Elem) and v.kind in 'PQ' and v.tag is None:
        return v.kind, v.val, lambda t: Elem(v.kind, t)
    if isinstance(v, UPtr) and not v.shared and v.p is not NULL and hasattr(v.p, 'loc') and isinstance(v.p.loc.get(), Elem):
        e = v.p.loc.get()
        if e.tag is None:
            return e.kind, e.val, lambda t: UPtr(Ptr(Cell(Elem(e.kind, t))))
    return None

def loop(eng, items, body, own=None):
    """runs body(location) over the segments"""
    for c, r in list(segs_of(items)):
        if r is None:
            try:
                body(c)
            except BreakEx:
                return
            except ContinueEx:
                pass
        else:
            try:
                segment(eng, c, r, body, own)
            except BreakEx:
                return

def appended(old, new):
    if new is None:
        return False
    so, sn = segs_of(old), segs_of(new)
    return len(sn) == len(so) + 1 and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(so, sn))

def items_in(attr, v):
    """the list inside a container's state, or None"""
    if isinstance(v, (list, StarList)):
        return v
    if attr == 'st' and isinstance(v, tuple) and len(v) == 2:          # json
        return v[1] if v[0] == 'arr' else () if v[0] == 'null' else None
    return None
def with_items(attr, items):
    return ('arr', items) if attr == 'st' else items

INDEX = []
ACCUMULATING = ('accumulating',)
def index_loop(eng, ci, start, L, body, steps=False):
    """for (i = start; i < start + L; i++) body (steps: the body increments i itself), where L is the length of a list of arbitrary length"""
    r0 = eng.star_roots[L.sexpr()]
    root = r0.derive()
    root.order = None
    if not eng.branch(L > 0):
        return
    i = z3.Int('idx!' + root.base)
    eng.fact(z3.And(i >= 0, i < L))
    at0 = z3.simplify(z(start) + i)
    ci.set(at0)
    root.index = i
    def one(cell):
        ci.set(at0)
        try:
            body()
        except ContinueEx:
            pass
        if steps:
            w = ci.get()
            if not is_sym(w) or not z3.simplify(w - at0 - 1).eq(z3.IntVal(0)):
                raise Unsupported('a loop over a list of arbitrary length that does not step its index by one')
            ci.set(at0)
        if not (is_sym(ci.get()) and ci.get().eq(at0)):
            raise Unsupported('a loop over a list of arbitrary length changes its index')
    INDEX.append((i, root, eng))
    try:
        segment(eng, Cell(None), root, one, ci if steps else None)
    finally:
        INDEX.pop()
    ci.set(z3.simplify(z(start) + L))

def at(items, i):
    if len(items.segs) == 1 and items.segs[0][1] is not None and items.segs[0][0] is not None:
        c, r = items.segs[0]
        for v, root, eng in INDEX:
            if is_sym(i) and i.eq(v) and r.n.eq(root.n):
                if r.base in eng.witness:
                    raise Unsupported('a list traversed after a loop over it was left early')
                if root.order is None:
                    if r.base != root.base:
                        if r.base in eng.star_active:
                            raise Unsupported('nested loops over one list of arbitrary length')
                        eng.star_active.append(r.base)
                    root.order, root.base, root.cond = r.order, r.base, r.cond
                elif (root.base, root.order) != (r.base, r.order):
                    raise Unsupported('two orders of a list of arbitrary length indexed together')
                return c
    raise Unsupported('indexing a list of arbitrary length')

class Found(ReturnEx):
    pass
def algorithm(eng, nm, vec, fn, end):
    """standard algorithms with a predicate over the whole list"""
    def one(cell):
        r = eng.invoke(fn, [cell])
        if nm == 'for_each':
            return
        r = r.get() if eng.is_locv(r) else r
        d = eng.branch(eng.to_bool(r))
        if nm in ('any_of', 'none_of', 'find_if') and d or nm in ('all_of', 'find_if_not') and not d:
            raise Found(cell)
    try:
        loop(eng, vec.items, one)
    except Found as e:
        return Iter(View(e.v, vec), 0) if nm.startswith('find') else nm == 'any_of'
    return end if nm.startswith('find') else fn if nm == 'for_each' else nm != 'any_of'

def whole(a, b):
    """the list of arbitrary length that the iterators a, b enclose, or None"""
    if isinstance(a, Iter) and isinstance(b, Iter) and isinstance(a.c, Vec) and isinstance(a.c.items, StarList):
        if a.c is not b.c or not (isinstance(a.i, int) and a.i == 0) or not (is_sym(b.i) and b.i.eq(length(a.c.items))):
            raise Unsupported('part of a list of arbitrary length')
        return a.c
    return None

def stream(tokens):
    out = []
    for t in tokens:
        if isinstance(t, str) and out and isinstance(out[-1], str):
            out[-1] += t
        elif t != '':
            out.append(t)
    return tuple(out)

def segment(eng, cell, root, body, loopvar=None):
    if root.base in eng.witness:
        raise Unsupported('a list traversed after a loop over it was left early')
    if not eng.branch(root.n > 0):
        return
    if cell is None:
        raise Unsupported('a filtered list traversed')
    if root.base in eng.star_active:
        return same_list(eng, cell, root, body)
    mark = len(eng.star_active)
    eng.star_active.append(root.base)
    try:
        return iterate(eng, cell, root, body, loopvar)
    finally:
        del eng.star_active[mark:]

def same_list(eng, cell, root, body):
    """a loop over a list inside an iteration of a loop over the same list: allowed where only the same element can matter"""
    if root.distinct is None:
        raise Unsupported('nested loops over one list of arbitrary length')
    if collects(eng, cell, root, body):
        # a list of references to the elements, whichever the element of the outer loop
        return iterate(eng, cell, root, body, None)
    memo = Renamed(eng, root)
    other = memo.copy(cell)
    if not memo.met:
        raise Unsupported('nested loops over one list of arbitrary length')
    own = {}
    reach(other, own)
    for r in eng.nested_explore(lambda: body(other)):
        if r[1] not in ('normal', 'continue') or r[4] or any(id(o) not in own for o, attr, v in r[3].values()):
            raise Unsupported('another element matters in nested loops over one list of arbitrary length')
    try:
        body(cell)
    except ContinueEx:
        pass

def collects(eng, cell, root, body):
    """does the body do nothing but append a reference to (what is owned by) the element to some lists?"""
    own = {}
    reach(cell, own)
    runs = eng.nested_explore(lambda: body(cell))
    if len(runs) != 1 or runs[0][1] not in ('normal', 'continue') or runs[0][4]:
        return False
    n = 0
    for o, attr, v in runs[0][3].values():
        if id(o) in own or not (isinstance(o, Vec) and attr == 'items' and appended(o.items, v)):
            return False
        c, r = segs_of(v)[-1]
        if r is not None or not isinstance(c.v, (RefWrap, Ptr)) or id(c.v.loc) not in own:
            return False
        n += 1
    return n > 0

class Renamed:
    """copies of the representative that stand for another element of the same list"""
    def __init__(self, eng, root):
        self.eng, self.root = eng, root
        self.k = next_key()
        self.memo = {}
        self.met = False
        self.z = {}
    def zz(self, e):
        todo, seen, sub = [e], set(), []
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo += x.children()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                y = self.z.get(x.get_id())
                if y is None:
                    y = z3.Const('other%d!%s' % (self.k, x), x.sort())
                    self.z[x.get_id()] = y
                    if z3.is_int(x):
                        self.eng.fact(z3.And(y >= 0, y < 2**64))
                sub.append((x, y))
        return z3.substitute(e, *sub)
    def copy(self, x):
        if isinstance(x, z3.ExprRef):
            return self.zz(x)
        if isinstance(x, SymStr):
            y = SymStr(('other', self.k, x.node))
            if x.node == self.root.distinct:
                self.met = True
                self.eng.fact(self.eng.str_rank(x) != self.eng.str_rank(y))
            return y
        if isinstance(x, (Elem, Buf, MapV, Iter, Closure)):
            raise Unsupported('nested loops over one list of arbitrary length')
        if id(x) in self.memo:
            return self.memo[id(x)][0]
        def keep(y):
            self.memo[id(x)] = (y, x)
            return y
        if isinstance(x, Cell):
            y = keep(Cell(None))
            y.v = self.copy(x.v)
            return y
        if isinstance(x, Obj):
            y = keep(Obj(x.cls))
            y.f = {k: self.copy(c) for k, c in x.f.items()}
            y.ghost = x.ghost
            return y
        if isinstance(x, RefWrap):
            return keep(RefWrap(self.copy(x.loc)))
        if isinstance(x, UPtr):
            return keep(UPtr(self.copy(x.p), x.shared))
        if isinstance(x, Ptr):
            return keep(Ptr(self.copy(x.loc)))
        if isinstance(x, Pair):
            return keep(Pair(*[self.copy(c) for c in x.f]))
        if isinstance(x, Vec):
            if isinstance(x.items, StarList):
                raise Unsupported('nested loops over one list of arbitrary length')
            y = keep(Vec(None, x.etype))
            y.items = [self.copy(c) for c in x.items]
            return y
        if x is NULL or isinstance(x, (int, str, bool)) or x is None:
            return x
        raise Unsupported('nested loops over one list of arbitrary length')

def iterate(eng, cell, root, body, loopvar):
    own = {}
    reach(cell, own)
    if loopvar is not None:
        own[id(loopvar)] = loopvar
    ser0 = SER[0]
    dry = eng.nested_explore(lambda: body(cell))
    if not dry:
        raise Infeasible()
    cont = [r for r in dry if r[1] in ('normal', 'continue')]
    if any(r[4] for r in dry):
        raise Unsupported('events in a loop over a list of arbitrary length')
    # what the iterations that continue write, over all paths (an iteration that leaves the loop is the last one)
    eff = {}
    for conds, kind, val, writes, ev in cont:
        for k, (o, attr, v) in writes.items():
            if id(o) not in own and not (isinstance(v, bool) and v is getattr(o, attr)):
                eff[k] = (o, attr)
    plan = []
    for k, (o, attr) in eff.items():
        old = getattr(o, attr)
        if isinstance(o, OStream) and attr == 'parts':
            for r in cont:
                if k in r[3] and list(r[3][k][2][:len(old)]) != list(old):
                    raise Unsupported('a stream rewritten in a loop over a list of arbitrary length')
            plan.append(('stream', o, attr, old, None))
        elif isinstance(o, SetV):
            plan.append(('set', o, attr, old, None))
        elif items_in(attr, old) is not None:
            if isinstance(o, Vec) and attr == 'items' and any(k not in r[3] for r in cont) and all(k not in r[3] or appended(old, r[3][k][2]) for r in cont):
                plan.append(('filter', o, attr, old, None))
                continue
            for r in cont:
                if k not in r[3] or not appended(items_in(attr, old), items_in(attr, r[3][k][2])):
                    raise Unsupported('a loop over a list of arbitrary length does something other than append one element per iteration')
            plan.append(('append', o, attr, old, None))
        elif attr == 'v' and isinstance(old, bool):
            plan.append(('flag', o, attr, old, None))
        elif attr == 'v' and isinstance(old, (int, z3.ArithRef)):
            plan.append(('count', o, attr, old, None))
        elif attr == 'v' and elem_in(old) is not None:
            plan.append(('fold', o, attr, old, elem_in(old)))
        elif attr == 'v' and isinstance(old, UPtr) and not old.shared:
            plan.append(('slot', o, attr, old, None))
        else:
            raise Unsupported('a loop over a list of arbitrary length writes %r' % (old,))
    folds = [p for p in plan if p[0] in ('count', 'fold')]
    flags = [p for p in plan if p[0] == 'flag']
    # before the iteration, accumulators hold an arbitrary value, lists, sets and streams what earlier iterations put there
    acc, sets = {}, {}
    for kind, o, attr, old, info in plan:
        if kind == 'count':
            a = eng.fresh('acc')
            eng.fact(z3.And(a >= 0, a < 2**63))
            setattr_logged(o, attr, a)
            acc[id(o)] = a
        elif kind == 'fold':
            t = terms.qatom('acc', root.base, len(acc)) if info[0] == 'Q' else terms.patom('acc', root.base, len(acc))
            setattr_logged(o, attr, info[2](t))
            acc[id(o)] = t
        elif kind == 'slot':
            # whatever an earlier iteration left there
            setattr_logged(o, attr, UPtr(POISON))
        elif kind == 'set':
            if old:
                raise Unsupported('a set filled by several loops')
            setattr_logged(o, attr, (('accumulating',),))
            sets[id(o)] = o
        elif kind == 'stream':
            setattr_logged(o, attr, list(old) + [ACCUMULATING])
        elif kind in ('append', 'filter'):
            so_far = root.derive()
            so_far.base = 'so far ' + root.base
            so_far.n = eng.fresh('so far')
            eng.fact(z3.And(so_far.n >= 0, so_far.n < root.n))
            acc[id(o)] = StarList(segs_of(items_in(attr, old)) + [(None, so_far)])
            setattr_logged(o, attr, with_items(attr, acc[id(o)]))
    steps, closed = {}, []
    leaves_early = len(cont) < len(dry)
    if folds or sets or flags:
        if len(flags) > 3:
            raise Unsupported('many flags')
        images, changes = None, {}
        for combo in itertools.product((False, True), repeat=len(flags)):
            for p, c in zip(flags, combo):
                setattr_logged(p[1], 'v', p[3] ^ c)
            runs = eng.nested_explore(lambda: body(cell))
            on = [r for r in runs if r[1] in ('normal', 'continue')]
            if len(on) < len(runs):
                leaves_early = True
            for p, c in zip(flags, combo):
                if c:
                    # once changed, a flag keeps its value in every later iteration
                    for r in on:
                        w = r[3].get((id(p[1]), 'v'))
                        if w is not None and not (isinstance(w[2], bool) and w[2] != p[3]):
                            raise Unsupported('a flag set and reset in a loop over a list of arbitrary length')
                elif len(flags) > 1:
                    # whether an iteration changes it does not depend on the other flags
                    ch = []
                    for r in on:
                        w = r[3].get((id(p[1]), 'v'))
                        if w is not None:
                            v = w[2] if isinstance(w[2], bool) else z3.simplify(eng.to_bool(w[2]))
                            ch.append(z3.And(*r[0], zb(v) != p[3]))
                    ch = z3.Or(*ch)
                    if not _same(changes.setdefault(id(p[1]), ch), ch):
                        raise Unsupported('flags that depend on each other in a loop over a list of arbitrary length')
            if sets:
                # the same whether or not the flags have changed
                im = set_images(eng, sets, on)
                if images is None:
                    images = im
                elif any(not (_same(a[0], b[0]) and a[1].eq(b[1])) for a, b in zip(images.values(), im.values())):
                    raise Unsupported('a set filled depending on a flag')
            if not any(combo):
                for kind, o, attr, old, info in folds:
                    if kind == 'fold':
                        if len(on) > 1:
                            raise Unsupported('a fold over a list of arbitrary length with several cases')
                        continue
                    # what is added in every case
                    vs = []
                    for r in on:
                        w = r[3].get((id(o), 'v'))
                        vs.append((z3.And(*r[0]) if r[0] else z3.BoolVal(True), z3.simplify(z(w[2] if w is not None else acc[id(o)]) - acc[id(o)])))
                    if not all(v[1].eq(vs[0][1]) for v in vs):
                        steps[id(o)] = vs
                        f = saturating(eng, root, z(old), acc[id(o)], vs)
                        if f is not None:
                            closed.append((o, f))
        for o, (f, i) in closed:
            setattr_logged(o, 'v', f(i))
            steps[id(o)] = f
        for p in flags:
            setattr_logged(p[1], 'v', p[3])
        sets = images
    earlier = False
    if leaves_early:
        for kind, o, attr, old, info in flags:
            if eng.branch(eng.fresh('earlier', 'bool')):
                # an earlier iteration changed the flag (that it did, and no iteration leaves the loop, is the case explored below)
                earlier = True
                setattr_logged(o, 'v', not old)
    trail = []
    outer = TRAIL[-1]
    TRAIL.append(trail)
    eng.depth_star = getattr(eng, 'depth_star', 0) + 1
    left = None
    try:
        body(cell)
    except ContinueEx:
        pass
    except (ReturnEx, CppThrow, UB, BreakEx) as e:
        left = e
    finally:
        eng.depth_star -= 1
        TRAIL.pop()
        if outer is not None:
            outer.extend(trail)
    if left is not None:
        if isinstance(left, ReturnEx) and plan and not (left.v is None or isinstance(left.v, (bool, int))):
            raise Unsupported('a value computed from a list of arbitrary length is returned early')
        eng.witness.add(root.base)
        # flags are known: whether an earlier iteration changed them was decided above
        poison([p for p in plan if p[0] != 'flag'])
        raise left
    if earlier:
        raise Infeasible()
    for p in flags:
        kind, o, attr, old, info = p
        b = eng.branch(eng.to_bool(getattr(o, attr)))
        if b != old:
            # some iteration changes the flag: this one
            eng.witness.add(root.base)
            poison([x for x in plan if x is not p and x[0] not in ('flag', 'set')])
            for x in plan:
                if x[0] == 'flag' and x is not p:
                    # changed by this iteration, or perhaps by another one
                    v = eng.branch(eng.to_bool(getattr(x[1], 'v')))
                    setattr_logged(x[1], 'v', v if v != x[3] else eng.fresh('flag', 'bool'))
                elif x[0] == 'set':
                    setattr_logged(x[1], x[2], (('image', root) + sets[id(x[1])],))
            return
        setattr_logged(o, attr, old)
    seen = set()
    for e in trail:
        if not callable(e) and e[0].ser <= ser0 and id(e[0]) not in own:
            seen.add((id(e[0]), 'v' if len(e) == 2 else e[1]))
    same = set()
    for e in trail:
        if not callable(e) and len(e) == 2 and isinstance(e[0].v, bool) and (id(e[0]), 'v') in seen - set(eff) and all(e2[1] is e[0].v for e2 in trail if not callable(e2) and len(e2) == 2 and e2[0] is e[0]):
            same.add((id(e[0]), 'v'))
    if seen - set(eff) - same:
        raise Unsupported('a loop over a list of arbitrary length writes differently on its second run')
    cond = len(cont) > 1
    finish_counts(eng, root, plan, acc, steps)
    for kind, o, attr, old, info in plan:
        new = getattr(o, attr)
        if kind == 'append':
            so = segs_of(items_in(attr, old))
            new = items_in(attr, new)
            if new is None or not appended(acc[id(o)], new):
                raise Unsupported('irregular append in a loop over a list of arbitrary length')
            if segs_of(new)[-1][1] is not None:
                raise Unsupported('lists of arbitrary length joined to one list')
            setattr_logged(o, attr, with_items(attr, StarList(so + [(segs_of(new)[-1][0], root.derive(cond=cond))])))
        elif kind == 'filter':
            # the list of those for which this happened; the representative is one of them, or is not
            so, sn = segs_of(old), segs_of(new)
            f = root.derive(cond=True)
            f.base = 'some of %s %d' % (root.base, next_key())
            f.n = z3.Int('len!' + f.base)
            if len(sn) == len(so) + 1:
                eng.fact(z3.And(f.n >= 0, f.n < root.n))
                setattr_logged(o, attr, StarList(so + [(None, f)]))
            elif appended(acc[id(o)], new) and sn[-1][1] is None:
                eng.fact(z3.And(f.n > 0, f.n <= root.n))
                setattr_logged(o, attr, StarList(so + [(sn[-1][0], f)]))
            else:
                raise Unsupported('irregular append in a loop over a list of arbitrary length')
        elif kind == 'flag':
            pass
        elif kind == 'stream':
            if list(new[:len(old) + 1]) != list(old) + [ACCUMULATING]:
                raise Unsupported('a stream rewritten in a loop over a list of arbitrary length')
            setattr_logged(o, attr, list(old) + [('star', root.base, root.order, stream(new[len(old) + 1:]))])
        elif kind == 'set':
            setattr_logged(o, attr, (('image', root) + sets[id(o)],))
        elif kind == 'count':
            continue
        elif kind == 'slot':
            setattr_logged(o, attr, UPtr(POISON))
        else:
            n2 = elem_in(new)
            if n2 is None or n2[0] != info[0]:
                raise Unsupported('irregular accumulator')
            a = acc[id(o)]
            if info[0] == 'Q':
                h = n2[1] - a
                ida = a.single_atom().id
                if any(ida in k for k in h.m) or mentions(h, ida):
                    raise Unsupported('not a sum')
                t = info[1] + bigsum(root, h)
            else:
                (ida, e0), = a.f.items()
                f = dict(n2[1].f)
                if f.get(ida) != e0:
                    raise Unsupported('not a product')
                del f[ida]
                h = PTerm(f)
                if mentions(h, ida):
                    raise Unsupported('not a product')
                t = info[1] * bigprod(root, h)
            setattr_logged(o, attr, info[2](t))

def finish_counts(eng, root, plan, acc, steps):
    for kind, o, attr, old, info in plan:
        if kind != 'count':
            continue
        if callable(steps.get(id(o))):
            setattr_logged(o, attr, steps[id(o)](root.n))
            continue
        new = getattr(o, attr)
        d = z3.simplify(z(new) - acc[id(o)])
        if getattr(root, 'index', None) is not None and root.order is None and not occurs(acc[id(o)], z(new)):
            # overwritten in every iteration, by a value that depends on the index alone: the last one stays
            setattr_logged(o, attr, z3.simplify(z3.substitute(z(new), (root.index, root.n - 1))))
            continue
        if id(o) in steps or not z3.is_int_value(d):
            vs = [(c, z3.simplify(v + acc[id(o)])) for c, v in steps[id(o)]] if id(o) in steps else [(z3.BoolVal(True), z3.simplify(z(new)))]
            m = greatest(eng, root, z(old), acc[id(o)], vs)
            if m is not None:
                setattr_logged(o, attr, m)
                continue
            if eng.int_sums is None:
                raise Unsupported('a sum of integers over a list of arbitrary length')
            h = d
            if id(o) in steps:
                vs = steps[id(o)]
                h = vs[-1][1]
                for c, v in reversed(vs[:-1]):
                    h = z3.If(c, v, h)
            if occurs(acc[id(o)], h):
                raise Unsupported('not a sum of integers')
            setattr_logged(o, attr, z3.simplify(z(old) + isum(eng, root, h)))
            continue
        # the counter stays far below 2^64 (lists are shorter than 2^62 elements)
        if not 0 <= d.as_long() <= 2:
            raise Unsupported('a counter with a large step')
        setattr_logged(o, attr, z3.simplify(z(old) + d * root.n))

def saturating(eng, root, c0, acc, vs):
    """a counter that goes up by one as long as it is below E: its value before the i-th iteration, shown by induction"""
    for c, v in vs:
        todo = [c]
        while todo:
            e = todo.pop()
            todo += e.children()
            if z3.is_le(e) or z3.is_lt(e) or z3.is_ge(e) or z3.is_gt(e):
                for E in ([e.arg(1)] if e.arg(0).eq(acc) else [e.arg(0)] if e.arg(1).eq(acc) else []):
                    if occurs(acc, E):
                        continue
                    t = z3.Solver()
                    t.set('timeout', 5000)
                    t.add(z3.Or(*[z3.And(c2, v2 + acc != z3.If(acc < E, acc + 1, acc)) for c2, v2 in vs]))
                    f = lambda i: z3.If(c0 >= E, c0, z3.If(c0 + i <= E, c0 + i, E))
                    i = z3.Int('step')
                    u = z3.Solver()
                    u.set('timeout', 5000)
                    u.add(i >= 0, z3.Or(f(z3.IntVal(0)) != c0, f(i + 1) != z3.If(f(i) < E, f(i) + 1, f(i))))
                    if t.check() == z3.unsat and u.check() == z3.unsat:
                        pos = position(eng, root)
                        return f, pos
    return None
def position(eng, root):
    """the place of the representative in the order of this loop"""
    i = z3.Int('pos!%s!%s' % (root.base, root.order))
    eng.fact(z3.And(i >= 0, i < root.n))
    return i
def leaves(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return leaves(e.arg(1)) + leaves(e.arg(2))
    return [e]
def greatest(eng, root, old, acc, vs):
    """the accumulator takes the greater of its value and h: the greatest of all"""
    for h in [l for c, v in vs for l in leaves(v) if not occurs(acc, l)]:
        t = z3.Solver()
        t.set('timeout', 5000)
        t.add(z3.Or(*[z3.And(c, v != z3.If(h > acc, h, acc)) for c, v in vs]))
        if t.check() == z3.unsat:
            m = z3.Int('max!%s!%d' % (root.base, _registered(eng, 'max', root.base, (h, old))))
            eng.fact(z3.And(m >= old, z3.Implies(root.n > 0, m >= h), z3.Implies(root.n == 0, m == old), m < 2**64))
            if root.upper is not None and root.key is not None and h.eq(root.key):
                eng.fact(m <= z3.If(old > root.upper, old, root.upper))
            return m
    return None
def occurs(x, e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    return e.eq(x) or any(occurs(x, k, seen) for k in e.children())

def poison(plan):
    for kind, o, attr, old, info in plan:
        if kind == 'set':
            setattr_logged(o, attr, (('unknown',),))
            continue
        if kind == 'slot':
            setattr_logged(o, attr, UPtr(POISON))
            continue
        setattr_logged(o, attr, with_items(attr, PoisonList()) if kind in ('append', 'stream', 'filter') else POISON)

def mentions(t, aid, seen=None):
    """does atom aid occur inside t (also within the arguments of atoms)?"""
    seen = set() if seen is None else seen
    if isinstance(t, (QTerm, XSum)):
        return any(mentions(Atom.lst[x], aid, seen) for k in t.m for x in k)
    if isinstance(t, PTerm):
        return any(mentions(Atom.lst[k], aid, seen) or mentions(e, aid, seen) for k, e in t.f.items())
    if isinstance(t, Atom):
        if t.id == aid:
            return True
        if t.id in seen:
            return False
        seen.add(t.id)
        return any(mentions(x, aid, seen) for x in t.args)
    if isinstance(t, (tuple, list)):
        return any(mentions(x, aid, seen) for x in t)
    return False

def setattr_logged(o, attr, v):
    t = TRAIL[-1]
    if attr == 'v':
        if t is not None:
            t.append((o, o.v))
        o.v = v
    else:
        if t is not None:
            t.append((o, attr, getattr(o, attr)))
        setattr(o, attr, v)

def twin(x, sub, memo):
    """x with the key replaced"""
    if isinstance(x, z3.ExprRef):
        return z3.substitute(x, sub)
    if id(x) in memo:
        return memo[id(x)][0]
    def keep(y):
        memo[id(x)] = (y, x)
        return y
    if isinstance(x, Cell):
        y = keep(Cell(None))
        y.v = twin(x.v, sub, memo)
        return y
    if isinstance(x, Obj):
        y = keep(Obj(x.cls))
        y.f = {k: twin(c, sub, memo) for k, c in x.f.items()}
        y.ghost = x.ghost
        return y
    if isinstance(x, RefWrap):
        return keep(RefWrap(twin(x.loc, sub, memo)))
    if isinstance(x, UPtr):
        return keep(UPtr(twin(x.p, sub, memo), x.shared))
    if isinstance(x, Ptr):
        return keep(Ptr(twin(x.loc, sub, memo)))
    if isinstance(x, Pair):
        return keep(Pair(*[twin(c, sub, memo) for c in x.f]))
    if isinstance(x, Vec):
        y = keep(Vec(None, x.etype))
        y.items = mapped(x.items, lambda c: twin(c, sub, memo))
        return y
    return x

def sort(eng, vec, fn):
    """sorting a list of arbitrary length: fn must be 'less' on the key of its Root"""
    segs = segs_of(vec.items)
    if len(segs) != 1 or segs[0][1] is None:
        raise Unsupported('sorting a list with several segments')
    c, r = segs[0]
    if c is None:
        return
    if r.key is None:
        # sorted by this comparison; nothing else is known about the order
        who = getattr(fn, 'body', None)
        who = who.get('id') if isinstance(who, dict) else None
        if fn is not None and who is None:
            raise Unsupported('sorting a list without a known order')
        vec.mut()
        o = r.order if isinstance(r.order, tuple) and r.order[:2] == ('sorted', who) else ('sorted', who, r.order)
        setattr_logged(vec, 'items', StarList([(Cell(c.get()), r.derive(order=o))]))
        return
    # another arbitrary element: the same with another key
    x = c.get()
    kx, ky = r.key, z3.Int('other!' + str(r.key))
    eng.fact(z3.And(ky >= 0, ky < 2**64))
    y = twin(x, (kx, ky), {})
    import stl
    def cmp(a, b):
        v = eng.invoke(fn, [Cell(a), Cell(b)]) if fn is not None else stl.less(eng, a, b)
        v = v.get() if eng.is_locv(v) else v
        return eng.to_bool(v)
    l1 = cmp(x, y)
    l2 = cmp(y, x)
    a = lambda e: e if is_sym(e) else z3.BoolVal(bool(e))
    if eng.valid(z3.Implies(kx != ky, z3.And(a(l1) == (kx < ky), a(l2) == (ky < kx)))):
        vec.mut()
        setattr_logged(vec, 'items', StarList([(Cell(x), r.derive(order='ascending'))]))
        return
    vec.mut()
    Root._n[0] += 1
    setattr_logged(vec, 'items', StarList([(Cell(x), r.derive(order='unknown %d' % Root._n[0]))]))

class FlagMap:
    """a map from arbitrary keys to bool, known only by whether all of its values are true (all) and whether it may have entries.
    Used instead of the exact map where the keys come from a list of arbitrary length."""
    def __init__(self, eng):
        self.eng = eng
        self.ser = serial()
        self.all = Cell(True)
    def egv_reach(self):
        return [self.all]
    def entry(self, v0=None):
        """the entry of some key, inserted with v0 if it is new"""
        eng = self.eng
        F = self.all.get()
        if v0 is True and F is True:
            e = True
        else:
            e = eng.fresh('entry', 'bool')
            if v0 is True:
                eng.fact(z3.Implies(zb(F), e))
            elif v0 is not None:
                raise Unsupported('map of flags with an unknown first value')
        return FlagEntry(self, e, fresh=v0 is None)
    def egv_member(self, eng, n, this, nm, argx):
        args, types, rvs = eng.ev_args(argx)
        if nm in ('emplace', 'try_emplace', 'insert'):
            v = args[1].get() if len(args) == 2 else args[0].get().f[1].get()
            F = self.all.get()
            if v is True:
                c = self.entry(True)
            else:
                # a new entry with this value, or an old one that stays as it is
                if eng.branch(eng.fresh('new key', 'bool')):
                    c = self.entry(True)
                    c.set(v)
                else:
                    c = self.entry(True)
            return Pair(Cell(Iter(View(Cell(Pair(Cell(SymStr(('key', next_key()))), c)), None), 0)), Cell(eng.fresh('inserted', 'bool')))
        if nm in ('insert_or_assign',):
            c = self.entry()
            c.set(args[1].get())
            return None
        raise Unsupported('map of flags: ' + nm)
    def egv_operator(self, eng, n, op, args):
        if op == 'operator[]':
            return self.entry()
        raise Unsupported('map of flags: ' + op)
    def egv_star_items(self):
        eng = self.eng
        k = next_key()
        def pair(v):
            return Cell(Pair(Cell(SymStr(('key', next_key()))), Cell(v)))
        def some(tag, v):
            n = z3.Int('entries!%s%d' % (tag, k))
            eng.fact(z3.And(n >= 0, n < 2**62))
            return (pair(v), Root(eng, 'entries%s%d' % (tag, k), n=n))
        F = self.all.get()
        if eng.branch(eng.to_bool(F)):
            return StarList([some('', True)])
        return StarList([some('a', eng.fresh('value', 'bool')), (pair(False), None), some('b', eng.fresh('value', 'bool'))])
class FlagEntry:
    is_loc = True
    def __init__(self, m, e, fresh):
        self.m, self.e, self.pending = m, e, fresh
        self.ser = serial()
        self.F0 = m.all.get()
    def get(self):
        if self.pending:
            raise Unsupported('map of flags: an entry read that may be new')
        return self.e
    def set(self, v):
        eng = self.m.eng
        v = v if isinstance(v, bool) else eng.to_bool(v)
        F = self.m.all.get()
        if not (F is self.F0 or isinstance(F, z3.ExprRef) and isinstance(self.F0, z3.ExprRef) and F.eq(self.F0)):
            raise Unsupported('map of flags: an entry written late')
        if v is False:
            new = False
        elif F is True:
            new = v
        elif not self.pending and eng.valid(z3.Implies(zb(v), zb(self.e))):
            # the entry was and-ed with something: so are all entries together
            new = False if F is False else z3.And(zb(F), z3.Or(zb(v), z3.Not(zb(self.e))))
        else:
            new = eng.fresh('all', 'bool')
            eng.fact(z3.And(z3.Implies(z3.Not(zb(v)), z3.Not(new)), z3.Implies(z3.And(zb(F), zb(v)), new)))
        self.m.all.set(new)
        self.F0 = new
        self.e = v
        self.pending = False
def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
_key = [0]
def next_key():
    _key[0] += 1
    return _key[0]

# ---- sets filled from a list of arbitrary length, and statements about all of its elements
def _same(a, b):
    if a.eq(b):
        return True
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(a != b)
    return s.check() == z3.unsat
def _registered(eng, kind, base, exprs):
    """the index under which this operation on the list was met before, or a new one"""
    l = eng.star_ops.setdefault((kind, base), [])
    for i, e in enumerate(l):
        if len(e) == len(exprs) and all(_same(x, y) for x, y in zip(e, exprs)):
            return i
    l.append(exprs)
    return len(l) - 1
def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def key_of(eng, x):
    return z(x) if isinstance(x, (int, z3.ArithRef)) else eng.str_rank(x)
def all_of(eng, root, g):
    """g holds for every element (g: about the representative)"""
    g = _b(g)
    if z3.is_true(g):
        return g
    a = z3.Bool('all!%s!%d' % (root.base, _registered(eng, 'all', root.base, (g,))))
    eng.fact(z3.And(z3.Implies(z3.And(root.n > 0, a), g), z3.Implies(root.n == 0, a)))
    return a
def injective(eng, root, k):
    """no two elements have the same k"""
    a = z3.Bool('inj!%s!%d' % (root.base, _registered(eng, 'inj', root.base, (z(k),))))
    eng.fact(z3.Implies(root.n <= 1, a))
    return a
def member(eng, root, g, k, x):
    """some element with g has k equal to x"""
    g = _b(g)
    a = z3.Bool('mem!%s!%d' % (root.base, _registered(eng, 'mem', root.base, (g, z(k), z(x)))))
    eng.fact(z3.And(z3.Implies(root.n == 0, z3.Not(a)), z3.Implies(z3.And(root.n > 0, g, z(k) == z(x)), a)))
    if not z3.is_true(g):
        eng.fact(z3.Implies(all_of(eng, root, g), a == member(eng, root, True, k, x)))
    return a
def isum(eng, root, h):
    """the sum of h over all elements; assumed to stay below eng.int_sums"""
    s = z3.Int('sum!%s!%d' % (root.base, _registered(eng, 'sum', root.base, (z(h),))))
    eng.fact(z3.And(z3.Implies(root.n == 0, s == 0), s < eng.int_sums))
    t = z3.Solver()
    t.set('timeout', 5000)
    for f in eng.facts:
        t.add(f)
    t.add(z(h) < 0)
    if t.check() != z3.unsat:
        raise Unsupported('a sum of integers that may be negative')
    eng.fact(z3.And(s >= 0, z3.Implies(root.n > 0, s >= h)))
    return s
def set_images(eng, sets, paths):
    """for every set: when an iteration inserts, and what"""
    out = {}
    for i, o in sets.items():
        ins, rest, key = [], [], None
        for r in paths:
            w = r[3].get((i, 'parts'))
            new = w[2][1:] if w is not None else ()
            c = z3.And(*r[0]) if r[0] else z3.BoolVal(True)
            if not new:
                rest.append(c)
                continue
            if len(new) > 1 or new[0][0] != 'one' or key is not None and not new[0][1].eq(key):
                raise Unsupported('a set filled irregularly')
            key = new[0][1]
            ins.append((c, r[0]))
        if key is None:
            raise Unsupported('a set not filled')
        lits = [z3.BoolVal(True)] + [l for c, ls in ins for l in ls]
        I, N = z3.Or(*[c for c, ls in ins]), z3.Or(*rest)
        for g in lits:
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(z3.Or(z3.And(I, z3.Not(g)), z3.And(N, g)))
            if s.check() == z3.unsat:
                break
        else:
            raise Unsupported('a set filled under a condition that was not found')
        out[i] = (g, key)
    return out

class SetV:
    """a set whose elements may come from a list of arbitrary length"""
    def __init__(self, eng):
        self.eng = eng
        self.ser = serial()
        self.parts = ()
    def image(self):
        if len(self.parts) == 1 and self.parts[0][0] in ('image', 'unknown'):
            return self.parts[0]
        if not self.parts:
            return None
        raise Unsupported('a set that is being filled is read')
    def egv_size(self):
        eng, p = self.eng, self.image()
        if p is None:
            return 0
        if p[0] == 'unknown':
            n = eng.fresh('size')
            eng.fact(n >= 0)
            return n
        _, root, g, k = p
        n = z3.Int('card!%s!%d' % (root.base, _registered(eng, 'card', root.base, (g, k))))
        eng.fact(z3.And(n >= 0, n <= root.n, (n == root.n) == z3.And(all_of(eng, root, g), injective(eng, root, k))))
        return n
    def has(self, x):
        eng, p = self.eng, self.image()
        if p is None:
            return False
        if p[0] == 'unknown':
            return eng.fresh('member', 'bool')
        return member(eng, p[1], p[2], p[3], key_of(eng, x))
    def egv_member(self, eng, n, this, nm, argx):
        args, types, rvs = eng.ev_args(argx)
        if nm in ('insert', 'emplace') and len(args) == 1:
            setattr_logged(self, 'parts', self.parts + (('one', key_of(eng, args[0].get())),))
            return Pair(Tainted(), Tainted())
        if nm == 'size':
            return self.egv_size()
        if nm == 'empty':
            return self.egv_size() == 0
        if nm in ('end', 'cend'):
            return Iter(self, None)
        if nm == 'find':
            return Iter(View(Cell(args[0].get()), self), 0) if eng.branch(self.has(args[0].get())) else Iter(self, None)
        if nm in ('count', 'contains'):
            r = self.has(args[0].get())
            return r if nm == 'contains' else z3.If(_b(r), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('set of arbitrary size: ' + nm)
class Tainted:
    """the answer of an insertion"""
    is_loc = True
    def __init__(self):
        self.ser = serial()
    def get(self):
        raise Unsupported('the answer of an insertion into a set of arbitrary size')
    def set(self, v):
        raise Unsupported('the answer of an insertion into a set of arbitrary size')
