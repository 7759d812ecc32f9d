"""Queues of arbitrary length, and the loop rule used with them.

QueueV: std::queue known as  head ++ (r unknown items) ++ back : items that were looked at, a symbolic number of items that
were there before, and the items pushed since.  Unknown items are made on demand by `item`.

cut_loop: a loop is replaced by one arbitrary iteration k of it.  The locations the body writes are found by running it; each of
them has to change by a constant per iteration (checked in the state of iteration k, on every path of the body, until nothing
new is found), so that its value before iteration k is start + k * change; flags are arbitrary.  A path that completes
iteration k ends there (CutEnd): what it did to the state is what the caller's conditions are checked on."""
import z3
from values import *

class CutEnd(Exception):
    pass

class QueueV:
    item = None
    def __init__(self, etype):
        self.ser = serial()
        self.etype = etype
        self.st = ((), 0, (), ())          # head, rest, back, log of what was pushed and popped
    def put(self, st):
        t = TRAIL[-1]
        if t is not None:
            t.append((self, 'st', self.st))
        self.st = st
    def length(self, st=None):
        h, r, b, _ = st or self.st
        n = len(h) + len(b)
        return r + n
    def make_front(self, eng):
        """make the first item explicit; False if there is none"""
        h, r, b, log = self.st
        if h:
            return True
        if is_sym(r):
            if eng.branch(r > 0):
                if self.item is None:
                    raise Unsupported('unknown queue item')
                self.put(((self.item(eng, self),), r - 1, b, log))
                return True
            r = 0
        elif r:
            raise Unsupported('constant number of unknown items')
        if b:
            self.put(((b[0],), 0, b[1:], log))
            return True
        self.put(((), 0, (), log))
        return False
    def egv_reach(self):
        return list(self.st[0]) + list(self.st[2])
    def egv_size(self, *a):
        return self.length()
    def egv_copy(self, *a):
        raise Unsupported('copy of a queue')
    def egv_member(self, eng, n, this, nm, argx):
        import stl
        args, types, rvs = eng.ev_args(argx)
        h, r, b, log = self.st
        if nm == 'size':
            return self.length()
        if nm == 'empty':
            return self.length() == 0
        if nm == 'front':
            if not self.make_front(eng):
                raise UB('front of an empty queue')
            return self.st[0][0]
        if nm == 'back':
            if b:
                return b[-1]
            if not is_sym(r) and not r and h:
                return h[-1]
            raise Unsupported('last item of a queue')
        if nm == 'pop':
            log = log + (('pop', h[0] if h else None),)
            if h:
                self.put((h[1:], r, b, log))
            elif is_sym(r):
                if eng.branch(r > 0):
                    self.put(((), r - 1, b, log))
                elif b:
                    self.put(((), 0, b[1:], log))
                else:
                    raise UB('pop on an empty queue')
            elif b:
                self.put(((), 0, b[1:], log))
            else:
                raise UB('pop on an empty queue')
            return None
        if nm == 'swap' and isinstance(args[0].get(), QueueV):
            o = args[0].get()
            mine, other = self.st, o.st
            self.put(other[:3] + (mine[3] + (('pop', None),) + other[3],))
            o.put(mine[:3] + (other[3] + (('pop', None),) + mine[3],))
            return None
        if nm in ('push', 'emplace'):
            x = stl.make_object(eng, self.etype, args, types, rvs)
            c = Cell(x)
            self.put((h, r, b + (c,), log + (('push', c),)))
            return None
        raise Unsupported('queue: ' + nm)

def zlen(x):
    return x if is_sym(x) else z3.IntVal(x)

def delta(o, attr, old, new):
    """constant change of a location, 'flag', or None"""
    if attr == 'st' and isinstance(o, QueueV):
        d = z3.simplify(zlen(o.length(new)) - zlen(o.length(old)))
    elif isinstance(old, (bool, z3.BoolRef)) or isinstance(new, (bool, z3.BoolRef)):
        return 'flag'
    elif isinstance(old, (int, z3.ArithRef)) and isinstance(new, (int, z3.ArithRef)):
        d = z3.simplify(zlen(new) - zlen(old))
    else:
        return None
    return d.as_long() if z3.is_int_value(d) else None

def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b and type(a) is type(b)
    return is_sym(a) and is_sym(b) and a.eq(b)

def cut_loop(eng, cond, body, inc):
    eng.in_cut = True
    try:
        cut(eng, cond, body, inc)
    finally:
        eng.in_cut = False

def cut(eng, cond, body, inc):
    def step():
        if cond is not None and not eng.branch(eng.to_bool(cond())):
            raise BreakEx()
        try:
            body()
        except ContinueEx:
            pass
        if inc is not None:
            inc()
    locs = {}           # (id, attr) -> [object, attr, start value, change]
    keep = []
    def learn():
        """run the body in the current state; True if nothing new was found"""
        new = False
        for conds, kind, val, writes, ev in eng.nested_explore(step):
            if kind != 'normal':
                continue            # leaves the loop: judged on the real path below
            if ev:
                raise Unsupported('events inside a cut loop')
            seen = set()
            for key, (o, attr, v) in writes.items():
                seen.add(key)
                keep.append(o)
                old = getattr(o, attr)
                if same(old, v):
                    d = 0
                else:
                    d = delta(o, attr, old, v)
                if d is None and isinstance(old, (int, z3.ArithRef)) and isinstance(v, (int, z3.ArithRef)):
                    for e in sorted({x[3] for x in locs.values() if isinstance(x[3], int)} | {0, 1, -1, 2}):
                        pre = z3.And(*conds) if conds else z3.BoolVal(True)
                        if eng.valid(z3.Implies(pre, zlen(v) == zlen(old) + e)):
                            d = e
                            break
                if d is None and attr == 'st' and isinstance(o, QueueV):
                    d = 'any'
                if d is None:
                    raise Unsupported('a loop changes %s in a way that is not a constant step' % type(old).__name__)
                if key not in locs:
                    locs[key] = [o, attr, old, d]
                    new = True
                elif locs[key][3] != d:
                    if attr == 'st':
                        if locs[key][3] != 'any':
                            locs[key][3] = 'any'
                            new = True
                    else:
                        raise Unsupported('a loop changes a variable by different steps')
            for key, l in locs.items():
                if key not in seen and l[3] not in (0, 'flag', 'any'):
                    if l[1] == 'st':
                        l[3] = 'any'
                        new = True
                    else:
                        raise Unsupported('a loop changes a variable only sometimes')
        return not new
    learn()
    def havoc(k):
        for l in locs.values():
            o, attr, start, d = l
            if attr == 'st':
                if d == 'any':
                    n = eng.fresh('length', 'int', 0)
                else:
                    n = zlen(o.length(start)) + d * k
                    eng.fact(n >= 0)
                o.put(((), z3.simplify(n), (), start[3]))
                continue
            if d == 'flag':
                eng.approx.append('a flag changed in a loop')
                v = eng.fresh('flag', 'bool')
            elif d == 0:
                v = start
            else:
                v = z3.simplify(zlen(start) + d * k)
            if attr == 'v':
                o.set(v)
            else:
                t = TRAIL[-1]
                if t is not None:
                    t.append((o, attr, getattr(o, attr)))
                setattr(o, attr, v)
    for _ in range(6):
        k = eng.fresh('iteration', 'int', 0)
        havoc(k)
        if cond is not None:
            cs = eng.nested_explore(lambda: eng.to_bool(cond()))
            if len(cs) == 1 and cs[0][1] == 'normal' and not cs[0][3] and not cs[0][0] and is_sym(cs[0][2]) and not any(l[3] in ('flag', 'any') for l in locs.values()):
                eng.fact(z3.Or(k == 0, z3.substitute(cs[0][2], (k, k - 1))))
        if learn():
            break
    else:
        raise Unsupported('no loop rule found')
    if cond is not None and not eng.branch(eng.to_bool(cond())):
        return
    try:
        body()
    except BreakEx:
        return
    except ContinueEx:
        pass
    if inc is not None:
        inc()
    raise CutEnd()
