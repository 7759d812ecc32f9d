"""Obligation runner: every obligation is generated from the current source of /repo (clang AST -> verification conditions)
and discharged by z3; results are proved / failed / undecided."""
import os, sys, time, json, traceback, random, resource, multiprocessing as mp, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
import astload, engine, stl, l1, l2
from values import *
from terms import *
from engine import Engine, Frame, norm_type

VERIF = os.path.dirname(HERE)
REPO = astload.REPO

class Failed(Exception):
    def __init__(self, label, info):
        self.label, self.info = label, info
class Undecided(Exception):
    pass

class Ctx:
    """what an obligation uses"""
    def __init__(self, prog, tier):
        self.prog, self.tier = prog, tier
        self.paths = 0
        self.conds = 0
        self.eng = None
        self.vac = []
    def engine(self, layer, merge=False, **kw):
        eng = Engine(self.prog)
        (l1 if layer == 1 else l2).install(eng)
        eng.merge_loops = merge
        for k, v in kw.items():
            setattr(eng, k, v)
        self.eng = eng
        return eng
    def fn(self, qn, k=None, sub=None, cls=None):
        c = [f for f in self.prog.funcs.get(qn, []) if k is None or len(f.params) == k]
        if sub:
            c = [f for f in c if sub in f.type]
        d = [f for f in c if f.body is not None] or c
        if not d:
            raise Unsupported('function %s not found' % qn)
        return d[0]
    def call(self, qn, args, this=None, k=None, sub=None):
        f = self.fn(qn, len(args) if k is None else k, sub)
        return self.eng.call_function(f, this, args)
    def prove(self, thunk, post, throws=None, min_ret=1, label=''):
        """for every feasible path of thunk(): post(result) yields (name, formula) that the path entails;
        throws(exc) yields the same for throwing paths (None: throwing is a failure)"""
        eng = self.eng
        nret = 0
        for p in eng.explore(thunk):
            self.paths += 1
            if p.kind == 'ub':
                r = eng.check()
                if r == z3.unsat:
                    continue
                if r == z3.sat:
                    raise Failed(label + 'no undefined behaviour', self.info(p, str(p.val)))
                raise Undecided('feasibility of a path with undefined behaviour: %s' % p.val)
            if p.kind == 'throw':
                r = eng.check()
                if r == z3.unsat:
                    continue
                if throws is None:
                    if r == z3.sat:
                        raise Failed(label + 'does not throw', self.info(p, str(p.val)))
                    raise Undecided('feasibility of a throwing path')
                goals = throws(p.val)
            else:
                goals = post(p.val)
                nret += 1
            for name, g in goals:
                self.goal(p, label + name, g)
        if nret < min_ret:
            raise Failed(label + 'some execution returns', {'note': 'only %d returning paths' % nret, 'vacuous': True})
        return nret
    def goal(self, p, name, g):
        eng = self.eng
        self.conds += 1
        if isinstance(g, bool):
            if g:
                return
            r = eng.check()
            g = None
        else:
            s = z3.simplify(g)
            if z3.is_true(s):
                return
            r = eng.check(z3.Not(g))
        if r == z3.unsat:
            return
        if r == z3.sat and eng.approx:
            raise Undecided('%s: the failing path uses an approximated operation (%s)' % (name, eng.approx[0]))
        if r == z3.sat:
            raise Failed(name, self.info(p, None if g is None else str(g)[:2000]))
        raise Undecided('solver gave no answer for: ' + name)
    def info(self, p, what):
        d = {'path': [str(c)[:300] for c in p.pc][:60], 'detail': what}
        try:
            m = self.eng.solver.model()
            inp = {}
            for dcl in m.decls():
                if dcl.arity() == 0 and '!' not in dcl.name():
                    v = m[dcl]
                    inp[dcl.name()] = hex(v.as_long()) if z3.is_int_value(v) else str(v)
            d['model'] = inp
        except z3.Z3Exception:
            pass
        return d

def child(prop, ob, prog, tier, conn, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except (ValueError, OSError):
        pass
    signal.alarm(int(limit) + 5)
    t = time.time()
    ctx = Ctx(prog, tier)
    r = {'name': ob.name}
    try:
        ob.run(ctx)
        r['status'] = 'proved'
    except Failed as e:
        r['status'], r['obligation'], r['info'] = 'failed', e.label, e.info
    except Undecided as e:
        r['status'], r['why'] = 'undecided', str(e)
    except Unsupported as e:
        r['status'], r['why'] = 'undecided', 'outside the supported subset: %s' % e
        r['tb'] = traceback.format_exc()[-1500:]
    except MemoryError:
        r['status'], r['why'] = 'undecided', 'memory limit'
    except Exception as e:
        r['status'], r['why'] = 'undecided', 'verifier error: %s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()[-2500:]
    r['paths'], r['conds'], r['wall'] = ctx.paths, ctx.conds, time.time() - t
    if ctx.eng is not None:
        r['solver_s'], r['queries'] = ctx.eng.stat_solver, ctx.eng.stat_queries
        r['inlined'] = sorted(ctx.eng.inlined)
        r['contracted'] = sorted(ctx.eng.contracted)
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()
    os._exit(0)

class Ob:
    def __init__(self, name, run, bounded=None, limit=300):
        self.name, self.run, self.bounded, self.limit = name, run, bounded, limit

def run_obligations(prop, obs, prog, tier, jobs=6, deadline=None):
    ctxm = mp.get_context('fork')
    pend = list(obs)
    live = []
    out = []
    while pend or live:
        now = time.time()
        while pend and len(live) < jobs:
            ob = pend.pop(0)
            lim = ob.limit
            if deadline is not None:
                lim = min(lim, deadline - now)
            if lim < 3:
                out.append({'name': ob.name, 'status': 'undecided', 'why': 'time budget of the check used up', 'paths': 0, 'conds': 0, 'wall': 0})
                continue
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(prop, ob, prog, tier, b, lim))
            p.start()
            b.close()
            live.append((p, a, ob, now, lim))
        nl = []
        for p, a, ob, t0, lim in live:
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': ob.name, 'status': 'undecided', 'why': 'verifier process ended without an answer'}
                p.join(5)
            elif time.time() - t0 > lim:
                p.kill()
                p.join()
                r = {'name': ob.name, 'status': 'undecided', 'why': 'time limit %d s' % lim}
            elif not p.is_alive():
                if not a.poll(0):
                    r = {'name': ob.name, 'status': 'undecided', 'why': 'verifier process ended without an answer'}
            if r is None:
                nl.append((p, a, ob, t0, lim))
            else:
                for k in ('paths', 'conds'):
                    r.setdefault(k, 0)
                r.setdefault('wall', time.time() - t0)
                r['bounded'] = ob.bounded
                out.append(r)
                a.close()
        live = nl
        time.sleep(0.02)
    order = {o.name: i for i, o in enumerate(obs)}
    out.sort(key=lambda r: order[r['name']])
    return out
