#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]: decide one property on the current tree of /repo."""
import os, sys, time, json, tempfile, shutil, random, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'egv'))
sys.path.insert(0, os.path.join(HERE, 'props'))

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import findings
    mod = importlib.import_module(prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='egv-%s-' % prop)
    try:
        rc = run(prop, tier, seed, t0, mod, scratch, findings)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def run(prop, tier, seed, t0, mod, scratch, findings):
    import harness, runner, astload
    total = 780 if tier == 'quick' else 3 * 3600
    deadline = t0 + total - 120
    builder = None
    if getattr(mod, 'concrete', None) is not None:
        builder = harness.Builder(scratch, mod.HARNESS if hasattr(mod, 'HARNESS') else ['main.cpp'])
    results = []
    load_err = None
    prog = None
    if getattr(mod, 'TUS', None):
        try:
            prog = astload.Program()
            prog.load([t for t in mod.TUS if os.path.exists(os.path.join(astload.REPO, t))])
        except Exception as e:
            load_err = '%s: %s' % (type(e).__name__, e)
            prog = None
    obs = mod.obligations(tier) if hasattr(mod, 'obligations') else []
    only = os.environ.get('EGV_ONLY')
    if only:
        obs = [o for o in obs if only in o.name]
    if prog is not None or not getattr(mod, 'TUS', None):
        results = runner.run_obligations(prop, obs, prog, tier, jobs=7, deadline=deadline)
    else:
        results = [{'name': o.name, 'status': 'undecided', 'why': 'source not loadable: %s' % load_err, 'paths': 0, 'conds': 0, 'wall': 0, 'bounded': o.bounded} for o in obs]
    for r in results:
        print('  %-11s %-60s paths=%d conds=%d %.1fs %s' % (r['status'], r['name'], r['paths'], r['conds'], r['wall'],
              '' if r['status'] == 'proved' else (r.get('why') or r.get('obligation') or '')))
        if os.environ.get('EGV_DEBUG') and r['status'] != 'proved':
            print(r.get('tb', ''), json.dumps(r.get('info', {}), indent=1)[:3000])
    failed = [r for r in results if r['status'] == 'failed']
    # concrete executions of the real code: replay of counterexamples, and bounded stand-in where a part is out of reach
    conc_fail, conc = [], {'executions': 0}
    if builder is not None:
        exe = builder.wait()
        if exe is None:
            conc['error'] = 'library or harness did not build: ' + (builder.err or '')[-800:]
            print('  harness unavailable:', conc['error'][-600:])
        else:
            h = harness.Harness(exe)
            rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
            hints = [r.get('info', {}).get('model', {}) for r in failed]
            tc = time.time()
            budget = (150 if tier == 'quick' else 1800)
            conc_err = None
            try:
                for f in mod.concrete(h, rng, tier, hints):
                    if f is None:
                        if time.time() - tc > budget or time.time() > t0 + total:
                            break
                        continue
                    conc_fail.append(f)
                    if len(conc_fail) >= 3:
                        break
            except harness.Crash as e:
                conc_fail.append({'what': 'the library crashed or hung: %s' % e, 'last_command': h.samples[-1:] if h.samples else []})
            except Exception as e:
                import traceback
                print('  concrete executions stopped: %s' % traceback.format_exc()[-1500:])
                conc_err = '%s: %s' % (type(e).__name__, e)
            h.kill()
            conc = {'executions': h.count, 'distinct_nontrivial': len(h.distinct), 'samples': h.samples, 'seconds': round(time.time() - tc, 1)}
            if conc_err:
                conc['error'] = conc_err
            print('  concrete executions: %d (%.1fs), failures: %d' % (h.count, time.time() - tc, len(conc_fail)))
    known, fresh = findings.split(prop, failed, conc_fail)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    ffailed, fconc = fresh
    viol = bool(ffailed or fconc)
    rc = 0
    if viol:
        path = os.path.join(HERE, 'evidence', prop + '.replay.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': ffailed, 'failing_executions': fconc[:3],
                       'rerun': 'python3-vt check.py %s %s' % (prop, tier)}, f, indent=1, default=str)
        for r in ffailed:
            print('  failed obligation: %s: %s' % (r['name'], r['obligation']))
        for c in fconc[:3]:
            print('  failing execution: %s' % json.dumps(c, default=str)[:700])
        rel = os.path.relpath(path, HERE)
        print('VIOLATION property=%s replay=%s%s' % (prop, rel, '' if fconc else ' no-failing-input-found'))
        rc = 1
    evidence(prop, tier, seed, t0, mod, results, conc, viol, len(ffailed) + len(fconc))
    und = [r['name'] for r in results if r['status'] == 'undecided']
    if und:
        print('  undecided obligations (no verdict, not counted as proved): %s' % ', '.join(und))
    print('%s %s: %d/%d obligations discharged, %.1f s' % (prop, 'VIOLATED' if viol else 'held', sum(r['status'] == 'proved' for r in results), len(results), time.time() - t0))
    return rc

def evidence(prop, tier, seed, t0, mod, results, conc, viol, nv):
    inl, con = set(), set()
    for r in results:
        inl |= set(r.get('inlined', ()))
        con |= set(r.get('contracted', ()))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'wall_s': round(time.time() - t0, 2), 'violations': nv if viol else 0,
          'assumptions': list(getattr(mod, 'ASSUME', []))}
    cov = {'obligations': len(results), 'discharged': sum(r['status'] == 'proved' for r in results),
           'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
           'trusted_base': list(getattr(mod, 'TRUST', [])),
           'back_end': 'clang 18 AST of /repo -> verification conditions (egv) -> z3' + (getattr(mod, 'BACKEND', '')),
           'paths': sum(r['paths'] for r in results), 'verification_conditions': sum(r['conds'] for r in results),
           'solver_queries': sum(r.get('queries', 0) for r in results), 'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
           'functions_verified': sorted(inl), 'functions_by_contract': sorted(con),
           'undecided': [{'name': r['name'], 'why': r.get('why')} for r in results if r['status'] == 'undecided'],
           'bounded_obligations': [{'name': r['name'], 'bound': r['bounded']} for r in results if r.get('bounded')],
           'proved': [r['name'] for r in results if r['status'] == 'proved'],
           'concrete_replay': conc}
    if mod.LEVEL == 'exploration':
        cov.update({'evaluations': conc.get('executions', 0), 'distinct_nontrivial': conc.get('distinct_nontrivial', 0),
                    'rule': getattr(mod, 'RULE', ''), 'samples': conc.get('samples', [])})
    if mod.LEVEL == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev['coverage'] = cov
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

if __name__ == '__main__':
    main()
