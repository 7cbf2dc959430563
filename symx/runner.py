"""Runs the harnesses of a property, aggregates, confirms and reports."""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')


class Timeout(BaseException):
    pass


def with_alarm(seconds, fn):
    def onalarm(*a):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def conc_fails(harness, mods, cfg, script, seconds=20.0):
    from . import engine as E
    try:
        ctx = with_alarm(seconds, lambda: E.run_concrete(
            harness, mods, cfg, script))
        return ctx.fails
    except Timeout:
        return [['terminates', 'no result after %.0f s' % seconds]]
    except RecursionError:
        return [['terminates', 'recursion']]


def load_harness(pid):
    return importlib.import_module('harness.' + pid.lower())


def find_job(pid, name):
    for j in load_harness(pid).jobs('thorough') + load_harness(pid).jobs(
            'quick'):
        if j['name'] == name:
            return j
    raise KeyError(name)


def run_job(pid, tier, name, budget, seed):
    """executed in a child process"""
    from . import poly as P, npfacade as NF, engine as E, solver as S, loader
    P.reset()
    NF.reset()
    P.I = P.imag_unit()
    conc = loader.load_concrete()
    job = None
    for j in load_harness(pid).jobs(tier):
        if j['name'] == name:
            job = j
    fn, cfg = job['fn'], job.get('cfg', {})
    t0 = time.monotonic()
    loader.FILES.clear()
    sym = loader.load_symbolic()
    eng = E.Engine(budget_s=budget, max_paths=job.get('paths', 4000),
                   seed=seed, l2_ms=job.get('l2_ms', 4000), tier=tier)
    eng.replayer = lambda script: conc_fails(fn, conc, cfg, script)
    called = Profile()
    with called:
        eng.explore(fn, sym, cfg, max_conf=job.get('conf', 25))
    probs = []
    if eng.dist_specs and not eng.candidates:
        probs = prob_obligations(eng, fn, conc, cfg)
    # every label the harness must reach
    st = S.STATS
    return {
        'name': name, 'cfg': {k: repr(v)[:80] for k, v in cfg.items()},
        'paths': eng.paths, 'complete': eng.complete_paths,
        'infeasible': eng.infeasible, 'degraded': eng.degraded,
        'obligations': eng.obligations, 'trivial': eng.trivial,
        'discharged': eng.discharged, 'inconclusive': eng.inconclusive,
        'conformance': eng.conformance, 'unreproduced': eng.conf_fail,
        'candidates': eng.candidates, 'reached': eng.reached,
        'truncated': eng.truncated, 'decisions': eng.decisions_total,
        'choices': eng.choose_nodes, 'queries': st.queries, 'unsat': st.unsat,
        'sat': st.sat, 'unknown': st.unknown, 'solver_s': st.time,
        'l2': st.l2, 'assumptions': sorted(P.REG.assumptions),
        'functions': sorted(called.names), 'vars': len(P.REG.vars),
        'samples': eng.samples, 'wall': time.monotonic() - t0,
        'must': job.get('must', []), 'probs': probs,
        'bound': job.get('bound', ''),
    }


class Profile:
    """names of the functions of the code under test that were encoded"""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        from . import loader
        root = os.path.join(loader.REPO, 'stoqcompiler')
        mon = sys.monitoring
        self.mon = mon
        mon.use_tool_id(mon.COVERAGE_ID, 'symx')

        def start(code, off):
            if code.co_filename.startswith(root):
                self.names.add('%s:%s' % (os.path.relpath(
                    code.co_filename, loader.REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
        mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        self.mon.set_events(self.mon.COVERAGE_ID, 0)
        self.mon.free_tool_id(self.mon.COVERAGE_ID)


# --------------------------------------------------------------------------
def prob_obligations(eng, fn, conc, cfg):
    """sum over paths of the path measure == declared probability"""
    from . import poly as P, engine as E, solver as S
    from .poly import Sym
    import z3
    from fractions import Fraction as F
    out, off = [], []
    for spec, (expected, tol) in eng.dist_specs.items():
        rows = [(k, c, m) for s, k, c, m in eng.outcomes if s == spec]
        partial = bool(eng.truncated or eng.degraded)
        if partial:
            eng.inconclusive.append('probability of ' + spec +
                                    ' (exploration incomplete)')
        domain = P.simp(('or', tuple(c for _, c, _m in rows)))
        keys = sorted(set(list(expected) + [k for k, _, _ in rows]), key=repr)
        if not rows and not partial and eng.paths:
            # no execution within the bounds has any of the outcomes
            smp = E.Sampler([], [v for v in eng.base_order
                                 if v.kind == 'input'], eng.groups, eng.rng)
            env = smp.draw() or {}
            for k in expected:
                try:
                    x = Sym.of(expected[k]).eval(dict(env)).real
                except KeyError:
                    continue
                off.append((x, spec, k, env))
        for k in keys if rows else []:
            if partial:
                # what was explored is a lower bound of the probability
                exp = Sym.of(expected.get(k, 0))
                best = excess(eng, rows, k, exp, domain, tol, 100, True)
                if best is not None and best[0] > 10 * tol:
                    off.append((best[0], spec, k, best[1]))
                continue
            eng.obligations += 1
            exp = Sym.of(expected.get(k, 0))
            f = ('sumif', tuple((P.simp(c), m) for kk, c, m in rows
                                if kk == k), exp, F(tol))
            nf = ('not', f)
            ok = False
            for layer in (1, 2):
                r = _solve([domain, nf], layer, eng)
                if r == z3.unsat:
                    ok = True
                    break
            if ok:
                eng.discharged += 1
                out.append([spec, repr(k), len(rows), 'holds'])
                continue
            best = excess(eng, rows, k, exp, domain, tol, 300)
            if best is None or best[0] <= 10 * tol:
                eng.inconclusive.append('probability of %s=%r' % (spec, k))
                continue
            off.append((best[0], spec, k, best[1]))
    if not off and not eng.candidates and any(
            'path measure' in str(x) for x in eng.degraded):
        # the measure of a path is out of reach: runs of the real code only
        smp = E.Sampler([], [v for v in eng.base_order if v.kind == 'input'],
                        eng.groups, eng.rng)
        env = smp.draw() or {}
        for spec, (expected, tol) in eng.dist_specs.items():
            off.append((0.03, spec, '(any)', env))
    # the largest deviations are confirmed on the real code
    t_end = time.monotonic() + 75
    off.sort(key=lambda x: -x[0])
    for i, (d, spec, k, env) in enumerate(off):
        what = 'probability of %s=%r' % (spec, k)
        eng.inconclusive.append(what)
        left = t_end - time.monotonic()
        if eng.candidates or left < 10 or i > 3:
            continue
        script = {'inputs': {n: x for n, x in env.items()
                             if isinstance(n, str)},
                  'choices': eng.spec_choices.get(spec, []), 'draws': [],
                  'stat': [spec, repr(k), d]}
        if k == '(any)':
            script['stat'].append('complete')
        fails = stat_run(fn, conc, cfg, script, seconds=min(
            left, 20 if k == '(any)' else left))
        if fails:
            eng.candidates.append({'label': fails[0][0], 'fails': fails,
                                   'script': script})
        elif k != '(any)':
            eng.conf_fail.append(what)
    return out


def excess(eng, rows, key, exp, domain, tol, tries, above=False):
    """inputs at which the explored probability of an outcome differs most
    from (with above: exceeds) the declared one"""
    from . import poly as P, engine as E
    best = None
    parts = [(P.simp(c), m) for kk, c, m in rows if kk == key]
    if above and not parts:
        return None
    names = [v for v in eng.base_order if v.kind == 'input']
    smp = E.Sampler([domain] if domain[0] != 'true' else [], names,
                    eng.groups, eng.rng)
    clocks = [v.name for v in eng.base_order if v.kind == 'clock']
    for _ in range(tries):
        env = smp.draw()
        if env is None:
            continue
        now = 0.0
        for n in sorted(clocks, key=lambda x: int(x[1:])):
            now += 0 if _ % 2 == 0 else eng.rng.random()
            env[n] = now
        try:
            if not E.feval(domain, dict(env)):
                continue
            tot = sum(m.eval(dict(env)).real for c, m in parts
                      if E.feval(c, dict(env)))
            d = tot - exp.eval(dict(env)).real
            d = d if above else abs(d)
        except (KeyError, ZeroDivisionError, OverflowError):
            continue
        if best is None or d > best[0]:
            best = (d, env)
    return best


def _solve(fs, layer, eng):
    from . import solver as S
    import z3
    if layer == 2:
        return S.check_l2(fs, 8000, False)[0]
    enc = S.Encoder(1)
    s = z3.Solver()
    zs = [enc.formula(f) for f in fs]
    enc.flush()
    for x in enc.facts:
        s.add(x)
    for z in zs:
        s.add(z)
    return S.run_check(s, 8000)


def stat_run(fn, mods, cfg, script, seconds=60.0, seed=12345):
    """frequency of the declared outcomes over runs of the real code with
    its real random generators"""
    from . import engine as E
    import numpy as np
    spec = script['stat'][0]
    n = max(500, min(20000, int(2 * (4 / script['stat'][2])**2)))
    counts = {}
    expected = {}
    tot = 0
    np.random.seed(seed)
    random.seed(seed)
    t0 = time.monotonic()
    memo = {}

    def once():
        ctx = E.StatCtx(mods, cfg, script, memo)
        mods.activate()
        try:
            with ctx:
                fn(ctx)
        except E.Cut:
            ctx.was_cut = True
        return ctx
    for _ in range(n):
        if time.monotonic() - t0 > seconds:
            break
        try:
            ctx = with_alarm(10, once)
        except Timeout:
            return [['terminates', '']]
        except Exception as e:
            return [['unexpected-exception', repr(e)[:200]]]
        tot += 1
        if len(script['stat']) > 3 and (getattr(ctx, 'was_cut', False)
                                        or spec not in ctx.outcomes):
            return []
        if spec in ctx.outcomes:
            counts[ctx.outcomes[spec]] = counts.get(ctx.outcomes[spec], 0) + 1
        expected.update(getattr(ctx, 'expected', {}).get(spec, {}))
    if tot < 200:
        return []
    for k in set(list(expected) + list(counts)):
        p = float(expected.get(k, 0.0))
        f = counts.get(k, 0) / tot
        if abs(f - p) > 6 * math.sqrt(max(p * (1 - p), 1e-6) / tot) + 2e-3:
            return [['distribution:%s' % spec,
                     'outcome %r has frequency %.4f over %d runs, '
                     'specified %.4f' % (k, f, tot, p)]]
    return []


# --------------------------------------------------------------------------
def _child(conn, pid, tier, name, budget, seed):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        r = run_job(pid, tier, name, budget, seed)
        conn.send(('ok', r))
    except BaseException as e:      # noqa
        conn.send(('err', '%s: %s\n%s' % (type(e).__name__, e,
                                          traceback.format_exc()[-1500:])))
    finally:
        conn.close()


def run_all(pid, tier, jobs, seed, workers=8, total=None):
    """jobs in parallel child processes, each with a wall limit"""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    running = []
    results = []
    t0 = time.monotonic()
    while todo or running:
        if total and time.monotonic() - t0 > total:
            results += [(j, 'err', 'not started in time') for j in todo]
            todo = []
        while todo and len(running) < workers:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(
                b, pid, tier, j['name'], j['budget'], seed))
            p.start()
            b.close()
            running.append((p, a, j, time.monotonic()))
        time.sleep(0.02)
        for item in list(running):
            p, a, j, ts = item
            done = False
            if a.poll():
                try:
                    k, r = a.recv()
                except EOFError:
                    k, r = 'err', 'child died'
                results.append((j, k, r))
                done = True
            elif not p.is_alive():
                results.append((j, 'err', 'child exited %s' % p.exitcode))
                done = True
            elif time.monotonic() - ts > j['budget'] * 2.5 + 90 or \
                    total and time.monotonic() - t0 > total:
                p.kill()
                results.append((j, 'err', 'wall limit'))
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(item)
    return results


def load_findings():
    f = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for line in open(f, encoding='utf-8'):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                d = dict(x.split('=', 1) for x in line[14:].split()
                         if '=' in x)
                out.append((d, line))
    return out


def main(pid, tier, seed):
    t0 = time.monotonic()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    mod = load_harness(pid)
    jobs = mod.jobs(tier)
    for j in jobs:
        j.setdefault('budget', 40 if tier == 'quick' else 400)
    jobs.sort(key=lambda j: -j.get('cost', 1))
    results = run_all(pid, tier, jobs, seed,
                      total=500 if tier == 'quick' else None)
    errs = [(j['name'], r) for j, k, r in results if k == 'err']
    good = [r for j, k, r in results if k == 'ok']
    violations = []
    known = []
    finds = [(d, l) for d, l in load_findings() if d.get('property') == pid]
    tr, limit, done = time.monotonic(), 120, set()
    for r in good:
        for c in r['candidates']:
            script = dict(c['script'])
            rec = {'property': pid, 'harness': r['name'], 'label': c['label'],
                   'fails': c['fails'], 'script': script}
            h = hashlib.sha1(json.dumps(
                rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(OUT, '%s-%s-%s.json' % (pid, r['name'], h))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, default=str)
            key = (r['name'], c['label'])
            if key in done:
                continue
            spent = time.monotonic() - tr
            if spent > 240 or spent > limit and (violations or known):
                r['unreproduced'].append(c['label'] + ' (not replayed)')
                continue
            try:
                rc = subprocess.run(
                    [sys.executable, os.path.join(HERE, 'replay.py'), path],
                    capture_output=True, text=True, timeout=150)
            except subprocess.TimeoutExpired:
                r['unreproduced'].append(c['label'] + ' (replay timed out)')
                continue
            if rc.returncode == 1:
                done.add(key)
                hit = None
                for d, l in finds:
                    if d.get('harness') == r['name'] and \
                            d.get('label') in [x[0] for x in c['fails']]:
                        hit = l
                if hit:
                    known.append(hit)
                else:
                    violations.append((path, rec, rc.stdout.strip()))
            elif rc.returncode == 0:
                r['unreproduced'].append(c['label'])
            else:
                errs.append((r['name'], 'replay broke: ' + (
                    rc.stdout + rc.stderr).strip()[-200:]))
    for l in sorted(set(known)):
        print(l)
    seen = set()
    for path, rec, out in violations:
        k = (rec['harness'], rec['label'])
        if k in seen:
            continue
        seen.add(k)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  harness %s, check %s' % (rec['harness'], rec['fails'][:2]))
        for line in out.splitlines()[-3:]:
            print('   ', line)
    missing = []
    for r in good:
        for lab in r['must']:
            if not r['reached'].get(lab):
                missing.append('%s:%s' % (r['name'], lab))
    write_evidence(pid, tier, seed, mod, good, errs, violations, missing,
                   time.monotonic() - t0)
    tot = sum(r['obligations'] for r in good)
    unrep = sum(len(set(r['unreproduced'])) for r in good)
    dis = sum(r['discharged'] for r in good)
    inc = sum(len(r['inconclusive']) for r in good)
    deg = sum(len(r['degraded']) for r in good)
    print('%s %s: %d harness runs, %d paths, %d obligations, %d discharged, '
          '%d inconclusive, %d degraded paths, %d conformance runs, '
          '%d solver queries, %.1f s%s' % (
              pid, tier, len(good), sum(r['paths'] for r in good), tot, dis,
              inc, deg, sum(r['conformance'] for r in good),
              sum(r['queries'] for r in good), time.monotonic() - t0,
              ('; unreached: ' + ', '.join(missing) if missing else '')
              + ('; %d candidates not reproduced' % unrep if unrep else '')))
    if os.environ.get('SYMX_DEBUG'):
        for r in sorted(good, key=lambda r: -r['wall']):
            print('   %-28s paths=%d/%d obl=%d dis=%d inc=%s deg=%s conf=%d '
                  'unrep=%s q=%d l2=%d solver=%.1f wall=%.1f trunc=%s' % (
                      r['name'], r['complete'], r['paths'], r['obligations'],
                      r['discharged'], sorted(set(r['inconclusive']))[:4],
                      sorted(set(r['degraded']))[:3],
                      r['conformance'], sorted(set(r['unreproduced']))[:3],
                      r['queries'], r['l2'], r['solver_s'], r['wall'],
                      r['truncated']))
    for n, e in errs:
        print('ERROR harness %s: %s' % (n, e))
    if violations:
        return 1
    conf = sum(r['conformance'] for r in good)
    if not good or tot + conf == 0:
        return 2
    if tot == 0 or deg > sum(r['complete'] for r in good):
        print('UNDECIDED property=%s: most paths of the code on this tree use '
              'operations that are not encoded; nothing was found wrong in %d '
              'concrete runs, which decide nothing' % (pid, conf))
    return 0


def write_evidence(pid, tier, seed, mod, good, errs, violations, missing,
                   wall):
    def tot(k):
        return sum(r[k] if isinstance(r[k], (int, float)) else len(r[k])
                   for r in good)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'technique': 'symbolic execution of the current source with z3',
            'functions_encoded': sorted({f for r in good
                                         for f in r['functions']}),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'states': max(1, tot('decisions') + tot('choices')),
            'transitions': max(1, tot('paths')),
            'traces_validated_against_impl': tot('conformance'),
            'samples': [dict(harness=r['name'], **s)
                        for r in good for s in r['samples'][:1]][:5],
            'harness_runs': len(good),
            'paths': tot('paths'), 'paths_completed': tot('complete'),
            'paths_infeasible': tot('infeasible'),
            'paths_degraded_to_concrete_runs': tot('degraded'),
            'degraded_reasons': sorted({d for r in good
                                        for d in r['degraded']})[:20],
            'explorations_truncated_by_budget': [
                r['name'] for r in good if r['truncated']],
            'obligations': tot('obligations'),
            'obligations_discharged': tot('discharged'),
            'discharged_by_normal_form': tot('trivial'),
            'inconclusive': sorted({'%s:%s' % (r['name'], x) for r in good
                                    for x in r['inconclusive']})[:60],
            'inconclusive_count': tot('inconclusive'),
            'solver_queries': tot('queries'), 'solver_unsat': tot('unsat'),
            'solver_sat': tot('sat'), 'solver_unknown': tot('unknown'),
            'nonlinear_queries': tot('l2'),
            'solver_seconds': round(tot('solver_s'), 3),
            'reachability_witnesses': {
                r['name']: r['reached'] for r in good if r['reached']},
            'reachability_missing': missing,
            'probability_obligations': [
                x for r in good for x in r['probs']][:60],
            'violation_details': [
                {'replay': p, 'label': rec['label'],
                 'harness': rec['harness']} for p, rec, _ in violations],
            'unreproduced_candidates': sorted({
                '%s:%s' % (r['name'], x) for r in good
                for x in r['unreproduced']})[:20],
            'harness_errors': ['%s: %s' % e for e in errs][:10],
            'per_harness': [
                {'name': r['name'], 'cfg': r['cfg'], 'paths': r['paths'],
                 'obligations': r['obligations'],
                 'discharged': r['discharged'],
                 'variables': r['vars'],
                 'wall_s': round(r['wall'], 2)} for r in good][:80],
        },
        'assumptions': sorted({a for r in good for a in r['assumptions']} |
                              set(getattr(mod, 'ASSUMPTIONS', []))),
        'violations': len(violations),
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
