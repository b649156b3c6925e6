"""Runtime-verification runner shared by all the checks.

A check module defines
    PROP      property id
    RULE      text: how cases are made and what makes one non-trivial
    WORKLOADS list of W(name, fn, quick=n, thorough=n)
    REQUIRED  {event counter: minimum}  -- fewer observed events => inconclusive (exit 3)
Each workload function fn(m, rng, tier) drives the real code once and reports to the monitor m.
A case is determined by (VERIF_SEED, workload name, index); its seed is what a replay file stores.

Verdicts: 0 held on everything observed, 1 violation (VIOLATION line), 3 inconclusive.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
OUT = os.path.join(ROOT, 'out')
KNOWN = os.path.join(ROOT, 'known_findings.json')


class W:
    def __init__(self, name, fn, quick=10, thorough=100, timeout=240):
        self.name, self.fn, self.n = name, fn, {'quick': quick, 'thorough': thorough}
        self.timeout = timeout


class Inconclusive(Exception):
    """The workload could not reach its monitor (not a verdict about the code)."""


class CaseTimeout(Exception):
    pass


class Monitor:
    """Collects what one case observed."""

    def __init__(self):
        self.events = Counter()
        self.viol = []       # (mechanism, message)
        self.sigs = set()    # signatures of distinct non-trivial cases
        self.sample = None
        self.notes = Counter()

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])

    def say(self, **kw):
        if self.sample is None:
            self.sample = {}
        self.sample.update({k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v)[:300])
                            for k, v in kw.items()})

    def check(self, cond, mechanism, msg='', event=None):
        """One oracle evaluation. `mechanism` names the way of failing (stable across seeds)."""
        self.ev(event or mechanism)
        ok = bool(cond)
        if not ok:
            self.viol.append((mechanism, msg() if callable(msg) else str(msg)))
        return ok

    def close(self, a, b, mechanism, msg='', rtol=1e-9, atol=1e-9, event=None):
        """a and b agree numerically, NaN in the same places."""
        import numpy as np
        self.ev(event or mechanism)
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception as e:
            self.viol.append((mechanism, '%s: not numeric (%s)' % (msg, e)))
            return False
        if a.shape != b.shape:
            self.viol.append((mechanism, '%s: shape %s, expected %s' % (msg, a.shape, b.shape)))
            return False
        ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            w = np.argwhere(~ok)
            i = tuple(w[0])
            self.viol.append((mechanism, '%s: %d of %d values differ, first at %s: got %r expected %r'
                              % (msg, len(w), ok.size, i, a[i], b[i])))
            return False
        return True

    def frame_same(self, a, b, mechanism, msg='', rtol=1e-9, atol=1e-9, event=None):
        """Same index, same columns, numerically equal values (pandas)."""
        import numpy as np
        self.ev(event or mechanism)
        if not hasattr(a, 'index') or not hasattr(b, 'index'):
            self.viol.append((mechanism, '%s: not a table: %s %s' % (msg, type(a), type(b))))
            return False
        if not a.index.equals(b.index):
            self.viol.append((mechanism, '%s: index differs (%d vs %d rows)' % (msg, len(a), len(b))))
            return False
        if getattr(a, 'columns', None) is not None and list(a.columns) != list(b.columns):
            self.viol.append((mechanism, '%s: columns %s expected %s' % (msg, list(a.columns)[:8], list(b.columns)[:8])))
            return False
        av, bv = np.asarray(a), np.asarray(b)
        try:
            ok = np.isclose(av.astype(float), bv.astype(float), rtol=rtol, atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            ok = np.asarray([[str(p) == str(q) for p, q in zip(r, s)] for r, s in zip(np.atleast_2d(av), np.atleast_2d(bv))])
        if not ok.all():
            i = tuple(np.argwhere(~ok)[0])
            self.viol.append((mechanism, '%s: %d of %d values differ, first at %s: got %r expected %r'
                              % (msg, int((~ok).sum()), ok.size, i, av[i] if av.ndim == ok.ndim else av, bv[i] if bv.ndim == ok.ndim else bv)))
            return False
        return True

    def raises(self, fn, exc, mechanism, msg='', event=None):
        self.ev(event or mechanism)
        try:
            fn()
        except exc:
            return True
        self.viol.append((mechanism, '%s: no %s raised' % (msg, exc)))
        return False


def case_seed(seed, name, i):
    return int(hashlib.sha256(('%s|%s|%s' % (seed, name, i)).encode()).hexdigest()[:8], 16)


def _alarm(*_):
    raise CaseTimeout()


_INIT = {'done': False}


def _prepare():
    if _INIT['done']:
        return
    _INIT['done'] = True
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    for p in (REPO, ROOT):
        if p not in sys.path:
            sys.path.insert(0, p)
    import pyforecaster
    where = os.path.abspath(list(pyforecaster.__path__)[0])
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise Inconclusive('pyforecaster imported from %s, not from %s' % (where, REPO))


def _in_repo(tb):
    """Did the exception pass through the code under test?"""
    r = os.path.abspath(REPO) + os.sep
    for f, _ in traceback.walk_tb(tb):
        if os.path.abspath(f.f_code.co_filename).startswith(r):
            return True
    return False


def run_case(task):
    modname, wname, seed, tier = task
    t0 = time.time()
    m = Monitor()
    err = None
    try:
        _prepare()
        mod = importlib.import_module(modname)
        w = [w for w in mod.WORKLOADS if w.name == wname][0]
        import numpy as np
        np.random.seed(seed % (2 ** 32))
        random.seed(seed)
        rng = np.random.default_rng(seed)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(w.timeout if tier == 'quick' else 3 * w.timeout)
        devnull = open(os.devnull, 'w')
        so, se = sys.stdout, sys.stderr
        if not os.environ.get('RV_VERBOSE'):
            sys.stdout = sys.stderr = devnull
        try:
            w.fn(m, rng, tier)
        finally:
            signal.alarm(0)
            sys.stdout, sys.stderr = so, se
            devnull.close()
            try:
                import matplotlib.pyplot as plt
                plt.close('all')
            except Exception:
                pass
    except CaseTimeout:
        err = ('timeout', 'case exceeded its watchdog')
    except Inconclusive as e:
        err = ('inconclusive', str(e))
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        if _in_repo(e.__traceback__):
            m.viol.append(('crash:%s' % wname, 'the code under test raised %s: %s\n%s' % (type(e).__name__, e, tb[-1800:])))
        else:
            err = ('harness', tb[-2500:])
    return dict(w=wname, seed=seed, events=dict(m.events), viol=m.viol[:20], nviol=len(m.viol), sigs=list(m.sigs),
                sample=m.sample, err=err, t=time.time() - t0)


def _init_worker(omp):
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        data = json.load(f)
    return {e['mechanism']: e for e in data.get('findings', []) if e['property'] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--workload')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('RV_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = a.prop
    t0 = time.time()
    modname = 'rv.' + prop.lower()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(modname)
    assert mod.PROP == prop
    known = load_known(prop)
    budget = (getattr(mod, 'QUICK_S', 240) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 700))

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        os.environ.setdefault('RV_VERBOSE', '1')
        res = run_case((modname, r['workload'], r['case_seed'], r.get('tier', tier)))
        for mech, msg in res['viol']:
            print('  [%s] %s' % (mech, msg))
        if res['err']:
            print(res['err'])
        bad = [v for v in res['viol'] if v[0] not in known]
        print('replay: %s' % ('violation reproduced' if bad else 'no violation'))
        sys.exit(1 if bad else (3 if res['err'] else 0))

    # interleave the workloads, so that a time cut hits all of them evenly
    queues = []
    for w in mod.WORKLOADS:
        if a.workload and w.name != a.workload:
            continue
        n = w.n[tier]
        queues += [((i + 0.5) / n, w.name, case_seed(a.seed, w.name, i)) for i in range(n)]
    queues.sort()
    tasks = [(modname, n, s, tier) for _, n, s in queues]
    planned = len(tasks)
    results = []
    if getattr(mod, 'warm', None) and not getattr(mod, 'SPAWN', False):
        try:        # compile the numba kernels once, before the workers fork
            _prepare()
            mod.warm()
        except Exception:
            pass
    ctx = mp.get_context('spawn' if getattr(mod, 'SPAWN', False) else 'fork')
    jobs = min(a.jobs, getattr(mod, 'JOBS', a.jobs), max(1, len(tasks)))
    cut = False
    if jobs == 1:
        for t in tasks:
            if time.time() - t0 > budget:
                cut = True
                break
            results.append(run_case(t))
    else:
        from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
        from concurrent.futures.process import BrokenProcessPool
        ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker, initargs=(0,))
        it = iter(tasks)
        pend = {}
        broken = 0
        try:
            def feed():
                while len(pend) < jobs * 2:
                    if time.time() - t0 > budget:
                        return True
                    t = next(it, None)
                    if t is None:
                        return False
                    pend[ex.submit(run_case, t)] = t
                return False
            cut = feed()
            while pend:
                done, _ = wait(list(pend), return_when=FIRST_COMPLETED, timeout=30)
                for d in done:
                    t = pend.pop(d)
                    try:
                        results.append(d.result())
                    except BrokenProcessPool:
                        broken += 1
                        results.append(dict(w=t[1], seed=t[2], events={}, viol=[], nviol=0, sigs=[], sample=None,
                                            err=('died', 'worker process died'), t=0))
                if broken:
                    for d, t in list(pend.items()):
                        results.append(dict(w=t[1], seed=t[2], events={}, viol=[], nviol=0, sigs=[], sample=None,
                                            err=('died', 'worker pool broken'), t=0))
                    pend.clear()
                    break
                if not done and time.time() - t0 > budget + 400:
                    break
                cut = feed() or cut
        finally:
            procs = list(getattr(ex, '_processes', {}).values()) if getattr(ex, '_processes', None) else []
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                try:
                    p.terminate()
                except Exception:
                    pass
        if broken:
            # a died worker hides the verdict of its case: rerun the affected cases one per process
            redo = [r for r in results if r['err'] and r['err'][0] == 'died']
            results = [r for r in results if not (r['err'] and r['err'][0] == 'died')]
            for r in redo[:64]:
                q = ctx.Queue()
                p = ctx.Process(target=_one, args=((modname, r['w'], r['seed'], tier), q))
                p.start()
                try:
                    results.append(q.get(timeout=300))
                except Exception:
                    code = p.exitcode
                    r['viol'] = [('died', 'the process running the case ended abnormally (exit code %s)' % code)] \
                        if code is not None and code < 0 and code != -9 else []
                    r['nviol'] = len(r['viol'])
                    results.append(r)
                p.join(5)
                if p.is_alive():
                    p.terminate()

    finish(mod, prop, tier, a, known, results, planned, cut, t0)


def _one(task, q):
    q.put(run_case(task))


def finish(mod, prop, tier, a, known, results, planned, cut, t0):
    events, per_w, sigs, samples, errs, viols, knownhits = Counter(), Counter(), set(), [], [], [], Counter()
    slow = sorted(((r['t'], r['w']) for r in results), reverse=True)[:3]
    for r in results:
        events.update(r['events'])
        if not r['err']:
            per_w[r['w']] += 1
        sigs.update((r['w'], s) for s in r['sigs'])
        if r['sample'] and sum(1 for s in samples if s['workload'] == r['w']) < 2 and len(samples) < 12:
            samples.append(dict(workload=r['w'], case_seed=r['seed'], **r['sample']))
        if r['err']:
            errs.append(r)
        for mech, msg in r['viol']:
            if mech in known:
                knownhits[mech] += 1
            else:
                viols.append((r, mech, msg))
    missing = {k: v for k, v in getattr(mod, 'REQUIRED', {}).items() if events[k] < v}
    if a.workload:
        missing = {}
    cov = dict(evaluations=len(results), distinct_nontrivial=len(sigs), rule=mod.RULE,
               samples=samples or [{'workload': r['w'], 'case_seed': r['seed']} for r in results[:3]],
               cases_per_workload=dict(per_w), monitor_events=dict(events),
               oracle_evaluations=int(sum(events.values())),
               planned_cases=planned, cut_by_time_budget=bool(cut),
               cases_without_verdict=len(errs), known_finding_hits=dict(knownhits),
               violating_mechanisms=sorted({v[1] for v in viols}))
    ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s seed=%d: %d/%d cases, %d oracle evaluations, %d distinct non-trivial, %.1fs%s' % (
        prop, tier, a.seed, len(results), planned, sum(events.values()), len(sigs), time.time() - t0,
        ' (cut by time budget)' if cut else ''))
    print('  events: ' + ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    print('  slowest: ' + ', '.join('%s %.1fs' % (w, t) for t, w in slow))
    for r in errs[:4]:
        print('  no verdict: workload=%s case_seed=%s %s: %s' % (r['w'], r['seed'], r['err'][0], r['err'][1]))
    for k, e in known.items():
        if knownhits[k] or e.get('always'):
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if viols:
        os.makedirs(OUT, exist_ok=True)
        seen = set()
        for r, mech, msg in viols:
            if mech in seen:
                continue
            seen.add(mech)
            path = os.path.join(OUT, '%s-%s.json' % (prop, hashlib.md5(mech.encode()).hexdigest()[:8]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, workload=r['w'], case_seed=r['seed'], tier=tier, mechanism=mech,
                               message=msg, replay_cmd='./run.sh %s --replay %s' % (prop, path)), f, indent=1)
            print('  mechanism %s (%s, case_seed %s): %s' % (mech, r['w'], r['seed'], msg[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            if len(seen) >= 12:
                break
        sys.stdout.flush()
        os._exit(1)
    hard = [r for r in errs if r['err'][0] in ('harness', 'inconclusive', 'died')]
    # a watchdog firing says nothing about the code; too many of them say the check saw too little
    if hard or len(errs) > 0.2 * max(1, len(results)) or missing or not results:
        print('INCONCLUSIVE property=%s missing=%s cases_without_verdict=%d' % (prop, missing, len(errs)))
        sys.stdout.flush()
        os._exit(3)
    print('HELD property=%s on everything observed' % prop)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
