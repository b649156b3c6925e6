"""C44 process monitor: the same sequences in processes with other hash seeds, time zones, locales and working directories."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from rv import common
from rv.common import W, Inconclusive
from rv.c42 import same

PROP = 'C44'
RULE = ('one case = 17-18 sequences (formatters plain and stacked, forecasters, adaptive models, copulas, reductions, scores, tuning, reconciliation, networks) '
        'run in three processes that differ in hash seed, time zone, locale, working directory and order of the sequences; then the fitted objects stored by the first are loaded and '
        'asked again in the others; every returned table, array and tree must agree, column order included; non-trivial: distinct sequences')
REQUIRED = {'same_in_every_process': 120, 'stored_objects': 30, 'processes': 12, 'hash_seeds': 4, 'time_zones': 4}
QUICK_S = 420
JOBS = 3
ENVS = [dict(TZ='UTC0', LC_ALL='C', LANG='C'), dict(TZ='JST-9', LC_ALL='C.UTF-8', LANG='C.UTF-8'), dict(TZ='EST5EDT', LC_ALL='C', LANG='C.UTF-8')]


def start(seed, env, hashseed, cwd, out, order=0, read=None):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=os.pathsep.join([common.REPO, common.ROOT]), RV_REPO=common.REPO,
             PYTHONDONTWRITEBYTECODE='1', **env)
    e.pop('VERIF_SEED', None)
    return subprocess.Popen([sys.executable, '-m', 'rv.proc44', str(seed), out, str(order)] + ([read] if read else []), env=e, cwd=cwd,
                            stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))


def finish(m, ps):
    out = []
    for p, f in ps:
        try:
            rc = p.wait(420)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Inconclusive('process did not finish')
        if rc or not os.path.exists(f):
            err = open(f + '.err').read()
            if os.path.abspath(common.REPO) + os.sep in err and 'Traceback' in err:
                m.check(False, 'process-crash', err[-1500:])
                return None
            raise Inconclusive('process ended with %s: %s' % (rc, err[-800:]))
        with open(f, 'rb') as g:
            out.append(pickle.load(g))
        m.ev('processes')
    return out


def processes(m, rng, tier):
    seed = int(rng.integers(1 << 30))
    hs = [0] + [int(v) for v in rng.choice(100000, 2, replace=False) + 1]
    d = tempfile.mkdtemp(prefix='rv44_')
    ps = []
    try:
        for i, (env, h) in enumerate(zip(ENVS, hs)):
            w = os.path.join(d, 'w%d' % i)
            os.mkdir(w)
            ps.append((start(seed, env, h, w, os.path.join(d, 'r%d' % i), order=0 if i == 0 else hs[i]), os.path.join(d, 'r%d' % i)))
        R = finish(m, ps)
        if R is None:
            return
        m.ev('hash_seeds', len({r['hash'] for r in R}))
        m.ev('time_zones', len({r['tz'] for r in R}))
        for i in (1, 2):
            tag = 'hash seed %d, %s vs hash seed 0, UTC' % (hs[i], ENVS[i]['TZ'])
            for (name, a), (_, b) in zip(R[0]['res'], R[i]['res']):
                m.check(len(a) == len(b), 'processes-refusals', '%s: %s' % (tag, name))
                for k, (u, v) in enumerate(zip(a, b)):
                    m.check(same(u, v), 'processes', lambda: '%s: %s, call %d of %d returns something else: %s / %s' % (
                        tag, name, k, len(a), str(v)[:300], str(u)[:300]), event='same_in_every_process')
        for name, a in R[0]['res']:
            m.ev('sequence_' + name)
            m.nontrivial(name, seed)
            if a and isinstance(a[-1], tuple) and a[-1][0] == 'raised':
                m.ev('refused')
        store = os.path.join(d, 'r0.objects')
        ps = [(start(seed, ENVS[i], hs[i], os.path.join(d, 'w%d' % i), os.path.join(d, 's%d' % i), read=store), os.path.join(d, 's%d' % i)) for i in (1, 2)]
        S = finish(m, ps)
        if S is None:
            return
        want = {k: (label, v) for k, label, v in R[0]['again']}
        for s in S:
            for k, label, v in s['again']:
                m.check(same(v, want[k][1]), 'stored-objects', lambda: '%s stored by a process and used in another: %s, expected %s' % (
                    label, str(v)[:300], str(want[k][1])[:300]), event='stored_objects')
        m.say(sequences=[n for n, _ in R[0]['res']], hash_seeds=hs)
    finally:
        for p, _ in ps:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = [W('processes', processes, 6, 40, timeout=850)]
