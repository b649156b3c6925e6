"""Plant bugs from seed definition files: build patch, validate demo (clean/patched), stable tests, then run the check.

usage: seed.py [--no-tests] [--no-check] [--jobs N] [--only id,id] DEF.py...
A definition file holds S(id, prop, [(file, old, new[, count])...], needs, breaks, demo) calls.
Files are relative to pyforecaster/. Results: /tmp/seedres/<id>.json; accepted seeds in /verif/seeded/<id>/.
"""
import argparse, json, os, queue, re, shutil, subprocess, sys, textwrap
from concurrent.futures import ThreadPoolExecutor
BASE = '8057154'
HEADER = '''import os, sys, tempfile, warnings
for k, v in dict(MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                 RAY_USAGE_STATS_ENABLED='0', OMP_NUM_THREADS='2').items():
    os.environ.setdefault(k, v)
sys.path.insert(0, os.getcwd())
warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd
'''
DEMOSH = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
'''
SEEDS = {}
SLOTS = queue.Queue()


def S(id, prop, edits, needs, breaks, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=textwrap.dedent(demo).lstrip())


def sh(cmd, cwd, timeout=1000, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def blame(path):
    _, o = sh(f'git blame -s {BASE}.. -- {path}', '/repo')
    return [l[0] == '^' for l in o.splitlines()]


def plant(s, a, cpus):
    res = dict(id=s['id'], prop=s['prop'])
    w = f'/tmp/sw/{s["id"]}'
    sh(f'rm -rf {w}; mkdir -p /tmp/sw; cp -a /repo {w}', '/tmp')
    try:
        orig = True
        for ed in s['edits']:
            f, old, new = ed[:3]
            p = f'{w}/pyforecaster/{f}'
            t = open(p).read()
            n = t.count(old)
            if n != (ed[3] if len(ed) > 3 else 1):
                return dict(res, error=f'{n} occurrences in {f} of {old[:60]!r}')
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', w)
        # removed lines must be original
        for fn in re.findall(r'^--- a/(.*)$', diff, re.M):
            b = blame(fn)
            d = diff[diff.index(f'--- a/{fn}'):]
            nxt = d.find('\ndiff --git')
            d = d[:nxt] if nxt > 0 else d
            ln = None
            touched = []
            for l in d.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m: ln = int(m.group(1)); continue
                if ln is None: continue
                if l.startswith('-') : touched.append(b[ln - 1]); ln += 1
                elif l.startswith('+'): pass
                else: ln += 1
            if touched and not all(touched): res['nonorig'] = f'{touched.count(False)}/{len(touched)} removed lines of {fn} are mine'
            if not touched: res['nonorig'] = f'{fn}: only additions'
        out = f'/tmp/seedout/{s["id"]}'
        sh(f'rm -rf {out}; mkdir -p {out}', '/tmp')
        open(f'{out}/patch.diff', 'w').write(diff)
        open(f'{out}/demo.sh', 'w').write(DEMOSH); os.chmod(f'{out}/demo.sh', 0o755)
        open(f'{out}/demo.py', 'w').write(HEADER + s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
        rc, o = sh('git apply --check %s/patch.diff' % out, '/repo')
        if rc: return dict(res, error='patch does not apply ' + o)
        tmp = {'TMPDIR': '/tmp/s' + cpus[0]}; os.makedirs(tmp['TMPDIR'], exist_ok=True)
        rc, o = sh(f'taskset -c {cpus} bash {out}/demo.sh', '/repo', 300, tmp)
        res['demo_clean'] = rc
        if rc: return dict(res, error='demo fails on clean: ' + o[-700:])
        rc, o = sh(f'taskset -c {cpus} bash {out}/demo.sh', w, 300, tmp)
        res['demo_patched'] = rc; res['demo_out'] = o[-300:]
        if rc in (0, 124): return dict(res, error='demo passes with the patch')
        if not a.no_tests:
            env = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                       PYTHONHASHSEED='0', OMP_NUM_THREADS='1', RAY_USAGE_STATS_ENABLED='0', PYTHONPATH=w, **tmp)
            rc, o = sh(f"taskset -c {cpus} /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=short --timeout=300 --continue-on-collection-errors "
                       "-o python_files='test_*.py tests_stats.py big_data_tests.py' --ignore=tests/test_boosters.py --ignore=tests/test_models.py "
                       "--ignore=tests/test_nns.py tests", w, 600, env)
            m = re.search(r'(\d+) passed', o)
            res['tests'] = o.strip().splitlines()[-1][:100] if o.strip() else str(rc)
            if rc or not m: return dict(res, error='tests: ' + o[-1500:])
        if os.path.isdir('/verif/seeded') is False: os.makedirs('/verif/seeded')
        sh(f'rm -rf /verif/seeded/{s["id"]}; cp -a {out} /verif/seeded/{s["id"]}', '/tmp')
        if not a.no_check:
            rc, o = sh(f'taskset -c {cpus} ./run.sh {s["prop"]} --tier {a.tier} --no-evidence', '/verif', 900, dict(RV_REPO=w, VERIF_SEED='1', VERIF_TIER=a.tier, **tmp))
            res['check_rc'] = rc
            res['caught'] = rc == 1 and f'VIOLATION property={s["prop"]}' in o
            v = [l for l in o.splitlines() if 'VIOLATION' in l]
            res['viol'] = (v[0] if v else o[-300:])[:300]
            i = o.find('VIOLATION'); res['ctx'] = o[max(0, i - 200):i + 700]
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--no-tests', action='store_true'); ap.add_argument('--no-check', action='store_true')
    ap.add_argument('--jobs', type=int, default=4); ap.add_argument('--only'); ap.add_argument('--tier', default='quick')
    ap.add_argument('defs', nargs='+')
    a = ap.parse_args()
    for d in a.defs: exec(compile(open(d).read(), d, 'exec'), dict(S=S))
    ids = a.only.split(',') if a.only else list(SEEDS)
    os.makedirs('/tmp/seedres', exist_ok=True)

    def one(i):
        cpus = SLOTS.get()
        try: r = plant(SEEDS[i], a, cpus)
        except Exception as e: r = dict(id=i, error=repr(e))
        SLOTS.put(cpus)
        json.dump(r, open(f'/tmp/seedres/{i}.json', 'w'), indent=1)
        st = 'ERROR ' + r['error'][:900] if 'error' in r else ('CAUGHT' if r.get('caught') else 'MISSED' if 'caught' in r else 'ok')
        print(i, r.get('prop'), st, r.get('nonorig', ''), '' if st.startswith('ERR') else (r.get('viol', '')[:160] + ' | demo: ' + (r.get('demo_out', '').strip().splitlines() or [''])[-1][:120]), flush=True)
        return r
    for k in range(a.jobs): SLOTS.put(f'{2*k%8},{2*k%8+1}')
    with ThreadPoolExecutor(a.jobs) as ex: rs = list(ex.map(one, ids))
    print(sum(bool(r.get('caught')) for r in rs), 'caught of', len(rs), flush=True)


if __name__ == '__main__':
    main()
