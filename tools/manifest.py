"""Regenerates MANIFEST.json from the check modules present in rv/."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'rv', i.lower() + '.py')) and i not in NA:
        t, n = NOTE.get(i, ('runtime monitor against a reference model on random workloads', 'Held on the executions listed in the evidence; nothing is claimed about unexplored inputs.'))
        checks.append(dict(property=i, quick_cmd='./run.sh %s --tier quick' % i, thorough_cmd='./run.sh %s --tier thorough' % i,
                           technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
