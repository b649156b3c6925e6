"""Regenerates DESIGN.md from the head, the property notes, the check modules, the planted bugs and the tail."""
import ast, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(here, 'tools')
exec(open(os.path.join(T, 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
res_f = os.path.join(T, 'seed_results.json')
res = json.load(open(res_f)) if os.path.exists(res_f) else {}
for f in glob.glob('/tmp/seedres/*.json'):
    r = json.load(open(f))
    if 'error' not in r and 'caught' in r:
        res[r['id']] = bool(r['caught'])
seeds = sorted(os.path.basename(d) for d in glob.glob(os.path.join(here, 'seeded', '*')))
res = {k: v for k, v in res.items() if k in seeds}
json.dump(res, open(res_f, 'w'), indent=0, sort_keys=True)
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## Properties', '']
for p in props:
    i = p['id']
    s = open(os.path.join(here, 'rv', i.lower() + '.py')).read()
    wl, rule = '', ''
    for n in ast.parse(s).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == 'RULE': rule = ast.literal_eval(n.value)
            if n.targets[0].id == 'WORKLOADS': wl = ', '.join(re.findall(r"W\('(\w+)'", ast.unparse(n.value)))
    out += ['### %s %s' % (i, p['title']), '', '*Technique:* %s.' % NOTE[i][0], '', TEXT[i], '',
            '*Observed executions:* %s.%s' % (rule, ' Workloads: %s.' % wl if wl else ''), '']
out += ['## Planted bugs and the checks that see them', '', 'Written from the property text and the code (`seeded/<id>`); each passes the stable tests and fails its own demonstration.', '',
        '| bug | needs | caught by quick check |', '|---|---|---|']
for d in seeds:
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s |' % (d, m['needs'], {True: 'yes (%s)' % m['property'], False: 'no', None: 'not run'}[res.get(d)]))
out += ['', open(os.path.join(T, 'design_tail.md')).read()]
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(props), 'properties', len(seeds), 'bugs', sum(v is True for v in res.values()), 'caught')
