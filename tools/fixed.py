"""Rewrites the "fixed" records of known_findings.json from the fix: commits of /repo (property of each, in commit order)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ('C06 C02 C02 C04 C06 C04 C08 C36 C35 C35 C36 C36 C36 C09 C13 C13 C29 C29 C29 C14 C14 C30 C13 C30 C30 C17 C17 C17 C19 C18 C18 C18 C16 C18 C19 C19 C28 '
         'C15 C15 C21 C21 C21 C21 C21 C22 C23 C23 C24 C24 C24 C25 C25 C25 C26 C26 C26 C26 C26 C26 C26 C27 C27 C27 C27 C27 C26 C27 C27 C06 C29 C30 C30 '
         'C33 C31 C33 C31 C31 C31 C33 C04 C32 C32 C32 C31 C31 C31 C33 C33 C33 C31 C34 C34 C18 C38 C38 C38 C38 C39 C39 C40 C40 C40 C40 C40 C40 C40 C40 C07 C43 C20 C16 C13 C04 C35 C38 C15 C16 C29 C29 C16 C17 C22 C18 C18 C44 ').split()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '8057154..HEAD'], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if l.split(' ', 1)[1].startswith('fix:')]
assert len(log) == len(PROPS), (len(log), len(PROPS))
p = os.path.join(here, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = ['fixed: property=%s %s %s' % (c, l.split(' ', 1)[0], l.split(' ', 1)[1][5:]) for c, l in zip(PROPS, log)]
json.dump(d, open(p, 'w'), indent=1)
print(len(log), 'fixed')
