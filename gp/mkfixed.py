"""Rewrites the 'fixed' entries of known_findings.json: python3 gp/mkfixed.py
Properties of fix commits are given in FIXES (subject prefix -> property)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = json.load(open(os.path.join(V, 'gp', 'fixes.json')))
p = os.path.join(V, 'known_findings.json')
kn = [k for k in (json.load(open(p)) if os.path.exists(p) else []) if k.get('status') == 'open']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    pr = [v for k, v in sorted(FIXES.items(), key=lambda x: -len(x[0])) if s.startswith(k)]
    assert pr, l
    kn.append({'property': pr[0], 'status': 'fixed', 'commit': h, 'entry': 'fixed: property=%s %s %s' % (pr[0], h, s)})
json.dump(kn, open(p, 'w'), indent=1)
print(len(kn))
