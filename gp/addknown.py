"""development aid, never run by a check: python3 gp/addknown.py P09 REGEX NOTE
records the current findings of a check that match REGEX as known defects"""
import sys, re, json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, rx, note = sys.argv[1:4]
out = subprocess.run(['python3', V + '/gp/check.py', pid, '--keys'], stdout=subprocess.PIPE).stdout.decode()
p = V + '/known_findings.json'
kn = json.load(open(p))
n = 0
for l in out.splitlines():
    if l.startswith('KEY ') and re.search(rx, l[4:]):
        kn.insert(n, {'property': pid, 'status': 'open', 'key': l[4:], 'why': note}); n += 1
json.dump(kn, open(p, 'w'), indent=1)
print('added', n)
