"""Runner: python3 gp/check.py <property> [--list]
Loads the fact base for /repo's current tree, runs the property's analysis,
compares findings with known_findings.json, writes evidence/<id>.json.
exit 0 held, 1 violation, 2 analysis error (no verdict)."""
import sys, os, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts

class Finding(object):
    def __init__(self, rule, file, line, fn, what, detail=''):
        self.rule = rule; self.file = file; self.line = line; self.fn = fn; self.what = what; self.detail = detail
    def key(self):
        """identity of a finding, independent of line numbers"""
        return '%s|%s|%s|%s' % (self.rule, self.file, self.fn, self.what)
    def text(self):
        return '%s:%s: [%s] in %s: %s%s' % (self.file, self.line, self.rule, self.fn, self.what, (' -- ' + self.detail) if self.detail else '')

class Result(object):
    def __init__(self, db):
        self.db = db
        self.findings = []
        self.counts = {}
        self.floors = {}
        self.notes = []
        self.rules = {}
        self._seen = set()
    def rule(self, name, text):
        self.rules[name] = text
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def floor(self, what, n):
        """the analysis is void (no verdict) when it covers less than this"""
        self.floors[what] = n
    def report(self, rule, file, line, fn, what, detail=''):
        f = Finding(rule, file, line, fn, what, detail)
        if f.key() in self._seen:
            return
        self._seen.add(f.key())
        self.findings.append(f)

def known():
    p = os.path.join(facts.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = os.path.join(facts.VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + '.json')
    try:
        db = facts.load()
        mod = importlib.import_module(pid.lower())
        res = Result(db)
        mod.analyse(db, res)
        if hasattr(mod, 'selftest'):
            mod.selftest(res)
        low = ['%s=%d<%d' % (k, res.counts.get(k, 0), n) for k, n in res.floors.items() if res.counts.get(k, 0) < n]
        opn = set(k.get('key') for k in known() if k.get('property') == pid and k.get('status') == 'open')
        if low and all(f.key() in opn for f in res.findings):
            raise facts.ToolError('coverage floor not met: ' + ', '.join(low))
    except Exception as e:
        traceback.print_exc()
        print('ERROR property=%s no verdict: %s' % (pid, e))
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': {'error': str(e), 'explanation': 'analysis failed'}, 'wall_s': round(time.time() - t0, 2)}, open(evf, 'w'))
        return 2
    kn = {}
    for k in known():
        if k.get('property') == pid and k.get('status') == 'open':
            kn[k['key']] = k
    new = []
    hit = []
    for f in sorted(res.findings, key=lambda f: (f.file, f.line, f.rule)):
        if f.key() in kn:
            hit.append(f)
        else:
            new.append(f)
    for f in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, f.text()))
    level = getattr(mod, 'LEVEL', 'other')
    cov = {
        'explanation': getattr(mod, 'EXPLAIN', mod.__doc__ or '').strip(),
        'translation_units': db.tus, 'functions_in_fact_base': len(db.fns),
        'analysed': dict(sorted(res.counts.items())),
        'rules': res.rules,
        'violations': [f.text() for f in new][:40],
        'known_findings_reported': [f.key() for f in hit][:60],
    }
    if res.notes:
        cov['notes'] = res.notes[:20]
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}, open(evf, 'w'), indent=1)
    print('%s: %s; %d finding(s), %d known; %.1fs' % (pid, ', '.join('%s=%d' % kv for kv in sorted(res.counts.items())), len(res.findings), len(hit), time.time() - t0))
    if '--keys' in sys.argv:
        for f in new:
            print('KEY', f.key())
    if new:
        rp = os.path.join(ev, pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write(f.text() + '\n')
        for f in new[:25]:
            print('  ' + f.text())
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
