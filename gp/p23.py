"""Loading parameters twice leaves what loading once leaves."""
import engine
from engine import mentions, walk, show
EXPLAIN = """For every network component class the set-up functions (load, setYBus, setSBus, setGBus; same-object helpers inlined)
are interpreted over terms from an unknown earlier state of the object. A list may only grow after it was emptied in the same
call; a member may not be given a value computed from what it held before the call; nor may another member be computed from
it when the call goes on to replace it."""
ROOTS = ('load', 'setYBus', 'setSBus', 'setGBus', 'LoadExtendedCmplBus')
GROW = ('push_back', 'insert', 'append', 'emplace_back', 'push_front', 'emplace')
EMPTY = ('clear', 'assign', 'resize', 'reset', 'swap', 'operator=')

class I(engine.Interp):
    MAXSTATES = 60
    def __init__(self, db, cls):
        engine.Interp.__init__(self, db)
        self.fam = [cls] + db.bases(cls)
        self.rep = []; self.grown = set(); self.emptied = set(); self.mod = set(); self.opaque_calls = set()
        self.reads = {}       # member whose earlier value is used -> places
        self.nst = 0
        cnt = {}
        for c in self.fam:
            for x in db.fields(c): cnt[x['n']] = cnt.get(x['n'], 0) + 1
        self.shadow = {k for k, v in cnt.items() if v > 1}
        self.zero = zeros(db, self.fam, self.shadow)
    def lv(self, n, st, out=None):
        if n['k'] == 'Mem' and n.get('n') in self.shadow and n.get('q'):
            c = n['q'].split('::')[-2]
            if not n['n'].startswith(c): n = dict(n, n=c + '::' + n['n'])
        return engine.Interp.lv(self, n, st, out)
    def mergekey(self, st): return st.facts
    def facts0(self): return frozenset()
    def should_inline(self, fn, node, st):
        return fn.cls in self.fam and len(self.stack) < 6
    def mem(self, lv):
        return lv[2] if isinstance(lv, tuple) and lv[0] == 'fld' and lv[1] in (('this',), ('thisptr',)) else None
    def old(self, t, m):
        e = ('fld', ('this',), m)
        def look(x):
            if x == e: return True
            if not isinstance(x, tuple) or not x or x[0] == 'loop': return False
            return any(look(y) for y in x[1:])
        return look(t)
    def on_store(self, lv, val, node, st):
        m = self.mem(lv)
        if m is None: return
        self.nst += 1; self.mod.add(m)
        e = ('fld', ('this',), m)
        v = val
        if v == e or v[0] == 'phi' and e in v[1:] and not any(self.old(x, m) for x in v[1:] if x != e): return
        if self.old(v, m):
            # scaling what the data may not have supplied: zero since construction stays zero
            if v[0] == 'bin' and v[1] in '*/' and v[2][0] == 'phi' and e in v[2][1:] and not self.old(v[3], m) and m in self.zero:
                if all(x == e or not self.old(x, m) for x in v[2][1:]): return
            self.rep.append(('carried', m, node, self.fn, v))
    def on_call(self, n, obj, args, st):
        m = self.mem(obj) if obj is not None else None
        name = n.get('n')
        if m is not None and n['k'] in ('MCall', 'OCall'):
            e = ('fld', ('this',), m)
            if name in GROW:
                self.nst += 1; self.grown.add(m); self.mod.add(m)
                cur = st.env.get(e, e)
                if self.old(cur, m): self.rep.append(('grow', m, n, self.fn, cur))
                st.env[e] = ('app', cur) if cur[0] != 'app' else cur
                return ('void',)
            if name in EMPTY and n['k'] == 'MCall' or name == 'erase' and len(args) == 2:
                self.mod.add(m); self.emptied.add(m)
                st.env[e] = ('emptied', m)
                for k in [k for k in st.env if k[0] in ('elem', 'fld') and k[1] == e]: del st.env[k]
                return ('void',)
            if n['k'] == 'MCall' and not (n.get('q') or '').startswith('gridpack') and not (n.get('f') or '').endswith('c') and name not in ('begin', 'end', 'back', 'front', 'at'):
                # takes from or reorders what is there
                cur = st.env.get(e, e)
                st.env[e] = cur if cur[0] == 'app' else ('app', cur)
                return ('void',)
        return None

class N(engine.Interp):
    """receivers emptied so far, by the value they have"""
    def __init__(self, db, pairs):
        engine.Interp.__init__(self, db); self.pairs = pairs; self.adds = 0; self.bad = []; self.seen = set()
    def facts0(self): return frozenset()
    def should_inline(self, fn, node, st): return fn.cls == self.stack[0][0].cls and len(self.stack) < 3
    def on_call(self, n, obj, args, st):
        nm = n.get('n')
        if obj is None or n['k'] != 'MCall': return None
        if nm in self.pairs.values(): st.facts |= {(nm, obj)}
        elif nm in self.pairs:
            if (nm, n.get('l')) not in self.seen: self.seen.add((nm, n.get('l'))); self.adds += 1
            if (self.pairs[nm], obj) not in st.facts and not any(a == self.pairs[nm] and generic(o) == generic(obj) and generic(o) != o for a, o in st.facts): self.bad.append((n, self.fn))
        return None

def generic(t):
    """every round of a loop alike"""
    if not isinstance(t, tuple): return t
    if t and t[0] == 'loop': return ('loop',)
    return tuple(generic(x) for x in t)

def zeros(db, fam, shadow):
    """members every constructor of the family that sets them sets to zero"""
    z = {}
    for f in db.fns.values():
        if not f.isctor or f.cls not in fam: continue
        for i in f.inits:
            if i.get('m') and isinstance(i.get('e'), dict): z.setdefault(i['m'], []).append(lit0(i['e']))
        if f.b is None: continue
        for x in walk(f.b):
            if x['k'] == 'Asg' and x['op'] == '=':
                y = x['y']; ms = [x['x']]
                while y['k'] == 'Asg': ms.append(y['x']); y = y['y']
                for m in ms:
                    if m['k'] == 'Mem': z.setdefault(m['q'].split('::')[-2] + '::' + m['n'] if m['n'] in shadow and m.get('q') else m['n'], []).append(lit0(y))
    return {m for m, v in z.items() if all(v)}

def lit0(e):
    while e['k'] == 'Cast': e = e['e']
    return e['k'] in ('Int', 'Flt', 'Bool') and float(e.get('v', 1)) == 0

def roots(db):
    out = []
    for f in db.fns.values():
        if f.n in ROOTS and f.b is not None and f.cls and (f.file.startswith('applications/') or f.n != 'load'):
            fam = db.bases(f.cls)
            if any(b.endswith('::BaseBusComponent') or b.endswith('::BaseBranchComponent') or b.endswith('::BaseComponent') for b in fam):
                out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l))

def analyse(db, R):
    R.rule('L1', 'A list a component fills while it is set up is emptied in the same call before it first grows')
    R.rule('L2', 'A member is not given a value computed from what it held before the call (no counter, sum or flag carries over)')
    for f in roots(db):
        it = I(db, f.cls)
        it.run(f)
        R.count('functions')
        R.count('stores', it.nst); R.count('lists', len(it.grown))
        seen = set()
        for what, m, n, fn, v in it.rep:
            if (what, m) in seen: continue
            seen.add((what, m))
            R.report('L1' if what == 'grow' else 'L2', fn.file, n.get('l'), f.q.split('gridpack::')[-1],
              ('list %s grows without having been emptied' if what == 'grow' else 'member %s is computed from its value before the call') % m, show(v)[:150])
    R.rule('L3', 'A bus\'s neighbour lists are emptied before the factory fills them')
    pairs = {'addBus': 'clearBuses', 'addBranch': 'clearBranches'}
    fac = 'gridpack::factory::BaseFactory'
    for f in db.fns.values():
        if f.b is None or f.n != 'setComponents' or not (f.cls or '').startswith('gridpack::factory'): continue
        it = N(db, pairs); it.run(f)
        R.count('neighbour_lists', it.adds)
        for n, fn in it.bad:
            R.report('L3', fn.file, n.get('l'), f.q, '%s on a bus whose list was not emptied first' % n['n'])
    R.floor('neighbour_lists', 1)
    R.floor('functions', 20); R.floor('lists', 200); R.floor('stores', 1200)
