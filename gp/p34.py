"""No result depends on a parameter that the network data does not contain."""
import engine
from engine import walk, calls, subterms
EXPLAIN = ('Every lookup of a parameter in the network data is followed along every path of the function that makes it. '
 'A lookup that misses leaves its target as it was: where the target is used later on a path on which the lookup may have missed (its result not examined, or examined as missed), '
 'the target must hold a default set for it, not an undefined value, and not what an earlier lookup of another parameter or of an earlier device left (D1). '
 'A member that a lookup may leave as it was must have a value from the constructor or from earlier on the path (D2).')
DC = 'gridpack::component::DataCollection::'

def bad(t, guards):
    """why the value t may not be what was asked for, or None"""
    if not isinstance(t, tuple) or not t: return None
    if t[0] == 'undef': return 'never set'
    if t[0] == 'got':
        d = engine.decide(guards, t[1], True)
        if d is True: return None
        r = bad(t[2], guards)
        if r: return r
        if d is not False:
            k = keyof(t[1])
            for x in parts(t[2]):
                if any(p and g[0] == 'bin' and g[1] == '==' and g[2] == x and g[3][0] in ('flt', 'int') for g, p in guards): continue     # known to be some constant
                if x[0] in ('sure', 'got') and keyof(x[1]) != k: return 'left from %s' % engine.show(keyof(x[1]))[:80]
                if x[0] == 'loop': return 'left from an earlier round'
        return None
    if t[0] == 'missed':
        r = bad(t[2], guards)
        if r: return r
        k = keyof(t[1])
        for x in parts(t[2]):
            if x[0] in ('sure', 'got') and keyof(x[1]) != k: return 'left from %s' % engine.show(keyof(x[1]))[:80]
            if x[0] == 'loop': return 'left from an earlier round'
        return None
    if t[0] in ('phi', 'bin'):
        for x in t[1 if t[0] == 'phi' else 2:]:
            r = bad(x, guards)
            if r: return r
    return None

# every component of a network has these: readers make the component from them
IDENT = {'BUS_NUMBER', 'BRANCH_FROMBUS', 'BRANCH_TOBUS', 'BRANCH_NUM_ELEMENTS', 'AREAINTG_NUMBER', 'CASE_SBASE', 'LOAD_BUSNUMBER', 'GENERATOR_BUSNUMBER'}
def keyof(h): return h[2]
def parts(t):
    if t[0] == 'phi':
        for x in t[1:]: yield from parts(x)
    else: yield t
    if t[0] in ('got', 'missed'): yield from parts(t[2])

class I(engine.Interp):
    MAXSTATES = 400
    def __init__(self, db, cls):
        engine.Interp.__init__(self, db)
        self.rep = {}; self.n = 0; self.look = 0; self.exits = []
        self.cls = cls
    def facts0(self): return frozenset()
    def mergekey(self, st):
        k = []
        for x, v in st.env.items():
            if (x[0] == 'loc' or x[0] == 'fld' and x[1] == ('this',)) and (engine.const(v) in (0, 1, True, False) or v[0] == 'hit'): k.append((x, v))
        return (st.facts, tuple(sorted(k, key=repr)))
    skip = None
    def e_Asg(self, n, st, out):
        # x op= y: what is wrong with x is wrong with the new x, and counts where that is used
        if n['op'] != '=': self.skip = id(n['x'])
        r = engine.Interp.e_Asg(self, n, st, out)
        self.skip = None
        return r
    def phi(self, x, y):
        s = []
        for t in (x, y):
            for u in (t[1:] if t[0] == 'phi' else (t,)):
                if u not in s: s.append(u)
        for u in list(s):
            if u[0] in ('missed', 'got') and ('sure', u[1]) in s:
                s.remove(('sure', u[1])); s.remove(u)
                if ('got',) + u[1:] not in s: s.append(('got',) + u[1:])
        if len(s) == 1: return s[0]
        a = s[0]
        for b in s[1:]: a = engine.Interp.phi(self, a, b)
        return a
    def should_inline(self, fn, node, st): return False
    def on_call(self, n, obj, args, st):
        if (n.get('q') or '').startswith(DC) and n.get('n') == 'getValue':
            self.look += 1
            a = args[1]
            lv = a[1] if a[0] in ('addr', 'ref') else None
            if any(x[0] == 'str' and x[1] in IDENT for x in args):
                if lv is not None: st.env[lv] = ('sure', ('hit', self.where(n), args[:1]))
                return None
            h = ('hit', self.where(n), tuple(x for i, x in enumerate(args) if i != 1))
            if lv is not None:
                prev = self.load(lv, st)
                # the same request again
                st.env[lv] = ('got', h, prev)
            return h
        if obj is not None and n['k'] == 'MCall' and n.get('n') in engine.PURE_STD and n.get('n') not in ('begin', 'end', 'size', 'empty') and n.get('o') is not None:
            lv = obj[1] if obj[0] in ('addr', 'ref') else obj
            self.on_load(lv, n['o'], st)
        return None
    def refine(self, s):
        for k, v in list(s.env.items()):
            s.env[k] = self.ref1(v, s)
        return s
    def ref1(self, v, s):
        if v[0] == 'got':
            d = engine.decide(s.guards, v[1], True)
            if d is True: return ('sure', v[1])
            if d is False: return ('missed', v[1], v[2])
        return v
    def assume(self, term, pol, st, node):
        s = engine.Interp.assume(self, term, pol, st, node)
        if s is not None and pol and term[0] == 'bin' and term[1] == '==' and term[3][0] in ('flt', 'int') and term[2][0] in ('sure', 'got'):
            for k, v in list(s.env.items()):
                if v == term[2]: s.env[k] = term[3]
        if s is not None and any(isinstance(x, tuple) and x and x[0] == 'hit' for x in subterms(term)): self.refine(s)
        return s
    def on_load(self, lv, node, st):
        v = st.env.get(lv)
        if v is None: return
        if v[0] in ('got', 'missed', 'phi', 'undef', 'bin') and id(node) != self.skip:
            self.n += 1
            r = bad(v, st.guards)
            if r and ('got' in repr(v) or 'missed' in repr(v)): self.rep[(node.get('l'), lv)] = (r, v, node)


def ctor_inits(db, cls, seen=()):
    """members given a value by every constructor of cls (its bases included), in its body or in a member function it calls"""
    out = None
    for f in db.methods.get(cls, []) if not callable(db.methods) else []:
        if not f.isctor or f.b is None and not f.inits: continue
        s = set()
        def grab(g, depth):
            for i in g.inits:
                if i.get('fld') and i.get('e') is not None: s.add(i['n'])
            for n in walk(g.b):
                t = None
                if n['k'] == 'Asg': t = n['x']
                elif n['k'] == 'OCall' and n.get('n') == 'operator=': t = n['a'][0]
                while t is not None and t['k'] in ('Sub', 'Mem', 'Asg', 'OCall'):
                    if t['k'] == 'Mem':
                        s.add(t['n']); t = None
                    elif t['k'] == 'Sub': t = t['b']
                    else: t = None
                if n['k'] == 'Asg' and n['y']['k'] == 'Asg': pass
                if n['k'] == 'MCall' and depth < 2:
                    h = db.callee(n)
                    if h is not None and h.cls == cls and h.b is not None: grab(h, depth + 1)
        grab(f, 0)
        out = s if out is None else out & s
    out = out or set()
    r = db.rec(cls)
    for b in (db.bases(cls) if r else []):
        if b != cls and b not in seen: out |= ctor_inits(db, b, seen + (cls,))
    return out

def analyse(db, res):
    inits = {}
    res.rule('D1', 'a variable is used after a lookup that may have missed only if it then holds a value set for that case')
    res.rule('D2', 'a member that a lookup may leave unset has a value before')
    for f in db.fns.values():
        if f.b is None or '/test/' in f.file: continue
        if not any((n.get('q') or '').startswith(DC) and n.get('n') == 'getValue' for n in calls(f.b)): continue
        it = I(db, None); it.done = it.run(f)
        res.count('functions'); res.count('lookups', it.look); res.count('uses', it.n)
        if it.trunc: res.count('trunc')
        for k, st, v, n in it.done:
            if k != 'ret': continue
            for lv, v in st.env.items():
                if lv[0] == 'fld' and lv[1] == ('this',) and v[0] in ('got', 'missed', 'phi') and ('got' in repr(v) or 'missed' in repr(v)):
                    for x in parts(v):
                        if x == lv:
                            c = f.cls
                            if c not in inits: inits[c] = ctor_inits(db, c)
                            if lv[2] not in inits[c]:
                                res.report('D2', f.file, f.l, f.q, lv[2], 'never set when absent')
        for (l, lv), (r, v, node) in it.rep.items():
            res.report('D1', f.file, l, f.q, lv[-1], r)
    res.floor('lookups', 5000)
    res.floor('functions', 150)
