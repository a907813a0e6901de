"""Exploration of one method of a network component: its result, what it stores through its array parameter and what it reads from it, on every path."""
import engine
from engine import walk, subterms

def varying(t):
    return any(isinstance(x, tuple) and x and x[0] in ('hav', 'loop', 'loc', 'undef', 'phi') for x in subterms(t))

def par0(t):
    """the array parameter t points into, and the constant offset (None: unknown)"""
    off = 0
    while True:
        if t[0] == 'par': return t, off
        if t[0] == 'bin' and t[1] == '+':
            c = engine.const(t[3])
            off = off + c if c is not None and off is not None else None
            t = t[2]; continue
        if t[0] == 'addr' and t[1][0] == 'elem':
            c = engine.const(t[1][2]); off = off + c if c is not None and off is not None else None
            t = t[1][1]; continue
        return None, None

class X(engine.Interp):
    MAXSTATES = 3000
    MAXDEPTH = 6
    UNROLL = 8
    def __init__(self, db, cls):
        engine.Interp.__init__(self, db)
        self.cls = cls
    def facts0(self): return frozenset()
    def mergekey(self, st):
        k = frozenset((g, p) for g, p in st.guards if not varying(g))
        e = frozenset((x, v) for x, v in st.env.items() if x[0] == 'loc' and engine.const(v) is not None)
        return (k, e, st.facts)
    def should_inline(self, fn, node, st):
        if not fn.file.startswith(('component/', 'applications/')) or fn.b is None: return False
        return True if fn.cls == self.cls or fn.cls in self.db.bases(self.cls) else not any(x['k'] in ('For', 'While', 'Do') for x in walk(fn.b))
    def touch(self, what, lv, st):
        if lv[0] == 'elem': b, i = lv[1], engine.const(lv[2])
        elif lv[0] == 'deref': b, i = lv[1], 0
        else: return
        p, off = par0(b)
        if p is None: return
        k = i + off if isinstance(i, int) and off is not None else None
        if k is None and off == 0 and lv[0] == 'elem' and lv[2][0] == 'loop':
            # a counter of a loop: up to its bound
            b = [g[2] for g, pol in st.guards if pol and g[0] == 'bin' and g[1] == '>' and g[3] == lv[2] and not varying(g[2])]
            if len(b) == 1: k = ('upto', b[0])
        st.facts = st.facts | {(what, p, k)}
    def on_store(self, lv, val, node, st): self.touch('w', lv, st)
    def on_load(self, lv, node, st): self.touch('r', lv, st)
    def opaque(self, n, obj, vs, s):
        for a in vs:
            x = self.load(a[1], s) if a[0] == 'ref' else a
            p, off = par0(x)
            if p is not None:
                s.facts = s.facts | {('w', p, None), ('r', p, None)}
        return engine.Interp.opaque(self, n, obj, vs, s)

class Path(object):
    def __init__(self, st, ret):
        self.g = frozenset((g, p) for g, p in st.guards if not varying(g)); self.ret = ret; self.st = st
        self.w = {}; self.r = {}
        for what, p, i in st.facts:
            (self.w if what == 'w' else self.r).setdefault(p[1], set()).add(i)
    def out(self, name):
        for k, v in self.st.env.items():
            if k[0] == 'deref' and k[1][0] == 'par' and k[1][1] == name: return v
        return None

cache = {}
def explore(db, cls, f):
    if (cls, f) in cache: return cache[(cls, f)]
    it = X(db, cls)
    out = [Path(st, v) for k, st, v, n in it.run(f) if k in ('ret', 'end')]
    cache[(cls, f)] = (it, out)
    return it, out

def compatible(a, b):
    """can both sets of conditions hold in one state"""
    for g, p in b:
        if engine.decide(a, g, p) is False: return False
    for g, p in a:
        if engine.decide(b, g, p) is False: return False
    return True

def final(db, cls, name):
    """the definitions of a method (one per signature) that class cls uses, by signature"""
    seen = {}
    for c in [cls] + list(db.bases(cls)):
        for f in db.methods.get(c, []):
            if f.n == name and f.b is not None: seen.setdefault(f.f[f.f.index('('):], f)
    return seen
