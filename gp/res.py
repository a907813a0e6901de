"""typestate of acquired handles along every path of a function, shared by several checks"""
import engine
from engine import walk, calls, subterms

def has(t, h):
    if t == h: return True
    if not isinstance(t, tuple): return False
    return any(isinstance(x, tuple) and has(x, h) for x in t)

def carries(t, h):
    """is the pointer h (or a pointer into its block) part of t; a value read from the block is not"""
    if t == h: return True
    if not isinstance(t, tuple) or not t: return False
    if t[0] == 'addr':
        u = t[1]
        while isinstance(u, tuple) and u and u[0] in ('elem', 'deref', 'fld'): u = u[1]
        return carries(u, h)
    if t[0] in ('elem', 'deref', 'fld', 'loop'): return False
    return any(isinstance(x, tuple) and carries(x, h) for x in t)

def holds(x, t):
    """fact x is about something t carries"""
    return carries(t, x[2]) if x[1] == 'buffer' else has(t, x[2])

class ResI(engine.Interp):
    """facts: frozenset of (class, kind, term, line, name) - class 'h' held handle, 'e' unchecked error code"""
    ACQ = {}      # function -> [(kind, 'ret' | index of out argument)]
    REL = {}      # function -> [(kind, argument index)]
    ERR = staticmethod(lambda q, n: False)
    CHECKERS = ()
    def __init__(self, db, only=None):
        engine.Interp.__init__(self, db)
        self.rep = []          # (what, node, kind, name)
        self.fieldacq = []     # (field term, kind, node, fn, earlier release of the field on this path)
        self.fieldrel = set()  # (field name, kind)
        self.stats = {}
        self.inl = only
    def facts0(self): return frozenset()
    def mergekey(self, st): return st.facts
    def should_inline(self, fn, node, st):
        return self.inl is not None and fn.f in self.inl and len(self.stack) < 3
    def stat(self, k): self.stats[k] = self.stats.get(k, 0) + 1
    def drop(self, st, pred):
        st.facts = frozenset(x for x in st.facts if not pred(x))
    def on_call(self, n, obj, args, st):
        q = n.get('q') or n.get('n') or ''
        r = None
        vals = [self.load(a[1], st) if a[0] in ('ref', 'addr') else a for a in args]
        rel = self.REL.get(q)
        if rel:
            for kind, i in rel:
                if i >= len(args): continue
                a = args[i]; v = vals[i]
                self.stat('releases')
                loc = a[1] if a[0] in ('ref', 'addr') else a
                if self.isfield(loc) or self.isfield(v):
                    l = loc if self.isfield(loc) else v
                    self.fieldrel.add((self.fldname(l), kind))
                    st.facts |= {('r', kind, self.fldname(l), 0, q)}
                self.drop(st, lambda x: x[0] == 'h' and x[1] == kind and (has(v, x[2]) or has(a, x[2])))
                # an unknown handle of this kind (held in a container, say) may be any of those stored
        acq = self.ACQ.get(q)
        if acq:
            for kind, i in acq:
                self.stat('acquisitions')
                t = ('res', kind, q, self.where(n), i)
                for x in st.facts:
                    if x[0] == 'h' and x[2] == t:
                        self.rep.append(('again', n, kind, q, self.fn))
                if i == 'ret':
                    r = t
                    st.facts |= {('h', kind, t, n.get('l'), q, self.fn)}
                elif i < len(args):
                    a = args[i]
                    lv = a[1] if a[0] in ('addr', 'ref') else None
                    if lv is None:
                        # an out argument handed through: the caller's
                        continue
                    if lv[0] == 'loc' and lv[1] == self.frame or lv[0] == 'loc':
                        st.env[lv] = t
                        st.facts |= {('h', kind, t, n.get('l'), q, self.fn)}
                    elif self.isfield(lv):
                        self.acqfield(lv, kind, n, st)
                        st.env[lv] = t
        if self.ERR(q, n):
            self.stat('status_calls')
            e = ('err', q, self.where(n), self.frame)
            if r is None: r = e
            st.facts |= {('e', '', e, n.get('l'), q, self.fn)}
            if acq or True:
                for i, a in enumerate(args):
                    if a[0] == 'addr' and n.get('w', '')[i:i + 1] == 'p' and not any(j == i for k, j in acq or ()) and not any(j == i for k, j in rel or ()):
                        st.env[a[1]] = self.fresh(('out', n.get('n'), i))
            return r
        if n.get('n') in self.CHECKERS:
            self.drop(st, lambda x: x[0] == 'e' and any(has(v, x[2]) for v in vals))
        if r is not None: return r
        # escapes: handed to something that may keep it
        if not rel and (q.startswith('gridpack') or n['k'] == 'Ctor' or n.get('n') in ('push_back', 'insert', 'reset', 'make_pair', 'assign')) and not (self.db.callee(n) is not None and self.should_inline(self.db.callee(n), n, st)):
            self.drop(st, lambda x: x[0] == 'h' and any(holds(x, v) for v in vals + list(args)))
            self.drop(st, lambda x: x[0] == 'e' and any(has(v, x[2]) for v in vals))
        return None
    def e_Ctor(self, n, st, out):
        r = engine.Interp.e_Ctor(self, n, st, out)
        if (n.get('q') or '').startswith(('gridpack', 'boost')):
            for s, v in r:
                self.drop(s, lambda x: x[0] == 'h' and holds(x, v))
        return r
    def isfield(self, lv):
        return isinstance(lv, tuple) and lv[0] == 'fld' and lv[1] in (('this',), ('thisptr',)) 
    def fldname(self, lv): return lv[2]
    def acqfield(self, lv, kind, n, st):
        self.fieldacq.append((self.fldname(lv), kind, n, self.stack[0][0], any(x[0] == 'r' and x[2] == self.fldname(lv) for x in st.facts)))
    def on_store(self, lv, val, node, st):
        for x in list(st.facts):
            if x[0] == 'h' and holds(x, val):
                b = lv
                while b[0] in ('elem', 'deref'): b = b[1]
                if b[0] in ('loc', 'new') and (lv[0] == 'loc' or val != x[2]): continue
                if self.isfield(lv):
                    self.acqfield(lv, x[1], node, st)
                st.facts -= {x}
    def on_cond(self, term, pol, node, st):
        self.drop(st, lambda x: x[0] == 'e' and has(term, x[2]))
    def on_exit(self, kind, st, val, node, fn):
        if kind != 'ret': return
        if val is not None and val[0] == 'ref': val = self.load(val[1], st)
        for x in st.facts:
            if x[0] not in 'he' or (val is not None and holds(x, val)): continue
            if x[0] == 'h': self.rep.append(('leak', {'l': x[3]}, x[1], x[4], x[5]))
            elif x[0] == 'e': self.rep.append(('unchecked', {'l': x[3]}, '', x[4], x[5]))
