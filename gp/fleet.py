"""Methods of a factory or application followed over a network of a few buses and branches whose properties are left open:
each decision taken on the way (is this bus ignored, does this line exceed its rating) is kept with the path."""
import engine
from engine import const, subterms
import p26, p30
from p30 import num, S, cx, vectors

class Fleet(p30.NY):
    """a path keeps the decisions taken on it"""
    MAXSTATES = 3000
    def mergekey(self, st):
        return (p30.NY.mergekey(self, st), tuple(sorted((repr(k), v) for k, v in st.env.items() if k[0] in ('atom', 'did'))))
    def declare(self, v, st, out=None):
        # a list of its own
        if 'vector<' not in v.get('t', '') or v['t'].endswith(('&', '*', ']')): return p30.NY.declare(self, v, st, out)
        key = ('loc', self.frame, v['id'], v['n'])
        for k in [k for k in st.env if k[0] == 'elem' and k[1] == key]: del st.env[k]
        st.env.pop(('size', key), None)
        i = v.get('i')
        if i is None or i['k'] == 'Ctor' and not i.get('a'):
            st.env[('size', key)] = num(0)
            return [st]
        if i['k'] == 'Ctor' and not i.get('copy') and 'int' in i['a'][0].get('t', 'int'):
            r = []
            for s, n in self.ev(i['a'][0], st, out):
                n = const(self.load(n[1], s) if n[0] == 'ref' else n)
                x = i['a'][1] if len(i['a']) > 1 else None
                for s2, w in (self.ev(x, s, out) if x is not None and x['k'] != 'DefArg' else [(s, num(0))]):
                    if isinstance(n, int) and n < 20:
                        w = self.load(w[1], s2) if w[0] == 'ref' else w
                        for j in range(n): s2.env[('elem', key, num(j))] = w
                        s2.env[('size', key)] = num(n)
                    r.append(s2)
            return r
        r = p30.NY.declare(self, v, st, out)
        for s in r:
            y = s.env.get(key)
            y = y[1] if y is not None and y[0] == 'ref' else y
            if y is None or ('size', y) not in s.env: continue
            for k, w in list(s.env.items()):
                if k[0] == 'elem' and k[1] == y: s.env[('elem', key) + k[2:]] = w
            s.env[('size', key)] = s.env[('size', y)]; s.env.pop(key, None)
        return r
    def assume(self, term, pol, st, node):
        k = self.atom(term, st)
        if k is None: return p30.NY.assume(self, term, pol, st, node)
        k, flip = k
        if flip: pol = not pol
        if ('atom', k) in st.env: return st if st.env[('atom', k)] == num(int(pol)) else None
        st.env[('atom', k)] = num(int(pol))
        return st
    def atom(self, term, st):
        v = self.load(term[1], st) if term[0] == 'ref' else term
        if v[0] == 'sym' and v[1] in ('is', 'has'): return v, False
        if v[0] == 'bin' and v[1] in ('<', '<=', '>', '>=', '==', '!='):
            a, b = [self.load(x[1], st) if x[0] == 'ref' else x for x in v[2:4]]
            for x, y, sw in ((a, b, False), (b, a, True)):
                # the difference of two quantities
                if x[0] == 'bin' and x[1] == '-' and p30.rnum(y) == 0:
                    p, q = [self.load(z[1], st) if z[0] == 'ref' else z for z in x[2:4]]
                    a, b = (q, p) if sw else (p, q)
                    break
            if a[0] == b[0] == 'sym':
                if b < a: a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(v[1], v[1])
                else: op = v[1]
                # a quantity is not exactly at its limit
                op, flip = {'<': ('>', True), '<=': ('>', True), '>': ('>', False), '>=': ('>', False), '==': ('==', False), '!=': ('==', True)}[op]
                return (op, a, b), flip
            for x, y in ((a, b), (b, a)):
                if x[0] == 'sym' and x[1] in ('is', 'has') and isinstance(const(y), int) and v[1] in ('==', '!='): return x, (v[1] == '!=') == bool(const(y))
        return None

class Net(object):
    """buses: (in charge, original number); branches: (in charge, bus, bus, tags of its lines, ratings)"""
    def __init__(self, buses, branches=()): self.buses, self.branches = buses, branches

def who(it, obj, st):
    """the bus or branch an object is"""
    v = obj
    for k in range(5):
        if v is None: return None
        if v[0] in ('bus', 'branch', 'data'): return v
        if v[0] in ('thisptr', 'addr', 'ref'): v = v[1]; continue
        if v[0] == 'deref': v = v[1]; continue
        if v[0] in ('fld', 'elem', 'loc'):
            w = it.load(v, st)
            if w == v: return None
            v = w
        else: return None

def hooks(N, it0=None, extra=None):
    H = vectors({})
    def tp(x): return ('thisptr', x)
    def resize(it, node, obj, args, st):
        n = const(val(it, args[0], st)) if args else None
        if not isinstance(n, int) or n > 20: return None
        old = const(st.env.get(('size', obj), num(0)))
        fresh = node['n'] == 'assign'
        w = val(it, args[1], st) if len(args) > 1 else num(0)
        for i in range(n):
            if fresh or not isinstance(old, int) or i >= old: st.env[('elem', obj, num(i))] = w
        st.env[('size', obj)] = num(n)
        return ('void',)
    def val(it, a, st): return it.load(a[1], st) if a[0] == 'ref' else a
    def count(n): return lambda it, node, obj, args, st: num(n)
    def item(kind, n):
        def h(it, node, obj, args, st):
            if len(args) != 1: return None
            i = const(val(it, args[0], st))
            return tp((kind, i)) if isinstance(i, int) and 0 <= i < n else None
        return h
    def active(xs):
        def h(it, node, obj, args, st):
            i = const(val(it, args[0], st)) if len(args) == 1 else None
            return num(int(xs[i][0])) if isinstance(i, int) and 0 <= i < len(xs) else None
        return h
    def index(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None: return None
        if w[0] == 'bus': return num(N.buses[w[1]][1])
        b = N.branches[w[1]]
        return num(N.buses[b[1 if 'Bus1' in node['n'] else 2]][1]) if 'Bus' in node['n'] else None
    def end(k):
        def h(it, node, obj, args, st):
            w = who(it, obj, st)
            return tp(('bus', N.branches[w[1]][k])) if w is not None and w[0] == 'branch' else None
        return h
    def get(it, node, obj, args, st):
        w = who(it, obj, st)
        return tp(w) if w is not None and not args else None
    def ident(it, node, obj, args, st): return val(it, args[0], st) if args else None
    def cstr(it, node, obj, args, st): return it.load(obj, st) if obj is not None else None
    def cpy(it, node, obj, args, st):
        d = args[0][1] if args[0][0] in ('ref', 'addr') else args[0]
        st.env[('copied', d)] = val(it, args[1], st)
        return ('void',)
    def near(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None or len(args) != 1 or args[0][0] != 'ref': return None
        l = [('branch', i) for i, b in enumerate(N.branches) if w[1] in b[1:3]] if 'Branch' in node['n'] else None
        if l is None: return None
        for i, x in enumerate(l): st.env[('elem', args[0][1], num(i))] = tp(x)
        st.env[('size', args[0][1])] = num(len(l))
        return ('void',)
    H.update({'numBuses': count(len(N.buses)), 'numBranches': count(len(N.branches)), 'getBus': item('bus', len(N.buses)), 'getBranch': item('branch', len(N.branches)),
              'getBranchData': item('data', len(N.branches)), 'getActiveBus': active(N.buses), 'getActiveBranch': active(N.branches), 'getOriginalIndex': index,
              'getBus1OriginalIndex': index, 'getBus2OriginalIndex': index, 'getBus1': end(1), 'getBus2': end(2), 'get': get, 'checkTrue': ident, 'c_str': cstr, 'strncpy': cpy, 'strcpy': cpy, 'getNeighborBranches': near,
              'checkTrueSomewhere': ident})
    def bit(it, node, obj, args, st):
        return st.env.get(obj) if obj is not None and obj[0] == 'elem' else None
    H.update({'operator bool': bit, 'resize': resize, 'assign': resize})
    H.update(extra or {})
    return H

def answer(name):
    """a property of a bus or line that is left open"""
    def h(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None: return None
        tag = tuple(it.load(a[1], st) if a[0] == 'ref' else a for a in args)
        return S('is', name, w) + tag
    return h

def act(name):
    """something done to a bus or line"""
    def h(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None: return None
        a = tuple(it.load(a[1], st) if a[0] == 'ref' else a for a in args)
        n = sum(1 for k in st.env if k[0] == 'did')
        st.env[('did', n)] = (name, w) + a
        return ('void',)
    return h

def follow(db, cls, f, H, env=None, args=None, inline=()):
    it = Fleet(db, cls); it.hooks = dict(H); it.dup = frozenset()
    it.hooks.setdefault('inline', lambda fn: fn.cls == cls or fn.cls in inline or fn.cls is None and fn.file == f.file)
    out = []
    for k, st, v, n in it.run(f, this=('this',), env=dict(env or {}), args=args):
        if k in ('ret', 'end'): out.append((st, v))
    return it, out

def atoms(st): return {k[1]: bool(const(v)) for k, v in st.env.items() if k[0] == 'atom'}
def done(st): return [st.env[('did', i)] for i in range(sum(1 for k in st.env if k[0] == 'did'))]
