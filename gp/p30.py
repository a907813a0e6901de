"""P30: every calculation uses the same admittances for the same network data."""
EXPLAIN = """A bus and branch set-up is run over symbolic data: the constructors, load and setYBus of each application's components
are interpreted for a two-bus network whose branch is given as lines and transformers, straight or reversed, in and out of
service, alone and in parallel. What the matrix, mismatch, flow, measurement and switching functions then compute is compared,
as rational functions of the data, with the two-port admittances of those elements."""
import engine, comp, ratf, p26
from engine import const, show, subterms
from ratf import Conv, Big
from p26 import A, B, L, csplit, reim, enum

def num(i): return ('int', i)
def S(*x): return ('sym',) + x
PI = S('pi')

def rnum(t):
    if t[0] == 'un' and t[1] == '-' and ratf.num(t[2]) is not None: return -ratf.num(t[2])
    return ratf.num(t)

def text(t):
    t = p26.unstring(t)
    return t[1] if t[0] == 'str' else None

class NY(p26.Y):
    """two buses and one branch whose data are given; members that a class declares again are told apart"""
    net = True
    dup = frozenset()
    def fieldname(self, n):
        q = n.get('q') or n['n']
        return '::'.join(q.split('::')[-2:]) if n['n'] in self.dup else n['n']
    # positions in a list that is known
    def cap(self, t):
        if t[0] == 'bin' and len(t) > 3:
            a, b = t[2], t[3]
            if a[0] == 'iter' and t[1] in '+-' and isinstance(const(b), int): return ('iter', a[1], a[2] + (const(b) if t[1] == '+' else -const(b)))
            if a[0] == b[0] == 'iter' and a[1] == b[1]:
                r = {'<': a[2] < b[2], '<=': a[2] <= b[2], '>': a[2] > b[2], '>=': a[2] >= b[2], '==': a[2] == b[2], '!=': a[2] != b[2], '-': a[2] - b[2]}.get(t[1])
                if r is not None: return num(int(r))
        return t
    def e_Ctor(self, n, st, out):
        if len(n.get('a', [])) == 1 and 'iterator' in (n.get('n') or ''): return self.ev(n['a'][0], st, out)
        return p26.Y.e_Ctor(self, n, st, out)
    def e_OCall(self, n, st, out):
        # a list that is known is copied element by element
        a = n['a']
        if n.get('n') == 'operator=' and len(a) == 2 and a[1]['k'] in ('Mem', 'Ref', 'Var'):
            pairs = [(s2, lv, y) for s, y in self.lv(a[1], st, out) for s2, lv in self.lv(a[0], s, out)]
            if pairs and all(('size', y) in s.env for s, lv, y in pairs):
                for s, lv, y in pairs:
                    for k in [k for k in s.env if k[0] == 'elem' and k[1] == lv]: del s.env[k]
                    for k, v in list(s.env.items()):
                        if k[0] == 'elem' and k[1] == y: s.env[('elem', lv) + k[2:]] = v
                    s.env[('size', lv)] = s.env[('size', y)]
                return [(s, ('ref', lv)) for s, lv, y in pairs]
        return p26.Y.e_OCall(self, n, st, out)
    def args(self, n, st, out):
        # a list that is known is passed as it is
        w = n.get('w', '')
        if 'v' in w:
            m = list(w); a = n.get('a', [])
            for i, x in enumerate(a):
                if i < len(m) and m[i] == 'v' and x['k'] in ('Ref', 'Mem') and 'vector' in x.get('t', ''):
                    if all(('size', lv) in s.env for s, lv in self.lv(x, st, out)): m[i] = 'r'
            if m != list(w): n = dict(n, w=''.join(m))
        return p26.Y.args(self, n, st, out)
    def pointee(self, v):
        if v[0] == 'iter': return ('elem', v[1], num(v[2]))
        return p26.Y.pointee(self, v)
    def s_RFor(self, n, sts):
        out = engine.Flow(); cur = []; done = []
        for st in sts:
            for s, v in self.lv(n['range'], st, out): cur.append((s, v, const(s.env.get(('size', v), ('x',)))))
        if any(not isinstance(k, int) or k > 12 for s, v, k in cur): return p26.Y.s_RFor(self, n, sts)
        var = n['var']
        for s, v, k in cur:
            live = [s]
            for i in range(k):
                for x in live:
                    el = ('elem', v, num(i))
                    x.env[('loc', self.frame, var['id'], var['n'])] = ('ref', el) if var.get('t', '').endswith('&') else self.load(el, x)
                f = self.ex(n.get('body'), live)
                out.r += f.r; out.t += f.t; done += f.b
                live = self.merge(f.n + f.c)
            done += live
        out.n = self.merge(done)
        return out
    def assume(self, term, pol, st, node):
        # generic data: a number that was given is not zero and not small
        if term[0] == 'bin' and term[1] in ('<', '<=', '>', '>=', '==', '!='):
            a, b = [self.load(x[1], st) if x[0] == 'ref' else x for x in term[2:4]]
            u, v = rnum(a), rnum(b)
            if u is not None and v is not None:
                r = {'<': u < v, '<=': u <= v, '>': u > v, '>=': u >= v, '==': u == v, '!=': u != v}[term[1]]
                return st if r == pol else None
            if term[1] in ('==', '!='):
                u, v = text(a), text(b)
                if u is not None and v is not None: return st if ((u == v) == (term[1] == '==')) == pol else None
                if a[0] == b[0] == 'thisptr': return st if ((a == b) == (term[1] == '==')) == pol else None
            if term[1] in ('==', '!=') and any(z[0] == 'ctor' and 'complex' in str(z[1]) for z in (a, b)):
                try: return st if (same(a, b, Conv()) == (term[1] == '==')) == pol else None
                except Big: pass
            for x, y, flip in ((a, b, False), (b, a, True)):
                neg = x[0] == 'un' and x[1] == '-' and x[2][0] == 'sym'
                if (x[0] == 'sym' or neg) and rnum(y) is not None:
                    op = term[1]
                    if op in ('==', '!='): return st if (op == '!=') == pol else None
                    big = op in ('>', '>=')
                    if flip != neg: big = not big
                    return st if big == pol else None
        else:
            v = self.load(term[1], st) if term[0] == 'ref' else term
            if v[0] == 'thisptr': return st if pol else None
        return p26.Y.assume(self, term, pol, st, node)

def shadowed(db, clss):
    seen = {}
    for c in clss:
        for f in db.fields(c): seen.setdefault(f['n'], set()).add(c)
    return frozenset(n for n, c in seen.items() if len(c) > 1)

def family(db, bus, branch):
    r = []
    for c in (bus, branch):
        for k in [c] + list(db.bases(c)):
            if k not in r and k in db.recs: r.append(k)
    return r

def key_of(t):
    s = [x for x in subterms(t) if isinstance(x, tuple) and len(x) > 1 and x[0] == 'str']
    return s[0][1].strip('"') if len(s) == 1 else None

def vectors(H):
    """lists that are filled"""
    def vec(obj): return obj is not None and obj[0] in ('fld', 'loc', 'elem')
    def drop(st, obj):
        for k in [k for k in st.env if k[0] == 'elem' and k[1] == obj]: del st.env[k]
    def clear(it, node, obj, args, st):
        if not vec(obj): return None
        drop(st, obj); st.env[('size', obj)] = num(0)
        return ('void',)
    def push(it, node, obj, args, st):
        if not vec(obj): return None
        n = const(st.env.get(('size', obj), num(0)))
        if not isinstance(n, int): return None
        v = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
        st.env[('elem', obj, num(n))] = v; st.env[('size', obj)] = num(n + 1)
        return ('void',)
    def empty(it, node, obj, args, st):
        n = const(st.env.get(('size', obj), None) or ('x',)) if vec(obj) else None
        return num(1 if n == 0 else 0) if isinstance(n, int) else None
    def size(it, node, obj, args, st):
        return st.env.get(('size', obj))
    def begin(it, node, obj, args, st):
        n = st.env.get(('size', obj)) if vec(obj) else None
        return ('iter', obj, 0) if n is not None and isinstance(const(n), int) else None
    def end(it, node, obj, args, st):
        n = st.env.get(('size', obj)) if vec(obj) else None
        return ('iter', obj, const(n)) if n is not None and isinstance(const(n), int) else None
    def bit(it, node, obj, args, st):
        v = it.load(obj, st) if obj is not None and obj[0] in ('elem', 'fld', 'loc') else None
        return v if v is not None and isinstance(const(v), int) else None
    def span(it, args, st):
        if len(args) >= 2 and args[0][0] == args[1][0] == 'iter' and args[0][1] == args[1][1]:
            return [(i, it.load(('elem', args[0][1], num(i)), st)) for i in range(args[0][2], args[1][2])]
    def find(it, node, obj, args, st):
        xs = span(it, args, st) if node['k'] == 'Call' else None
        if xs is None or len(args) != 3: return None
        w = it.load(args[2][1], st) if args[2][0] == 'ref' else args[2]
        for i, v in xs:
            if v == w: return ('iter', args[0][1], i)
            if const(v) is None or const(w) is None: return None
        return args[1]
    def count(it, node, obj, args, st):
        xs = span(it, args, st) if node['k'] == 'Call' else None
        if xs is None or len(args) != 3: return None
        w = it.load(args[2][1], st) if args[2][0] == 'ref' else args[2]
        if any(const(v) is None for i, v in xs) or const(w) is None: return None
        return num(sum(v == w for i, v in xs))
    def accumulate(it, node, obj, args, st):
        xs = span(it, args, st) if node['k'] == 'Call' else None
        if xs is None or len(args) != 3: return None
        r = it.load(args[2][1], st) if args[2][0] == 'ref' else args[2]
        for i, v in xs: r = engine.fold('+', r, v)
        return r
    def swap(it, node, obj, args, st):
        if len(args) == 2 and all(a[0] == 'ref' for a in args):
            x, y = it.load(args[0][1], st), it.load(args[1][1], st)
            st.env[args[0][1]], st.env[args[1][1]] = y, x
            return ('void',)
    H.update({'find': find, 'count': count, 'accumulate': accumulate, 'begin': begin, 'end': end, 'cbegin': begin, 'cend': end, 'swap': swap, 'operator bool': bit, 'clear': clear, 'push_back': push, 'empty': empty, 'size': size})
    return H

def values(given):
    """reads of the network data of a component"""
    def h(it, node, obj, args, st):
        if obj is None: return None
        a = [it.load(x[1], st) if x[0] == 'ref' else x for x in args]
        k = key_of(a[0])
        i = const(a[2]) if len(a) > 2 else None
        for o in p26.outargs(args[1:2]):
            for kk in ((k, i), (k, None)):
                if kk in given:
                    st.env[o] = given[kk]
                    return num(1)
        return num(0)
    return h

def net(db, clss, f, this, env, extra=None, args=None, tags=()):
    H = vectors({}); H.update(extra or {})
    def tp(x): return ('thisptr', x)
    def getb(it, node, obj, args, st):
        if obj == L or (obj is not None and obj[0] == 'thisptr' and obj[1] == L): return tp(A if node['n'] == 'getBus1' else B)
    def geti(it, node, obj, args, st):
        if obj == L: return num(1 if 'Bus1' in node['n'] else 2)
        if obj == A: return num(1)
        if obj == B: return num(2)
    def neigh(it, node, obj, args, st):
        if len(args) == 1 and args[0][0] == 'ref':
            st.env[('elem', args[0][1], num(0))] = tp(L); st.env[('size', args[0][1])] = num(1)
            return ('void',)
    def get(it, node, obj, args, st):
        if obj is None: return None
        v = obj if obj[0] == 'thisptr' else it.load(obj, st)
        return v if v[0] == 'thisptr' else None
    for k, v in {'getBus1': getb, 'getBus2': getb, 'getBus1OriginalIndex': geti, 'getBus2OriginalIndex': geti, 'getOriginalIndex': geti, 'getNeighborBranches': neigh, 'get': get, 'inline': lambda fn: fn.cls in clss or (fn.cls is None and fn.file.startswith('applications/'))}.items(): H.setdefault(k, v)
    it = NY(db, clss[0]); it.hooks = H; it.dup = shadowed(db, clss)
    return it, [comp.Path(st, v) for k, st, v, n in it.run(f, this=this, env=dict(env), args=args) if k in ('ret', 'end')]


# ---- what the elements of a branch are --------------------------------------
KINDS = {'line': (0, 0, 1), 'reversed line': (0, 1, 1), 'transformer': (1, 0, 1), 'reversed transformer': (1, 1, 1)}
for k, (x, s, o) in list(KINDS.items()): KINDS[k + ' out of service'] = (x, s, 0)
def turned(kinds, n, on):
    k = kinds[n].replace(' out of service', '')
    return kinds[:n] + (k if on else k + ' out of service',) + kinds[n + 1:]
SB = S('sbase')
def data(kinds):
    g = {('BRANCH_NUM_ELEMENTS', None): num(len(kinds)), ('CASE_SBASE', None): SB}
    for i, k in enumerate(kinds):
        x, sw, on = KINDS[k]
        g[('BRANCH_STATUS', i)] = num(on); g[('BRANCH_SWITCHED', i)] = num(sw); g[('BRANCH_CKT', i)] = ('str', 'T%d' % i)
        for n in ('X', 'R', 'B'): g[('BRANCH_' + n, i)] = S(n, i)
        for n in ('G1', 'B1', 'G2', 'B2'): g[('BRANCH_SHUNT_ADMTTNC_' + n, i)] = S(n, i)
        g[('BRANCH_TAP', i)] = S('tap', i) if x else num(0)
        g[('BRANCH_SHIFT', i)] = S('shift', i) if x else num(0)
    return g

def busdata(w):
    g = {('CASE_SBASE', None): SB}
    for k, n in (('BUS_SHUNT_GL', 'GL'), ('BUS_SHUNT_BL', 'BL')): g[(k, None)] = S(n, w[1])
    if w == A: g[('SHUNT_BINIT', None)] = S('BI', w[1])
    return g
def shuntof(w):
    return cx(div(S('GL', w[1]), SB), div(add(S('BL', w[1]), S('BI', w[1])) if w == A else S('BL', w[1]), SB))

def bop(op):
    def f(a, b): return ('bin', op, a, b)
    return f
add, sub, mul, div = bop('+'), bop('-'), bop('*'), bop('/')
def cx(r, i): return ('ctor', 'std::complex', r, i)
def conj(z): return ('call', 'conj', ('noobj',), z)
def fun(n, x): return ('call', n, ('noobj',), x)
PHI = lambda i: div(mul(S('shift', i), mul(num(4), fun('atan', num(1)))), num(180))

def twoport(kinds, i, ends=True, service=True):
    """the admittances of one element as seen from the two buses: (bus1,bus1), (bus2,bus2), (bus1,bus2), (bus2,bus1)"""
    x, sw, on = KINDS[kinds[i]]
    if service and not on: return [cx(num(0), num(0))] * 4
    y = div(num(1), cx(S('R', i), S('X', i)))
    t = add(y, cx(num(0), div(S('B', i), num(2))))
    ff = tt = t; ft = tf = sub(num(0), y)
    if x:
        a = mul(S('tap', i), cx(fun('cos', PHI(i)), fun('sin', PHI(i))))
        ff = div(t, mul(S('tap', i), S('tap', i)))
        ft = sub(num(0), div(y, conj(a))); tf = sub(num(0), div(y, a))
    if ends:
        ff = add(ff, cx(S('G1', i), S('B1', i))); tt = add(tt, cx(S('G2', i), S('B2', i)))
    return [tt, ff, tf, ft] if sw else [ff, tt, ft, tf]

def total(kinds, k, **kw):
    r = cx(num(0), num(0))
    for i in range(len(kinds)): r = add(r, twoport(kinds, i, **kw)[k])
    return r

def same(a, b, conv):
    """are two complex terms equal"""
    (p, q), (r, s) = csplit(a), csplit(b)
    return ratf.equal(p, r, conv) and ratf.equal(q, s, conv)

APPS = [('power flow', 'gridpack::powerflow::PF', 'applications/components/pf_matrix/pf_components.hpp', 'PFMode', 'YBus'),
        ('state estimation', 'gridpack::state_estimation::SE', 'applications/components/se_matrix/se_components.hpp', 'SEMode', 'YBus'),
        ('dynamic simulation (reduced)', 'gridpack::dynamic_simulation_r::DS', 'applications/components/ds_matrix/ds_components.hpp', 'DSMode', 'YBUS'),
        ('Kalman filter', 'gridpack::kalman_filter::Kalman', 'applications/components/kds_matrix/kds_components.hpp', 'KalmanMode', 'YBus'),
        ('dynamic simulation', 'gridpack::dynamic_simulation::DSFull', 'applications/modules/dynamic_simulation_full_y/dsf_components.hpp', 'DSMode', 'YBUS'),
        ('network matrix', 'gridpack::ymatrix::YM', 'applications/components/y_matrix/ymatrix_components.hpp', 'YMatrixMode', 'YBus')]

def state(p):
    """what a run leaves in the components"""
    out = {}
    for k, v in p.st.env.items():
        b = k[1] if k[0] == 'size' else k
        while b[0] in ('elem', 'fld', 'deref') and b[1] not in (A, B, L): b = b[1]
        if b[0] == 'fld' and b[1] in (A, B, L): out[k] = v
    return out

def runs(db, clss, f, who, env, extra=None, args=None):
    """the distinct results of a method"""
    it, ps = net(db, clss, f, who, env, extra, args)
    seen = {}
    for p in ps:
        k = (frozenset(state(p).items()), p.ret, frozenset((k, v) for k, v in p.st.env.items() if k[0] in ('elem', 'deref') and k[1][0] == 'par'))
        seen.setdefault(k, p)
    return it, list(seen.values())

def method(db, cls, name, fam, pred=lambda s: True):
    order = [cls] + list(db.bases(cls))
    r = [f for s, f in comp.final(db, cls, name).items() if f.cls in fam and pred(s)]
    r.sort(key=lambda f: order.index(f.cls))
    return r[0] if r and (len(r) == 1 or r[0].cls != r[1].cls) else None

CASES = [('line',), ('transformer',), ('reversed transformer',), ('reversed line',), ('line', 'transformer'), ('transformer', 'reversed transformer'),
         ('line out of service', 'line'), ('transformer out of service', 'reversed transformer'), ('line', 'line'), ('transformer out of service',), ('reversed transformer', 'line out of service')]

def bus0(fam, dup):
    env = {}
    for w in (A, B):
        for n in ('p_isolated',):
            for c in fam: env[('fld', w, '::'.join(c.split('::')[-1:] + [n]) if n in dup else n)] = num(0)
    return env

# ---- angles of sums ---------------------------------------------------------
from fractions import Fraction
def expand(t):
    """sin and cos of sums written with those of the parts"""
    if not (isinstance(t, tuple) and t): return t
    if t[0] == 'call' and ratf.fname(t) in ('sin', 'cos') and len(ratf.fargs(t)) == 1:
        n, d = Conv()(ratf.fargs(t)[0])
        if not d:
            s, c = num(0), num(1)
            for m in sorted(n, key=repr):
                k = n[m]
                at = S('angle', (repr(sorted(m, key=repr)), abs(k)))
                sn, cs = fun('sin', at), fun('cos', at)
                if k < 0: sn = ratf.sub(num(0), sn)
                s, c = ratf.add(ratf.mul(s, cs), ratf.mul(c, sn)), ratf.sub(ratf.mul(c, cs), ratf.mul(s, sn))
            return s if ratf.fname(t) == 'sin' else c
        return t
    return tuple(expand(x) if isinstance(x, tuple) else x for x in t)

def strip(t):
    return t

def flow(i, j, Yii, Yij):
    """power that leaves bus i: V_i conj(Y_ii V_i + Y_ij V_j)"""
    vi, vj = [cx(mul(S('v', w[1]), fun('cos', S('a', w[1]))), mul(S('v', w[1]), fun('sin', S('a', w[1])))) for w in (i, j)]
    return mul(vi, conj(add(mul(Yii, vi), mul(Yij, vj))))

def requal(a, b, conv):
    return ratf.equal(expand(reim(a)), expand(reim(b)), conv)

def csame(a, b, conv):
    (p, q), (r, s) = csplit(a), csplit(b)
    return ratf.equal(expand(p), expand(r), conv) and ratf.equal(expand(q), expand(s), conv)

class App(object):
    """one application's network of two buses and a branch, set up from given data"""
    of = 'a branch of '
    def __init__(self, db, R, name, cls, hdr, en, ym):
        self.db, self.R, self.name = db, R, name
        self.bus, self.branch = cls + 'Bus', cls + 'Branch'
        self.ok = self.bus in db.recs and self.branch in db.recs
        if not self.ok: return
        self.fam = family(db, self.bus, self.branch); self.dup = shadowed(db, self.fam)
        self.modes = enum(hdr, en); self.ym = ym
        self.conv = Conv(); self.bad = {}
    def field(self, cls, n):
        for c in [cls] + list(self.db.bases(cls)):
            if any(f['n'] == n for f in self.db.fields(c)): return '::'.join([c.split('::')[-1], n]) if n in self.dup else n
    def meth(self, cls, n, pred=lambda s: True): return method(self.db, cls, n, self.fam, pred)
    def step(self, states, fn, who, extra=None, args=None):
        out = []
        if fn is None: return []
        for s in states:
            it, ps = runs(self.db, self.fam, fn, who, s, extra, args)
            if it.trunc: self.R.count('explorations cut short')
            for p in ps:
                o = state(p)
                if o not in out: out.append(o)
        return out
    def setup(self, kinds, volts=True):
        env = bus0(self.fam, self.dup)
        for w, c in ((A, self.bus), (B, self.bus), (L, self.branch)):
            for k in [c] + list(self.db.bases(c)):
                for f in self.db.fields(k):
                    if 'vector<' in f.get('t', '') and k in self.fam: env[('size', ('fld', w, '::'.join([k.split('::')[-1], f['n']]) if f['n'] in self.dup else f['n']))] = num(0)
        st = self.built(env)
        env = st[0] if len(st) == 1 else env
        for w in (A, B): self.voltage(env, w)
        st = self.step([env], self.meth(self.branch, 'load'), L, {'getValue': values(data(kinds))})
        for w in (A, B): st = self.step(st, self.meth('gridpack::ymatrix::YMBus', 'load'), w, {'getValue': values(busdata(w))})
        st = self.network(st)
        if not st: self.R.count('cases not followed')
        else: self.R.count('cases followed')
        return st
    def voltage(self, env, w):
        """the voltage of a bus is what it is"""
        for n, ptr, m in (('v', 'p_vMag_ptr', 'p_v'), ('a', 'p_vAng_ptr', 'p_a'), ('v', None, 'p_voltage'), ('a', None, 'p_angle')):
            f = self.field(self.bus, m)
            if f: env[('fld', w, f)] = S(n, w[1])
            g = ptr and self.field(self.bus, ptr)
            if g:
                env.pop(('fld', w, g), None)
                env[('deref', ('fld', w, g))] = S(n, w[1])
    def built(self, env):
        """the components as they are constructed"""
        st = [env]
        for w, c in ((A, self.bus), (B, self.bus), (L, self.branch)):
            for k in reversed([c] + [k for k in self.db.bases(c) if k in self.fam]):
                fs = [f for f in self.db.fns.values() if f.isctor and f.cls == k and f.b is not None and not f.ps]
                if len(fs) == 1: st = self.step(st, fs[0], w)
        return st
    def network(self, st):
        for who, c in ((L, self.branch), (A, self.bus), (B, self.bus)):
            f = self.meth(c, 'setYBus')
            if f: st = self.step(st, f, who)
        return st
    def mode(self, states, m, whos=(A, B, L)):
        for w in whos:
            states = self.step(states, self.meth(self.branch if w == L else self.bus, 'setMode'), w, None, [num(self.modes[m])])
        return states
    def fail(self, rule, f, what, kinds, got):
        self.bad.setdefault((rule, f, what), (kinds, got))
    def flush(self):
        for (rule, f, what), (kinds, got) in self.bad.items():
            self.R.report(rule, f.file, f.l, f.q, '%s: %s, for %s' % (self.name, what, (self.of + ' and '.join(kinds))), 'computed %s' % (show(got)[:400] if got is not None else 'none'))
    def agree(self, rule, f, what, kinds, got, wants, eq=csame):
        self.R.count('quantities compared')
        if got is None:
            if any(eq(cx(num(0), num(0)), w, self.conv) for w in wants): self.R.count('quantities that agree'); return True
            self.fail(rule, f, what, kinds, got); return False
        try:
            if any(eq(got, w, self.conv) for w in wants): self.R.count('quantities that agree'); return True
        except Big: self.R.count('quantities not decided'); return True
        self.fail(rule, f, what, kinds, got)
        return False

def bustotal(kinds, w, **kw):
    me, other = ((0, 2) if w == A else (1, 3))
    return add(total(kinds, me, **kw), shuntof(w)), total(kinds, other, **kw)

WHAT = {'Diag': 'diagonal', 'Forward': 'forward', 'Reverse': 'reverse'}
def entries(app, sts, mode, rule, kinds, want, what):
    """compare the entries of a matrix"""
    sts = app.mode(sts, mode)
    for (dirn, who), w in want.items():
        g = app.meth(app.branch if who == L else app.bus, 'matrix%sValues' % dirn, lambda s: 'complex' in s.lower())
        if g is None: app.R.count('matrices not found'); continue
        for s in sts:
            it, ps = runs(app.db, app.fam, g, who, s)
            for p in ps: app.agree(rule, g, what % WHAT[dirn], kinds, p26.stores(p).get(0), [w], same)

def whole(kinds):
    return {('Diag', A): bustotal(kinds, A)[0], ('Diag', B): bustotal(kinds, B)[0], ('Forward', L): total(kinds, 2), ('Reverse', L): total(kinds, 3)}

def matrices(app):
    for kinds in CASES:
        entries(app, app.setup(kinds), app.ym, 'M1', kinds, whole(kinds), 'the %s entry of the network matrix is not the sum of the admittances')

def power(app, sts, kinds, rule='M2'):
    for name, i, j, ks in (('getComplexPower', A, B, (0, 2)), ('getRvrsComplexPower', B, A, (1, 3))):
        f = app.meth(app.branch, name)
        if f is None: continue
        for n in range(len(kinds)):
            for s in sts:
                it, ps = runs(app.db, app.fam, f, L, s, None, [('str', 'T%d' % n)])
                for p in ps:
                    w = [mul(flow(i, j, *[twoport(kinds, n, ends=e)[k] for k in ks]), SB) for e in (False, True)]
                    app.agree(rule, f, 'the power into an element is not that of its admittances', (kinds[n],), p.ret, w)

def flows(app):
    """the power that flows into one element"""
    for kinds in CASES: power(app, app.setup(kinds), kinds)

CLEAN = {'clean2Char': lambda it, node, obj, args, st: it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]}
def tag(n): return ('str', 'T%d' % n)

def switched(app, name):
    """an element that is switched counts from then on as one with its new status"""
    f = app.meth(app.branch, name)
    if f is None: return
    for kinds in CASES:
        sts = app.setup(kinds)
        for n in range(len(kinds)):
            on = KINDS[kinds[n]][2]
            got = app.network(app.step(sts, f, L, CLEAN, [tag(n), num(1 - on)]))
            k = turned(kinds, n, not on)
            entries(app, got, app.ym, 'M5', k, whole(k), 'after an element is switched, the %s entry of the network matrix is not that of the elements now in service')
            power(app, got, k, 'M5')
            present(app, got, k, f)
        for n in range(len(kinds)): present(app, sts, kinds, app.meth(app.branch, 'load'))

def present(app, sts, kinds, f):
    """a branch with an element in service joins its buses in the Newton matrix"""
    if not any(KINDS[k][2] for k in kinds) or 'Jacobian' not in app.modes: return
    for name in ('matrixForwardSize', 'matrixReverseSize'):
        g = app.meth(app.branch, name)
        if g is None: continue
        for s in app.mode(sts, 'Jacobian'):
            s = dict(s)
            for w in (A, B):
                for m, v in (('p_isolated', 0), ('p_isReference', 0), ('p_refBus', 0)):
                    x = app.field(app.bus, m)
                    if x: s[('fld', w, x)] = num(v)
            it, ps = runs(app.db, app.fam, g, L, s)
            for p in ps:
                app.R.count('quantities compared')
                if p.ret is not None and const(p.ret) == 0: app.fail('M5', f, 'a branch with an element in service is absent from the Newton matrix', kinds, None)
                else: app.R.count('quantities that agree')

def residual(app):
    """power flow: the mismatch is the power of the network matrix less what is specified"""
    f = app.meth(app.bus, 'vectorValues', lambda s: 'complex' in s.lower())
    for kinds in CASES:
        sts = app.mode(app.setup(kinds), 'RHS')
        for who, other in ((A, B), (B, A)):
            pq = csplit(flow(who, other, *bustotal(kinds, who)))
            for s in sts:
                it, ps = runs(app.db, app.fam, f, who, s)
                for p in ps:
                    for k, got in sorted(p26.stores(p).items()):
                        d = ratf.reduce(app.conv(expand(ratf.sub(reim(got), pq[k])))[0])
                        app.R.count('quantities compared')
                        if any("'sym', '%s'" % n in repr(d) for n in 'va') or "'sin'" in repr(d):
                            app.fail('M3', f, 'the %s mismatch is not the power of the network less what is specified' % ('active', 'reactive')[k], kinds, got)
                        else: app.R.count('quantities that agree')

def trips(app):
    """taking an element out of service changes the network matrix by its admittances"""
    def change(kinds, which, sign):
        y = [cx(num(0), num(0))] * 4
        for n in which: y = [add(a, b) for a, b in zip(y, twoport(kinds, n, service=False))]
        y = [mul(num(sign), z) for z in y]
        return {('Diag', A): y[0], ('Diag', B): y[1], ('Forward', L): y[2], ('Reverse', L): y[3]}
    f = app.meth(app.branch, 'setLineStatus')
    g = app.meth(app.branch, 'setBranchTripAction', lambda s: 'string' in s)
    h = app.meth(app.branch, 'clearBranchTripAction')
    if f is None or g is None or h is None: app.R.count('operations not found'); return
    SW = 'switching an element does not change the %s entry of the network matrix by its admittance'
    TR = 'tripping an element does not change the %s entry of the network matrix by its admittance'
    for kinds in CASES:
        sts = app.setup(kinds)
        for n in range(len(kinds)):
            on = KINDS[kinds[n]][2]
            got = app.step(sts, f, L, CLEAN, [tag(n), num(1 - on)])
            entries(app, got, 'LINESTATUSCHANGE', 'M4', (kinds[n],), change(kinds, [n], -1 if on else 1), SW)
            # to what it already is
            entries(app, app.step(sts, f, L, CLEAN, [tag(n), num(on)]), 'LINESTATUSCHANGE', 'M4', (kinds[n],), change(kinds, [], 1), 'switching an element to what it is changes the %s entry of the network matrix')
            trip = app.step(sts, g, L, None, [tag(n)])
            entries(app, trip, 'branch_trip_action', 'M4', (kinds[n],), change(kinds, [n] if on else [], -1), TR)
            if not on: continue
            # an element that is out of service already
            k = turned(kinds, n, False)
            entries(app, app.step(got, g, L, None, [tag(n)]), 'branch_trip_action', 'M4', k, change(kinds, [], 1), 'tripping an element that was switched off changes the %s entry of the network matrix')
            done = app.step(trip, h, L)
            entries(app, app.step(done, f, L, CLEAN, [tag(n), num(0)]), 'LINESTATUSCHANGE', 'M4', k, change(kinds, [], 1), 'switching off an element that was tripped changes the %s entry of the network matrix')
            entries(app, app.step(done, g, L, None, [tag(n)]), 'branch_trip_action', 'M4', k, change(kinds, [], 1), 'tripping an element twice changes the %s entry of the network matrix twice')
            entries(app, app.network(done), app.ym, 'M5', k, whole(k), 'after an element is tripped, the %s entry of the network matrix is not that of the elements now in service')
        if len(kinds) == 2 and all(KINDS[k][2] for k in kinds):
            both = app.step(app.step(sts, g, L, None, [tag(0)]), g, L, None, [tag(1)])
            entries(app, both, 'branch_trip_action', 'M4', kinds, change(kinds, [0, 1], -1), 'tripping two elements at once does not change the %s entry of the network matrix by their admittances')

def measured(app):
    """state estimation: what a measurement of a flow is compared with is the flow"""
    f = app.meth(app.branch, 'vectorGetElementValues', lambda s: 'complex' in s.lower())
    g = app.meth(app.branch, 'setMode')
    fld = app.field(app.branch, 'p_meas')
    if f is None or g is None or fld is None: app.R.count('operations not found'); return
    for kinds in CASES:
        sts = app.mode(app.setup(kinds), 'Jacobian_H')
        for n in range(len(kinds)):
            if not KINDS[kinds[n]][2]: continue
            for typ, i, j, ks, part in (('PIJ', A, B, (0, 2), 0), ('QIJ', A, B, (0, 2), 1), ('PJI', B, A, (1, 3), 0), ('QJI', B, A, (1, 3), 1)):
                m = ('elem', ('fld', L, fld), num(0))
                for s in sts:
                    s = dict(s); s[('size', ('fld', L, fld))] = num(1)
                    s[('fld', m, 'p_type')] = ('str', typ); s[('fld', m, 'p_ckt')] = tag(n); s[('fld', m, 'p_value')] = S('measured')
                    it, ps = runs(app.db, app.fam, f, L, s)
                    for p in ps:
                        got = p.st.env.get(('elem', ('par', 'values', 0), num(0)))
                        w = [cx(sub(S('measured'), csplit(flow(i, j, *[twoport(kinds, n, ends=e)[k] for k in ks]))[part]), num(0)) for e in (False, True)]
                        app.agree('M6', f, 'the residual of a measurement of kind %s is not the measured less the flow' % typ, (kinds[n],), got, w)

DSIM = ('DSimBus', 'DSimBranch')
def dsim(db, R):
    """the module that keeps the network as algebraic equations"""
    if any(c not in db.recs for c in DSIM): return
    app = App.__new__(App)
    app.db, app.R, app.name, app.bus, app.branch = db, R, 'dynamic simulation (DAE)', DSIM[0], DSIM[1]
    app.fam = family(db, *DSIM); app.dup = shadowed(db, app.fam); app.conv = Conv(); app.bad = {}
    load, bload = app.meth(DSIM[1], 'load'), app.meth(DSIM[0], 'load')
    gets = [app.meth(DSIM[1], n) for n in ('getForwardSelfAdmittance', 'getReverseSelfAdmittance', 'getForwardTransferAdmittance', 'getReverseTransferAdmittance')]
    if None in gets or not load: R.count('operations not found'); return
    for w in (A, B):
        sts = app.step(app.built({}), bload, w, {'getValue': values(busdata(w))})
        R.count('cases followed' if sts else 'cases not followed')
        for s in sts:
            got = cx(s.get(('fld', w, 'p_gl'), num(0)), s.get(('fld', w, 'p_bl'), num(0)))
            app.agree('M1', bload, 'the shunt of a bus is not the sum of its shunts', ('a bus',), got, [shuntof(w)], same)
    for kinds in CASES:
        sts = app.step(app.built({}), load, L, {'getValue': values(data(kinds))})
        R.count('cases followed' if sts else 'cases not followed')
        for k, g in enumerate(gets):
            for s in sts:
                it, ps = runs(db, app.fam, g, L, s)
                for p in ps:
                    o = [next((v for k, v in p.st.env.items() if k[0] == 'deref' and k[1][0] == 'par' and k[1][-1] == i), None) for i in (0, 1)]
                    got = cx(*[num(0) if x is None else x for x in o])
                    app.agree('M1', g, 'the admittance is not the sum of those of the elements in service', kinds, got, [total(kinds, k)], same)
    app.flush()

def analyse(db, R):
    R.rule('M1', 'The entries of the network matrix are the sums of the admittances of the elements in service, and of the shunts of the bus.')
    R.rule('M2', 'The power that flows into an element is that of its admittances, and zero for an element out of service.')
    R.rule('M3', 'The mismatch of the power flow is the power of the network less what is specified.')
    R.rule('M4', 'Taking an element out of service, or back into service, changes the network matrix by its admittances.')
    R.rule('M5', 'An element that is switched or tripped counts from then on as one with its new status.')
    R.rule('M6', 'A measurement of a flow is compared with the flow of the network.')
    dsim(db, R)
    for a in APPS:
        app = App(db, R, *a)
        if not app.ok: continue
        matrices(app)
        flows(app)
        if a[0] == 'power flow': residual(app)
        if a[0] == 'state estimation': measured(app)
        if a[0] == 'power flow': switched(app, 'setBranchStatus')
        if a[0] in ('network matrix', 'dynamic simulation'): switched(app, 'setLineStatus')
        if a[0] == 'dynamic simulation': trips(app)
        app.flush()
    R.floor('cases followed', 150); R.floor('quantities compared', 650); R.floor('quantities that agree', 600)
