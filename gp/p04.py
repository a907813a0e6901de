"""Distributed arrays are sized and addressed for any amount of data, also none."""
import engine, poly
from engine import walk, calls, subterms
EXPLAIN = ('Every creation of a distributed array and every access to a section of one is visited on every path of the function that makes it, '
 'with sizes and bounds as linear forms over the inputs of the path. An array spread in one block per process must have at least one element per block (I1); '
 'a section is either not empty on the path (from the conditions on it, or because the bounds differ by a non-negative amount) or not accessed (I2); '
 'an array whose size is counted at run time is created only when the count is positive (I3).')
SECT = {'NGA_Get': (1, 2), 'NGA_Put': (1, 2), 'NGA_Acc': (1, 2), 'NGA_Access': (1, 2), 'NGA_Release': (1, 2), 'NGA_Release_update': (1, 2), 'NGA_NbGet': (1, 2), 'NGA_NbPut': (1, 2)}


def lin(t): return poly.poly(t)
def minus(a, b): return poly.padd(a, b, -1)
def constof(p):
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    return None

def ineqs(guards):
    """linear forms E known to be >= 0"""
    for t, pol in guards:
        if t[0] == 'bin' and t[1] == '>':
            a, b = lin(unphi(t[2]) if pol and (engine.const(t[3]) or 0) >= 0 else t[2]), lin(t[3])
            if pol: yield poly.padd(minus(a, b), {(): -1})
            else: yield minus(b, a)
        elif t[0] == 'bin' and t[1] == '==' and pol:
            a, b = lin(t[2]), lin(t[3])
            yield minus(a, b); yield minus(b, a)
        elif t[0] == 'bin' and t[1] == '==' and not pol:
            # a count that is not zero
            # (dimensions are counts, sums of counts or maxima of indices from -1 or 0: never negative)
            if engine.const(t[3]) == 0: yield poly.padd(lin(t[2]), {(): -1})

def count(t):
    return t[0] == 'call' and t[1].endswith('::size') or t[0] == 'fn' and t[1] == 'size'

def nonneg(p, guards, atleast):
    """is the linear form p >= 0: constant, or at least a known inequality, or a sum of atoms with known lower bounds"""
    c = constof(p)
    if c is not None: return c >= 0
    for e in ineqs(guards):
        # p = k*e + c with k > 0, c >= 0
        ks = [m for m in e if m != ()]
        if not ks: continue
        m = ks[0]
        if m not in p: continue
        k = p[m] / e[m]
        if k <= 0: continue
        c = constof(minus(p, {x: v * k for x, v in e.items()}))
        if c is not None and c >= 0: return True
    tot = p.get((), 0)
    for m, v in p.items():
        if m == (): continue
        lo = atleast(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if lo is None or v < 0: return False
        tot += v * lo
    return tot >= 0

class I(engine.Interp):
    def __init__(self, db):
        engine.Interp.__init__(self, db)
        self.out = []; self.dims = []; self.irreg = []
    def facts0(self): return frozenset()
    def should_inline(self, fn, node, st): return False
    def deref(self, a, st):
        if a[0] == 'addr': return a[1]
        if a[0] == 'ref': return self.load(a[1], st)
        return a
    def opaque(self, n, obj, vs, s):
        q = n.get('q') or ''
        if q.startswith(('GA_', 'NGA_')):
            # the library reads the bounds, dimensions and distributions it is given
            keep = {}
            for i, v in enumerate(vs):
                if v[0] == 'addr' and not (q == 'NGA_Distribution' or q == 'NGA_Access' and i > 2 or q in ('NGA_Get', 'NGA_Gather') and i == 3 or 'gop' in q):
                    if v[1] in s.env: keep[v[1]] = s.env[v[1]]
            r = engine.Interp.opaque(self, n, obj, vs, s)
            for v in vs:
                if v[0] == 'addr':
                    if v[1] in keep: s.env[v[1]] = keep[v[1]]
                    elif v[1] in s.env and not (q == 'NGA_Distribution' or q == 'NGA_Access' or 'gop' in q): del s.env[v[1]]
            return r
        return engine.Interp.opaque(self, n, obj, vs, s)
    def on_call(self, n, obj, args, st):
        q = n.get('q') or ''
        if q in ('GA_Set_data', 'NGA_Set_data'):
            h = self.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            d = self.deref(args[2], st)
            nd = engine.const(self.load(args[1][1], st) if args[1][0] == 'ref' else args[1])
            dims = (self.load(d, st),) if n['a'][2].get('k') == 'Un' else tuple(self.load(('elem', d, ('int', i)), st) for i in range(nd or 0))
            st.facts = frozenset(x for x in st.facts if x[1] != h) | {('dim', h, dims)}
            self.dims.append((n, dims, st.guards))
        if q in ('GA_Set_irreg_distr', 'NGA_Set_irreg_distr'):
            h = self.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            for x in st.facts:
                if x[1] == h: self.irreg.append((n, x[2], self.load(self.deref(args[2], st), st), st.guards))
        if q in SECT:
            a, b = self.deref(args[1], st), self.deref(args[2], st)
            self.out.append((n, q, a, b, self.load(a, st), self.load(b, st), st.guards))
        return None

def sec(t):
    return not any(isinstance(x, tuple) and x and x[0] == 'undef' for x in subterms(t))

SIZES = ('totalBuses',)      # a network has buses
# arrays with one element per bus of the network, counted here
BUSES = ('factory/base_factory.hpp', 'partition/adjacency_list.cpp')
def unphi(t):
    """a positive value of {n | 0} is n"""
    if t[0] == 'phi':
        r = [x for x in t[1:] if not (engine.const(x) is not None and engine.const(x) <= 0)]
        if len(r) == 1: return r[0]
    return t

def fresh(a):
    """value that the function counted itself, or got back from the group"""
    return a[0] in ('loop', 'hav', 'out')

def positive(d, g, total):
    """is the dimension d at least 1"""
    p = lin(d)
    if d[0] == 'phi' and any((engine.const(x) or 0) >= 1 for x in d[1:]): return True      # n, or at least 1 instead
    pos = []
    for t, pol in g:
        if t[0] == 'bin' and t[1] == '>' and pol and (engine.const(t[3]) or 0) >= 0:
            q = lin(t[2])
            if len(q) == 1: pos += list(q)[0]
        if t[0] == 'bin' and t[1] == '==' and not pol and t[3] == ('int', 0): pos.append((t[2], 1))
    def atleast(a):
        if (a, 1) in pos: return 1
        # sizes handed to the function, fixed at construction, or of the process group are not empty
        if a[0] in ('par', 'fld', 'init', 'deref') or a[0] == 'fn' and (a[1] in SIZES or 'nnodes' in a[1] or a[1] == 'size' and any(x[0] == 'par' for x in subterms(a))): return 1
        return 0
    if p.get((), 0) < 0: return False
    for m, v in p.items():
        if v < 0 or any(e < 0 for a, e in m): return False
    if p.get((), 0) >= 1: return True
    for m, v in p.items():
        lo = 1
        for a, e in m: lo *= atleast(a)
        if lo >= 1: return True
    for t, pol in g:      # the group left when there was nothing at all
        if t[0] == 'bin' and t[1] == '==' and not pol and t[3] == ('int', 0) and t[2][0] in ('hav', 'out'): return True
    return nonneg(poly.padd(p, {(): -1}), g, lambda a: 0)

def analyse(db, res):
    res.rule('I1', 'an array spread in one block per process has at least as many elements as blocks')
    res.rule('I2', 'a section of a distributed array is accessed only when it is not empty')
    res.rule('I3', 'a distributed array is created with at least one element')
    def atleast(a):
        return 0 if count(a) else None
    for f in db.fns.values():
        if f.b is None or '/test/' in f.file: continue
        if not any((n.get('q') or '') in SECT or (n.get('q') or '').endswith('GA_Set_data') for n in calls(f.b)): continue
        res.count("functions")
        it = I(db); it.run(f)
        for n, dims, g in it.dims:
            res.count('arrays')
            for d in dims:
                if fresh(d) and f.file in BUSES: continue
                if not positive(d, g, it): res.report('I3', f.file, n['l'], f.q, 'size %s' % engine.show(d), '; '.join(('' if p else '!') + engine.show(t) for t, p in g))
        for n, dims, bl, g in it.irreg:
            res.count('irregular')
            b = lin(bl)
            d = minus(lin(dims[0]), b)
            if not nonneg(d, g, lambda a: 0):
                res.report('I1', f.file, n['l'], f.q, 'size %s, blocks %s' % (engine.show(dims[0]), engine.show(bl)), 'with fewer elements than processes the library stops the run')
        for n, q, a, b, lo, hi, g in it.out:
            if n['a'][1].get('k') != 'Un' or not sec(lo) or not sec(hi) or lo[0] == 'loop' and lo[2][0] == 'loc' and any((lo, 1) in m for m in minus(lin(hi), lin(lo))): res.count('sections_multi'); continue
            d = minus(lin(hi), lin(lo))
            ok = nonneg(d, g, atleast)
            if not ok and lo == ('int', 0) and len(d) == 2 and d.get(()) == -1: ok = True    # the whole array
            if not ok:
                e = poly.padd(d, {(): 1})
                if len(e) == 1:
                    (m, v), = e.items()
                    ix = [x[2] for x, k in m if x[0] == 'elem']
                    if v > 0 and ix and any(pol and t[0] == 'bin' and t[1] == '>' and t[3] == ('int', -1) and t[2][0] == 'elem' and t[2][2] in ix for t, pol in g): ok = True
            res.count('sections')
            if not ok:
                res.report('I2', f.file, n['l'], f.q, '%s [%s] [%s]' % (q, engine.show(lo), engine.show(hi)), '; '.join(('' if p else '!')+engine.show(t) for t,p in g))
    res.floor('arrays', 30)
    res.floor('irregular', 14)
    res.floor('sections', 55)
