"""The blocks a network component announces for matrices and vectors are the blocks it supplies and takes back."""
import slab, engine, comp, poly
from comp import compatible
EXPLAIN = ('Every method by which a network component announces the size of a matrix or vector block, supplies its values or takes new values back is explored on every path, '
 'with the methods of the component and the accessors of its neighbours put in place, so that each path is a condition on the state of the component, the sizes announced, and the array elements written or read. '
 'For each mode in which a block is supplied at all, and every pair of paths that can hold in the same state: a block announced has its size set (B1), all of its elements and no others are written when it is supplied (B2); '
 'a vector block announced is supplied (B3); values taken back are read within the size announced in a mode in which the vector is supplied (B4); '
 'a branch block has as many rows and columns as the diagonal blocks of the buses it joins, and is announced only where both are (B5). Elements a component places itself (state estimation rows, columns and values; Kalman filter slabs) are counted in the same way (B6, B7).')
MV = 'gridpack::component::MatVecInterface'
PAIRS = [('matrixDiagSize', 'matrixDiagValues', 2), ('matrixForwardSize', 'matrixForwardValues', 2), ('matrixReverseSize', 'matrixReverseValues', 2), ('vectorSize', 'vectorValues', 1)]

def constof(db, cls, d):
    c = engine.const(d)
    if c is not None or d[0] != 'fld' or d[1] != ('this',): return c
    # a number fixed by the constructors
    vs = set(); n = 0
    for k in [cls] + list(db.bases(cls)):
        mine = set()
        for f in db.methods.get(k, []):
            if f.b is None: continue
            for x in engine.walk(f.b):
                t = x['x'] if x['k'] == 'Asg' else x['e'] if x['k'] == 'Un' and x['op'] in ('++', '--', 'p++', 'p--') else None
                if t is not None and t['k'] == 'Mem' and t['n'] == d[2]:
                    if not f.isctor or x['k'] != 'Asg' or x['op'] != '=' or x['y']['k'] != 'Int': return None
                    mine.add(x['y']['v'])
            if f.isctor:
                for i in f.inits:
                    if i.get('n') == d[2] and i.get('e') is not None and i['e']['k'] == 'Int': mine.add(i['e']['v'])
        if mine: vs = mine; break           # set by the nearest class
    return vs.pop() if len(vs) == 1 else None

def truth(v): return engine.const(v) if v is not None else None

def modeterm(g): return g[0] == 'bin' and g[1] == '==' and g[2] == ('fld', ('this',), 'p_mode') and engine.const(g[3]) is not None
def modes(paths):
    return sorted(set(engine.const(g[3]) for p in paths for g, pol in p.g if modeterm(g)))
def inmode(p, m):
    return all(pol == (engine.const(g[3]) == m) for g, pol in p.g if modeterm(g))

def shown(g):
    return ', '.join(('' if p else 'not ') + engine.show(t) for t, p in sorted(g, key=repr) if p or not modeterm(t))

def moved(g, ptr):
    """conditions on a bus as seen from a branch that holds it in ptr"""
    def sub(t):
        if not isinstance(t, tuple): return t
        if t == ('fld', ('this',), 'p_mode'): return t
        if t == ('this',): return ptr
        return tuple(sub(x) for x in t)
    return frozenset((sub(t), p) for t, p in g)

def analyse(db, res):
    res.rule('B1', 'a component that announces a block sets its size')
    res.rule('B2', 'the elements written are those of the block announced')
    res.rule('B3', 'a vector block that is announced is supplied')
    res.rule('B4', 'values taken back are read within the block announced')
    res.rule('B5', 'branch blocks have the rows and columns of the buses they join')
    for cls in sorted(db.derived(MV)):
        if '::component::' in cls or not any(f.file.startswith('applications/') for f in db.methods.get(cls, [])): continue
        if not any(f.n in ('matrixDiagSize', 'vectorSize', 'matrixForwardSize') for f in db.methods.get(cls, [])): continue
        res.count('classes')
        vec = []
        for sz, val, nd in PAIRS:
            S = comp.final(db, cls, sz); V = comp.final(db, cls, val)
            for fs in S.values():
                if not fs.file.startswith('applications/'): continue
                it, ps = comp.explore(db, cls, fs); res.count('functions')
                if it.trunc: res.count('trunc')
                names = [p['n'] for p in fs.ps]
                for fv in V.values():
                    if not fv.file.startswith('applications/') or fv.cls != cls and fs.cls != cls: continue
                    it2, qs = comp.explore(db, cls, fv); res.count('functions')
                    if it2.trunc: res.count('trunc')
                    arr = fv.ps[0]['n']
                    for m in modes(ps + qs) or [None]:
                        qm = [q for q in qs if inmode(q, m)]
                        if not any(truth(q.ret) == 1 and q.w for q in qm): continue     # not supplied in this mode
                        res.count('modes')
                        if nd == 1: vec.append((m, fs, fv))
                        for p in ps:
                            if not inmode(p, m) or truth(p.ret) != 1: continue
                            dims = [p.out(n) for n in names]
                            if any(d is None for d in dims):
                                res.report('B1', fs.file, fs.l, cls + '::' + sz, 'mode %s' % m, 'announced without a size when ' + shown(p.g)); continue
                            ds = [constof(db, cls, d) for d in dims]
                            for q in qm:
                                if not compatible(p.g, q.g): continue
                                res.count('pairs')
                                if truth(q.ret) == 0:
                                    if nd == 1: res.report('B3', fv.file, fv.l, cls + '::' + val, 'mode %s' % m, 'announced but not supplied when ' + shown(p.g | q.g))
                                    continue
                                w = q.w.get(arr, set())
                                u = [x for x in w if isinstance(x, tuple)]
                                if u and None not in w and truth(q.ret) == 1:
                                    # written in a loop over a count
                                    n = {(): 1}
                                    for d in dims: n = poly.pmul(n, poly.poly(d))
                                    if all(isinstance(x, tuple) or x == 0 for x in w):
                                        res.count('decided')
                                        for x in u:
                                            if not poly.padd(n, poly.poly(x[1]), -1) == {}:
                                                res.report('B2', fv.file, fv.l, cls + '::' + val, 'mode %s' % m, 'size %s: elements below %s written when %s' % ('x'.join(engine.show(d) for d in dims), engine.show(x[1]), shown(p.g | q.g)))
                                        continue
                                if None in w or u or None in ds or truth(q.ret) is None: res.count('not constant'); continue
                                n = 1
                                for d in ds: n *= d
                                res.count('decided')
                                if w != set(range(n)):
                                    miss = sorted(set(range(n)) - w); over = sorted(w - set(range(n)))
                                    res.report('B2', fv.file, fv.l, cls + '::' + val, 'mode %s' % m, 'size %s: %s when %s' % ('x'.join(map(str, ds)), 'element %s not written' % miss[0] if miss else 'element %s written' % over[0], shown(p.g | q.g)))
        # values taken back
        for ft in comp.final(db, cls, 'setValues').values():
            if not ft.file.startswith('applications/') or not vec: continue
            if not any(fv.ps[0]['t'] == ft.ps[0]['t'] for m, fs, fv in vec): continue
            it, ts = comp.explore(db, cls, ft); res.count('functions')
            arr = ft.ps[0]['n']
            for t in ts:
                r = t.r.get(arr, set())
                if any(not isinstance(x, int) for x in r) or not r: continue
                bad = []; good = False
                for m, fs, fv in vec:
                    if fv.ps[0]['t'] != ft.ps[0]['t'] or not inmode(t, m): continue
                    it2, ps = comp.explore(db, cls, fs)
                    ok = True
                    for p in ps:
                        if not inmode(p, m) or truth(p.ret) != 1 or not compatible(p.g, t.g): continue
                        d = engine.const(p.out(fs.ps[0]['n']) or ('x',))
                        if d is None: continue
                        res.count('decided')
                        if max(r) >= d: ok = False; bad.append((m, d))
                    good = good or ok
                if bad and not good:
                    res.report('B4', ft.file, ft.l, cls + '::setValues', 'values', 'element %d read, size %d, when %s' % (max(r), bad[0][1], shown(t.g)))
        # branches against their buses
        if not cls.endswith('Branch'): continue
        bus = cls[:-len('Branch')] + 'Bus'
        D = [f for f in comp.final(db, bus, 'matrixDiagSize').values() if f.file.startswith('applications/')]
        if not D: continue
        it, bp = comp.explore(db, bus, D[0])
        bn = [p['n'] for p in D[0].ps]
        for sz, rowp, colp in (('matrixForwardSize', 'p_bus1', 'p_bus2'), ('matrixReverseSize', 'p_bus2', 'p_bus1')):
            for fs in comp.final(db, cls, sz).values():
                if not fs.file.startswith('applications/'): continue
                it, ps = comp.explore(db, cls, fs)
                names = [p['n'] for p in fs.ps]
                for p in ps:
                    if truth(p.ret) != 1: continue
                    for ms in modes(ps + bp):
                        if not inmode(p, ms): continue
                        for ptr, k in ((rowp, 0), (colp, 1)):
                            d = engine.const(p.out(names[k]) or ('x',))
                            for b in bp:
                                if not inmode(b, ms): continue
                                g = moved(b.g, ('deref', ('fld', ('this',), ptr)))
                                if not compatible(p.g, g): continue
                                res.count('joins')
                                if truth(b.ret) == 0:
                                    res.report('B5', fs.file, fs.l, cls + '::' + sz, 'mode %s' % ms, 'announced though the bus at the %s has no block when %s' % ('row' if k == 0 else 'column', shown(p.g | g)))
                                    continue
                                e = engine.const(b.out(bn[k]) or ('x',))
                                if d is None or e is None: continue
                                res.count('decided')
                                if d != e: res.report('B5', fs.file, fs.l, cls + '::' + sz, 'mode %s' % ms, '%s of the block: %s, of its bus: %s when %s' % ('rows' if k == 0 else 'columns', d, e, shown(p.g | g)))
    slab.analyse(db, res)
    res.floor('slabs', 9)
    res.floor('decided', 1500)
    res.floor('joins', 20)
