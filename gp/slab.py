"""Generalised contributions of network components: matrices, vectors and slabs whose elements a component counts, places
and supplies itself. The number of elements announced must be the number supplied, in every state of the component."""
import engine, comp, p26
from engine import const, show, subterms
from p26 import A, B, L, netrun, nomode, inmode, unstring

GM = 'gridpack::component::GenMatVecInterface'
THIS = p26.THIS

def app(fs, classes): return [f for sig, f in sorted(fs.items()) if f.cls in classes]
def order(t):
    """== with its operands in one order"""
    if isinstance(t, tuple) and t:
        t = tuple(order(x) for x in t)
        if t[0] == 'bin' and t[1] == '==' and repr(t[2]) > repr(t[3]): t = t[:2] + (t[3], t[2]) + t[4:]
    return t
def norm(g): return frozenset((order(unstring(x)), b) for x, b in g)
LIT = ('str', 'int', 'flt', 'chr')
def apart(g):
    """equal to two different literals at once"""
    seen = {}
    for x, b in g:
        if b and x[0] == 'bin' and x[1] == '==':
            a, c = (x[2], x[3]) if x[2][0] in LIT else (x[3], x[2])
            if a[0] in LIT and c[0] not in LIT:
                if seen.setdefault(c, a) != a: return True
    return False
def compatible(a, b): return comp.compatible(a, b) and not apart(a | b)
def told(g): return '; '.join(sorted('%s%s' % ('' if b else 'not ', show(x)) for x, b in g))[:300]

def modes(ps, who):
    r = set()
    for p in ps:
        for g, b in p.g:
            if g[0] == 'bin' and g[1] == '==' and ('fld', who, 'p_mode') in (g[2], g[3]):
                c = const(g[3]) if g[2] == ('fld', who, 'p_mode') else const(g[2])
                if c is not None: r.add(c)
    return sorted(r)

def supplied(p, which):
    """indices of the elements of an argument that a path stores"""
    r = set()
    for k in p.st.env:
        if k[0] == 'elem' and k[1][0] == 'par' and k[1][2] == which:
            i = const(k[2])
            r.add(i if isinstance(i, int) else None)
    return r

def counts(db, clss, cls, f, who, env, ex):
    """[(number announced, conditions, path)]; a member is followed to the method that counts it"""
    out = []
    it, ps = netrun(db, clss, f, who, env, ex)
    for p in ps:
        r = p.ret
        if r is not None and r[0] == 'fld' and r[1] == who:
            found = False
            for g in db.methods.get(cls, []):
                if g.b is None or g.isctor or not assigns(g, r[2]): continue
                it2, qs = netrun(db, clss, g, who, env, ex)
                for q in qs:
                    v = q.st.env.get(r)
                    if v is not None and isinstance(const(v), int):
                        found = True; out.append((const(v), p.g, norm(nomode(q.g)), p))
            if not found: out.append((None, p.g, frozenset(), p))
        else:
            c = const(r) if r is not None else None
            out.append((c if isinstance(c, int) else None, p.g, norm(nomode(p.g)), p))
    return out

def assigns(g, n):
    for x in engine.walk(g.b):
        if x['k'] == 'Asg' or x['k'] == 'Un' and '++' in x.get('op', ''):
            y = x.get('x')
            if isinstance(y, dict) and y.get('n') == n: return True
    return False

def analyse(db, R):
    R.rule('B6', 'the matrix and vector elements a component announces in its own numbering are those it supplies')
    R.rule('B7', 'the rows and columns of a slab announced are those supplied, and no others are read back')
    for cls in sorted(db.derived(GM)):
        if '::component::' in cls: continue
        own = [f for f in db.methods.get(cls, []) if f.file.startswith('applications/')]
        if any(f.n in ('matrixNumValues', 'vectorNumElements') for f in own): general(db, R, cls)
        if any(f.n == 'slabSize' for f in own): slab(db, R, cls)

def general(db, R, cls):
    isbr = cls.endswith('Branch')
    bus = cls[:-6] + 'Bus' if isbr else cls
    branch = cls if isbr else cls[:-3] + 'Branch'
    clss = [bus, branch] + [c for c in list(db.bases(bus)) + list(db.bases(branch)) if not c.startswith('gridpack::component') or 'Component' in c]
    def col(it, node, obj, args, st):
        if obj is None: return None
        o = obj[1] if obj[0] == 'thisptr' else obj
        return ('sym', node['n'], o, args[0])
    ex0 = {'matrixGetColIndex': col, 'matrixGetRowIndex': col}
    for who in ((L,) if isbr else (A, B)):
        for cnt, val, npar, nm in (('matrixNumValues', 'matrixGetValues', 3, 1), ('vectorNumElements', 'vectorGetElementValues', 2, 2)):
            ex = dict(ex0)
            def size(it, node, obj, args, st, nm=nm):
                return st.env.get(('size', obj), ('int', nm) if obj is not None and obj[0] == 'fld' and obj[1] in (A, B, L) else None)
            ex['size'] = size
            C = app(comp.final(db, cls, cnt), (bus, branch)); V = app(comp.final(db, cls, val), (bus, branch))
            if not C or not V: continue
            for fv in V:
                it, qs = netrun(db, clss, fv, who, {}, ex)
                if it.trunc: R.count('trunc')
                qs = [(q, norm(nomode(q.g))) for q in qs]
                for fc in C:
                    K = counts(db, clss, cls, fc, who, {}, ex)
                    for m in modes([q for q, g in qs] + [k[3] for k in K], who):
                        live = [(q, g) for q, g in qs if inmode(q, who, m)]
                        if not any(supplied(q, 0) for q, g in live): continue
                        for n, mg, g, p in K:
                            if not inmode(p, who, m): continue
                            for q, h in live:
                                if not compatible(g, h): continue
                                R.count('pairs')
                                S = [supplied(q, i) for i in range(npar)]
                                if n is None or any(None in s for s in S): R.count('not constant'); continue
                                R.count('decided')
                                for s, what in zip(S, ('value', 'row' if npar == 3 else 'index', 'column')):
                                    if s != set(range(n)):
                                        miss = set(range(n)) - s
                                        R.report('B6', fv.file, fv.l, cls + '::' + val, 'mode %s' % m, '%d announced: %s when %s' % (n, '%s %d not supplied' % (what, min(miss)) if miss else '%s %d supplied' % (what, max(s)), told(g | h)))
                                        break

def slab(db, R, cls):
    ex = {}
    def one(n): return [f for f in app(comp.final(db, cls, n), (cls,)) if f.b is not None]
    S = one('slabSize'); V = one('slabGetValues'); T = one('slabSetValues')
    if not S: return
    fs = S[0]
    it, ps = comp.explore(db, cls, fs)
    names = [p['n'] for p in fs.ps]
    syms = set()
    for p in ps:
        for n in names:
            d = p.out(n)
            if d is not None: syms |= {x for x in subterms(d) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'fld' and x[1] == THIS}
    for size in (1, 2, 3):
        env = {s: ('int', size + i) for i, s in enumerate(sorted(syms, key=repr))}
        it, ps = p26.run(db, cls, fs, env, {})
        for f, read in [(f, False) for f in V] + [(f, True) for f in T]:
            it, qs = p26.run(db, cls, f, env, {})
            if it.trunc: R.count('trunc')
            for m in modes(ps + qs, THIS):
                live = [q for q in qs if inmode(q, THIS, m)]
                for p in ps:
                    if not inmode(p, THIS, m): continue
                    dims = [const(p.out(n) or ('x',)) for n in names]
                    for q in live:
                        if not comp.compatible(p.g, q.g): continue
                        if read:
                            E = {x for t in q.st.env.values() for x in subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'elem' and isinstance(x[1], tuple) and x[1][0] == 'elem' and x[1][1][0] == 'par' and x[1][1][2] == 0}
                        else:
                            E = {k for k in q.st.env if k[0] == 'elem' and k[1][0] == 'elem' and k[1][1][0] == 'par' and k[1][1][2] == 0}
                        if not E: continue
                        got = {(const(k[1][2]), const(k[2])) for k in E}
                        R.count('pairs')
                        if None in dims or any(not isinstance(a, int) or not isinstance(b, int) for a, b in got): R.count('not constant'); continue
                        R.count('decided'); R.count('slabs')
                        want = {(a, b) for a in range(dims[0]) for b in range(dims[1])}
                        over = got - want; miss = want - got
                        if over: R.report('B7', f.file, f.l, f.q, 'mode %s' % m, 'size %dx%d: element (%d,%d) %s' % (dims[0], dims[1], min(over)[0], min(over)[1], 'read' if read else 'supplied'))
                        elif miss and not read: R.report('B7', f.file, f.l, f.q, 'mode %s' % m, 'size %dx%d: element (%d,%d) not supplied' % (dims[0], dims[1], min(miss)[0], min(miss)[1]))
                        if not read:
                            idx = supplied(q, 1)
                            if idx != set(range(dims[0])): R.report('B7', f.file, f.l, f.q, 'mode %s' % m, '%d rows announced, indices of %s supplied' % (dims[0], sorted(idx, key=str)))
