"""P26: each entry of the Newton matrices is the derivative of the residual entry it stands for."""
import engine, comp, ratf, poly
from engine import const, show, subterms
from ratf import Conv, Diff, NoD, Big, fname, fargs
import itertools

EXPLAIN = ('The residual (vectorValues, getCurrent, vectorGetElementValues), the matrix entries (setJacobian, matrixDiagValues, matrixForwardValues, matrixReverseValues, matrixGetValues) and the update (setValues) of every model are explored on all paths, '
 'which gives each residual and each entry as a term over the variables, parameters and conditions. Buses and branches are explored in a network of two buses and one branch. For every pair of a residual path and a matrix path that can hold in the same mode and state, '
 'the term of the residual is differentiated symbolically and compared with the stored entry as exact rational functions (sin^2+cos^2=1, sqrt(x)^2=x); absent entries count as zero. No value is ever chosen and no solver is used.')
THIS = ('this',)
def fld(n): return ('fld', THIS, n)
MODES = None

class Y(comp.X):
    MAXSTATES = 6000
    hooks = None
    def cap(self, t): return t
    def should_inline(self, fn, node, st):
        if fn.b is None: return False
        if self.hooks and self.hooks.get('inline') and self.hooks['inline'](fn): return True
        if not fn.cls and fn.file.startswith('applications/'): return True
        return fn.cls == self.cls or fn.cls in self.db.bases(self.cls)
    UNROLL = 24
    net = False
    def place(self, lv):
        """p[k] of a pointer into an array is the element of the array"""
        if lv[0] in ('elem', 'deref'):
            b, off = comp.par0(lv[1])
            i = const(lv[2]) if lv[0] == 'elem' else 0
            if b is not None and b != lv[1] and isinstance(off, int) and isinstance(i, int): return ('elem', b, ('int', off + i))
        return lv
    def load(self, lv, st):
        return comp.X.load(self, self.place(lv) if self.net else lv, st)
    def store(self, lv, val, node, st, decl=False):
        return comp.X.store(self, self.place(lv) if self.net else lv, val, node, st, decl)
    def assume(self, term, pol, st, node):
        if self.net and term[0] == 'bin' and term[1] in ('==', '!='):
            a, b = [self.load(x[1], st) if x[0] == 'ref' else x for x in term[2:4]]
            if a[0] == b[0] == 'thisptr': return st if ((a == b) == (term[1] == '==')) == pol else None
        return comp.X.assume(self, term, pol, st, node)
    def on_call(self, node, obj, args, st):
        if self.hooks:
            f = self.hooks.get(node.get('n'))
            if f is not None:
                r = f(self, node, obj, args, st)
                if r is not None: return r
        return comp.X.on_call(self, node, obj, args, st)

def run(db, cls, f, env, hooks):
    it = Y(db, cls); it.hooks = hooks
    return it, [comp.Path(st, v) for k, st, v, n in it.run(f, env=dict(env)) if k in ('ret', 'end')]

def only(db, cls, name, pred=lambda sig: True):
    r = [f for sig, f in comp.final(db, cls, name).items() if pred(sig) and not f.cls.startswith(('gridpack::', 'Base'))]
    return r[0] if len(r) == 1 else None

def outargs(args):
    """locations the arguments of a call point to"""
    r = []
    for a in args:
        if a[0] == 'ref': r.append(a[1])
        elif a[0] == 'addr': r.append(a[1])
        else: r.append(('deref', a))
    return r

NX = 2        # variables of an attached model that is not the one under analysis
BASE = {'gen': 100, 'exc': 200, 'gov': 300}

def hooks_for(kind):
    """interface of the attached models, as symbols whose derivatives the interface declares"""
    def vsize(it, node, obj, args, st):
        if obj is None or obj == THIS: return None
        st.env[outargs(args)[0]] = ('int', NX)
        return ('int', 1)
    def fill(st, arr, val):
        for i in range(NX): st.env[('elem', arr, ('int', i))] = val(i)
    def partials(other, sym, gensym):
        def h(it, node, obj, args, st):
            if obj is None or obj == THIS: return None
            a = [it.load(x[1], st) if x[0] == 'ref' else x for x in args]
            fill(st, a[0], lambda i: ('int', BASE[other] + i))
            fill(st, a[1], lambda i: ('sym', sym, other, i))
            if gensym and len(a) > 2:
                n = const(st.env.get(fld('nxgen'), ('int', 0))) or 0
                for i in range(n): st.env[('elem', a[2], ('int', i))] = ('sym', sym, 'gen', i)
            return ('int', 1)
        return h
    def value(sym):
        def h(it, node, obj, args, st):
            if obj is None or obj == THIS: return None
            return ('val', sym)
        return h
    H = {'vectorSize': vsize}
    if kind == 'gen':
        H['getFieldVoltagePartialDerivatives'] = partials('exc', 'Efd', True)
        H['getMechanicalPowerPartialDerivatives'] = partials('gov', 'Pmech', False)
        H['getFieldVoltage'] = value('Efd')
        H['getMechanicalPower'] = value('Pmech')
    else:
        H['getFieldCurrent'] = value('LadIfd')
        H['getRotorSpeedDeviation'] = value('dw')
        H['getRotorSpeedDeviationLocation'] = lambda it, node, obj, args, st: ('int', BASE['gen'] + 1) if obj not in (None, THIS) else None
    return H

def rule_for(kind):
    """derivatives of the values of attached models"""
    def rule(t, v):
        if not (isinstance(t, tuple) and t and t[0] == 'val'): return None
        w = v[1] if v[0] == 'col' else None
        if t[1] in ('Efd', 'Pmech'):
            if w is not None and w[0] in ('exc', 'gov'):
                return ('sym', t[1], w[0], w[1]) if (w[0] == 'exc') == (t[1] == 'Efd') else ('int', 0)
            return None
        if t[1] == 'dw':
            return ('int', 1) if w == ('gen', 1) else ('int', 0)
        return ('int', 0)
    return rule

def mode_of(p):
    """the mode a path is taken in, if its conditions fix one"""
    for g, b in p.g:
        if b and g[0] == 'bin' and g[1] == '==' and fld('p_mode') in (g[2], g[3]):
            c = const(g[3]) if g[2] == fld('p_mode') else const(g[2])
            if c is not None: return c
    return None

KNOWN = {'sin', 'cos', 'sqrt', 'pow', 'exp', 'log', 'real', 'imag', 'abs', 'fabs', 'fmin', 'fmax', 'min', 'max', 'conj', 'norm', 'tan', 'atan', 'atan2'}
def opaque(got, *of):
    """does a stored entry contain the result of a function that was not followed and that its residual does not contain"""
    c = {x for x in subterms(got) if isinstance(x, tuple) and len(x) > 2 and x[0] == 'call' and isinstance(x[1], str) and fname(x) not in KNOWN}
    return bool(c) and not all(any(x == y for t in of for y in subterms(t)) for x in c)

def is_zero_entry(t): return num0(t)
def num0(t): return ratf.num(t) == 0

def strip_entry(t, c, r):
    """what is added to an entry that is accumulated"""
    e = ('elem', ('elem', ('par', 'values', 0), ('int', c)), ('int', r))
    def sub(x):
        if x == e: return ('int', 0)
        if isinstance(x, tuple) and x and x[0] in ('bin', 'un', 'cast'):
            return x[:1] + tuple(sub(y) if isinstance(y, tuple) else y for y in x[1:])
        return x
    return sub(t)

def entries(p, par):
    """stored matrix entries of a path: {(column, row): value}; second result: stores that could not be placed"""
    E = {}; bad = []
    for k, v in p.st.env.items():
        if k[0] == 'elem' and k[1][0] == 'elem' and k[1][1] == par:
            c, r = const(k[1][2]), const(k[2])
            if isinstance(c, int) and isinstance(r, int): E[(c, r)] = strip_entry(v, c, r)
            else: bad.append(k)
    return E, bad

def choices(t, conv0):
    """the alternatives of the min/max terms inside t"""
    mm = sorted({x for x in subterms(t) if x and x[0] == 'call' and len(x) > 3 and fname(x) in ratf.MINMAX}, key=repr)
    if not mm: return [{}]
    if len(mm) > 4: return None
    return [dict(zip(mm, c)) for c in itertools.product((0, 1), repeat=len(mm))]

def size_of(db, cls, f):
    """the number of variables of a model: a constant, or a member every constructor sets to one constant"""
    out = {v for p in run(db, cls, f, {}, {})[1] for k, v in p.st.env.items() if k[0] == 'deref' and k[1][0] == 'par'}
    if len(out) != 1: return None
    v = out.pop()
    if const(v) is not None: return const(v)
    if v[0] != 'fld' or v[1] != THIS: return None
    vals = set()
    for c in [cls] + list(db.bases(cls)):
        for f in db.methods.get(c, []):
            if f.isctor and f.b is not None and c == cls:
                for p in run(db, cls, f, {}, {})[1]: vals.add(const(p.st.env.get(v, ('x',))))
            elif f.b is not None and c == cls and f.n != 'vectorSize':
                for x in engine.walk(f.b):
                    if x['k'] == 'Asg' and x.get('l', {}).get('n') == v[2] if isinstance(x.get('l'), dict) else False: vals.add(None)
    return vals.pop() if len(vals) == 1 else None

def dae_class(db, R, cls, kind, M):
    fs = {n: only(db, cls, n) for n in ('setValues', 'vectorValues', 'setJacobian', 'vectorSize')}
    if any(f is None or f.cls in ('BaseGenModel', 'BaseExcModel', 'BaseGovModel') for f in fs.values()): return False
    H = hooks_for(kind)
    off = BASE[kind]
    n = size_of(db, cls, fs['vectorSize'])
    if not isinstance(n, int):
        R.count('classes whose size is not a constant'); return False
    env = {fld('offsetb'): ('int', off), fld({'gen': 'nxgen', 'exc': 'nxexc', 'gov': 'nxgov'}[kind]): ('int', n)}
    # which member is which variable
    X = {}; XD = {}
    it, ps = run(db, cls, fs['setValues'], env, H)
    for p in ps:
        m = mode_of(p)
        tgt = X if m == M['XVECTOBUS'] else XD if m == M['XDOTVECTOBUS'] else None
        if tgt is None: continue
        for k, v in p.st.env.items():
            if k[0] == 'fld' and k[1] == THIS and v[0] == 'call' and fname(v) == 'real' and fargs(v) and fargs(v)[0][0] == 'elem':
                i = const(fargs(v)[0][2])
                if isinstance(i, int): tgt[i] = k
    if set(X) != set(range(n)):
        R.count('classes whose variables are not all found'); return False
    file = fs['setJacobian'].file; R.count('models')
    it, res = run(db, cls, fs['vectorValues'], env, H)
    R.count('paths of residuals', len(res))
    it2, jac = run(db, cls, fs['setJacobian'], env, H)
    R.count('paths of matrices', len(jac))
    if it.trunc or it2.trunc: R.count('explorations cut short')
    cur = []
    if kind == 'gen':
        f = only(db, cls, 'getCurrent')
        if f is not None: cur = run(db, cls, f, env, H)[1]
    cols = {}
    for i in range(n): cols[off + i] = ('x', X[i], XD.get(i))
    if kind != 'gov':
        cols[0] = ('x', fld('VD'), None); cols[1] = ('x', fld('VQ'), None)
    if kind == 'gen':
        for i in range(NX):
            cols[BASE['exc'] + i] = ('c', ('exc', i)); cols[BASE['gov'] + i] = ('c', ('gov', i))
    elif kind == 'gov':
        cols[BASE['gen'] + 1] = ('c', ('gen', 1))
    rule = rule_for(kind)
    par = ('par', 'values', 0)
    todo = []     # (row, residual term, guards, mode)
    for p in res:
        m = mode_of(p)
        if m not in (M['RESIDUAL_EVAL'], M['FAULT_EVAL']): continue
        # members the residual leaves behind: the matrix is evaluated after the residual at the same point
        mem = {k: v for k, v in p.st.env.items() if k[0] == 'fld' and k[1] == THIS and k not in env and k not in X.values()}
        for i in range(n):
            v = p.st.env.get(('elem', par, ('int', i)))
            if v is None:
                R.count('residual rows not stored')
                if not any(k[0] == 'elem' and k[1] == par and not isinstance(const(k[2]), int) for k in p.st.env):
                    f0 = fs['vectorValues']
                    R.report('J6', f0.file, f0.l, f0.q, '%s: the residual of %s is not given in %s' % (cls, X[i][2], {v: k for k, v in M.items()}.get(m)),
                             'on %s' % '; '.join(sorted('%s%s' % ('' if b else 'not ', show(x)) for x, b in p.g))[:300])
                continue
            todo.append((off + i, v, p.g, m, mem))
    for p in cur:
        o = [(k, v) for k, v in p.st.env.items() if k[0] == 'deref' and k[1][0] == 'par']
        for k, v in o:
            row = {'IGQ': 0, 'IGD': 1}.get(k[1][1]) if k[1][1] in ('IGQ', 'IGD') else {0: 1, 1: 0}.get(k[1][2])
            todo.append((row, stripref(v, k), p.g, None, {}))
    jacs = []
    for p in jac:
        E, bad = entries(p, par)
        if bad: R.count('entries at a place that is not decided', len(bad))
        jacs.append((p, E))
    bad = {}
    ok = 0
    conv = Conv()
    dmemo = {}
    done = set()
    for row, t, g, m, s in todo:
        ch = choices(t, conv)
        if ch is None: R.count('entries not decided'); continue
        for p, E in jacs:
            jm = mode_of(p)
            gg = p.g
            if m is None:
                modeset = [jm if jm is not None else M['RESIDUAL_EVAL']]
            elif jm is not None and jm != m: continue
            else:
                gg = gg | {(('bin', '==', fld('p_mode'), ('int', m)), True)}
            if not comp.compatible(g, gg): continue
            for c, spec in cols.items():
                got = E.get((c, row), ('int', 0))
                got = settle(got, s)
                if (t, c, got) in done: continue
                done.add((t, c, got))
                R.count('entries compared')
                good = False; last = None
                if opaque(got, t): R.count('entries not decided'); continue
                for chs in ch:
                    try:
                        if spec[0] == 'x':
                            d = dmemo.get((t, c, tuple(chs.values())))
                            if d is None:
                                d = Diff(spec[1], lambda a, v: gdep(a, c, off, kind, rule, v), chs)(t)
                                if spec[2] is not None:
                                    d = ratf.add(d, ratf.mul(fld('shift'), Diff(spec[2], None, chs)(t)))
                                dmemo[(t, c, tuple(chs.values()))] = d
                        else:
                            d = Diff(('col', spec[1]), rule, chs)(t)
                        cv = conv if not chs else Conv(chs)
                        if ratf.equal(d, got, cv): good = True; break
                        last = d
                    except NoD as e:
                        last = ('nod', str(e)); break
                    except Big:
                        last = ('nod', 'size'); break
                if good: ok += 1; continue
                if last is not None and last[0] == 'nod':
                    R.count('entries not decided'); continue
                bad.setdefault((row, c, m if m is not None else jm), []).append((got, last, p))
    R.count('entries that agree', ok)
    name = {v[1][2] if v[0] == 'x' else None: k for k, v in cols.items()}
    for (row, c, m), L in sorted(bad.items(), key=repr):
        got, want, p = L[0]
        rn = {0: 'IGQ', 1: 'IGD'}.get(row) or X[row - off][2]
        cn = cols[c][1][2] if cols[c][0] == 'x' else '%s variable %d' % cols[c][1]
        mn = {v: k for k, v in M.items()}.get(m, '')
        R.report('J1' if not num0(got) else 'J2', file, fs['setJacobian'].l, fs['setJacobian'].q,
                 '%s: derivative of the %s equation with respect to %s in %s is %s' % (cls, rn, cn, mn or 'other modes', 'wrong' if not num0(got) else 'missing'),
                 'stored %s; the residual gives %s; on %s' % (show(got)[:300], show(want)[:300], '; '.join(sorted('%s%s' % ('' if b else 'not ', show(x)) for x, b in p.g))[:300]))
    return True

def gdep(a, c, off, kind, rule, v):
    """an attached model's value depends on the generator's own variables as its interface declares"""
    if isinstance(a, tuple) and a and a[0] == 'val':
        if kind == 'gen' and a[1] == 'Efd' and c >= off: return ('sym', 'Efd', 'gen', c - off)
        return ('int', 0)
    return None

def blank(t):
    """a block is zero when its values are asked for"""
    if isinstance(t, tuple) and t:
        if t[0] == 'elem' and t[1][0] == 'par': return ('int', 0)
        if t[0] in ('bin', 'un', 'cast', 'call'): return t[:1] + tuple(blank(y) if isinstance(y, tuple) else y for y in t[1:])
    return t

def settle(t, s):
    if not s or not any(x in s for x in subterms(t)): return t
    def sub(x):
        if x in s: return s[x]
        if isinstance(x, tuple) and x and x[0] in ('bin', 'un', 'cast', 'call'):
            return x[:1] + tuple(sub(y) if isinstance(y, tuple) else y for y in x[1:])
        return x
    return sub(t)

def stripref(t, k):
    def sub(x):
        if x == k: return ('int', 0)
        if isinstance(x, tuple) and x and x[0] in ('bin', 'un', 'cast'):
            return x[:1] + tuple(sub(y) if isinstance(y, tuple) else y for y in x[1:])
        return x
    return sub(t)

def interface(db, R, cls, kind, M):
    """the declared derivatives of the field voltage and mechanical power"""
    name, part = {'exc': ('getFieldVoltage', 'getFieldVoltagePartialDerivatives'), 'gov': ('getMechanicalPower', 'getMechanicalPowerPartialDerivatives')}[kind]
    f, g = only(db, cls, name), only(db, cls, part)
    sv, vs = only(db, cls, 'setValues'), only(db, cls, 'vectorSize')
    if None in (f, g, sv, vs) or f.cls.startswith('Base') or g.cls.startswith('Base'): return
    off = BASE[kind]; H = hooks_for(kind)
    n = size_of(db, cls, vs)
    if not isinstance(n, int): return
    env = {fld('offsetb'): ('int', off), fld({'exc': 'nxexc', 'gov': 'nxgov'}[kind]): ('int', n)}
    X = {}
    for p in run(db, cls, sv, env, H)[1]:
        if mode_of(p) == M['XVECTOBUS']:
            for k, v in p.st.env.items():
                if k[0] == 'fld' and v[0] == 'call' and fname(v) == 'real' and fargs(v)[0][0] == 'elem': X[const(fargs(v)[0][2])] = k
    P = g.ps
    names = [q['n'] if isinstance(q, dict) else q for q in P]
    pairs = [(p, q) for p in run(db, cls, f, env, H)[1] for q in run(db, cls, g, env, H)[1]]
    for p, q in pairs:
        if not comp.compatible(p.g, q.g): continue
        arr = {}
        for k, v in q.st.env.items():
            if k[0] == 'elem' and k[1][0] == 'par' and isinstance(const(k[2]), int): arr[(k[1][1], const(k[2]))] = v
        for i in range(n):
            R.count('declared derivatives compared')
            loc = arr.get((names[0], i)); d = arr.get((names[1], i))
            if loc is None or const(loc) != off + i:
                R.report('J4', g.file, g.l, g.q, '%s: location %d is not that of variable %d' % (cls, i, i), show(loc) if loc else 'not stored')
            if d is None:
                R.report('J3', g.file, g.l, g.q, '%s: derivative with respect to %s not declared' % (cls, X[i][2]), ''); continue
            good = False
            for chs in choices(p.ret, None) or []:
                try:
                    w = Diff(X[i], rule_for(kind), chs)(p.ret)
                    if ratf.equal(w, d, Conv(chs)): good = True; break
                except (NoD, Big): good = True; R.count('entries not decided'); break
            if not good:
                R.report('J3', g.file, g.l, g.q, '%s: declared derivative with respect to %s is wrong' % (cls, X[i][2]), 'declared %s, value %s' % (show(d)[:200], show(p.ret)[:200]))

A, B, L = ('obj', 'from bus'), ('obj', 'to bus'), ('obj', 'branch')

def netrun(db, clss, f, this, env, extra=None):
    """a method of one of the two buses or the branch of a network of one branch"""
    def tp(x): return ('thisptr', x)
    def getb(it, node, obj, args, st):
        if obj == L or (obj is not None and obj[0] == 'thisptr' and obj[1] == L): return tp(A if node['n'] == 'getBus1' else B)
    def geti(it, node, obj, args, st):
        if obj == L: return ('int', 1 if 'Bus1' in node['n'] else 2)
        if obj == A: return ('int', 1)
        if obj == B: return ('int', 2)
    def neigh(it, node, obj, args, st):
        if len(args) == 1 and args[0][0] == 'ref':
            st.env[('elem', args[0][1], ('int', 0))] = tp(L); st.env[('size', args[0][1])] = ('int', 1)
            return ('void',)
    def size(it, node, obj, args, st):
        return st.env.get(('size', obj))
    def get(it, node, obj, args, st):
        if obj is None: return None
        v = obj if obj[0] == 'thisptr' else it.load(obj, st)
        return v if v[0] == 'thisptr' else None
    H = {'getBus1': getb, 'getBus2': getb, 'getBus1OriginalIndex': geti, 'getBus2OriginalIndex': geti, 'getOriginalIndex': geti,
         'getNeighborBranches': neigh, 'size': size, 'get': get, 'inline': lambda fn: fn.cls in clss}
    H.update(extra or {})
    it = Y(db, clss[0]); it.hooks = H
    it.net = True
    return it, [comp.Path(st, v) for k, st, v, n in it.run(f, this=this, env=dict(env)) if k in ('ret', 'end')]

def enum(file, name):
    import re, facts
    src = open(facts.SRC + file).read()
    m = re.search(r'enum\s+%s\s*\{([^}]*)\}' % name, src)
    if not m: raise facts.ToolError('enumeration %s not found' % name)
    r = {}; v = 0
    for x in re.sub(r'//[^\n]*|/\*.*?\*/', '', m.group(1), flags=re.S).split(','):
        x = x.strip()
        if '=' in x:
            x, y = [z.strip() for z in x.split('=')]; v = int(y, 0)
        if x: r[x] = v
        v += 1
    return r

def modeval(p, who):
    k = ('fld', who, 'p_mode')
    for g, b in p.g:
        if b and g[0] == 'bin' and g[1] == '==' and k in (g[2], g[3]):
            c = const(g[3]) if g[2] == k else const(g[2])
            if c is not None: return c
    return None

def inmode(p, who, c):
    """can the path be taken in this mode"""
    k = ('fld', who, 'p_mode')
    for g, b in p.g:
        if g[0] == 'bin' and g[1] == '==' and k in (g[2], g[3]):
            v = const(g[3]) if g[2] == k else const(g[2])
            if v is not None and (v == c) != b: return False
    return True

def nomode(g):
    """conditions of a path other than those on the mode"""
    return frozenset((x, b) for x, b in g if not any(isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'p_mode' for y in subterms(x)))

def stores(p, idx=None):
    r = {}
    for k, v in p.st.env.items():
        if k[0] == 'elem' and k[1][0] == 'par' and isinstance(const(k[2]), int): r[const(k[2])] = v
        elif k[0] == 'deref' and k[1][0] == 'par' : r[0] = v
    return r

def network(db, R, name, bus, branch, env, resmodes, jacmodes, unknowns, atoms, extra, more=(), stride=None):
    """residual and matrix blocks of two buses joined by one branch"""
    clss = [bus, branch] + [c for c in list(db.bases(bus)) + list(db.bases(branch)) if c.startswith('gridpack::ymatrix') or 'Component' in c]
    conv = Conv()
    def methods(cls, n): return [f for sig, f in sorted(comp.final(db, cls, n).items()) if f.cls in (bus, branch)]
    def seen_hav(t): return any(isinstance(x, tuple) and x and x[0] in ('hav', 'undef', 'loop', 'out') for x in subterms(t))
    X = {}
    for who in (A, B):
        F = []
        for f in methods(bus, 'vectorValues'):
            it, ps = netrun(db, clss, f, who, env, extra)
            for p in ps:
                for m in resmodes:
                    if inmode(p, who, m): F.append((f, p, stores(p), m))
        if not F: return
        V = unknowns(who, clss, db)
        X[who] = (F, V)
        R.count('paths of residuals', len(F))
    file = methods(bus, 'vectorValues')[0].file
    bad = {}
    def compare(rowwho, colwho, meth, cls, this, block):
        for f in methods(cls, meth):
            it, ps = netrun(db, clss, f, this, env, extra)
            R.count('paths of matrices', len(ps))
            done = set()
            for p in ps:
                E = stores(p)
                for (ff, q, rows, m) in X[rowwho][0]:
                    if not any(inmode(p, this, j) for j in jacmodes(m)): continue
                    if not comp.compatible(nomode(p.g), nomode(q.g)): continue
                    if not rows: continue
                    for vs, vg in X[colwho][1]:
                        g2 = nomode(p.g) | nomode(q.g)
                        if not comp.compatible(g2, vg): continue
                        if const(p.ret) == 0 or not E:
                            if block(p.g | q.g) and any(not ratf.zero(Diff(v)(t), conv) for v, _ in vs for t in rows.values()):
                                bad.setdefault((f, 'J2', '%s: no block in %s although the residual of the %s depends on the %s' % (name, f.n, rowwho[1], colwho[1])), ('', '', p))
                            R.count('combinations without a block'); continue
                        s = {k: v for k, v in q.st.env.items() if k[0] == 'fld' and k not in env and k[1] in (A, B, L)}
                        nrow = len(rows) if stride is None else stride[rowwho]
                        for c, (var, vn) in enumerate(vs):
                            for r in sorted(rows):
                                if r >= nrow: continue
                                R.count('entries compared')
                                got = settle(blank(E.get(c * nrow + r, ('int', 0))), s)
                                if opaque(got, rows[r]): R.count('entries not decided'); continue
                                try:
                                    d = Diff(var)(rows[r])
                                    if seen_hav(d) or seen_hav(got): R.count('entries not decided'); continue
                                    if ratf.equal(d, got, conv): R.count('entries that agree'); continue
                                except (NoD, Big):
                                    R.count('entries not decided'); continue
                                bad.setdefault((f, 'J1' if c * nrow + r in E else 'J2', '%s: derivative of equation %d of the %s with respect to the %s of the %s is %s' % (name, r, rowwho[1], vn, colwho[1], 'wrong' if c * nrow + r in E else 'missing')), (got, d, p))
    def both(g):
        """neither bus is isolated or the reference, and the branch is in service"""
        for x, b in g:
            if b and any(isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and ('ghost' in y[2].lower() or y[2] in ('p_refBus', 'p_isolated')) for y in subterms(x)): return False
            if b and any(isinstance(y, tuple) and y and y[0] == 'call' and fname(y) in ('isGhost', 'isIsolated', 'getReferenceBus') for y in subterms(x)): return False
            if not b and any(isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] in ('p_active',) for y in subterms(x)): return False
        return True
    compare(A, A, 'matrixDiagValues', bus, A, both)
    compare(B, B, 'matrixDiagValues', bus, B, both)
    compare(A, B, 'matrixForwardValues', branch, L, both)
    compare(B, A, 'matrixReverseValues', branch, L, both)
    for (f, rule, what), (got, want, p) in sorted(bad.items(), key=lambda x: (x[0][0].q, x[0][1:])):
        R.report(rule, f.file, f.l, f.q, what, 'stored %s; the residual gives %s; on %s' % (show(got)[:300] if got else '', show(want)[:300] if want else '', '; '.join(sorted('%s%s' % ('' if b else 'not ', show(x)) for x, b in p.g))[:300]))

def pf(db, R):
    M = enum('applications/components/pf_matrix/pf_components.hpp', 'PFMode')
    bus, branch = 'gridpack::powerflow::PFBus', 'gridpack::powerflow::PFBranch'
    env = {}
    for w in (A, B):
        for n, ptr, m in (('v', 'p_vMag_ptr', 'p_v'), ('a', 'p_vAng_ptr', 'p_a')):
            env[('deref', ('fld', w, ptr))] = env[('fld', w, m)] = ('sym', n, w[1])
    def unknowns(who, clss, db):
        out = []
        for f in [f for sig, f in sorted(comp.final(db, bus, 'setValues').items())]:
            for p in netrun(db, clss, f, who, env)[1]:
                vs = {}
                for m, n in (('p_a', 'a'), ('p_v', 'v')):
                    t = p.st.env.get(('fld', who, m)); s = ('sym', n, who[1])
                    if t is None or t == s: continue
                    e = [x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == 'elem' and x[1][0] == 'par']
                    if len(set(e)) != 1 or not isinstance(const(e[0][2]), int): R.count('entries not decided'); continue
                    R.count('updates compared')
                    if not ratf.equal(t, ('bin', '-', s, e[0]), Conv()):
                        R.report('J5', f.file, f.l, f.q, 'the solution of the linear system is not subtracted from %s' % m, show(t)[:200])
                    vs[const(e[0][2])] = (s, m)
                if sorted(vs) != list(range(len(vs))):
                    R.report('J5', f.file, f.l, f.q, 'unknowns are not taken from consecutive places', str(sorted(vs)))
                out.append(([vs[i] for i in sorted(vs)], nomode(p.g)))
        return out
    network(db, R, 'power flow', bus, branch, env, [M['RHS']], lambda m: [M['Jacobian']], unknowns, None, {})

def dsim(db, R, M):
    bus, branch = 'DSimBus', 'DSimBranch'
    NV = {A: 3, B: 4}
    if bus not in db.recs: return
    env = {}
    for w in (A, B):
        p = ('fld', w, 'p_VDQptr')
        for i, n in ((0, 'VD'), (1, 'VQ')):
            s = ('sym', n, w[1])
            env[('elem', p, ('int', i))] = s
            if i == 0: env[('deref', p)] = s
            env[('deref', ('bin', '+', p, ('int', i)))] = s
        env[('fld', w, 'p_nvar')] = ('int', NV[w])
        env[('fld', w, 'p_ngen')] = ('int', 0)
    env[('fld', L, 'p_nparlines')] = ('int', 2)
    def unknowns(who, clss, db):
        ptr = ('fld', who, 'p_VDQptr')
        for meth, mode in (('setValues', 'XVECTOBUS'), ('vectorValues', 'INIT_X')):
            for f in [f for sig, f in sorted(comp.final(db, bus, meth).items()) if f.cls == bus]:
                for p in netrun(db, clss, f, who, env)[1]:
                    if not inmode(p, who, M[mode]): continue
                    if any(b and any(isinstance(y, tuple) and len(y) > 2 and y[0] == 'fld' and y[2] == 'p_isolated' for y in subterms(x)) for x, b in p.g): continue
                    par = ('par', f.ps[0]['n'], 0)
                    for i, n in ((0, 'VD'), (1, 'VQ')):
                        s = ('sym', n, who[1])
                        got = [p.st.env.get(k, s) for k in (('elem', ptr, ('int', i)), ('deref', ('bin', '+', ptr, ('int', i)))) + ((('deref', ptr),) if i == 0 else ())]
                        got = [t for t in got if t != s]
                        slot = ('elem', par, ('int', i))
                        if mode == 'INIT_X':
                            want = p.st.env.get(slot) or (p.st.env.get(('deref', par)) if i == 0 else None)
                        else: want = slot
                        R.count('updates compared')
                        if want is None: R.report('J5', f.file, f.l, f.q, 'place %d of the initial unknowns is not filled' % i, ''); continue
                        bare = lambda t: bare(fargs(t)[0]) if isinstance(t, tuple) and t and t[0] == 'call' and fname(t) == 'real' and fargs(t) else t
                        if not got or any(bare(t) != bare(want) for t in got):
                            R.report('J5', f.file, f.l, f.q, 'the voltage component %s of the bus is not unknown %d of the solver%s' % (n, i, ' after the start' if mode == 'INIT_X' else ''), '; '.join(show(t)[:100] for t in got))
        return [([(('sym', 'VD', who[1]), 'VD'), (('sym', 'VQ', who[1]), 'VQ')], frozenset())]
    network(db, R, 'dynamic simulation', bus, branch, env, [M['RESIDUAL_EVAL'], M['FAULT_EVAL']], lambda m: [m], unknowns, None, {}, stride=NV)

class Places(engine.Interp):
    """where the unknowns of the devices of a bus with two machines are, in one method"""
    UNROLL = 3
    MAXSTATES = 2000
    KIND = {'BaseGenModel': 'machine', 'BaseExcModel': 'exciter', 'BaseGovModel': 'governor'}
    def __init__(self, db, cls, has):
        engine.Interp.__init__(self, db); self.cls = cls; self.has = has
    def cap(self, t): return t
    def facts0(self): return ()
    def should_inline(self, fn, node, st): return fn.b is not None and (fn.cls == self.cls or not fn.cls and fn.file.startswith('applications/'))
    def kind(self, node):
        q = (node.get('q') or '').split('::')
        c = q[-2] if len(q) > 1 else ''
        if c in self.KIND: return self.KIND[c]
        for b in self.db.bases(c) if c in self.db.recs else ():
            if b in self.KIND: return self.KIND[b]
    def on_call(self, node, obj, args, st):
        n = node.get('n')
        if n in ('malloc', 'calloc', 'realloc'): return self.fresh('memory')
        if n == 'getGenStatus': return ('int', 1)
        if n == 'hasExciter': return ('int', self.has[0])
        if n == 'hasGovernor': return ('int', self.has[1])
        if n == 'getValue' and len(args) > 1:
            for x in subterms(args[0]):
                if isinstance(x, tuple) and len(x) > 1 and x[0] == 'str' and ('STAT' in str(x[1]) or str(x[1]) == 'GENERATOR_NUMBER'):
                    if args[1][0] == 'addr':
                        st.env[args[1][1]] = ('int', 2 if 'NUMBER' in str(x[1]) else 1); return ('int', 1)
            return None
        k = self.kind(node) if node['k'] == 'MCall' else None
        if k is None: return None
        if n == 'vectorSize' and len(args) == 1 and args[0][0] == 'addr':
            st.env[args[0][1]] = ('size', k, self.nth(st, k, 'vectorSize')); st.facts += (('vectorSize', k, None),)
            return ('void',)
        if n in ('init', 'vectorValues', 'setValues', 'setBusOffset') and len(args) == 1:
            st.facts += ((n, k, args[0]),)
            return ('void',)
        return None
    def nth(self, st, k, n): return sum(1 for x in st.facts if x[0] == n and x[1] == k)

def places(db, R, bus, M):
    """the unknowns of every device are where its matrix columns are"""
    load = [f for f in db.methods.get(bus, []) if f.n == 'load' and f.b is not None]
    if not load: return
    for has in itertools.product((0, 1), repeat=2):
        ref = None; runs = []
        for f, mode in [(load[0], None)] + [(f, m) for f in db.methods[bus] if f.b is not None and f.n in ('vectorValues', 'setValues') for m in (('INIT_X', 'RESIDUAL_EVAL', 'FAULT_EVAL') if f.n == 'vectorValues' else ('XVECTOBUS', 'XDOTVECTOBUS'))]:
            it = Places(db, bus, has)
            # the sizes found by the set-up, in every other method
            env = {fld('p_isolated'): ('int', 0), fld('p_ngen'): ('int', 2)}
            if mode: env[fld('p_mode')] = ('int', M[mode])
            for m, k in (('p_neqsgen', 'machine'), ('p_neqsexc', 'exciter'), ('p_neqsgov', 'governor')):
                for i in (0, 1):
                    if mode: env[('elem', fld(m), ('int', i))] = ('size', k, i) if k == 'machine' or has[k == 'governor'] else ('int', 0)
            par = ('par', f.ps[0]['n'], 0)
            for kind, st, v, n in it.run(f, env=env):
                if kind not in ('ret', 'end'): continue
                ev = {}
                for meth, k, a in st.facts:
                    if meth == 'vectorSize': continue
                    if mode: a = sub1(a, par)
                    ev.setdefault(k, []).append(poly.nf(a) if a is not None else None)
                if ref is None and mode is None:
                    if len(ev.get('machine', [])) == 2: ref = ev
                    continue
                runs.append((f, mode, ev))
        if ref is None or any(isinstance(y, tuple) and y and y[0] in ('phi', 'hav') for l in ref.values() for t in l for y in subterms(t)):
            R.count('device places not decided'); continue
        for f, mode, ev in runs:
            if not ev: continue
            for k in sorted(set(ref) | set(ev)):
                for i in range(2):
                    a = ref.get(k, []); b = ev.get(k, [])
                    if i >= len(a) and i >= len(b): continue
                    R.count('device places')
                    if i >= len(b) or i >= len(a) or a[i] != b[i]:
                        R.report('J7', f.file, f.l, f.q, 'the unknowns of a %s are not at its place in the unknowns of the bus in %s' % (k, mode), 'device %d: %s; set up at %s' % (i + 1, b[i] if i < len(b) else 'not handled', a[i] if i < len(a) else 'nowhere'))

def sub1(a, par):
    if a == par: return ('int', 0)
    return tuple(sub1(x, par) if isinstance(x, tuple) else x for x in a) if isinstance(a, tuple) else a

def unstring(t):
    """std::string(x) is x"""
    if isinstance(t, tuple) and t:
        if t[0] == 'ctor' and 'basic_string' in str(t[1]) and len(t) > 2 and isinstance(t[2], tuple): return unstring(t[2])
        return tuple(unstring(x) for x in t)
    return t

def csplit(t):
    """real and imaginary part of a complex term; a term that is not known to be complex is real"""
    n = ratf.num(t)
    if n is not None: return (t, ('int', 0))
    k = t[0]
    if k == 'ctor' and 'complex' in str(t[1]):
        a = [x for x in t[2:] if isinstance(x, tuple) and x and x[0] != '@']
        if len(a) == 1: return csplit(a[0])
        if len(a) == 2: return (reim(a[0]), reim(a[1]))
    if k == 'cast' and len(t) > 2: return csplit(t[2])
    if k == 'un' and t[1] in '+-':
        a = csplit(t[2])
        return a if t[1] == '+' else tuple(ratf.sub(('int', 0), x) for x in a)
    if k == 'bin' and t[1] in '+-*/':
        (a, b), (c, d) = csplit(t[2]), csplit(t[3])
        if t[1] == '+': return (ratf.add(a, c), ratf.add(b, d))
        if t[1] == '-': return (ratf.sub(a, c), ratf.sub(b, d))
        if t[1] == '*': return (ratf.sub(ratf.mul(a, c), ratf.mul(b, d)), ratf.add(ratf.mul(a, d), ratf.mul(b, c)))
        if num0(d): return (ratf.div(a, c), ratf.div(b, c))
        m = ratf.add(ratf.mul(c, c), ratf.mul(d, d))
        return (ratf.div(ratf.add(ratf.mul(a, c), ratf.mul(b, d)), m), ratf.div(ratf.sub(ratf.mul(b, c), ratf.mul(a, d)), m))
    if k == 'call':
        f = fname(t); a = fargs(t)
        if f == 'polar' and a:
            r, w = reim(a[0]), reim(a[1]) if len(a) > 1 else ('int', 0)
            return (ratf.mul(r, ('call', 'cos', ('noobj',), w)), ratf.mul(r, ('call', 'sin', ('noobj',), w)))
        if f == 'conj' and len(a) == 1:
            x, y = csplit(a[0]); return (x, ratf.sub(('int', 0), y))
    return (reim(t), ('int', 0))

def reim(t):
    """a real term with real(), imag(), abs() and norm() of complex terms resolved"""
    if not (isinstance(t, tuple) and t): return t
    if t[0] == 'call':
        f = fname(t); a = fargs(t)
        if f in ('real', 'imag', 'norm', 'abs') and len(a) == 1 and any(isinstance(x, tuple) and x and (x[0] == 'ctor' or x[0] == 'call' and fname(x) == 'polar') for x in subterms(a[0])):
            x, y = csplit(a[0])
            if f == 'real': return x
            if f == 'imag': return y
            m = ratf.add(ratf.mul(x, x), ratf.mul(y, y))
            return m if f == 'norm' else ('call', 'sqrt', ('noobj',), m)
    if t[0] in ('bin', 'un', 'cast', 'call'): return t[:1] + tuple(reim(y) if isinstance(y, tuple) else y for y in t[1:])
    if t[0] == 'ctor' and 'complex' in str(t[1]): return csplit(t)[0]
    return t

def estimation(db, R):
    """state estimation: the entries are those of the derivative of the measured quantities"""
    bus, branch = 'gridpack::state_estimation::SEBus', 'gridpack::state_estimation::SEBranch'
    if bus not in db.recs: return
    env = {}
    for w in (A, B):
        for n, ptr, m in (('v', 'p_vMag_ptr', 'p_v'), ('a', 'p_vAng_ptr', 'p_a')):
            env[('deref', ('fld', w, ptr))] = env[('fld', w, m)] = ('sym', n, w[1])
    for w in (A, B, L):
        env[('size', ('fld', w, 'p_meas'))] = ('int', 1)
        env[('size', ('fld', w, 'p_tag'))] = ('int', 1)
    clss = [bus, branch] + [c for c in list(db.bases(bus)) + list(db.bases(branch)) if c.startswith('gridpack::ymatrix') or 'Component' in c]
    def col(it, node, obj, args, st):
        if obj is None: return None
        o = obj[1] if obj[0] == 'thisptr' else obj
        return ('sym', 'col', o, args[0])
    ex = {'matrixGetColIndex': col, 'matrixGetRowIndex': lambda it, node, obj, args, st: ('int', 900), 'vectorGetElementIndices': lambda *a: ('void',)}
    M = enum('applications/components/se_matrix/se_components.hpp', 'SEMode')
    mode = M['Jacobian_H']
    conv = Conv()
    def norm(g): return frozenset((unstring(x), b) for x, b in g)
    for who, cls in ((A, bus), (B, bus), (L, branch)):
        mem = ('elem', ('fld', who, 'p_meas'), ('int', 0))
        def kind(g):
            for x, b in g:
                if b and x[0] == 'bin' and x[1] == '==' and ('fld', mem, 'p_type') in (x[2], x[3]):
                    o = x[3] if x[2] == ('fld', mem, 'p_type') else x[2]
                    return str(o[1])
            return None
        res = []; mat = []; cnt = []
        for name, out in (('vectorGetElementValues', res), ('matrixGetValues', mat)):
            for sig, f in sorted(comp.final(db, cls, name).items()):
                if f.cls not in (bus, branch): continue
                it, ps = netrun(db, clss, f, who, env, ex)
                if it.trunc: R.count('explorations cut short')
                for p in ps:
                    if inmode(p, who, mode): out.append((f, p, norm(nomode(p.g))))
                R.count('paths of residuals' if out is res else 'paths of matrices', len(ps))
        bad = {}
        for f, p, g in mat:
            E = {}; places = {}
            for k, v in p.st.env.items():
                if k[0] == 'elem' and k[1][0] == 'par' and isinstance(const(k[2]), int):
                    places.setdefault(k[1][2], {})[const(k[2])] = v
            vals, rows, cols = [places.get(i, {}) for i in range(3)]
            knd = kind(g)
            for n in vals:
                if n in cols: E.setdefault(cols[n], []).append(vals[n])
            for c, L2 in E.items():
                if len(L2) > 1: bad.setdefault((f, 'J1', 'state estimation: two entries of one measurement of kind %s for one column' % knd), ('', '', p))
            for ff, q, h in res:
                if not comp.compatible(g, h): continue
                z = stores(q).get(0)
                if z is None: continue
                if q.st.env.get(('elem', ('par', 'values', 0), ('int', 0))) is None: continue
                z = reim(z)
                if (not vals): 
                    if found(g): R.count('combinations without a block')
                    continue
                for w in (A, B):
                    isref = (('fld', w, 'p_refBus'), True) in g
                    for i, var in (((0, 'v'),) if isref else ((0, 'a'), (1, 'v'))):
                        R.count('entries compared')
                        got = E.get(('sym', 'col', w, ('int', i)), [('int', 0)])[0]
                        got = reim(got)
                        if opaque(got, z): R.count('entries not decided'); continue
                        try:
                            d = ratf.sub(('int', 0), Diff(('sym', var, w[1]))(z))
                            if any(isinstance(x, tuple) and x and x[0] in ('hav', 'undef', 'loop', 'out') for t in (d, got) for x in subterms(t)):
                                bad.setdefault((ff, 'J6', 'state estimation: the residual of a measurement of kind %s contains a value that was not set' % kind(h)), ('', z, q)); continue
                            if ratf.equal(d, got, conv): R.count('entries that agree'); continue
                        except (NoD, Big):
                            R.count('entries not decided'); continue
                        bad.setdefault((f, 'J1', 'state estimation: derivative of a measurement of kind %s on the %s with respect to the %s of the %s is wrong' % (knd, who[1], {'v': 'voltage', 'a': 'angle'}[var], w[1])), (got, d, p))
        for (f, rule, what), (got, want, p) in sorted(bad.items(), key=lambda x: (x[0][0].q, x[0][1:])):
            R.report(rule, f.file, f.l, f.q, what, 'stored %s; the residual gives %s; on %s' % (show(got)[:300] if got else '', show(want)[:300] if want else '', '; '.join(sorted('%s%s' % ('' if b else 'not ', show(x)) for x, b in p.g))[:300]))

def found(g): return True

def analyse(db, R):
    R.rule('J1', 'An entry of the Newton matrix equals the derivative of the residual entry of its row with respect to the variable of its column, in the same mode and under the same conditions.')
    R.rule('J2', 'An entry whose derivative is not zero is stored.')
    R.rule('J3', 'The derivatives a controller declares of the value it hands to the machine are those of that value.')
    R.rule('J4', 'The locations a controller declares for its variables are those of its block.')
    R.rule('J5', 'The solution of the linear system is subtracted from the unknowns, in the order of the matrix columns.')
    R.rule('J6', 'Every equation of a device has a residual in every mode and state.')
    R.rule('J6', 'The residual of a measurement is made of values that were set.')
    M = enum('applications/modules/dynamic_simulation_dae/constants.hpp', 'DSMode')
    pf(db, R)
    R.rule('J7', 'Every device of a bus has its unknowns, residuals and initial values at the place its matrix columns start.')
    dsim(db, R, M)
    places(db, R, 'DSimBus', M)
    estimation(db, R)
    for base, kind in (('BaseGenModel', 'gen'), ('BaseExcModel', 'exc'), ('BaseGovModel', 'gov')):
        for cls in sorted(db.derived(base)):
            if dae_class(db, R, cls, kind, M) and kind != 'gen': interface(db, R, cls, kind, M)
    R.floor('entries compared', 1300); R.floor('entries that agree', 1200); R.floor('models', 5)
    R.floor('updates compared', 12); R.floor('declared derivatives compared', 8)
