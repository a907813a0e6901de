"""Exact comparison of arithmetic terms as rational functions over opaque atoms, and their derivatives.
A term becomes (numerator polynomial, {denominator factor: power}); two terms are equal when the numerator of the
difference vanishes after sin^2 + cos^2 = 1 and sqrt(x)^2 = x. No sampling, no solver."""
from fractions import Fraction
from poly import num, padd, pmul, freeze

class Big(Exception): pass
LIMIT = 60000

def thaw(f): return {m: Fraction(*c) for m, c in f}
ONE = {(): Fraction(1)}

def mono(m):
    """split a monomial of non-negative powers"""
    return m

def rmul(a, b):
    if len(a) * len(b) > LIMIT: raise Big()
    return pmul(a, b)

def ppow(p, n):
    r = ONE
    for _ in range(n): r = rmul(r, p)
    return r

def factorise(p):
    """numerator polynomial as denominator: constant, {factor: power}"""
    # pull out common atoms
    com = None
    for m in p:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
    fac = {}
    for a, e in (com or {}).items(): fac[freeze({((a, 1),): Fraction(1)})] = e
    q = {}
    for m, c in p.items():
        d = dict(m)
        for a, e in (com or {}).items():
            d[a] -= e
            if d[a] == 0: del d[a]
        q[tuple(sorted(d.items(), key=repr))] = c
    k = min(q, key=repr); c = q[k]
    q = {m: v / c for m, v in q.items()}
    if q != ONE: fac[freeze(q)] = fac.get(freeze(q), 0) + 1
    return c, fac

def radd(x, y, s=1):
    (a, da), (b, db) = x, y
    if not a: return ({m: s * c for m, c in b.items()}, db)
    if not b: return x
    L = dict(da)
    for f, e in db.items(): L[f] = max(L.get(f, 0), e)
    for f, e in L.items():
        k = e - da.get(f, 0)
        if k: a = rmul(a, ppow(thaw(f), k))
        k = e - db.get(f, 0)
        if k: b = rmul(b, ppow(thaw(f), k))
    return (padd(a, b, s), L)

def rmul2(x, y):
    (a, da), (b, db) = x, y
    if not a or not b: return ({}, {})
    d = dict(da)
    for f, e in db.items(): d[f] = d.get(f, 0) + e
    r = (rmul(a, b), d)
    return cancel(r)

def cancel(x):
    """cancel single atoms between numerator and denominator"""
    a, d = x
    for f in list(d):
        if len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1:
            at = f[0][0][0][0]
            k = min([dict(m).get(at, 0) for m in a] or [0])
            k = min(k, d[f])
            if k > 0:
                n = {}
                for m, c in a.items():
                    e = dict(m); e[at] -= k
                    if e[at] == 0: del e[at]
                    n[tuple(sorted(e.items(), key=repr))] = c
                a = n; d = dict(d); d[f] -= k
                if d[f] == 0: del d[f]
        elif thaw(f) == a:
            d = dict(d); d[f] -= 1
            if d[f] == 0: del d[f]
            a = ONE
    return (a, d)

def rinv(x):
    a, d = x
    n = ONE
    for f, e in d.items(): n = rmul(n, ppow(thaw(f), e))
    c, fac = factorise(a)
    return cancel(({m: v / c for m, v in n.items()}, fac))

def key(x):
    return (freeze(x[0]), tuple(sorted(x[1].items(), key=repr)))

def reduce(p):
    """sin^2 -> 1 - cos^2, sqrt^2 -> argument, repeatedly"""
    while True:
        out = {}; ch = False
        for m, c in p.items():
            hit = None
            for a, e in m:
                if e >= 2 and isinstance(a, tuple) and a and (a[0] == 'sin' or a[0] == 'sqrt' and not a[1][1]):
                    hit = (a, e); break
            if hit is None:
                v = out.get(m, 0) + c
                if v == 0: out.pop(m, None)
                else: out[m] = v
                continue
            ch = True
            a, e = hit
            d = dict(m); d[a] -= 2
            if d[a] == 0: del d[a]
            base = {tuple(sorted(d.items(), key=repr)): c}
            sub = padd(ONE, {((('cos', a[1]), 2),): Fraction(1)}, -1) if a[0] == 'sin' else thaw(a[1][0])
            for mm, cc in rmul(base, sub).items():
                v = out.get(mm, 0) + cc
                if v == 0: out.pop(mm, None)
                else: out[mm] = v
            if len(out) > LIMIT: raise Big()
        p = out
        if not ch: return p

def atomr(a): return ({((a, 1),): Fraction(1)}, {})

def neg(x): return ({m: -c for m, c in x[0].items()}, x[1])

class Conv(object):
    """terms to rational functions; choose: alternative taken for each min/max term"""
    def __init__(self, choose=None):
        self.memo = {}; self.choose = choose or {}
        self.choices = set()
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.conv(t)
        return r
    def conv(self, t):
        n = num(t)
        if n is not None: return ({(): n} if n else {}, {})
        k = t[0]
        if k == 'bin' and t[1] in '+-*/':
            a = self(t[2]); b = self(t[3])
            if t[1] == '+': return radd(a, b)
            if t[1] == '-': return radd(a, b, -1)
            if t[1] == '*': return rmul2(a, b)
            if not b[0]: return atomr(('div0', t))
            return rmul2(a, rinv(b))
        if k == 'un' and t[1] == '-': return neg(self(t[2]))
        if k == 'un' and t[1] == '+': return self(t[2])
        if k == 'cast' and len(t) > 2: return self(t[2])
        if k == 'call':
            f = fname(t); a = fargs(t)
            if f in ('sin', 'cos') and len(a) == 1:
                x = self(a[0])
                if not x[0]: return ({}, {}) if f == 'sin' else (dict(ONE), {})
                lead = x[0][min(x[0], key=repr)]
                if lead < 0:
                    x = neg(x)
                    return neg(atomr((f, key(x)))) if f == 'sin' else atomr((f, key(x)))
                return atomr((f, key(x)))
            if f == 'sqrt' and len(a) == 1: return atomr(('sqrt', key(self(a[0]))))
            if f == 'pow' and len(a) == 2:
                e = num(a[1])
                if e is not None and e.denominator == 1 and 0 <= e <= 6:
                    return (ppow(self(a[0])[0], int(e)), {q: n * int(e) for q, n in self(a[0])[1].items()}) if e else (dict(ONE), {})
            if f in MINMAX and len(a) == 2:
                self.choices.add(t)
                if t in self.choose: return self(a[self.choose[t]])
            if f in ('real', 'abs', 'fabs', 'exp', 'log', 'atan', 'tan', 'atan2') and a:
                if f == 'real': return self(a[0])
                return atomr((f,) + tuple(key(self(x)) for x in a))
            return atomr(t)
        return atomr(t)

MINMAX = ('fmin', 'fmax', 'min', 'max')
def fname(t): return str(t[1]).split('::')[-1]
def fargs(t): return [x for x in t[3:] if isinstance(x, tuple) and x and x[0] != '@']

def add(a, b):
    if num(a) == 0: return b
    if num(b) == 0: return a
    return ('bin', '+', a, b)
def sub(a, b):
    if num(b) == 0: return a
    if num(a) == 0: return ('un', '-', b)
    return ('bin', '-', a, b)
def mul(a, b):
    if num(a) == 0 or num(b) == 0: return ('int', 0)
    if num(a) == 1: return b
    if num(b) == 1: return a
    return ('bin', '*', a, b)
def div(a, b):
    if num(a) == 0: return ('int', 0)
    return ('bin', '/', a, b)

class NoD(Exception): pass

class Diff(object):
    """derivative of a term with respect to an atom (a term); rule(t) gives the derivative of other atoms, or None"""
    def __init__(self, var, rule=None, choose=None):
        self.v = var; self.rule = rule; self.choose = choose or {}; self.memo = {}
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.d(t)
        return r
    def d(self, t):
        if t == self.v: return ('int', 1)
        if self.rule:
            r = self.rule(t, self.v)
            if r is not None: return r
        if num(t) is not None: return ('int', 0)
        k = t[0]
        if k == 'bin' and t[1] in '+-*/':
            a, b = t[2], t[3]
            da, db = self(a), self(b)
            if t[1] == '+': return add(da, db)
            if t[1] == '-': return sub(da, db)
            if t[1] == '*': return add(mul(da, b), mul(a, db))
            return sub(div(da, b), div(mul(a, db), ('bin', '*', b, b)))
        if k == 'un' and t[1] in '+-':
            x = self(t[2]); return x if t[1] == '+' else (x if num(x) == 0 else ('un', '-', x))
        if k == 'cast' and len(t) > 2: return self(t[2])
        if k == 'call':
            f = fname(t); a = fargs(t)
            ds = [self(x) for x in a]
            if all(num(x) == 0 for x in ds) and (t[2] == ('noobj',) or self.v not in t[2:3]): return ('int', 0)
            if f == 'real': return ds[0]
            if f == 'sin': return mul(ds[0], ('call', 'cos', ('noobj',), a[0]))
            if f == 'cos': return ('un', '-', mul(ds[0], ('call', 'sin', ('noobj',), a[0])))
            if f == 'sqrt': return div(ds[0], ('bin', '*', ('int', 2), t))
            if f == 'pow' and num(a[1]) is not None:
                return mul(mul(a[1], ds[0]), ('call', t[1], ('noobj',), a[0], ('flt', str(num(a[1]) - 1)) if num(a[1]).denominator != 1 else ('int', int(num(a[1]) - 1))))
            if f == 'exp': return mul(ds[0], t)
            if f == 'log': return div(ds[0], a[0])
            if f in MINMAX and t in self.choose: return ds[self.choose[t]]
            raise NoD(f)
        if k in ('bin', 'un', 'phi'):
            if self.v in subterms(t): raise NoD(k)
        return ('int', 0)

def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)

def zero(t, conv):
    x = conv(t)
    return not reduce(x[0])

def equal(a, b, conv):
    return zero(sub(a, b), conv)
