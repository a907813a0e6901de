"""Normal form of arithmetic terms: polynomials with rational coefficients over
opaque atoms (an atom raised to an integer power, negative for division)."""
from fractions import Fraction

def num(t):
    if t[0] == 'int' and isinstance(t[1], int):
        return Fraction(t[1])
    if t[0] == 'flt':
        try:
            v = t[1]
            return Fraction(str(v)) if not isinstance(v, float) else Fraction(repr(v))
        except (ValueError, ZeroDivisionError):
            return None
    return None

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r

def mmul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v == 0: d.pop(a, None)
        else: d[a] = v
    return tuple(sorted(d.items(), key=repr))

LIM = 400
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    return r

def freeze(p):
    return tuple(sorted(((m, (c.numerator, c.denominator)) for m, c in p.items()), key=repr))

def inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted(((a, -e) for a, e in m), key=repr)): 1 / c}
    # scale so that equal denominators up to a factor are one atom
    k = min(p, key=repr); c = p[k]
    q = {m: v / c for m, v in p.items()}
    return {((('P', freeze(q)), -1),): 1 / c}

def poly(t, atom=lambda t: t, d=0):
    """polynomial of a term; atom() maps opaque leaves"""
    if not isinstance(t, tuple):
        return {((atom(('raw', t)), 1),): Fraction(1)}
    n = num(t)
    if n is not None:
        return {(): n} if n else {}
    k = t[0]
    if k == 'bin' and t[1] in '+-*/':
        a = poly(t[2], atom, d + 1); b = poly(t[3], atom, d + 1)
        if t[1] == '+': return padd(a, b)
        if t[1] == '-': return padd(a, b, -1)
        if t[1] == '*':
            if len(a) * len(b) <= LIM: return pmul(a, b)
        elif b:
            i = inv(b)
            if len(a) * len(i) <= LIM: return pmul(a, i)
        return {((('op', t[1], freeze(a), freeze(b)), 1),): Fraction(1)}
    if k == 'un' and t[1] == '-':
        return {m: -c for m, c in poly(t[2], atom, d + 1).items()}
    if k == 'cast' and t[1] in ('double', 'float'):
        return poly(t[2], atom, d + 1)
    if k == 'phi':
        return {((('phi',) + tuple(sorted((freeze(poly(x, atom, d + 1)) for x in t[1:]), key=repr)), 1),): Fraction(1)}
    if k == 'call':
        args = tuple(freeze(poly(x, atom, d + 1)) for x in t[3:] if isinstance(x, tuple) and x[0] != '@')
        return {((('fn', str(t[1]).split('::')[-1], atom(t[2]) if t[2] != ('noobj',) else None) + args, 1),): Fraction(1)}
    if k == 'bin':
        return {((('cmp', t[1], freeze(poly(t[2], atom, d + 1)), freeze(poly(t[3], atom, d + 1))), 1),): Fraction(1)}
    return {((atom(t), 1),): Fraction(1)}

def nf(t, atom=lambda t: t):
    return freeze(poly(t, atom))

def degree_in(p, name):
    """split a polynomial by the power of an atom: {power: polynomial}"""
    r = {}
    for m, c in p.items():
        e = 0; rest = []
        for a, k in m:
            if a == name: e = k
            else: rest.append((a, k))
        r.setdefault(e, {})[tuple(rest)] = c
    return r
