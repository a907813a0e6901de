"""Path-sensitive dataflow over the extracted syntax trees.

Abstract values are terms (nested tuples): what an expression was computed
from, after substitution of locals, parameters and helper bodies.  States that
agree on the client's facts are merged at joins (values are joined, branch
conditions are intersected), so a property-relevant difference keeps paths
apart and nothing else does.  Calls into the repository are inlined when the
client asks for it.  Nothing is executed and nothing is solved: a condition is
only decided when the same condition, or an incompatible equality, was already
taken on the path."""
import sys
sys.setrecursionlimit(20000)

EXPRKIDS = ('cond', 'x', 'y', 'e', 'b', 'i', 'o', 'sz', 'fe', 'vla')
STMTKIDS = ('init', 'cv', 'cond', 'then', 'else', 'inc', 'body', 'range', 'var', 's', 'e', 'x', 'y', 'b', 'i', 'o', 'sz', 'fe', 'vla')

def kids(n):
    for k in STMTKIDS:
        v = n.get(k)
        if isinstance(v, dict):
            yield v
    for k in ('c', 'a', 'h'):
        v = n.get(k)
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x

def walk(n):
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))

CALLS = ('Call', 'MCall', 'OCall', 'Ctor')

def calls(n):
    return [x for x in walk(n) if x['k'] in CALLS]

def tsize(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(tsize(x) for x in t[1:])

def subterms(t):
    if isinstance(t, (tuple, frozenset)):
        yield t
        for x in t:
            for y in subterms(x):
                yield y

def mentions(t, pred):
    return any(pred(x) for x in subterms(t) if isinstance(x, tuple))

def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if d > 8: return '..'
    s = lambda x: show(x, d + 1)
    if k in ('int', 'flt'): return str(t[1])
    if k == 'str': return '"%s"' % t[1]
    if k == 'loc': return str(t[3]) if len(t) > 3 else 'v%s' % t[2]
    if k == 'fld': return (s(t[1]) + '.' if t[1] != ('this',) else '') + str(t[2])
    if k == 'elem': return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'deref': return '*' + s(t[1])
    if k == 'call': return '%s(%s)' % (str(t[1]).split('::')[-1], ','.join(s(x) for x in t[2:] if isinstance(x, tuple) and x[0] != 'noobj'))
    if k == 'bin': return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'un': return '%s%s' % (t[1], s(t[2]))
    if k == 'phi': return '{%s}' % '|'.join(s(x) for x in t[1:])
    if k == 'hav': return '%s~' % s(t[2])
    return '%s(%s)' % (k, ','.join(s(x) for x in t[1:]))

class State(object):
    __slots__ = ('env', 'guards', 'facts', 'trail')
    def __init__(self, env, guards, facts, trail=()):
        self.env = env; self.guards = guards; self.facts = facts; self.trail = trail
    def copy(self):
        return State(dict(self.env), self.guards, self.facts, self.trail)

TOP = ('top',)
CMPNEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
CMPSWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}

def const(t):
    if isinstance(t, tuple) and t[0] == 'int':
        return t[1]
    return None

def norm_cond(t, pol=True):
    """normal form of a leaf condition: (term, polarity)"""
    while True:
        if t[0] == 'un' and t[1] == '!':
            t, pol = t[2], not pol
            continue
        if t[0] == 'bin' and t[1] in CMPNEG:
            op, x, y = t[1], t[2], t[3]
            if const(x) is not None and const(y) is None or (x[0] in ('null',) and y[0] != 'null'):
                x, y, op = y, x, CMPSWAP[op]
            if op in ('==', '!='):
                if y == ('int', 0) or y == ('null',):
                    # x == 0  <=>  !x
                    if y == ('null',) or isbool(x):
                        t, pol = x, (pol if op == '!=' else not pol)
                        continue
                if const(y) is None and const(x) is None and repr(y) < repr(x):
                    x, y = y, x
                if op == '!=':
                    op, pol = '==', not pol
            elif op == '>=':
                # x >= c  <=> x > c-1 for integer constants
                if const(y) is not None and not isflt(x):
                    op, y = '>', ('int', const(y) - 1)
                else:
                    op, pol = '<', not pol
            elif op == '<=':
                if const(y) is not None and not isflt(x):
                    op, y = '<', ('int', const(y) + 1)
                else:
                    op, pol = '>', not pol
            if op == '<' and const(y) is not None and not isflt(x):
                # x < c <=> !(x > c-1)
                op, y, pol = '>', ('int', const(y) - 1), not pol
            elif op == '<' and const(y) is None:
                op, x, y = '>', y, x
            return ('bin', op, x, y), pol
        return t, pol

def isflt(t):
    return t[0] == 'flt'

def isbool(t):
    return t[0] in ('call', 'bool') or (t[0] == 'bin' and t[1] in CMPNEG)

def and_guards(g, term, pol):
    """guards is a dict-like frozenset of (term, pol)"""
    return g | frozenset([(term, pol)])

def decide(guards, term, pol):
    """True / False / None for (term has polarity pol) given guards"""
    if (term, pol) in guards:
        return True
    if (term, not pol) in guards:
        return False
    if term[0] == 'bin' and term[1] in ('==', '>'):
        op, x, y = term[1], term[2], term[3]
        cy = const(y)
        if cy is not None:
            lo, hi = None, None
            ne = set()
            for g, p in guards:
                if g[0] == 'bin' and g[2] == x and const(g[3]) is not None:
                    c = const(g[3])
                    if g[1] == '==':
                        if p:
                            lo = c if lo is None else max(lo, c); hi = c if hi is None else min(hi, c)
                        else:
                            ne.add(c)
                    elif g[1] == '>':
                        if p:
                            lo = c + 1 if lo is None else max(lo, c + 1)
                        else:
                            hi = c if hi is None else min(hi, c)
            if lo is not None or hi is not None or ne:
                if op == '==':
                    if lo is not None and lo == hi == cy:
                        return pol
                    if (lo is not None and cy < lo) or (hi is not None and cy > hi) or cy in ne:
                        return not pol
                else:
                    if lo is not None and lo > cy:
                        return pol
                    if hi is not None and hi <= cy:
                        return not pol
    return None

def fold(op, x, y):
    a, b = const(x), const(y)
    if a is not None and b is not None:
        try:
            if op == '+': return ('int', a + b)
            if op == '-': return ('int', a - b)
            if op == '*': return ('int', a * b)
            if op == '/' and b: return ('int', int(a / b))
            if op == '%' and b: return ('int', a - b * int(a / b))
            if op == '==': return ('int', int(a == b))
            if op == '!=': return ('int', int(a != b))
            if op == '<': return ('int', int(a < b))
            if op == '>': return ('int', int(a > b))
            if op == '<=': return ('int', int(a <= b))
            if op == '>=': return ('int', int(a >= b))
            if op == '|': return ('int', a | b)
            if op == '&': return ('int', a & b)
        except (ValueError, OverflowError):
            pass
    if op == '+':
        if a == 0: return y
        if b == 0: return x
        # (x + c1) + c2
        if b is not None and x[0] == 'bin' and x[1] == '+' and const(x[3]) is not None:
            return fold('+', x[2], ('int', const(x[3]) + b))
        if a is not None and b is None:
            return fold('+', y, x)
    if op == '-':
        if b == 0: return x
        if b is not None:
            return fold('+', x, ('int', -b))
        if x == y: return ('int', 0)
        if x[0] == 'bin' and x[1] == '+' and x[2] == y:
            return x[3]
    if op == '*':
        if a == 1: return y
        if b == 1: return x
        if a is not None and b is None:
            return ('bin', '*', y, x)
    return ('bin', op, x, y)

class Flow(object):
    __slots__ = ('n', 'b', 'c', 'r', 't')
    def __init__(self, n=None):
        self.n = n or []; self.b = []; self.c = []; self.r = []; self.t = []
    def absorb(self, o):
        self.b += o.b; self.c += o.c; self.r += o.r; self.t += o.t

# methods of standard containers that only read
PURE_STD = set('size empty c_str data begin end rbegin rend find at front back count length substr get str compare real imag rfind find_first_of find_first_not_of find_last_of capacity first second'.split())

class Interp(object):
    MAXDEPTH = 6
    MAXSTATES = 48
    UNROLL = 0
    def __init__(self, db):
        self.db = db
        self.stack = []
        self.nframe = 0
        self.uid = 0
        self.trunc = 0
        self.ncalls = 0
    # ---- client hooks -------------------------------------------------
    def facts0(self):
        return ()
    def mergekey(self, st):
        return st.facts
    def should_inline(self, fn, node, st):
        return False
    def on_call(self, node, obj, args, st):
        """before a call; may return a term (used as result) or None"""
        return None
    def after_call(self, node, obj, args, st, res):
        pass
    def on_store(self, lv, val, node, st):
        pass
    def on_load(self, lv, node, st):
        pass
    def on_cond(self, term, pol, node, st):
        pass
    def on_new(self, node, st, val):
        pass
    def on_delete(self, node, st, val):
        pass
    def on_exit(self, kind, st, val, node, fn):
        pass
    def on_enter(self, fn, node, st):
        pass
    def call_throws(self, node):
        return False
    def fieldname(self, node):
        """the name a member goes by"""
        return node['n']
    def dispatch(self, node, st):
        return self.db.callee(node)
    # ---- driver -------------------------------------------------------
    @property
    def fn(self):
        return self.stack[-1][0]
    @property
    def frame(self):
        return self.stack[-1][1]
    def where(self, node):
        f = self.fn
        return '%s:%d' % (f.file, node.get('l') or f.l)
    def chain(self):
        return ' > '.join(f[0].q.split('::')[-1] for f in self.stack)
    def run(self, fn, this=('this',), args=None, facts=None, guards=frozenset(), env=None):
        st = State(dict(env or {}), guards, self.facts0() if facts is None else facts)
        fl = self.body(fn, this, args, [st], None)
        for kind, s, v, n in fl:
            self.on_exit(kind, s, v, n, fn)
        return fl
    def body(self, fn, this, args, states, node):
        """returns [(kind, state, value, node)], kind in ret/throw"""
        self.nframe += 1
        fr = self.nframe
        self.stack.append((fn, fr, this))
        out = []
        try:
            for st in states:
                for i, p in enumerate(fn.ps):
                    key = ('loc', fr, p['id'], p['n'])
                    if args is not None and i < len(args) and args[i] is not None:
                        st.env[key] = args[i]
                    else:
                        st.env[key] = ('par', p['n'], i) if p['t'].endswith(('*', '&')) is False else ('par', p['n'], i)
                self.on_enter(fn, node, st)
            fl = Flow(states)
            if fn.isctor:
                cur = states
                for ini in fn.inits:
                    if ini.get('e') is None:
                        continue
                    nxt = []
                    for st in cur:
                        for s, v in self.ev(ini['e'], st):
                            if ini.get('fld'):
                                self.store(('fld', this, self.fieldname(ini)), v, ini['e'], s)
                            nxt.append(s)
                    cur = self.merge(nxt)
                fl = Flow(cur)
            if fn.b is not None:
                f2 = self.ex(fn.b, fl.n)
            else:
                f2 = fl
            for s, v, n in f2.r:
                out.append(('ret', s, v, n))
            for s in f2.n:
                out.append(('ret', s, None, None))
            for s, v, n in f2.t:
                out.append(('throw', s, v, n))
        finally:
            self.stack.pop()
        # drop this frame's locals
        for k, s, v, n in out:
            dead = [x for x in s.env if x[0] == 'loc' and x[1] == fr]
            for x in dead:
                del s.env[x]
        return out
    def fresh(self, what):
        self.uid += 1
        return ('hav', self.uid, what)
    # ---- joins --------------------------------------------------------
    def join2(self, a, b):
        if a.env is b.env:
            env = a.env
        else:
            env = {}
            for k in a.env.keys() | b.env.keys():
                x = a.env.get(k, k); y = b.env.get(k, k)
                env[k] = x if x == y else self.phi(x, y)
        return State(env, a.guards & b.guards, a.facts, a.trail)
    def phi(self, x, y):
        s = []
        for t in (x, y):
            for u in (t[1:] if t[0] == 'phi' else (t,)):
                if u not in s:
                    s.append(u)
        if len(s) == 1:
            return s[0]
        if TOP in s or len(s) > 8:
            return TOP
        s.sort(key=repr)
        return ('phi',) + tuple(s)
    def merge(self, sts):
        if len(sts) <= 1:
            return sts
        g = {}
        order = []
        for s in sts:
            k = self.mergekey(s)
            if k in g:
                g[k] = self.join2(g[k], s)
            else:
                g[k] = s; order.append(k)
        if len(order) > self.MAXSTATES:
            self.trunc += 1
            order = order[:self.MAXSTATES]
        return [g[k] for k in order]
    def merge_r(self, rs):
        # merge (state,val,node) returned states with equal key and value
        g = {}
        for s, v, n in rs:
            k = (self.mergekey(s), v)
            if k in g:
                g[k] = (self.join2(g[k][0], s), v, n)
            else:
                g[k] = (s, v, n)
        return list(g.values())
    # ---- statements ---------------------------------------------------
    def ex(self, n, sts):
        """execute statement n on states; returns Flow"""
        if n is None or not sts:
            return Flow(sts)
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, sts)
        # expression statement
        out = Flow()
        res = []
        for st in sts:
            for s, v in self.ev(n, st, out):
                res.append(s)
        out.n = self.merge(res)
        return out
    def s_Blk(self, n, sts):
        out = Flow()
        cur = sts
        for c in n['c']:
            if not cur:
                # labels may re-enter; ignore
                break
            f = self.ex(c, cur)
            out.absorb(f)
            cur = f.n
        out.n = cur
        return out
    def s_Null(self, n, sts):
        return Flow(sts)
    def s_Label(self, n, sts):
        return self.ex(n.get('s'), sts)
    def s_Goto(self, n, sts):
        return Flow([])
    def s_Decl(self, n, sts):
        out = Flow()
        cur = sts
        for v in n['c']:
            nxt = []
            for st in cur:
                nxt += self.declare(v, st, out)
            cur = nxt
        out.n = self.merge(cur)
        return out
    def declare(self, v, st, out=None):
        key = ('loc', self.frame, v['id'], v['n'])
        i = v.get('i')
        t = v.get('t', '')
        if v.get('vla'):
            res = []
            for s, sz in self.ev(v['vla'], st, out):
                s.env[key] = ('vla', key, sz)
                res.append(s)
            return res
        if i is None:
            st.env.pop(key, None)
            st.env[key] = ('undef', v['n'], v['l'])
            return [st]
        res = []
        if t.endswith('&') or t.endswith('&&'):
            for s, lv in self.lv(i, st, out):
                s.env[key] = ('ref', lv)
                res.append(s)
            return res
        for s, val in self.ev(i, st, out):
            self.store(key, val, v, s, decl=True)
            if val[0] == 'list' and t.endswith(']'): self.fill(key, val, s, t)
            res.append(s)
        return res
    def fill(self, key, val, s, t):
        """elements of an array given by a list; those not given are zero"""
        d = t[t.index('[') + 1:t.index(']')]
        if d.isdigit() and int(d) <= 64 and t.count('[') == 1 and '*' not in t:
            for i in range(len(val) - 1, int(d)): s.env[('elem', key, ('int', i))] = ('int', 0)
        t = t[:t.index('[')] + t[t.index(']') + 1:]
        for i, x in enumerate(val[1:]):
            k = ('elem', key, ('int', i))
            if isinstance(x, tuple) and x and x[0] == 'list':
                if '[' in t: self.fill(k, x, s, t)
            else: s.env[k] = x
    def s_If(self, n, sts):
        out = Flow()
        cur = sts
        if n.get('init'):
            f = self.ex(n['init'], cur); out.absorb(f); cur = f.n
        T, F = [], []
        for st in cur:
            if n.get('cv'):
                for s in self.declare(n['cv'], st, out):
                    a, b = self.cond(n['cond'], s, out)
                    T += a; F += b
            else:
                a, b = self.cond(n['cond'], st, out)
                T += a; F += b
        T = self.merge(T); F = self.merge(F)
        self.on_branch(n, T, F)
        ft = self.ex(n.get('then'), T)
        ff = self.ex(n.get('else'), F) if n.get('else') else Flow(F)
        out.absorb(ft); out.absorb(ff)
        out.n = self.merge(ft.n + ff.n)
        return out
    def on_branch(self, n, T, F):
        pass
    def assigned(self, n):
        """locals (ids) and textual lvalues assigned somewhere inside n"""
        c = n.get('_asg')
        if c is not None:
            return c
        ids = set(); flds = set(); cids = set()
        for x in walk(n):
            t = None; ptr = False
            if x['k'] == 'Asg':
                t = x['x']
            elif x['k'] == 'Un' and x['op'] in ('++', '--', 'p++', 'p--'):
                t = x['e']
            elif x['k'] == 'OCall' and x.get('n') in ('operator=', 'operator+=', 'operator-=', 'operator++', 'operator--', 'operator*=', 'operator/=', 'operator>>') and x.get('a'):
                t = x['a'][0]
            elif x['k'] == 'Un' and x['op'] == '&' and x['e']['k'] == 'Ref':
                t = x['e']
            elif x['k'] in ('Call', 'MCall', 'Ctor'):
                for a, w in zip(x.get('a', []), x.get('w', '')):
                    if w == 'r' and a['k'] == 'Ref' and 'id' in a:
                        ids.add(a['id'])
                if x['k'] == 'MCall' and not x.get('f', 'c').endswith('c') and x.get('o', {}).get('k') == 'Ref' and 'id' in x['o'] and x['n'] not in PURE_STD:
                    ids.add(x['o']['id'])
            while t is not None:
                if t['k'] == 'Ref' and 'id' in t:
                    (cids if ptr else ids).add(t['id']); break
                if t['k'] == 'Mem':
                    flds.add(t['n']); break
                if t['k'] in ('Sub',):
                    t = t['b']; ptr = ptr or t.get('t', '').endswith('*'); continue
                if t['k'] == 'OCall' and t.get('n') == 'operator[]':
                    t = t['a'][0]; continue
                if t['k'] in ('Un', 'Cast'):
                    t = t['e']; continue
                break
        n['_asg'] = (ids, flds, cids)
        return n['_asg']
    def havoc_loop(self, n, st):
        ids, flds, cids = self.assigned(n)
        fr = self.frame
        pts = [v for k, v in st.env.items() if k[0] == 'loc' and k[1] == fr and k[2] in cids]
        for k in list(st.env):
            if k[0] == 'loc' and k[1] == fr and k[2] in ids:
                v = st.env[k]
                if v[0] == 'ref':
                    continue
                st.env[k] = ('loop', n['l'], k)
            elif k[0] in ('fld', 'elem', 'deref'):
                b = k
                while b[0] in ('elem', 'deref'):
                    b = b[1]
                if (b[0] == 'fld' and b[2] in flds) or (b[0] == 'loc' and (b[2] in ids or b[2] in cids)) or b in pts:
                    st.env[k] = ('loop', n['l'], k)
        # what was known of the values of an earlier round is not known of this one
        l = n['l']
        old = [x for x in st.guards if mentions(x[0], lambda t: len(t) == 3 and t[0] == 'loop' and t[1] == l)]
        if old: st.guards = st.guards - frozenset(old)
        return st
    def loop(self, n, sts, condn, bodyn, incn, post=False, bind=None):
        out = Flow()
        brk = []
        cur = sts
        done = []
        # does the body run at least once?
        if not post and condn is not None and self.peel(n):
            T, F = [], []
            for st in [s.copy() for s in cur]:
                a, b = self.cond(condn, st, None)
                T += a; F += b
            sure = not F
        else:
            sure = post
        if self.UNROLL and not post and condn is not None:
            # rounds that are decided by constants are executed one by one
            left = []
            for r in range(self.UNROLL + 1):
                T = []
                for st in cur:
                    a, b = self.cond(condn, st.copy(), None)
                    if a and b or r == self.UNROLL and a: left.append(st)
                    elif a: T += a
                    else: done += b
                if not T: break
                f = self.ex(bodyn, self.merge(T))
                brk += f.b; out.r += f.r; out.t += f.t
                cur = self.merge(f.n + f.c)
                if incn is not None:
                    fi = self.ex(incn, cur); out.absorb(fi); cur = fi.n
            if not left:
                out.n = self.merge(done + brk)
                return out
            cur = left; sure = False
        first = True
        entry = [s.copy() for s in cur]
        if sure and not post:
            # first iteration on the exact entry state
            T = []
            for st in cur:
                a, b = self.cond(condn, st, out); T += a
            f = self.ex(bodyn, self.merge(T))
            brk += f.b; out.r += f.r; out.t += f.t
            cur = self.merge(f.n + f.c)
            if incn is not None:
                fi = self.ex(incn, cur); out.absorb(fi); cur = fi.n
        seen = None
        head = [self.havoc_loop(n, s.copy()) for s in cur]
        exits = []
        for it in range(4):
            head = self.merge(head)
            sig = self.sig(head)
            if sig == seen:
                break
            seen = sig
            exits = []; ob = []; orr = []; ot = []
            work = [s.copy() for s in head]
            if post:
                f = self.ex(bodyn, work)
                ob += f.b; orr += f.r; ot += f.t
                nxt = self.merge(f.n + f.c)
                T, F = [], []
                for st in nxt:
                    a, b = self.cond(condn, st, out); T += a; F += b
                exits = F; back = T
            else:
                T, F = [], []
                for st in work:
                    if condn is None:
                        T.append(st)
                        if bind:
                            F.append(st.copy())
                    else:
                        a, b = self.cond(condn, st, out); T += a; F += b
                exits = F
                T = self.merge(T)
                if bind:
                    for st in T:
                        bind(st)
                f = self.ex(bodyn, T)
                ob += f.b; orr += f.r; ot += f.t
                back = self.merge(f.n + f.c)
                if incn is not None:
                    fi = self.ex(incn, back); back = fi.n; ot += fi.t; orr += fi.r
            back = [self.havoc_loop(n, s.copy()) for s in back]
            head = self.merge([s.copy() for s in head] + back)
        out.r += orr; out.t += ot
        out.n = self.recount(n, entry, self.merge(exits + ob + brk + done))
        return out
    # ---- counting loops: two loops that count the same things count alike ----
    def counters(self, n):
        c = n.get('_cnt')
        if c is not None: return c
        c = {}
        bad = set()
        def canon(x):
            if isinstance(x, dict): return tuple(sorted((k, canon(v)) for k, v in x.items() if k not in ('l', 'id', 'file') and not k.startswith('_')))
            if isinstance(x, list): return tuple(canon(v) for v in x)
            return x
        def visit(x, path):
            if x is None: return True
            k = x['k']
            if k in ('Break', 'Continue', 'Return', 'For', 'While', 'Do', 'Try', 'Switch', 'Goto', 'Throw', 'Range'): return False
            if k == 'If':
                p = canon(x.get('c') if isinstance(x.get('c'), dict) else x.get('cond'))
                for b, q in (('t', True), ('then', True), ('e', False), ('else', False)):
                    if isinstance(x.get(b), dict) and x.get(b) is not x.get('cond'):
                        if not visit(x[b], path + ((p, q),)): return False
                return True
            if k == 'Un' and x['op'] in ('++', 'p++') and x['e']['k'] == 'Ref' and 'id' in x['e']:
                c.setdefault(x['e']['id'], []).append(path); return True
            if k in ('Asg',) and x['x']['k'] == 'Ref': bad.add(x['x'].get('id'))
            for y in kids(x):
                if not visit(y, path): return False
            return True
        ok = n['k'] == 'For' and n.get('cond') is not None and visit(n.get('body'), ())
        h = (canon(n.get('init')), canon(n.get('cond')), canon(n.get('inc'))) if ok else None
        c = {i: hash((h, tuple(p))) for i, p in c.items() if i not in bad} if ok else {}
        n['_cnt'] = c
        return c
    def recount(self, n, entry, sts):
        cs = self.counters(n)
        if not cs: return sts
        for st in sts:
            for k in [k for k in st.env if k[0] == 'loc' and k[1] == self.frame and k[2] in cs]:
                old = ('loop', n['l'], k)
                if st.env[k] != old: continue
                v0 = set(e.env.get(k) for e in entry)
                if len(v0) != 1: continue
                v0 = v0.pop()
                if v0 is None or const(v0) is None: continue
                new = ('cnt', cs[k[2]], v0)
                def sub(t):
                    if t == old: return new
                    return tuple(sub(x) for x in t) if isinstance(t, tuple) else t
                for kk in list(st.env):
                    if st.env[kk] == old: st.env[kk] = new
                st.guards = frozenset((sub(g), p) if mentions(g, lambda t: t == old) else (g, p) for g, p in st.guards)
        return sts
    def peel(self, n):
        return True
    def sig(self, sts):
        return sorted((repr(self.mergekey(s)), len(s.guards), hash(frozenset(s.env.items()))) for s in sts)
    def s_For(self, n, sts):
        out = Flow()
        if n.get('init'):
            f = self.ex(n['init'], sts); out.absorb(f); sts = f.n
        f = self.loop(n, sts, n.get('cond'), n.get('body'), n.get('inc'))
        out.absorb(f); out.n = f.n
        return out
    def s_While(self, n, sts):
        return self.loop(n, sts, n.get('cond'), n.get('body'), None)
    def s_Do(self, n, sts):
        return self.loop(n, sts, n.get('cond'), n.get('body'), None, post=True)
    def s_RFor(self, n, sts):
        out = Flow()
        res = []
        rng = {}
        cur = []
        for st in sts:
            for s, v in self.lv(n['range'], st, out):
                cur.append(s); rng['v'] = v
        v = n['var']
        def bind(st):
            key = ('loc', self.frame, v['id'], v['n'])
            el = ('elem', rng['v'], ('loop', n['l'], key))
            if v.get('t', '').endswith('&'):
                st.env[key] = ('ref', el)
            else:
                st.env[key] = self.load(el, st)
        f = self.loop(n, cur, None, n.get('body'), None, bind=bind)
        out.absorb(f); out.n = f.n
        return out
    def s_Switch(self, n, sts):
        out = Flow()
        body = n.get('body') or {}
        items = body.get('c', []) if body.get('k') == 'Blk' else [body]
        vals = []
        for st in sts:
            vals += self.ev(n['cond'], st, out)
        # flatten nested case labels
        flat = []
        for it in items:
            labs = []
            while it is not None and it['k'] in ('Case', 'Default'):
                labs.append(it); it = it.get('s')
            flat.append((labs, it))
        allc = [l['v'] for labs, _ in flat for l in labs if l['k'] == 'Case' and 'v' in l]
        hasdef = any(l['k'] == 'Default' for labs, _ in flat for l in labs)
        cur = []
        for labs, it in flat:
            ent = []
            for l in labs:
                for st, v in vals:
                    if l['k'] == 'Case':
                        if 'v' in l:
                            s = self.assume(('bin', '==', v, ('int', l['v'])), True, st.copy(), n)
                        else:
                            s = st.copy()
                        if s: ent.append(s)
                    else:
                        s = st.copy()
                        for c in allc:
                            s = s and self.assume(('bin', '==', v, ('int', c)), False, s, n)
                        if s: ent.append(s)
            cur = self.merge(cur + ent)
            if it is not None and cur:
                f = self.ex(it, cur)
                out.r += f.r; out.t += f.t; out.c += f.c
                out.n += f.b
                cur = f.n
        out.n += cur
        if not hasdef:
            for st, v in vals:
                s = st.copy()
                for c in allc:
                    s = s and self.assume(('bin', '==', v, ('int', c)), False, s, n)
                if s: out.n.append(s)
        out.n = self.merge(out.n)
        return out
    def s_Break(self, n, sts):
        f = Flow([]); f.b = list(sts); return f
    def s_Continue(self, n, sts):
        f = Flow([]); f.c = list(sts); return f
    def s_Ret(self, n, sts):
        out = Flow()
        for st in sts:
            if n.get('e') is None:
                out.r.append((st, None, n))
            else:
                e = n['e']
                if self.fn.h.get('t', '').endswith('&'):
                    for s, v in self.lv(e, st, out):
                        out.r.append((s, ('ref', v), n))
                else:
                    for s, v in self.ev(e, st, out):
                        out.r.append((s, v, n))
        out.r = self.merge_r(out.r)
        return out
    def s_Throw(self, n, sts):
        out = Flow()
        for st in sts:
            if n.get('e') is not None:
                for s, v in self.ev(n['e'], st, out):
                    out.t.append((s, v, n))
            else:
                out.t.append((st, None, n))
        return out
    def s_Try(self, n, sts):
        out = Flow()
        self.trystack = getattr(self, 'trystack', [])
        pts = [s.copy() for s in sts]
        self.trystack.append(pts)
        f = self.ex(n['body'], sts)
        self.trystack.pop()
        ent = self.merge([s.copy() for s in pts] + [s.copy() for s, v, nn in f.t])
        out.r += f.r; out.b += f.b; out.c += f.c
        res = f.n
        for h in n.get('h', []):
            fh = self.ex(h['body'], [s.copy() for s in ent])
            out.absorb(fh)
            res = res + fh.n
        out.n = self.merge(res)
        return out
    # ---- conditions ---------------------------------------------------
    def assume(self, term, pol, st, node):
        if term[0] == 'ref':
            term = self.load(term[1], st)
        if term[0] == 'bin' and term[1] in CMPNEG:
            t2 = fold(term[1], term[2], term[3])
            if const(t2) is not None:
                term = t2
        c = const(term)
        if c is not None:
            return st if bool(c) == pol else None
        if term[0] == 'null':
            return st if not pol else None
        if term[0] == 'phi':
            cs = [const(x) for x in term[1:]]
            if all(c is not None for c in cs):
                if all(bool(c) == pol for c in cs): return st
                if all(bool(c) != pol for c in cs): return None
        t, p = norm_cond(term, pol)
        c = const(t)
        if c is not None:
            return st if bool(c) == p else None
        if t[0] == 'bin':
            f2 = fold(t[1], t[2], t[3])
            if const(f2) is not None:
                return st if bool(const(f2)) == p else None
        d = decide(st.guards, t, p)
        if d is False:
            return None
        self.on_cond(t, p, node, st)
        if d is None:
            st.guards = st.guards | frozenset([(t, p)])
        return st
    def cond(self, n, st, out):
        """split st on condition n: (true states, false states)"""
        k = n['k']
        if k == 'Un' and n['op'] == '!':
            a, b = self.cond(n['e'], st, out)
            return b, a
        if k == 'Bin' and n['op'] == '&&':
            T, F = [], []
            a, b = self.cond(n['x'], st, out)
            F += b
            for s in a:
                c, d = self.cond(n['y'], s, out)
                T += c; F += d
            return T, F
        if k == 'Bin' and n['op'] == '||':
            T, F = [], []
            a, b = self.cond(n['x'], st, out)
            T += a
            for s in b:
                c, d = self.cond(n['y'], s, out)
                T += c; F += d
            return T, F
        if k == 'Bool':
            return ([st], []) if n['v'] else ([], [st])
        T, F = [], []
        for s, v in self.ev(n, st, out):
            s2 = s.copy()
            a = self.assume(v, True, s, n)
            b = self.assume(v, False, s2, n)
            if a: T.append(a)
            if b: F.append(b)
        return T, F
    # ---- lvalues ------------------------------------------------------
    def lv(self, n, st, out=None):
        """[(state, location term)]"""
        k = n['k']
        if k == 'Ref':
            if n.get('d') in ('loc', 'par') and 'id' in n:
                key = ('loc', self.frame, n['id'], n['n'])
                v = st.env.get(key)
                if v is None and False:
                    pass
                if v is not None and v[0] == 'ref':
                    return [(st, v[1])]
                return [(st, key)]
            if n.get('d') in ('glob', 'sfield'):
                return [(st, ('glob', n['q']))]
            return self.ev(n, st, out)
        if k == 'Mem':
            res = []
            for s, b in self.base(n, st, out):
                res.append((s, ('fld', b, self.fieldname(n))))
            return res
        if k == 'Sub':
            res = []
            for s, b in self.ev_arr(n['b'], st, out):
                for s2, i in self.ev(n['i'], s, out):
                    res.append((s2, ('elem', b, i)))
            return res
        if k == 'OCall' and n.get('n') == 'operator[]' and len(n['a']) == 2:
            res = []
            for s, b in self.lv(n['a'][0], st, out):
                for s2, i in self.ev(n['a'][1], s, out):
                    res.append((s2, ('elem', b, i)))
            return res
        if k == 'Un' and n['op'] == '*':
            res = []
            for s, v in self.ev(n['e'], st, out):
                res.append((s, self.pointee(v)))
            return res
        if k == 'OCall' and n.get('n') == 'operator*' and len(n['a']) == 1:
            res = []
            for s, v in self.ev(n['a'][0], st, out):
                res.append((s, self.pointee(v)))
            return res
        if k == 'Un' and n['op'] in ('++', '--'):
            res = []
            for s, v in self.ev(n, st, out):
                res += self.lv(n['e'], s, out)
            return res
        if k == 'Asg':
            res = []
            for s, v in self.ev(n, st, out):
                res += self.lv(n['x'], s, out)
            return res
        if k == 'Cast':
            return self.lv(n['e'], st, out)
        if k == 'Cnd':
            a, b = self.cond(n['cond'], st, out)
            res = []
            for s in a: res += self.lv(n['x'], s, out)
            for s in b: res += self.lv(n['y'], s, out)
            return res
        if k == 'OCall' and n.get('n') in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator<<'):
            res = []
            for s, v in self.ev(n, st, out):
                res += self.lv(n['a'][0], s, out)
            return res
        if k in ('Call', 'MCall', 'OCall'):
            res = []
            for s, v in self.ev0(n, st, out):
                if v[0] == 'ref':
                    res.append((s, v[1]))
                else:
                    res.append((s, v))
            return res
        return self.ev(n, st, out)
    def pointee(self, v):
        if v[0] == 'addr':
            return v[1]
        return ('deref', v)
    def base(self, n, st, out):
        """object a member belongs to"""
        b = n.get('b')
        if b is None:
            return [(st, self.stack[-1][2])]
        if b['k'] == 'This':
            return [(st, self.stack[-1][2])]
        if n.get('ar'):
            if b['k'] == 'OCall' and b.get('n') == 'operator->':
                b2 = b['a'][0]
                res = []
                for s, v in self.ev(b2, st, out):
                    res.append((s, v[1] if v[0] == 'addr' else self.canon_obj(v)))
                return res
            res = []
            for s, v in self.ev(b, st, out):
                res.append((s, v[1] if v[0] == 'addr' else self.canon_obj(v)))
            return res
        return self.lv(b, st, out)
    def canon_obj(self, v):
        # objects behind pointers are named by the pointer's value
        if v[0] == 'thisptr':
            return v[1]
        return ('deref', v) if v[0] not in ('this',) else v
    def ev_arr(self, n, st, out):
        """value of an array/pointer expression used as subscript base"""
        k = n['k']
        t = n.get('t', '')
        if k in ('Ref', 'Mem') and '[' in t:
            return self.lv(n, st, out)
        res = []
        for s, v in self.ev(n, st, out):
            if v[0] == 'addr' and v[1][0] == 'elem' and v[1][2] == ('int', 0):
                v = v[1][1]
            res.append((s, v))
        return res
    def load(self, lv, st):
        v = st.env.get(lv)
        if v is None:
            if lv[0] == 'glob' or lv[0] == 'loc':
                return lv
            return lv
        if v[0] == 'ref':
            return self.load(v[1], st)
        return v
    def store(self, lv, val, node, st, decl=False):
        if lv[0] == 'phi':
            return
        if not decl:
            self.on_store(lv, val, node, st)
        elif lv[0] == 'loc':
            self.on_store(lv, val, node, st)
        # writing an element invalidates other symbolic elements of the same array
        if lv[0] == 'elem':
            for k in [k for k in st.env if k[0] == 'elem' and k[1] == lv[1] and k != lv]:
                if const(k[2]) is None or const(lv[2]) is None:
                    del st.env[k]
                    st.env[k] = self.fresh(k)
        # a new value for a whole object drops what is known of its parts
        elif lv[0] in ('loc', 'fld', 'deref'):
            for k in [k for k in st.env if k[0] in ('fld', 'elem') and k[1] == lv]:
                del st.env[k]
        st.env[lv] = val
    # ---- expressions --------------------------------------------------
    def ev(self, n, st, out=None):
        res = []
        for s, v in self.ev0(n, st, out):
            if v[0] == 'ref':
                v = self.load(v[1], s)
            res.append((s, v))
        return res
    def evs(self, ns, st, out):
        """evaluate a list left to right"""
        cur = [(st, ())]
        for n in ns:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, out):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
            if len(cur) > 16:
                cur = cur[:16]; self.trunc += 1
        return cur
    def cap(self, t):
        if tsize(t) > 220:
            self.uid += 1
            return ('big', self.uid)
        return t
    def ev0(self, n, st, out=None):
        if n is None:
            return [(st, TOP)]
        k = n['k']
        if k == 'Int': return [(st, ('int', n['v']))]
        if k == 'Bool': return [(st, ('int', int(n['v'])))]
        if k == 'Flt': return [(st, ('flt', n['v']))]
        if k == 'Str': return [(st, ('str', n['v']))]
        if k == 'Nul': return [(st, ('null',))]
        if k == 'This': return [(st, ('thisptr', self.stack[-1][2]))]
        if k == 'Ref':
            if n.get('d') == 'enum' or ('v' in n and n.get('d') != 'fn'):
                return [(st, ('int', n['v']))]
            if n.get('d') == 'fn':
                return [(st, ('fn', n.get('q')))]
            if n.get('d') in ('loc', 'par', 'glob', 'sfield'):
                r = self.lv(n, st, out)
                lv = r[0][1]
                self.on_load(lv, n, st)
                if '[' in n.get('t', '') and lv[0] == 'loc':
                    return [(st, lv)]
                return [(st, self.load(lv, st))]
            return [(st, ('name', n.get('n')))]
        if k == 'Mem':
            if n.get('f'):
                return [(st, ('fn', n.get('q')))]
            res = []
            for s, lv in self.lv(n, st, out):
                self.on_load(lv, n, s)
                res.append((s, self.load(lv, s)))
            return res
        if k == 'Sub':
            res = []
            for s, lv in self.lv(n, st, out):
                self.on_load(lv, n, s)
                res.append((s, self.load(lv, s)))
            return res
        if k == 'Cast':
            if n.get('t') == 'void':
                return self.ev(n['e'], st, out)
            if n.get('t', '') in ('int', 'long', 'double', 'float', 'unsigned int', 'bool', 'size_t', 'unsigned long', 'PetscInt', 'short', 'char'):
                return [(s, v if v[0] in ('int', 'flt') and not (v[0] == 'flt' and n['t'] not in ('double', 'float')) else ('cast', n['t'], v) if n['t'] in ('int', 'long', 'short', 'char', 'unsigned int') and v[0] not in ('int',) and not self.inty(n['e']) else v) for s, v in self.ev(n['e'], st, out)]
            return self.ev(n['e'], st, out)
        if k == 'ICast':
            return [(s, ('cast', n.get('t'), v)) for s, v in self.ev(n['e'], st, out)]
        if k == 'DefArg':
            return self.ev(n.get('e'), st, out) if n.get('e') else [(st, ('zero',))]
        if k == 'Zero': return [(st, ('int', 0))]
        if k == 'Szof': return [(st, ('int', n['v']) if 'v' in n else ('szof', n.get('of')))]
        if k == 'Bin': return self.e_Bin(n, st, out)
        if k == 'Asg': return self.e_Asg(n, st, out)
        if k == 'Un': return self.e_Un(n, st, out)
        if k == 'Cnd':
            a, b = self.cond(n['cond'], st, out)
            res = []
            for s in self.merge(a): res += self.ev(n['x'], s, out)
            for s in self.merge(b): res += self.ev(n['y'], s, out)
            return res
        if k == 'OCall': return self.e_OCall(n, st, out)
        if k in ('Call', 'MCall'): return self.e_call(n, st, out)
        if k == 'Ctor': return self.e_Ctor(n, st, out)
        if k == 'New':
            res = []
            base = [(st, None)]
            if n.get('sz'):
                base = self.ev(n['sz'], st, out)
            for s, sz in base:
                if n.get('i') is not None:
                    r = self.ev(n['i'], s, out)
                else:
                    r = [(s, None)]
                for s2, iv in r:
                    self.uid += 1
                    v = ('new', self.fn.file, n['l'], n.get('t'), sz, self.uid if self.new_unique else 0)
                    if iv is not None and not n.get('arr'):
                        s2.env[('deref', v)] = iv
                    self.on_new(n, s2, v)
                    res.append((s2, v))
            return res
        if k == 'Del':
            res = []
            for s, v in self.ev(n['e'], st, out):
                self.on_delete(n, s, v)
                res.append((s, TOP))
            return res
        if k in ('IL', 'PL'):
            return [(s, ('list',) + vs) for s, vs in self.evs(n['c'], st, out)]
        if k == 'Throw':
            f = self.s_Throw(n, [st])
            if out is not None:
                out.t += f.t
            return []
        if k == 'Lam':
            return [(st, ('lambda', n['l']))]
        if k == 'Var':
            return [(s, TOP) for s in self.declare(n, st, out)]
        cs = [x for x in kids(n)]
        return [(s, self.cap(('oth', n.get('ck'), n.get('l')) + vs)) for s, vs in self.evs(cs, st, out)]
    new_unique = False
    def inty(self, n):
        return n.get('t') in ('int', 'long', 'unsigned int', 'bool', 'unsigned long', 'short', 'char', 'long long')
    def e_Bin(self, n, st, out):
        op = n['op']
        if op in ('&&', '||'):
            a, b = self.cond(n, st, out)
            return [(s, ('int', 1)) for s in self.merge(a)] + [(s, ('int', 0)) for s in self.merge(b)]
        if op == ',':
            res = []
            for s, v in self.ev(n['x'], st, out):
                res += self.ev(n['y'], s, out)
            return res
        res = []
        for s, x in self.ev(n['x'], st, out):
            for s2, y in self.ev(n['y'], s, out):
                res.append((s2, self.cap(fold(op, x, y))))
        return res
    def e_Asg(self, n, st, out):
        op = n['op']
        res = []
        for s, y in self.ev(n['y'], st, out):
            for s2, lv in self.lv(n['x'], s, out):
                if op != '=':
                    self.on_load(lv, n['x'], s2)
                    y2 = self.cap(fold(op[:-1], self.load(lv, s2), y))
                else:
                    y2 = y
                self.store(lv, y2, n, s2)
                res.append((s2, y2))
        return res
    def e_Un(self, n, st, out):
        op = n['op']
        if op == '!':
            a, b = self.cond(n, st, out)
            return [(s, ('int', 1)) for s in self.merge(a)] + [(s, ('int', 0)) for s in self.merge(b)]
        if op == '&':
            e = n['e']
            if e['k'] == 'Mem' and e.get('f') or e['k'] == 'Ref' and e.get('d') == 'fn':
                return [(st, ('fn', e.get('q')))]
            return [(s, ('addr', lv)) for s, lv in self.lv(e, st, out)]
        if op == '*':
            res = []
            for s, lv in self.lv(n, st, out):
                self.on_load(lv, n, s)
                res.append((s, self.load(lv, s)))
            return res
        if op in ('++', '--', 'p++', 'p--'):
            res = []
            for s, lv in self.lv(n['e'], st, out):
                old = self.load(lv, s)
                new = self.cap(fold('+' if '+' in op else '-', old, ('int', 1)))
                self.store(lv, new, n, s)
                res.append((s, old if op[0] == 'p' else new))
            return res
        if op == '-':
            return [(s, ('int', -v[1]) if v[0] == 'int' else ('un', '-', v)) for s, v in self.ev(n['e'], st, out)]
        if op == '+':
            return self.ev(n['e'], st, out)
        return [(s, self.cap(('un', op, v))) for s, v in self.ev(n['e'], st, out)]
    def e_OCall(self, n, st, out):
        op = n.get('n', '')
        a = n['a']
        if op == 'operator[]' and len(a) == 2:
            res = []
            for s, lv in self.lv(n, st, out):
                self.on_load(lv, n, s)
                self.on_call(n, lv[1] if lv[0] == 'elem' else lv, (lv[2] if lv[0] == 'elem' else TOP,), s)
                res.append((s, ('ref', lv)))
            return res
        if op == 'operator=' and len(a) == 2:
            res = []
            for s, y in self.ev(a[1], st, out):
                for s2, lv in self.lv(a[0], s, out):
                    r = self.on_call(n, lv, (y,), s2)
                    self.store(lv, y, n, s2)
                    res.append((s2, y))
            return res
        if op in ('operator*', 'operator->') and len(a) == 1:
            res = []
            for s, v in self.ev(a[0], st, out):
                if op == 'operator->':
                    res.append((s, v))
                else:
                    res.append((s, ('ref', self.pointee(v))))
            return res
        if op in ('operator++', 'operator--'):
            res = []
            for s, lv in self.lv(a[0], st, out):
                new = self.cap(('bin', op[8], self.load(lv, s), ('int', 1)))
                self.store(lv, new, n, s)
                res.append((s, new))
            return res
        if op in ('operator+=', 'operator-=', 'operator*=', 'operator/=') and len(a) == 2:
            res = []
            for s, y in self.ev(a[1], st, out):
                for s2, lv in self.lv(a[0], s, out):
                    self.on_call(n, lv, (y,), s2)
                    v = self.cap(fold(op[8], self.load(lv, s2), y))
                    self.store(lv, v, n, s2)
                    res.append((s2, v))
            return res
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator+', 'operator-', 'operator*', 'operator/') and len(a) == 2:
            res = []
            for s, vs in self.evs(a, st, out):
                self.on_call(n, None, vs, s)
                res.append((s, self.cap(fold(op[8:], vs[0], vs[1]))))
            return res
        if op == 'operator-' and len(a) == 1:
            return [(s, ('un', '-', v)) for s, v in self.ev(a[0], st, out)]
        return self.e_call(n, st, out)
    def e_Ctor(self, n, st, out):
        a = n.get('a', [])
        if len(a) == 1 and (n.get('copy') or n.get('n') in ('basic_string', 'complex', 'shared_ptr')):
            return self.ev(a[0], st, out)
        if n.get('n') == 'basic_string' and len(a) == 2 and a[0]['k'] == 'Str':
            return self.ev(a[0], st, out)
        res = []
        for s, vs in self.args(n, st, out):
            r = self.on_call(n, None, vs, s)
            v = r if r is not None else self.cap(('ctor', n.get('q')) + vs)
            res.append((s, v))
        return res
    def args(self, n, st, out):
        """argument terms; non-const reference arguments as ('ref', location)"""
        w = n.get('w', '')
        cur = [(st, ())]
        for i, a in enumerate(n.get('a', [])):
            nxt = []
            byref = i < len(w) and w[i] == 'r'
            for s, vs in cur:
                if byref:
                    for s2, lv in self.lv(a, s, out):
                        nxt.append((s2, vs + (('ref', lv),)))
                else:
                    for s2, v in self.ev(a, s, out):
                        nxt.append((s2, vs + (v,)))
            cur = nxt
            if len(cur) > 24:
                cur = cur[:24]; self.trunc += 1
        return cur
    def e_call(self, n, st, out):
        res = []
        pre = []
        if n['k'] == 'MCall':
            o = n.get('o')
            if o is None or o['k'] == 'This':
                pre = [(st, self.stack[-1][2])]
            else:
                t = o.get('t', '')
                if o['k'] == 'OCall' and o.get('n') == 'operator->':
                    pre = [(s, v[1] if v[0] in ('addr', 'thisptr') else ('deref', v)) for s, v in self.ev(o['a'][0], st, out)]
                elif t.endswith('*') or o['k'] == 'Un' and o['op'] == '&':
                    pre = [(s, v[1] if v[0] in ('addr', 'thisptr') else ('deref', v)) for s, v in self.ev(o, st, out)]
                else:
                    pre = self.lv(o, st, out)
        elif n['k'] == 'Call' and n.get('o'):
            pre = self.lv(n['o'], st, out)
        elif n['k'] == 'Call' and n.get('fe'):
            pre = self.ev(n['fe'], st, out)
        else:
            pre = [(st, None)]
        for s0, obj in pre:
            for s, vs in self.args(n, s0, out):
                res += self.call1(n, obj, vs, s, out)
        return res
    def call1(self, n, obj, vs, s, out):
        self.ncalls += 1
        r = self.on_call(n, obj, vs, s)
        for pts in getattr(self, 'trystack', []):
            pts.append(s.copy())
        if getattr(self, 'trystack', None):
            for i, p in enumerate(self.trystack):
                if len(p) > 8:
                    p[:] = self.merge(p)
        if out is not None and self.call_throws(n):
            out.t.append((s.copy(), TOP, n))
        if r is not None:
            self.after_call(n, obj, vs, s, r)
            return [(s, r)]
        fn = self.dispatch(n, s)
        if fn is not None and len(self.stack) < self.MAXDEPTH and not any(f[0] is fn for f in self.stack) and self.should_inline(fn, n, s):
            this = obj if obj is not None else ('this',)
            fl = self.body(fn, this, list(vs), [s], n)
            res = {}
            for kind, s2, v, nn in fl:
                if kind == 'ret':
                    v = v if v is not None else ('void',)
                    if isinstance(v, tuple) and v[0] == 'ref' and v[1][0] == 'loc':
                        pass
                    k = (self.mergekey(s2), v)
                    if k in res:
                        res[k] = (self.join2(res[k][0], s2), v)
                    else:
                        res[k] = (s2, v)
                elif out is not None:
                    out.t.append((s2, v, nn))
            r = list(res.values())
            for s2, v in r:
                self.after_call(n, obj, vs, s2, v)
            return r
        v = self.opaque(n, obj, vs, s)
        self.after_call(n, obj, vs, s, v)
        return [(s, v)]
    def opaque(self, n, obj, vs, s):
        """value and effects of a call that is not inlined"""
        q = n.get('q') or n.get('n')
        name = n.get('n', '')
        if name == 'get' and n['k'] == 'MCall' and q.startswith('boost::') and not vs:
            return self.unptr(obj)
        isconst = n.get('f', '').endswith('c') or (n['k'] != 'MCall') or (name in PURE_STD and not q.startswith('gridpack'))
        w = n.get('w', '')
        wrote = False
        for i, v in enumerate(vs):
            if v[0] == 'ref':
                s.env[v[1]] = ('out', name, i) + tuple(x if x[0] != 'ref' else ('refarg',) for x in vs[:3]) if False else self.fresh(('out', name, i))
                for kk in [kk for kk in s.env if kk[0] in ('elem', 'fld') and kk[1] == v[1]]:
                    del s.env[kk]
                wrote = True
            elif v[0] == 'addr' and i < len(w) and w[i] == 'p':
                s.env[v[1]] = self.fresh(('out', name, i))
                wrote = True
        if n['k'] == 'MCall' and not isconst and obj is not None and not q.startswith('gridpack'):
            # a std/boost object modified in place
            if obj[0] in ('loc', 'fld', 'glob') and not name.startswith(('get',)):
                s.env[obj] = self.fresh(('mod', name, obj))
                for kk in [kk for kk in s.env if kk[0] in ('elem', 'fld') and kk[1] == obj]:
                    del s.env[kk]
        stable = isconst or name.startswith(('get', 'is', 'has', 'num', 'check', 'size', 'total')) or wrote
        ov = (self.load(obj, s) if obj[0] in ('loc', 'fld', 'glob') and obj in s.env else obj) if obj is not None else ('noobj',)
        t = ('call', q, ov) + tuple(self.load(x[1], s) if x[0] == 'ref' else x for x in vs)
        if not stable or wrote:
            self.uid += 1
            t = t + (('@', self.uid),)
        return self.cap(t)
    def unptr(self, obj):
        # p.get() names the same object as p
        return obj
