"""Lists that describe the devices of one component stay aligned."""
import engine
from engine import walk, show, const
EXPLAIN = '''Member lists that are subscripted with the same index in the same loop describe the same devices and form a group.
Every method that changes a list of a group (with the methods of the class it calls) is interpreted over all its paths,
counting what each list gains and loses; at its end all lists of the group that it changed have the same count (A1),
a method that appends to some lists of a group appends to all that other methods append to together with them (A3),
and every list of a group is filled somewhere (A2).'''

def family(db, cls): return [cls] + [b for b in db.bases(cls)]

def unp(n):
    while n is not None and n['k'] in ('Paren', 'Cast', 'ICast') : n = n.get('e')
    return n

def member(n):
    """(class, name) of a list that is a member of this object"""
    n = unp(n)
    if n is None or n['k'] != 'Mem': return None
    if n.get('b') is not None and unp(n['b'])['k'] != 'This': return None
    q = (n.get('q') or '').split('::')
    return ('::'.join(q[:-1]), n['n'])

def isvec(t): return (t or '').replace('const ', '').startswith(('std::vector<', 'vector<'))

def subscript(n):
    """(list node, index node)"""
    if n['k'] == 'OCall' and n.get('n') == 'operator[]' and len(n['a']) == 2: return unp(n['a'][0]), unp(n['a'][1])
    if n['k'] == 'MCall' and n.get('n') == 'at' and len(n.get('a', [])) == 1: return unp(n.get('o')), unp(n['a'][0])
    return None

class UF(dict):
    def find(self, x):
        while self.get(x, x) != x: x = self[x]
        return x
    def union(self, a, b): 
        a, b = self.find(a), self.find(b)
        if a != b: self[a] = b

def scopes(n, loop=None, br=()):
    """every node with the innermost loop around it and the branches it is in"""
    if not isinstance(n, dict): return
    yield n, loop, br
    if n['k'] in ('For', 'While', 'Do', 'RFor'): loop = n; br = ()
    for x in engine.kids(n):
        b = br
        if n['k'] == 'If' and x is not n.get('cond'): b = br + ((id(n), x is n.get('then')),)
        for y in scopes(x, loop, b): yield y

def exclusive(a, b):
    d = dict(a)
    return any(d.get(i, w) != w for i, w in b)

def groups(db):
    uf = UF(); seen = {}
    for f in db.fns.values():
        if f.b is None or not f.cls or '/test/' in f.file: continue
        use = {}
        for n, loop, br in scopes(f.b):
            s = subscript(n)
            if s is None: continue
            l, i = s
            m = member(l)
            if m is None or not isvec(l.get('t')) or i is None or i['k'] not in ('Ref', 'Var', 'DRef'): continue
            use.setdefault((id(loop), i.get('id') or i.get('n')), set()).add((m, br))
            seen[m] = 1; uf.setdefault(m, m)
        for k, s in use.items():
            s = sorted(s)
            for i, (a, x) in enumerate(s):
                for b, y in s[:i]:
                    if not exclusive(x, y): uf.union(a, b)
    g = {}
    for m in seen: g.setdefault(uf.find(m), set()).add(m)
    return [s | counters(db, s) for s in g.values() if len(s) > 1]

def up1(n):
    """adds one: x++, x += 1, x = x + 1"""
    if n['k'] == 'Un': return n['op'] in ('++', 'p++')
    if n['k'] != 'Asg': return False
    y = unp(n['y'])
    if n.get('op') == '+=': return y['k'] == 'Int' and y['v'] == 1
    if n.get('op', '=') != '=' or y['k'] != 'Bin' or y['op'] != '+': return False
    a, b = unp(y['x']), unp(y['y'])
    if a['k'] == 'Int': a, b = b, a
    return b['k'] == 'Int' and b['v'] == 1 and member(a) is not None and member(a) == member(n['x'])

def counters(db, g):
    """whole-number members that count the entries of a group: bounds of loops over the lists, counted up one by one"""
    if not hasattr(db, 'counted'):
        db.counted = {}; up = set()
        for f in db.fns.values():
            if f.b is None or not f.cls or '/test/' in f.file: continue
            for n in walk(f.b):
                if up1(n):
                    m = member(n['e'] if n['k'] == 'Un' else n['x'])
                    if m: up.add(m)
            for n, loop, br in scopes(f.b):
                s = subscript(n)
                if s is None or loop is None or loop['k'] != 'For' or s[1] is None: continue
                c = unp(loop.get('cond')); m = member(s[0])
                if m is None or c is None or c['k'] != 'Bin' or c['op'] != '<' : continue
                x, y = unp(c['x']), member(c['y'])
                if y is not None and x.get('id') == s[1].get('id') and x['k'] == 'Ref' and s[1]['k'] == 'Ref': db.counted.setdefault(m, set()).add(y)
        # a count that is read from the data: the loop up to it that fills the lists counts along
        db.steps = {}; rd = set()
        for f in db.fns.values():
            if f.b is None or not f.cls or '/test/' in f.file: continue
            for n in walk(f.b):
                if n['k'] != 'For' or n.get('inc') is None: continue
                c = unp(n.get('cond')); s = unp(n['inc'])
                if c is None or c['k'] != 'Bin' or c['op'] != '<' or s['k'] != 'Un': continue
                y = member(c['y'])
                if y is None or y in up: continue
                for x in walk(n['body']):
                    if x['k'] == 'MCall' and x.get('n') == 'push_back' and y in db.counted.get(member(x.get('o')), ()):
                        db.steps.setdefault(id(s), ('::'.join((y[0] + '::' + y[1]).split('::')[-2:]), set()))[1].add('::'.join('::'.join(member(x['o'])).split('::')[-2:])); rd.add(y)
        db.counted = {m: {y for y in s if y in up or y in rd} for m, s in db.counted.items()}
    out = set()
    for m in g: out |= db.counted.get(m, set())
    return out

class I(engine.Interp):
    MAXSTATES = 300
    def __init__(self, db, cls, gs):
        engine.Interp.__init__(self, db)
        self.cls = cls; self.fam = family(db, cls); self.ends = []; self.touched = set()
        self.gs = gs            # [{field names}]
        self.of = {m: g for g in gs for m in g}
        # a counter may go with several groups: it is followed in each of them
        self.cnts = {}; self.stepped = {}; self.off = set()
        for g in gs:
            for m in g:
                if '#' in m: self.cnts.setdefault(m[:m.index('#')], []).append(m)
        self.nops = 0; self.grown = set()
    def fieldname(self, n): return '::'.join((n.get('q') or n['n']).split('::')[-2:])
    def mergekey(self, st): return st.facts
    def assume(self, term, pol, st, node):
        t = self.load(term[1], st) if term[0] == 'ref' else term
        if t[0] == 'new': return st if pol else None
        v = self.sized(t, st)
        if v is not None: return st if v == pol else None
        r = engine.Interp.assume(self, term, pol, st, node)
        if r is not None and isinstance(node, dict) and (node.get('t') or '').endswith('*'):
            r.facts = r.facts | {('?', t, pol)}
        return r
    def sized(self, t, st):
        """whether a list is not empty, where that is known"""
        neg = False
        while t[0] in ('not', 'un') and len(t) >= 2:
            if t[0] == 'un' and t[1] != '!': return None
            neg = not neg; t = t[-1]
        if t[0] == 'bin' and const(t[3]) == 0 and t[1] in ('>', '!=', '=='):
            if t[1] == '==': neg = not neg
            t = t[2]
        if t[0] != 'call' or len(t) != 3: return None
        w = t[1].split('::')[-1]
        m = self.name(t[2])
        if m is None or w not in ('size', 'empty'): return None
        b, k = self.get(st, m)
        if b == 'zero': v = k > 0
        elif b in ('old', 'some') and k > 0: v = True
        else: return None
        return (v != (w == 'empty')) != neg
    def facts0(self): return frozenset()
    def should_inline(self, fn, node, st):
        if fn.b is None or len(self.stack) >= 6: return False
        return fn.cls in self.fam or (not fn.q.startswith('std::') and any('vector<' in (p.get('t') or '') and '&' in p['t'] and not p['t'].startswith('const') for p in fn.ps))
    def get(self, st, m):
        for x in st.facts:
            if x[0] == m: return x[1:]
        return ('old', 0)
    def put(self, st, m, v, node):
        self.nops += 1; self.touched.add(m)
        st.facts = frozenset(x for x in st.facts if x[0] != m) | {(m,) + v}
        g = self.of[m]
        vs = {k: self.get(st, k) for k in g}
        s = set(vs.values())
        if len(s) == 1:
            b, k = s.pop()
            if b in ('old', 'zero', 'some') and k != 0: b, k = ('old' if b == 'old' else 'some'), 0
            st.facts = frozenset(x for x in st.facts if x[0] not in g and x[0] != '?')
            if b != 'old': st.facts |= {(x, b, k) for x in g}
        elif abs(v[1]) > 3:
            st.facts = frozenset(x for x in st.facts if x[0] != m) | {(m, v[0], 3 if v[1] > 0 else -3)}
    def name(self, lv):
        if isinstance(lv, tuple) and lv and lv[0] == 'fld' and lv[1] in (('this',), ('thisptr',)) and lv[2] in self.of: return lv[2]
    def on_call(self, n, obj, args, st):
        m = self.name(obj) if obj is not None else None
        if m is None:
            fn = self.db.callee(n)
            if fn is None or not self.should_inline(fn, n, st):
                for a, w in zip(args, n.get('w') or ''):
                    x = a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] in ('addr', 'ref') else a
                    l = self.name(x)
                    if l is not None and w in 'rp': self.put(st, l, ('?', 0), n)
            if n.get('n') == 'getValue':
                for a in args:
                    lv = a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] in ('addr', 'ref', 'ptr') else None
                    if isinstance(lv, tuple) and lv[0] == 'fld' and lv[1] in (('this',), ('thisptr',)):
                        for c in self.cnts.get(lv[2], ()): self.put(st, c, ('zero', 0), n)
            return None
        name = n.get('n'); b, k = self.get(st, m)
        if name in ('push_back', 'emplace_back', 'insert', 'emplace'): self.grown.add(m); self.put(st, m, (b, k + 1), n)
        elif name == 'pop_back': self.put(st, m, (b, k - 1), n)
        elif name == 'erase' : self.put(st, m, (b, k - 1) if len(args) == 1 else ('?', 0), n)
        elif name == 'clear': self.put(st, m, ('zero', 0), n)
        elif name in ('resize', 'assign'): self.put(st, m, (('n',) + (args[0],), 0), n)
        elif name in ('operator=', 'swap'): self.put(st, m, ('?', 0), n)
        elif name in ('size', 'empty', 'begin', 'end', 'operator[]', 'at', 'back', 'front', 'reserve', 'capacity', 'rbegin', 'rend', 'data'): return None
        else: return None
        return ('void',)
    def on_store(self, lv, val, node, st):
        m = self.name(lv)
        if node is not None and id(node) in self.db.steps:
            c, ls = self.db.steps[id(node)]
            for c in self.cnts.get(c, ()):
                if not ls & self.of[c]: continue
                if self.stepped.setdefault(c, id(node)) != id(node): self.off.add(c)
                b, k = self.get(st, c)
                if (b, k) == ('old', 0): b = 'zero'      # the loop starts from nothing
                self.put(st, c, (b, k + 1), node)
        elif isinstance(lv, tuple) and lv[0] == 'fld' and lv[1] in (('this',), ('thisptr',)):
            for m in self.cnts.get(lv[2], ()):
                b, k = self.get(st, m)
                if node is not None and up1(node): self.put(st, m, (b, k + 1), node)
                elif node is not None and node['k'] == 'Un': self.put(st, m, (b, k - 1), node)
                elif const(val) == 0: self.put(st, m, ('zero', 0), node)
                else: self.put(st, m, ('?', 0), node)
        return engine.Interp.on_store(self, lv, val, node, st)
    def on_exit(self, kind, st, val, node, fn):
        if kind == 'throw': return
        for g in self.gs:
            vs = {m: self.get(st, m) for m in g}
            if all(v == ('old', 0) for v in vs.values()): continue
            self.ends.append((g, vs))

def short(m): return m.split('::')[-1].split('#')[0]

def analyse(db, R):
    gs = groups(db)
    R.count('groups', len(gs)); R.count('lists', sum(len(g) for g in gs))
    CT = {y for s in db.counted.values() for y in s}; R.count('counters', len(CT))
    G = [frozenset('::'.join((c + '::' + n).split('::')[-2:]) + ('#%d' % i if (c, n) in CT else '') for c, n in g) for i, g in enumerate(sorted(gs, key=sorted))]
    byc = {}
    for g in G:
        for m in g: byc.setdefault(m.split('::')[0], set()).add(g)
    for cls in sorted(db.methods):
        s = cls.split('::')[-1]
        mine = list(byc.get(s, ()))
        if not mine: continue
        called = set()
        fs = [f for f in db.methods[cls] if f.b is not None and '/test/' not in f.file]
        for f in fs:
            for n in walk(f.b):
                if n['k'] == 'MCall' and (n.get('o') is None or n['o']['k'] == 'This'):
                    t = db.callee(n)
                    if t is not None and t is not f: called.add(t)
        res = {}
        for f in fs:
            if f in called and not f.isctor: continue
            it = I(db, cls, mine); it.isctor = f.isctor; it.run(f)
            if it.nops: R.count('functions that change a list')
            R.count('list operations', it.nops)
            if it.trunc: R.count('cut short', it.trunc)
            res[id(f)] = (f, it)
        grown = [(it.grown, it) for f, it in res.values()]
        for f, it in res.values():
            for g, vs in it.ends:
                judge(R, f, it, g, vs, grown)
    F = filled(db)
    for g in gs:
        for c, n in sorted(g):
            R.count('lists that are filled')
            if (c, n) not in F and (c, n) not in CT: R.report('A2', '', 0, c, 'the list %s is never filled' % n, ', '.join(sorted(x for _, x in g if x != n))[:80])
    R.floor('counters', 7); R.floor('groups', 20); R.floor('lists', 130)
    R.floor('functions that change a list', 22)
    R.floor('list operations', 2000)

def judge(R, f, it, g, vs, grown):
    t = {m: v for m, v in vs.items() if m in it.touched and m not in it.off and isinstance(v[0], str) and v[0] != '?'}
    ref = {}
    # a method that only empties the lists of a device that has none leaves its counters alone
    if all(v[1] == 0 for v in t.values()): t = {m: v for m, v in t.items() if '#' not in m or v[0] != 'old'}
    for m, v in t.items(): ref.setdefault(v, []).append(m)
    if len(ref) > 1:
        big = max(ref, key=lambda v: (len(ref[v]), str(v)))
        for v, ms in ref.items():
            if v == big: continue
            for m in sorted(ms):
                R.report('A1', f.file, f.l, f.q, 'the list %s does not get as many entries as %s' % (short(m), short(sorted(ref[big])[0])), '%s / %s' % (v, big))
        return
    if not ref or f.isctor: return
    v = list(ref)[0]
    if v[0] != 'old' or v[1] == 0: return
    for m in sorted(g):
        if m in it.touched: continue
        if any(m in gr and any(x in gr for x in t) for gr, o in grown):
            R.report('A3', f.file, f.l, f.q, 'entries are appended to %s but not to %s' % (short(sorted(t)[0]), short(m)), str(v))

READ = ('size', 'empty', 'begin', 'end', 'operator[]', 'at', 'back', 'front', 'reserve', 'capacity', 'clear', 'pop_back', 'erase', 'rbegin', 'rend')
def filled(db):
    """members that something fills: grown, sized, assigned, handed to a call"""
    out = set()
    for f in db.fns.values():
        if f.b is None: continue
        for n in walk(f.b):
            ms = []
            if n['k'] == 'MCall':
                if n.get('n') not in READ: ms.append(n.get('o'))
                ms += n.get('a', [])
            elif n['k'] in ('Call', 'Ctor'): ms += n.get('a', [])
            elif n['k'] == 'OCall': ms += n['a'] if n.get('n') != 'operator[]' else n['a'][1:]
            elif n['k'] in ('Asg', 'Var', 'Ret', 'Un', 'IL', 'Cnd'): ms += [x for x in engine.kids(n)]
            for x in ms:
                m = member_any(x)
                if m: out.add(m)
        for i in f.inits or []:
            if isinstance(i, dict) and i.get('n') and any(True for x in walk(i) if x is not i): out.add(('::'.join((f.cls or '').split('::')), i['n']))
    return out

def member_any(n):
    n = unp(n)
    if n is None or n['k'] != 'Mem': return None
    q = (n.get('q') or '').split('::')
    return ('::'.join(q[:-1]), n['n'])
