"""Typed parameter names: a data collection keeps one table per value type and
one key per (name, device index), so a read with another type or another arity
than the write silently finds nothing and a default is used instead."""
from collections import defaultdict
import engine
EXPLAIN = ("Every DataCollection addValue/setValue/getValue call in the repository is resolved by clang to one overload (value type, with or "
  "without device index); names are the literal strings after macro expansion. Writers and readers of each name are compared: type, arity, and existence of a writer.")
DC = 'gridpack::component::DataCollection::'

def key_of(a):
    while a is not None and a['k'] in ('Cast', 'ICast', 'Ctor', 'DefArg'):
        a = a.get('e') or (a.get('a') or [None])[0]
    if a is not None and a['k'] == 'Str':
        return a['v']
    return None

def sig(c):
    """(value type, arity) of the DataCollection overload called"""
    q = c['q']
    ps = c['f'][len(q) + 1:]
    ps = ps[:ps.rindex(')')].split(',')
    ty = ps[1].replace('const ', '').replace('std::basic_string<char>', 'string').strip(' *&')
    if ty == 'char': ty = 'string'
    return ty, len(ps)

def accesses(db):
    for f in db.fns.values():
        if f.b is None:
            continue
        root = [f.b] + [i['e'] for i in f.inits if i.get('e')]
        for r in root:
            for c in engine.calls(r):
                if (c.get('q') or '').startswith(DC) and c.get('n') in ('addValue', 'setValue', 'getValue') and len(c['a']) >= 2 and 'f' in c:
                    yield f, c

def strip_cast(a):
    while a is not None and a['k'] in ('Cast', 'ICast', 'Ctor', 'DefArg', 'MCall'):
        if a['k'] == 'MCall':
            if a.get('n') not in ('c_str', 'data'): break
            a = a.get('o')
        else:
            a = a.get('e') or (a.get('a') or [None])[0]
    return a

def literals(a, f, db, callers, depth=0):
    """(set of literal names an expression can be, resolved?, site) following local
    variables, conditional expressions and parameters of helpers to their call sites.
    Yields (name, function, node of the literal's use)."""
    a = strip_cast(a)
    if a is None or depth > 4:
        return None
    if a['k'] == 'Str':
        return [(a['v'], f, a)]
    if a['k'] == 'Cnd':
        x = literals(a['x'], f, db, callers, depth + 1); y = literals(a['y'], f, db, callers, depth + 1)
        return None if x is None or y is None else x + y
    if a['k'] == 'Ref' and a.get('d') == 'par':
        idx = [i for i, p in enumerate(f.ps) if p['id'] == a.get('id')]
        if not idx:
            return None
        out = []
        cs = callers.get(f.f, [])
        if not cs:
            return None
        for g, c in cs:
            if idx[0] >= len(c['a']): return None
            r = literals(c['a'][idx[0]], g, db, callers, depth + 1)
            if r is None: return None
            out += [(k, g, c) for k, _, _ in r]
        return out
    if a['k'] == 'Ref' and a.get('d') == 'loc':
        out = []
        for n in engine.walk(f.b):
            src = None
            if n['k'] == 'Var' and n.get('id') == a.get('id'):
                src = n.get('i')
                if src is None: continue
            elif n['k'] in ('Asg', 'OCall') and (n.get('op') == '=' or n.get('n') == 'operator='):
                x, y = (n['x'], n['y']) if n['k'] == 'Asg' else (n['a'][0], n['a'][1])
                if x['k'] == 'Ref' and x.get('id') == a.get('id'): src = y
                else: continue
            elif n['k'] in engine.CALLS and n.get('n') in ('sprintf', 'snprintf', 'strcpy', 'strncpy') and n.get('a'):
                x = strip_cast(n['a'][0])
                if x is not None and x['k'] == 'Ref' and x.get('id') == a.get('id'): return None
                continue
            else:
                continue
            r = literals(src, f, db, callers, depth + 1)
            if r is None: return None
            out += r
        return out or None
    return None

def call_index(db):
    callers = defaultdict(list)
    for f in db.fns.values():
        if f.b is None: continue
        for c in engine.calls(f.b):
            if c['k'] in ('Call', 'MCall') and (c.get('q') or '').startswith('gridpack'):
                g = db.callee(c)
                if g is not None: callers[g.f].append((f, c))
    return callers

def istest(p):
    return '/test/' in p or p.startswith('test/')

def same(a, b):
    """structural equality of two expressions"""
    if a is None or b is None:
        return a is b
    while a['k'] in ('Cast', 'ICast') and a.get('e'): a = a['e']
    while b['k'] in ('Cast', 'ICast') and b.get('e'): b = b['e']
    if a['k'] != b['k']:
        return False
    for k in ('n', 'v', 'op', 'id', 'q'):
        if a.get(k) != b.get(k):
            return False
    x = list(engine.kids(a)); y = list(engine.kids(b))
    return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))

def only_call(s):
    """the DataCollection writes directly in a branch (not nested in another test)"""
    out = []
    st = [s]
    while st:
        n = st.pop()
        if n is None: continue
        if n['k'] in ('If', 'For', 'While', 'Do', 'RFor', 'Switch'): continue
        if n['k'] in engine.CALLS and (n.get('q') or '').startswith(DC): out.append(n)
        st.extend(engine.kids(n))
    return out

def analyse(db, res):
    res.rule('R1 type', 'a name is read with a value type some writer of the name uses')
    res.rule('R2 one type', 'all writers of a name use one value type')
    res.rule('R3 arity', 'a name is read per device exactly when it is written per device')
    res.rule('R4 provided', 'a name that is read is written somewhere')
    res.rule('R5 update-or-add', 'when one branch of an update-or-add idiom updates a name, the other adds the same name and index')
    W = defaultdict(list); R = defaultdict(list)
    callers = call_index(db)
    maybe = defaultdict(set)    # names an unresolved write may store
    dyn = 0
    for f, c in accesses(db):
        if istest(f.file):
            continue
        ty, ar = sig(c)
        ks = literals(c['a'][0], f, db, callers)
        if ks is None:
            dyn += 1
            if c['n'] != 'getValue':
                for g, n in [(f, f.b)] + [(g, x) for g, x in callers.get(f.f, [])]:
                    for x in engine.walk(n):
                        if x['k'] == 'Str': maybe[x['v']].add((ty, ar))
            continue
        for k, g, n in ks:
            if n['k'] == 'Str': n = c
            (R if c['n'] == 'getValue' else W)[k].append((ty, ar, g, n))
            res.count('accesses')
    res.count('names', len(set(W) | set(R)))
    res.count('accesses_with_computed_name', dyn)
    res.floor('accesses', 6500); res.floor('names', 700)
    names = lambda f: f.q.replace('gridpack::', '')
    for k in sorted(R):
        w = W.get(k, [])
        for ty, ar, f, c in R[k]:
            res.count('reads')
            if k in maybe: w = w + [(t, a, f, c) for t, a in maybe[k]]
            if not w:
                res.report('R4 provided', f.file, c['l'], names(f), 'name %s is read but nothing writes it' % k)
                continue
            if ty not in [x[0] for x in w]:
                x = w[0]
                res.report('R1 type', f.file, c['l'], names(f), 'name %s read as %s but written as %s' % (k, ty, '/'.join(sorted(set(x[0] for x in w)))), 'written at %s:%d' % (x[2].file, x[3]['l']))
            elif ar not in [x[1] for x in w if x[0] == ty]:
                res.report('R3 arity', f.file, c['l'], names(f), 'name %s read %s a device index but only written %s' % (k, 'with' if ar == 3 else 'without', 'without' if ar == 3 else 'with'), 'written at %s:%d' % (w[0][2].file, w[0][3]['l']))
    for k in sorted(W):
        ts = defaultdict(list)
        for ty, ar, f, c in W[k]:
            ts[ty].append((f, c))
        if len(ts) > 1:
            t = min(ts, key=lambda t: len(ts[t]))
            f, c = ts[t][0]
            res.report('R2 one type', f.file, c['l'], names(f), 'name %s written as %s here and as %s elsewhere' % (k, t, '/'.join(sorted(x for x in ts if x != t))))
    # R5
    for f in db.fns.values():
        if f.b is None or istest(f.file): continue
        for n in engine.walk(f.b):
            if n['k'] != 'If' : continue
            cs = [c for c in engine.calls(n['cond']) if (c.get('q') or '').startswith(DC) and c.get('n') in ('setValue', 'getValue') and 'f' in c]
            if len(cs) != 1: continue
            c = cs[0]
            for br in (n.get('then'), n.get('else')):
                ws = [x for x in only_call(br) if x.get('n') in ('addValue', 'setValue')] if br else []
                if len(ws) != 1: continue
                x = ws[0]
                if c['n'] == 'getValue' and not (n.get('then') and n.get('else')): continue
                k1, k2 = key_of(c['a'][0]), key_of(x['a'][0])
                if k1 is None or k2 is None: continue
                res.count('update_or_add')
                if k1 != k2:
                    res.report('R5 update-or-add', f.file, x['l'], names(f), 'tests name %s but writes name %s' % (k1, k2))
                elif len(c['a']) > 2 and len(x['a']) > 2 and not same(c['a'][2], x['a'][2]):
                    res.report('R5 update-or-add', f.file, x['l'], names(f), 'name %s tested and written for different devices' % k1)
                elif len(c['a']) != len(x['a']):
                    res.report('R5 update-or-add', f.file, x['l'], names(f), 'name %s tested and written with different arity' % k1)
    res.floor('update_or_add', 500)
