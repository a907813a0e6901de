"""What a transfer moves between processes has the type and the amount of the buffers it names."""
import engine
from engine import walk, kids
EXPLAIN = '''Every transfer between processes (reductions and broadcasts of MPI, of Global Arrays and of the communicator class,
reading, writing, gathering and scattering of distributed arrays) is compared with the buffers it names: the type it is told
(MPI constant, element type given to the array, size of a registered type) with the element type of the buffer, the two
buffers of a reduction with each other, and the number of elements with the size the buffer was given (declaration,
new, malloc, vector constructor, resize, a loop that appends once per turn), after resolving variables that are set once
and members that other methods set together with the buffer.'''

def strip(n):
    while n is not None and n['k'] in ('Paren', 'Cast', 'ICast', 'CCast', 'Clean'): n = n.get('e')
    return n

MPIT = {'ompi_mpi_int': ('int',), 'ompi_mpi_double': ('double',), 'ompi_mpi_char': ('char', 'signed char', 'unsigned char'), 'ompi_mpi_byte': None,
        'ompi_mpi_float': ('float',), 'ompi_mpi_long': ('long',), 'ompi_mpi_unsigned': ('unsigned int',), 'ompi_mpi_cxx_cplex': None}

def mpitype(n):
    for x in walk(n):
        if x['k'] == 'Ref' and x['n'].startswith('ompi_mpi_') and '_op_' not in x['n']: return x['n']
    return None

def key(n):
    """identity of a variable or member"""
    n = strip(n)
    if n is None: return None
    if n['k'] == 'Ref': return ('v', n.get('id'), n['n']) if n.get('d') in ('loc', 'par') else ('g', n.get('q') or n['n'])
    if n['k'] == 'Mem' and (n.get('b') is None or strip(n['b'])['k'] == 'This'): return ('m', n.get('q') or n['n'])
    return None

class Sizes:
    """symbolic sizes of buffers and values of counts in one function"""
    def __init__(self, db, f, more=()):
        self.db, self.f = db, f
        self.defs = {}; self.cnt = {}; self.sz = {}
        bad = set(); self.last = {}; self.made = {}
        for g in (f,) + tuple(more):
            local = self.local = g is f
            self.alias = {}
            if not local:
                for n in walk(g.b):
                    if n['k'] == 'Asg' and n.get('op', '=') == '=':
                        x, y = key(n['x']), key(n['y'])
                        if x is not None and y is not None and x[0] == 'm' and y[0] == 'v': self.alias[y] = x
            for n in walk(g.b): self.see(n, bad, local)
            self.loops(g.b, local)
        for b in bad: self.defs.pop(b, None)
        self.fill(f.b)
        self.moving = {b for b in bad if b[0] == 'v'}
    def add(self, k, e):
        if k is None: return
        if self.alias is not None and not self.local: e = ('lit', self.elsewhere(e))
        self.sz.setdefault(k, []).append(e)
        if self.local and self.at: self.made[k] = min(self.made.get(k, 1 << 30), self.at)
    at = 0
    def mark(self, bad, v, n):
        bad.add(v)
        self.last[v] = max(self.last.get(v, 0), n.get('l') or self.at or 1 << 30) if self.local else 1 << 30
    def fill(self, b):
        """how many elements the function writes into each buffer: the counter that goes along, or the bound of the loop"""
        self.filled = {}; self.loopv = {}
        for n in walk(b):
            if n['k'] == 'For':
                c = strip(n.get('cond')); v = None
                if c is not None and c['k'] == 'Bin' and c['op'] in ('<', '!='): v = key(c['x'])
                if v is not None: self.loopv.setdefault(v, set()).add(self.canon(c['y']))
        for n in walk(b):
            if n['k'] == 'Asg' and n.get('op', '=') == '=':
                x = strip(n['x'])
                if x['k'] in ('OCall', 'Idx', 'Sub') and (x['k'] != 'OCall' or x.get('n') == 'operator[]'):
                    a = x.get('a') or [x.get('b'), x.get('i')]
                    v, i = key(a[0]), key(a[1])
                    if v is None: continue
                    if i is None: self.filled.setdefault(v, set()).add('?')
                    else: self.filled.setdefault(v, set()).update(self.loopv.get(i) or ({str(i)} if i in self.last else {'?'}))
            elif n['k'] in ('Call', 'MCall'):
                for a in n.get('a', []):
                    x = strip(a)
                    if x['k'] == 'Un' and x['op'] == '&': x = strip(x['e']); x = strip((x.get('a') or [x.get('b')])[0]) if x['k'] in ('OCall', 'Idx', 'Sub') else x
                    v = key(x)
                    if v is not None and n.get('n') not in BUF and not n.get('n', '').startswith('MPI_') and n.get('n') not in ('sum', 'max', 'min', 'free'): self.filled.setdefault(v, set()).add('?')
    def elsewhere(self, e):
        """a size given in another method, in terms of members"""
        if isinstance(e, tuple):
            if e[0] == 'lit': return e[1]
            return 'size(%s)' % (e[1],) if e[1] is not None and e[1][0] == 'm' else '?'
        d, self.defs = self.defs, {}
        r = self.canon(e)
        self.defs = d
        for n in walk(e):
            v = key(n) if n['k'] == 'Ref' else None
            if v is not None and v[0] == 'v':
                if v not in self.alias: return '?'
                r = r.replace(str(v), str(self.alias[v]))
        return r
    def see(self, n, bad, local):
        k = n['k']
        if n.get('l'): self.at = n['l']
        if k == 'Var' and local:
            v = ('v', n.get('id'), n['n'])
            i = n.get('i')
            if i is not None:
                if v in self.defs: self.mark(bad, v, n)
                self.defs[v] = i
            self.alloc(v, i, n.get('t'))
            t = n.get('t') or ''
            if t.endswith(']'): self.add(v, ('lit', t[t.index('[') + 1:-1]))
        elif k == 'Asg':
            v = key(n['x'])
            if v is not None:
                if v[0] != 'v' or local:
                    if v in self.defs or v[0] == 'v': self.mark(bad, v, n)
                    self.alloc(v, n['y'], None)
        elif k == 'Un' and n['op'] in ('++', 'p++', '--', 'p--', '&'):
            v = key(n['e'])
            if v is not None and (v[0] != 'v' or local): self.mark(bad, v, n)
        elif k == 'MCall' and n.get('n') in ('resize', 'assign') and n.get('a'):
            v = key(n.get('o'))
            if v is not None and (v[0] != 'v' or local): self.add(v, n['a'][0])
    def alloc(self, v, i, t):
        i = strip(i)
        if i is None: return
        if i['k'] == 'New' and i.get('sz'): self.add(v, i['sz'])
        elif i['k'] == 'Ctor' and i.get('a') and 'vector<' in (i.get('t') or t or ''): 
            a = i['a'][0]
            if 'vector' not in (a.get('t') or ''): self.add(v, a)
        elif i['k'] == 'Call' and i.get('n') in ('malloc', 'calloc') and i['a']:
            e = strip(i['a'][0])
            if i['n'] == 'calloc': self.add(v, i['a'][0])
            elif e['k'] == 'Bin' and e['op'] == '*':
                for p, q in ((e['x'], e['y']), (e['y'], e['x'])):
                    if strip(p)['k'] in ('SizeOf', 'Sizeof'): self.add(v, q)
        elif i['k'] == 'Un' and i['op'] == '&':
            e = strip(i['e'])
            if e['k'] == 'OCall' and e.get('n') == 'operator[]': self.add(v, ('same', key(e['a'][0])))
    def loops(self, b, local):
        for n in walk(b):
            if n['k'] != 'For': continue
            c = strip(n.get('cond'))
            if c is None or c['k'] != 'Bin' or c['op'] not in ('<', '!='): continue
            body = n['body']
            for s in (body.get('c') or body.get('s') or [body]) if body['k'] == 'Blk' else [body]:
                s = strip(s)
                if s['k'] == 'MCall' and s.get('n') == 'push_back':
                    v = key(s.get('o'))
                    if v is not None and (v[0] != 'v' or local): self.add(v, c['y'])
    def canon(self, e, d=0):
        if isinstance(e, tuple): return e[1] if e[0] == 'lit' else 'size(%s)' % (e[1],)
        e = strip(e)
        if e is None: return '?'
        k = e['k']
        if k == 'Int': return str(e['v'])
        v = key(e)
        if v is not None:
            if v in self.defs and d < 6: 
                r = self.canon(self.defs[v], d + 1)
                if '?' not in r: return r
            return str(v)
        if k == 'Bin' and e['op'] in ('+', '-', '*', '/'):
            x, y = self.canon(e['x'], d + 1), self.canon(e['y'], d + 1)
            if e['op'] in '+*' and y < x: x, y = y, x
            return '(%s%s%s)' % (x, e['op'], y)
        if k == 'MCall':
            if e.get('n') == 'size' and 'std::vector' in (e.get('q') or ''): return 'size(%s)' % (key(e.get('o')),)
            o = e.get('o')
            return '%s.%s(%s)' % (self.canon(o, d + 1) if o is not None else '', e.get('q'), ','.join(self.canon(a, d + 1) for a in e.get('a', [])))
        if k == 'Call': return '%s(%s)' % (e.get('n'), ','.join(self.canon(a, d + 1) for a in e.get('a', [])))
        if k == 'OCall' and e.get('n') in ('operator->', 'operator*'): return self.canon(e['a'][0], d + 1)
        return '?'
    def of(self, p):
        """(base, sizes) of the elements behind a pointer"""
        p = strip(p)
        base = None; one = False
        if p['k'] == 'Un' and p['op'] == '&':
            e = strip(p['e'])
            if e['k'] in ('OCall', 'Idx', 'Sub') :
                a = e.get('a') or [e.get('b'), e.get('i')]
                base = key(a[0])
                z = strip(a[1])
                if z is None or z.get('v') != 0: return base, None
            else: return key(e), {'1'}
        elif p['k'] == 'MCall' and p.get('n') == 'data': base = key(p.get('o'))
        else: base = key(p)
        if base is None: return None, None
        out = {'size(%s)' % (base,)}; todo = [base]; seen = set()
        while todo:
            b = todo.pop()
            if b in seen: continue
            seen.add(b)
            for e in self.sz.get(b, ()):
                if isinstance(e, tuple) and e[0] == 'same': todo.append(e[1]); out.add('size(%s)' % (e[1],))
                else: out.add(self.canon(e))
        return base, out

def elem(p):
    p = strip(p)
    t = (p.get('t') or '').replace('const ', '').strip()
    if t.endswith('*'): return t[:-1].strip()
    if t.endswith(']'): return t[:t.index('[')].strip()
    return None

def sites(f):
    for n in walk(f.b):
        if n['k'] == 'Call':
            a = n.get('a', [])
            if n.get('n') == 'MPI_Allreduce': yield n, (a[0], a[1]), a[2], a[3], 'combining'
            elif n.get('n') == 'MPI_Reduce': yield n, (a[0], a[1]), a[2], a[3], 'combining'
            elif n.get('n') == 'MPI_Bcast': yield n, (a[0],), a[1], a[2], 'broadcasting'
            elif n.get('n') in ('MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv', 'MPI_Ssend'): yield n, (a[0],), a[1], a[2], 'sending'
            elif n.get('n') == 'GA_Pgroup_igop': yield n, (a[1],), a[2], ('int',), 'combining'
            elif n.get('n') == 'GA_Pgroup_dgop': yield n, (a[1],), a[2], ('double',), 'combining'
            elif n.get('n') == 'GA_Pgroup_lgop': yield n, (a[1],), a[2], ('long',), 'combining'
            elif n.get('n') == 'GA_Pgroup_fgop': yield n, (a[1],), a[2], ('float',), 'combining'
            elif n.get('n') in ('NGA_Gather', 'NGA_Scatter', 'NGA_Scatter_acc'): yield n, (a[1], a[2]), a[3], None, 'gather'
        elif n['k'] == 'MCall' and n.get('n') in ('sum', 'max', 'min') and len(n.get('a', [])) == 2 and 'Communicator' in (n.get('q') or ''):
            yield n, (n['a'][0],), n['a'][1], None, 'combining'

GAT = {1001: ('int', 'unsigned int'), 1002: ('long', 'unsigned long'), 1003: ('float',), 1004: ('double',), 1007: ('std::complex<double>', 'double'), 1009: ('char', 'unsigned char', 'signed char')}
BUF = {'NGA_Put': 3, 'NGA_Get': 3, 'NGA_Gather': 1, 'NGA_Scatter': 1, 'NGA_Access': 3, 'NGA_Scatter_acc': 1, 'NGA_Acc': 3}

def constant(n):
    n = strip(n)
    if n is None: return None
    if n['k'] == 'Int': return n['v']
    if n['k'] == 'Bin':
        x, y = constant(n['x']), constant(n['y'])
        if x is None or y is None: return None
        return {'+': x + y, '-': x - y, '*': x * y}.get(n['op'])

def values(gs, f):
    """what is assigned to each variable and member"""
    out = {}
    for g in gs:
        for n in walk(g.b):
            if n['k'] == 'Asg' : k, i = key(n['x']), n['y']
            elif n['k'] == 'Var' and n.get('i') is not None: k, i = ('v', n.get('id'), n['n']), n['i']
            else: continue
            if k is not None and (k[0] != 'v' or g is f): out.setdefault(k, []).append(i)
        for i in g.inits or []:
            if isinstance(i, dict) and i.get('n') and isinstance(i.get('i'), dict) and g.cls: out.setdefault(('m', g.cls + '::' + i['n']), []).append(i['i'])
    return out

def eltypes(t, vals, d=0):
    """element types a type expression stands for; None = unknown"""
    t = strip(t)
    if t is None or d > 4: return {None}
    c = constant(t)
    if c is not None: return {GAT.get(c)}
    if t['k'] == 'Szof': return {(norm(t['of']),)}
    if t['k'] == 'Call' and t.get('n') == 'NGA_Register_type': return eltypes(t['a'][0], vals, d + 1)
    k = key(t)
    out = set()
    for i in vals.get(k, ()):
        if constant(i) in (0, -1): continue
        out |= eltypes(i, vals, d + 1)
    return out or {None}

def norm(t):
    t = (t or '').replace('const ', '').replace('struct ', '').strip()
    if not t.startswith('gridpack::'): return t
    out = ''; d = 0        # instances of one template are analysed together
    for c in t:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    return out

def handles(f, more, vals):
    """element types of the arrays a function or its class creates"""
    out = {}
    for g in (f,) + more:
        for n in walk(g.b):
            if n['k'] == 'Call' and n.get('n') in ('GA_Set_data', 'NGA_Set_data'):
                h = key(n['a'][0])
                if h is None or (h[0] == 'v' and g is not f): continue
                v = vals if g is f else values((g,), g)
                e = set()
                for x in eltypes(n['a'][3], {**vals, **v}): e.add(x)
                out.setdefault(h, set()).update(e)
    return out

def stable(c, sz, base=None):
    """an expression of quantities that do not change in the function, or not any more once the buffer is made"""
    return '?' not in c and not any(str(v) in c for v in sz.moving if sz.last.get(v, 1 << 30) >= sz.made.get(base, 0))

def analyse(db, R):
    for f in sorted(db.fns.values(), key=lambda f: (f.q, f.f)):
        if f.b is None or '/test/' in f.file: continue
        s = list(sites(f))
        ga = [n for n in walk(f.b) if n['k'] == 'Call' and n.get('n') in BUF]
        if not s and not ga: continue
        R.count('functions')
        more = tuple(g for g in db.methods.get(f.cls, ()) if g is not f and g.b is not None) if f.cls else ()
        if ga:
            vals = values((f,) + more, f)
            H = handles(f, more, vals)
            for n in ga:
                ts = H.get(key(n['a'][0])) or {None}
                e = norm(elem(strip(n['a'][BUF[n['n']]])))
                if n['n'] == 'NGA_Access' and e.endswith('*'): e = e[:-1].strip()
                if None in ts or not e or e == 'void': R.count('type of the array not known here'); continue
                if e == 'char' and any(len(t) == 1 and t[0] not in ('int', 'double', 'float', 'long') for t in ts): R.count('buffers of bytes'); continue
                R.count('array transfers of known type')
                if not all(e in t for t in ts):
                    R.report('G1', f.file, n['l'], f.q, 'a buffer of %s is used with an array of %s in %s' % (e, ' or '.join(sorted({t[0] for t in ts})), n['n']), '')
        sz = Sizes(db, f, more)
        for n, bufs, cnt, ty, what in s:
            R.count('transfers')
            es = [norm(elem(b)) for b in bufs]
            if n.get('n') in ('NGA_Gather', 'NGA_Scatter', 'NGA_Scatter_acc'): pass
            else:
                if len(bufs) == 2:
                    R.count('pairs of buffers')
                    if es[0] != es[1]: R.report('T2', f.file, n['l'], f.q, 'the buffers of %s differ in type: %s and %s' % (n['n'], es[0], es[1]), '')
                if ty is not None:
                    want = ty if isinstance(ty, tuple) else MPIT.get(mpitype(ty))
                    if want is None: R.count('type not known')
                    else:
                        R.count('typed buffers')
                        for e in es:
                            if e not in want and e != 'void': R.report('T1', f.file, n['l'], f.q, '%s is told the data are %s, the buffer holds %s' % (n['n'], want[0], e), '')
            c = sz.canon(cnt)
            for b, e in zip(bufs, es):
                if e == 'char' and what in ('broadcasting', 'sending'): text(R, f, n, b, c, sz)
            for b in bufs:
                base, z = sz.of(b)
                if z is not None and (c in z or sizesof(c, sz) & z): R.count('amounts that are the size of the buffer'); continue
                known = [x for x in (z or ()) if not x.startswith('size(')]
                if not (known and c.isdigit() and not any(x.isdigit() or '?' in x for x in known)) and (not known or not stable(c, sz, base) or not all(stable(x, sz, base) for x in known) or any(c in x for x in known)):
                    if z is not None and known == [] and c.startswith('size(') and len(z) == 1 and base is not None and base[0] in 'vm' and c not in z and not pointer(b):
                        R.report('C2', f.file, n['l'], f.q, 'the amount is the size of another list than the one transferred', '%s / %s' % (c, base))
                    elif z is not None and known == [] and c == '1' and pointer(b) is False:
                        R.report('C3', f.file, n['l'], f.q, 'only one element of the list is transferred', str(base))
                    else:
                        w = sz.filled.get(base)
                        if w and '?' not in w and c != '?' and base is not None:
                            R.count('amounts compared with what was written')
                            if c not in w: R.report('C4', f.file, n['l'], f.q, 'the amount given to %s is not the number of values written to %s' % (n['n'], base[-1].split('::')[-1]), '%s / %s' % (c, ', '.join(sorted(w))))
                        else: R.count('amounts not decided')
                    continue
                R.report('C1', f.file, n['l'], f.q, 'the amount given to %s is not the size of the buffer %s' % (n['n'], base[-1].split('::')[-1]), '%s / %s' % (c, ', '.join(sorted(known))))
    R.floor('transfers', 120)
    R.floor('amounts that are the size of the buffer', 150)
    R.floor('array transfers of known type', 70)
    R.floor('typed buffers', 60)

def text(R, f, n, b, c, sz):
    """characters that were received are taken as a string only where their end is known"""
    base, z = sz.of(b)
    if base is None or not z: return
    R.count('texts')
    if c not in z: return
    ended = any(x['k'] == 'Asg' and strip(x['x'])['k'] in ('Idx', 'Sub') and key(strip(x['x']).get('b')) == base and constant(x['y']) == 0 for x in walk(f.b))
    if ended: return
    for x in walk(f.b):
        if x['k'] == 'Ctor' and 'string' in (x.get('t') or '') and x.get('a') and key(x['a'][0]) == base and (len(x['a']) == 1 or strip(x['a'][1])['k'] in ('DefArg', 'Def', 'Ctor')):
            R.report('S1', f.file, x['l'], f.q, 'characters received without an end are taken as a string', base[-1]); return

def sizesof(c, sz):
    """what else the size of a list is known to be"""
    for k in list(sz.sz):
        if c == 'size(%s)' % (k,): return {sz.canon(e) for e in sz.sz[k] if not (isinstance(e, tuple) and e[0] == 'same')}
    return set()

def pointer(b):
    """whether the buffer is a bare pointer rather than the elements of a list"""
    b = strip(b)
    return not (b['k'] == 'Un' and b['op'] == '&' and strip(b['e'])['k'] == 'OCall')
