"""Copies of a bus held by other processes agree with the bus."""
import engine
from engine import walk, const, subterms, show, calls
import comp
EXPLAIN = """For every bus class that publishes values, the places it hands out inside the exchange buffer are computed as byte offsets;
every method is interpreted path by path with the set of published members whose new value is not yet in the buffer; drivers (network
changes by mappers and factories, exchanges, evaluations that read neighbours in the mode then set) are interpreted with the set of
published values copies do not have yet; the exchange itself is checked for one arbitrary round of each of its loops."""
SIZE = {'double': 8, 'float': 4, 'int': 4, 'bool': 1, 'char': 1, 'long': 8, 'unsigned int': 4, 'unsigned long': 8, 'std::complex<double>': 16, 'gridpack::ComplexType': 16, 'ComplexType': 16}
THIS = ('this',)

def psize(t):
    t = (t or '').replace('const ', '').strip()
    return SIZE.get(t[:-1].strip()) if t.endswith('*') else None

class B(engine.Interp):
    """addresses as byte offsets"""
    MAXSTATES = 200
    def __init__(self, db, fam):
        engine.Interp.__init__(self, db); self.fam = fam
    def facts0(self): return frozenset()
    def should_inline(self, fn, node, st): return fn.cls in self.fam
    def e_Bin(self, n, st, out):
        w = psize(n.get('t'))
        if w and n['op'] in '+-':
            res = []
            for s, x in self.ev(n['x'], st, out):
                for s2, y in self.ev(n['y'], s, out):
                    if not psize(n['x'].get('t')): x, y = y, x
                    res.append((s2, engine.fold('+', x, engine.fold('*', y, ('int', w if n['op'] == '+' else -w)))))
            return res
        return engine.Interp.e_Bin(self, n, st, out)
    def e_Un(self, n, st, out):
        if n['op'] == '&' and n['e']['k'] in ('Sub', 'Un'):
            w = psize(n.get('t'))
            if w:
                res = []
                for s, lv in self.lv(n['e'], st, out):
                    if lv[0] == 'elem': res.append((s, engine.fold('+', lv[1], engine.fold('*', lv[2], ('int', w)))))
                    elif lv[0] == 'deref': res.append((s, lv[1]))
                    else: res.append((s, ('addr', lv)))
                return res
        return engine.Interp.e_Un(self, n, st, out)

def offset(t, par):
    """t = the parameter + constant"""
    c = 0
    while t[0] == 'bin' and t[1] == '+' and const(t[3]) is not None:
        c += const(t[3]); t = t[2]
    return c if t == ('par', par) or t[0] == 'par' and t[1] == par else None

def slotof(lv, ptrs, st=None):
    """(pointer member, element) a location is, if it lies in the exchange buffer"""
    if lv[0] == 'deref': b, k = lv[1], 0
    elif lv[0] == 'elem': b, k = lv[1], const(lv[2])
    else: return None
    if st is not None and k is not None:
        for p in ptrs:
            if st.env.get(('fld', THIS, p)) == b: return (p, k)
    while b[0] == 'bin' and b[1] == '+' and const(b[3]) is not None:
        k = None if k is None else k + const(b[3]); b = b[2]
    if b[0] == 'fld' and b[1] == THIS and b[2] in ptrs: return (b[2], k)
    return None

class M(engine.Interp):
    """which members differ from what the exchange buffer holds"""
    MAXSTATES = 400
    def __init__(self, db, fam, ptrs):
        engine.Interp.__init__(self, db)
        self.fam = fam; self.ptrs = ptrs; self.pairs = {}; self.slots = {}; self.discover = False; self.nst = 0; self.npub = 0
        self.rep = []
    def facts0(self): return frozenset()
    def mergekey(self, st): return st.facts
    def should_inline(self, fn, node, st): return fn.cls in self.fam and len(self.stack) < 6
    def on_load(self, lv, node, st):
        s = slotof(lv, self.ptrs, st)
        if s: self.slots.setdefault(s, node)
    def mem(self, lv): return lv[2] if lv[0] == 'fld' and lv[1] == THIS else None
    def on_store(self, lv, val, node, st):
        s = slotof(lv, self.ptrs, st)
        if s:
            self.slots.setdefault(s, node)
            for m, ss in self.pairs.items():
                if s in ss:
                    e = ('fld', THIS, m); cur = st.env.get(e, e)
                    if val == cur or any(x == cur for x in subterms(val)):
                        self.npub += 1
                        st.facts = frozenset(f for f in st.facts if f[0] != m)
            if self.discover:
                ms = {x[2] for x in subterms(val) if isinstance(x, tuple) and x and x[0] == 'fld' and x[1] == THIS and x[2] not in self.ptrs}
                if len(ms) == 1: self.pairs.setdefault(ms.pop(), set()).add(s)
            return
        m = self.mem(lv)
        if m in self.pairs:
            self.nst += 1
            e = ('fld', THIS, m); cur = st.env.get(e, e)
            f = frozenset(x for x in st.facts if x[0] != m)
            vs = val[1:] if val[0] == 'phi' else (val,)
            if all(slotof(v, self.ptrs) in self.pairs[m] for v in vs) or val == cur and cur != e: st.facts = f if val != cur else st.facts
            else: st.facts = f | {(m, node.get('l'))}
    def on_cond(self, term, pol, node, st):
        t, p = engine.norm_cond(term, pol)
        if not p and t[0] == 'fld' and t[1] == THIS and t[2] in self.ptrs:
            # nothing set up to publish to yet
            st.facts = frozenset(f for f in st.facts if not any(s[0] == t[2] for s in self.pairs[f[0]]))
    def on_exit(self, kind, st, val, node, fn):
        if kind in ('ret', 'end'):
            for f in st.facts: self.rep.append((f[0], f[1], fn))

def classes(db):
    out = []
    for c, ms in sorted(db.methods.items()):
        if any(f.n == 'setXCBuf' and f.b is not None for f in ms) and not c.endswith('::BaseComponent'): out.append(c)
    return out


VALUES = {'BusVectorMap': (('vectorValues',), ('setValues',)), 'FullMatrixMap': (('matrixDiagValues', 'matrixForwardValues', 'matrixReverseValues'), ()),
  'GenVectorMap': (('vectorGetElementValues',), ('vectorSetElementValues',)), 'GenMatrixMap': (('matrixGetValues',), ()), 'GenSlabMap': (('slabGetValues',), ('slabSetValues',))}
OUT = {'SerialBusIO': 'bus', 'SerialBranchIO': 'branch'}

class E(engine.Interp):
    """what a method of a component publishes, and which published values of other buses it reads, in one mode"""
    MAXSTATES = 24
    MAXDEPTH = 7
    def __init__(self, db, net, mode):
        engine.Interp.__init__(self, db); self.net = net; self.mode = mode; self.w = {}; self.r = {}; self.nbr = False; self.pull = {}; self.own = {}
    def facts0(self): return frozenset()
    def mergekey(self, st): return ()
    def fieldname(self, n):
        q = n.get('q') or n['n']
        return '::'.join(q.split('::')[-2:]) if n['n'] == 'p_mode' else n['n']
    def load(self, lv, st):
        if self.mode is not None and lv[0] == 'fld' and isinstance(lv[2], str) and lv[2].endswith('p_mode') and lv[2].split('::')[0] in self.net.short and lv not in st.env:
            return ('int', self.mode)
        return engine.Interp.load(self, lv, st)
    def should_inline(self, fn, node, st):
        return fn.cls in self.net.fams
    def dispatch(self, node, st):
        f = self.db.callee(node)
        if f is None or node.get('qc'): return f
        for c in (self.net.bus, self.net.branch):
            fam = [c] + list(self.db.bases(c))
            if f.cls in fam:
                for k in fam:
                    for g in self.db.methods.get(k, []):
                        if g.n == f.n and g.b is not None and g.f[g.f.index('('):] == f.f[f.f.index('('):]: return g
                    if k == f.cls: break
        return f
    def slot(self, lv):
        if lv[0] == 'deref': b = lv[1]
        elif lv[0] == 'elem': b = lv[1]
        else: return None
        while b[0] == 'bin' and b[1] == '+': b = b[2]
        if b[0] == 'fld' and b[2] in self.net.ptrs: return b[1], b[2]
        return None
    def on_store(self, lv, val, node, st):
        s = self.slot(lv)
        if s and s[0] == THIS: self.w.setdefault(s[1], (node.get('l'), self.fn))
        elif lv[0] == 'fld' and lv[1] == THIS and lv[2] in self.net.pairs:
            if any(self.slot(x) == (THIS, p) for p in self.net.pairs[lv[2]] for x in (val[1:] if val[0] == 'phi' else (val,)) if isinstance(x, tuple)):
                self.pull.setdefault(lv[2], node.get('l'))
    def on_load(self, lv, node, st):
        s = self.slot(lv)
        if s and s[0] != THIS: self.r.setdefault(s[1], (node.get('l'), self.fn))
        elif lv[0] == 'fld' and lv[2] in self.net.pairs and lv[1] != THIS and lv not in st.env:
            self.own.setdefault(lv[2], (node.get('l'), self.fn))
    def on_call(self, n, obj, args, st):
        if (n.get('n') or '').startswith('getNeighbor') and (obj is None or obj == THIS): self.nbr = True
        return None

class Net(object):
    def __init__(self, db, bus, branch):
        self.db = db; self.bus = bus; self.branch = branch; self.cache = {}
        self.short = {bus.split('::')[-1], branch.split('::')[-1]}
        self.fams = set([bus, branch]) | set(db.bases(bus)) | set(db.bases(branch))
        self.ptrs = {}; self.pairs = {}
    def method(self, cls, name):
        for c in [cls] + list(self.db.bases(cls)):
            fs = [f for f in self.db.methods.get(c, []) if f.n == name and f.b is not None]
            if fs: return fs
        return []
    def effect(self, f, mode):
        k = (f.f, mode)
        if k not in self.cache:
            e = E(self.db, self, mode); e.run(f); self.cache[k] = e
        return self.cache[k]

import re
NET = re.compile(r'BaseNetwork<([\w:]+), ([\w:]+)>')
class D(engine.Interp):
    """order of changes, exchanges and uses in a driver"""
    MAXSTATES = 60
    MAXDEPTH = 6
    def __init__(self, db, nets, evt):
        engine.Interp.__init__(self, db); self.nets = nets; self.evt = evt; self.rep = []; self.memo = {}; self.nx = 0; self.st_ = {}; self.hb = set(); self.inloop = []
    def facts0(self): return frozenset()
    def mergekey(self, st): return st.facts
    def call1(self, n, obj, vs, s, out):
        f = self.dispatch(n, s)
        if f is None or f.b is None or f.f not in self.evt or n.get('n') in ('setMode', 'updateBuses') or any(f.cls in x.fams for x in self.nets.values()):
            return engine.Interp.call1(self, n, obj, vs, s, out)
        res = []
        for k in self.summary(f, s.facts):
            c = s.copy(); c.facts = k; res.append((c, self.opaque(n, obj, vs, c)))
        return res
    def summary(self, f, facts):
        k = (f.f, facts)
        if k not in self.memo:
            self.memo[k] = [facts]
            d = D(self.db, self.nets, self.evt); d.memo = self.memo; d.rep = self.rep; d.st_ = self.st_; d.root = False
            fl = d.run(f, facts=facts)
            self.nx += d.nx
            self.memo[k] = sorted({s.facts for kind, s, v, n in fl if kind in ('ret', 'end')}, key=str)
            self.memox[k] = d.nx
        else: self.nx += self.memox.get(k, 0)
        return self.memo[k]
    memo = None; memox = {}; root = True
    def seen(self, what, n):
        self.st_.setdefault(what, set()).add((self.fn.file, n.get('l')))
    def s_Try(self, n, sts):
        for h in n.get('h', []): self.hb.add(id(h['body']))
        return engine.Interp.s_Try(self, n, sts)
    def s_For(self, n, sts):
        self.inloop.append(set())
        out = engine.Interp.s_For(self, n, sts)
        done = self.inloop.pop()
        if done:
            # every copy took part
            for s in out.n: s.facts = frozenset(x for x in s.facts if not (x[0] == 'u' and (x[1], x[2]) in done))
        return out
    def ex(self, n, sts):
        if n is not None and id(n) in self.hb:
            # the calculation failed: its results are not used
            for s in sts: s.facts = frozenset(f for f in s.facts if f[0] == 'mode')
        return engine.Interp.ex(self, n, sts)
    def mode(self, st):
        for f in st.facts:
            if f[0] == 'mode': return f[1]
        return None
    def active(self, obj, st):
        for g, p in st.guards:
            if g[0] == 'call' and str(g[1]).endswith('getActiveBus'):
                if all(any(x == a for x in subterms(obj)) for a in g[3:4]) or True and len(g) > 3 and self.idx(obj) == g[3]: return p
        return None
    def idx(self, obj):
        for x in subterms(obj):
            if isinstance(x, tuple) and x and x[0] == 'call' and str(x[1]).endswith('::getBus') and len(x) > 3: return x[3]
        return None
    def dirty(self, st, net, e, n):
        for s in e.w: st.facts |= {('d', net.bus, s, n.get('l'), self.fn.q, self.fn.file)}
    def use(self, st, net, reads, n, what):
        for f in st.facts:
            if f[0] == 'd' and f[1] == net.bus and f[2] in reads:
                self.rep.append(('stale', n, self.fn, what, f))
            if f[0] == 'u' and f[1] == net.bus: self.rep.append(('unpulled', n, self.fn, what, f))
    def exchange(self, st, net, n):
        self.nx += 1; self.seen('exchanges', n)
        new = set()
        for f in st.facts:
            if f[0] == 'd' and f[1] == net.bus:
                for m, ss in net.pairs.items():
                    if f[2] in ss and m in net.pulled: new.add(('u', net.bus, m, n.get('l'), self.fn.q, self.fn.file))
            else: new.add(f)
        st.facts = frozenset(new)
    def on_call(self, n, obj, args, st):
        nm = n.get('n'); q = n.get('q') or ''
        if nm == 'setMode' and len(args) == 1:
            st.facts = frozenset(f for f in st.facts if f[0] != 'mode') | ({('mode', const(args[0]))} if const(args[0]) is not None else frozenset())
            return ('void',)
        if n['k'] != 'MCall': return None
        t = (n.get('o') or {}).get('t') or ''
        m = NET.search(t)
        net = self.nets.get(m.groups()) if m else None
        if net is not None and nm == 'updateBuses':
            self.exchange(st, net, n); return ('void',)
        if net is not None and q.startswith('gridpack::mapper::'):
            mp = q.split('::')[2]
            rd, wr = VALUES.get(mp, ((), ()))
            if nm in ('mapToBus', 'mapToNetwork'): ms = wr
            elif nm.startswith('mapTo') or nm.startswith('intMapTo'): ms = rd
            else: return None
            reads = {}; eff = []
            for x in ms:
                for c in (net.bus, net.branch):
                    for f in net.method(c, x):
                        e = net.effect(f, self.mode(st)); eff.append(e); reads.update(e.r)
            self.seen('evaluations' if ms is rd else 'updates', n)
            if reads: self.use(st, net, reads, n, nm)
            for e in eff: self.dirty(st, net, e, n)
            return None
        if net is not None and q.startswith('gridpack::serial_io::') and nm == 'write':
            reads = {}
            for f in net.method(net.branch if 'Branch' in q.split('::')[2] else net.bus, 'serialWrite'): reads.update(net.effect(f, None).r)
            if reads: self.seen('evaluations', n); self.use(st, net, reads, n, nm)
            return None
        f = self.db.callee(n)
        if f is not None and f.b is not None:
            for net in self.nets.values():
                if f.cls in net.busfam and any(f.cls == k for k in net.busfam):
                    e = net.effect(f, None)
                    a = self.active(obj, st) if obj is not None else None
                    if e.pull and a is not True:
                        st.facts = frozenset(x for x in st.facts if not (x[0] == 'u' and x[1] == net.bus and x[2] in e.pull))
                        self.seen('pulls', n)
                        if self.inloop: self.inloop[-1] |= {(net.bus, k) for k in e.pull}
                    if e.w and f.n not in ('load', 'setXCBuf'):
                        self.seen('updates', n)
                        if a is True: self.dirty(st, net, e, n)
                        elif e.nbr and a is None: self.rep.append(('allcopies', n, self.fn, f.n, None))
                    if e.w or e.pull or e.r: return None
        return None
    def on_exit(self, kind, st, val, node, fn):
        if kind in ('ret', 'end') and self.nx and self.root:
            for f in st.facts:
                if f[0] in 'du': self.rep.append(('exit', {'l': f[3]}, fn, '', f))

def family(db, c): return [c] + list(db.bases(c))

def layout(db, R, c):
    fam = family(db, c); nm = c.split('::')[-1]
    setx = [f for f in db.methods[c] if f.n == 'setXCBuf'][0]
    ft = {x['n']: x['t'] for k in fam for x in db.fields(k)}
    offs = {}
    for kind, st, v, n in B(db, fam).run(setx):
        if kind not in ('ret', 'end'): continue
        got = {}
        for k, v in st.env.items():
            if k[0] == 'fld' and k[1] == THIS and psize(ft.get(k[2])) or k[0] == 'fld' and k[1] == THIS and offset(v, setx.ps[0]['n']) is not None:
                o = offset(v, setx.ps[0]['n'])
                if o is not None: got[k[2]] = o
        for p, o in got.items(): offs.setdefault(p, set()).add(o)
    ptrs = {p: ft.get(p) for p in offs}
    m = M(db, fam, ptrs); m.discover = True; m.run(setx); m.discover = False
    ms = [f for k in [c] + list(db.derived(c)) for f in db.methods.get(k, []) if f.b is not None and not f.isctor]
    sizes = set()
    for f in db.methods[c]:
        if f.n == 'getXCBufSize' and f.b is not None: sizes |= {const(v) for k, st, v, n in engine.Interp(db).run(f) if k == 'ret'}
    return setx, offs, ptrs, m, ms, sizes

class U(engine.Interp):
    """one round of every loop, from an arbitrary earlier round"""
    MAXSTATES = 200
    def __init__(self, db):
        engine.Interp.__init__(self, db); self.loops = []; self.ops = []; self.inl = 0
    def facts0(self): return frozenset()
    def mergekey(self, st): return (st.facts, frozenset(st.guards))
    def should_inline(self, fn, node, st): return fn.cls == self.stack[0][0].cls and len(self.stack) < 4 and not re.match('getActive|getGlobal', fn.n)
    def s_For(self, n, sts):
        out = engine.Flow()
        if n.get('init'):
            f = self.ex(n['init'], sts); sts = f.n
        for s0 in sts[:1]:
            s = self.havoc_loop(n, s0.copy())
            pre = dict(s.env)
            lo = {k: s0.env[k] for k in pre if pre[k] != s0.env.get(k) and k in s0.env}
            T, F = [], []
            for x in [s]:
                if n.get('cond') is not None:
                    a, b = self.cond(n['cond'], x.copy(), None); T += a; F += b
                else: T.append(x)
            g0 = frozenset(g for x in T for g in x.guards)
            self.inl += 1
            for x in T: x.facts = frozenset()
            f = self.ex(n.get('body'), T)
            self.inl -= 1
            for x in f.n + f.c:
                step = {k: (pre[k], x.env.get(k)) for k in pre if x.env.get(k) != pre[k]}
                self.loops.append((n, self.fn, x.guards - s0.guards, x.facts, step, lo))
        out.n = [self.havoc_loop(n, s.copy()) for s in sts]
        return out
    def on_call(self, n, obj, args, st):
        nm = n.get('n') or ''
        a = tuple(self.load(x[1], st) if x[0] == 'ref' else x for x in args)
        if nm == 'memcpy': st.facts |= {('copy', a, n.get('l'))}
        elif nm in ('NGA_Scatter', 'NGA_Gather', 'GA_Pgroup_sync', 'GA_Sync'): self.ops.append((nm, a, n, self.fn))
        return None
    def on_store(self, lv, val, node, st):
        if lv[0] == 'elem' and val[0] == 'new' and ('deref', val) in st.env: st.facts |= {('idx', lv, st.env[('deref', val)], node.get('l'))}
        if lv[0] == 'deref' and lv[1][0] == 'elem': st.facts |= {('idx', lv[1], val, node.get('l'))}

def member(t):
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == 'fld' and x[1] == THIS and re.search('Buf$|Buffers$|Indices$', x[2]): return x[2]
    return None

def activity(guards):
    for g, p in guards:
        if g[0] == 'call' and re.search('getActive(Bus|Branch)$', str(g[1])) and len(g) > 3: return p, g[3]
    return None, None

def exchange_body(db, R):
    cls = 'gridpack::network::BaseNetwork'
    role = {}    # index list -> selection
    for init, upd in (('initBusUpdate', 'updateBuses'), ('initBranchUpdate', 'updateBranches')):
        fi = [f for f in db.methods[cls] if f.n == init and f.b is not None]; fu = [f for f in db.methods[cls] if f.n == upd and f.b is not None]
        if not fi or not fu: continue
        ui = U(db); ui.run(fi[0]); uu = U(db); uu.run(fu[0])
        def counted(lp, cnt, want, what):
            """cnt is the number of earlier elements of this kind"""
            n, fn, guards, facts, step, lo = lp
            ks = [k for k in step if step[k][0] == cnt]
            return ks
        kinds = {}
        bad = lambda f, l, w: R.report('X6', f.file, l, f.q.split('gridpack::')[-1], w)
        # loops that pick elements
        for it, fn0 in ((ui, fi[0]), (uu, fu[0])):
            for lp in it.loops:
                n, fn, guards, facts, step, lo = lp
                act, i = activity(guards)
                for x in facts:
                    if x[0] == 'idx':
                        arr = member(x[1]); cnt = x[1][2]; v = x[2]
                        if arr is None or not arr.endswith('Indices'): continue
                        R.count('exchange_steps')
                        if act is None: bad(fn, x[3], '%s is filled whatever the element is' % arr); continue
                        kinds.setdefault(arr, set()).add((act, 'idx'))
                        if not (v[0] == 'call' and 'Global' in v[1] and i in v[2:] or v[0] == 'fld' and 'lobal' in str(v[2]) and any(isinstance(t, tuple) and t and t[0] == 'elem' and t[2] == i for t in subterms(v))): bad(fn, x[3], '%s holds something other than the global index of the element' % arr)
                        steps(lp, cnt, bad, x[3], arr, it.loops)
                    elif x[0] == 'copy':
                        (dst, src, size) = x[1][:3]
                        xs = [t for t in (dst, src) if (member(t) or '').endswith('XCBuffers')]; bs = [t for t in (dst, src) if (member(t) or '').endswith('Buf')]
                        if len(xs) != 1 or len(bs) != 1: continue
                        R.count('exchange_steps')
                        buf = member(bs[0])
                        if act is None: bad(fn, x[2], '%s is copied whatever the element is' % buf); continue
                        kinds.setdefault(buf, set()).add((act, 'out' if dst == bs[0] else 'in'))
                        el = [t for t in subterms(xs[0]) if isinstance(t, tuple) and t and t[0] == 'elem']
                        if not el or el[0][2] != i: bad(fn, x[2], 'the buffer of another element is copied')
                        off = [t for t in subterms(bs[0]) if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] == '*']
                        if len(off) != 1 or size not in off[0][2:]: bad(fn, x[2], 'the place in %s is not a multiple of the size copied' % buf); continue
                        cnt = off[0][2] if off[0][3] == size else off[0][3]
                        steps(lp, cnt, bad, x[2], buf, it.loops)
        ops = uu.ops
        sc = [k for k, c in enumerate(ops) if c[0] == 'NGA_Scatter']; ga = [k for k, c in enumerate(ops) if c[0] == 'NGA_Gather']
        if not sc or not ga: bad(fu[0], fu[0].l, 'values are not sent to or fetched from the shared array'); continue
        if min(ga) < max(sc): bad(fu[0], ops[min(ga)][2]['l'], 'values are fetched before they are sent')
        if not any('ync' in ops[k][0] for k in range(max(sc), min(ga))): bad(fu[0], ops[min(ga)][2]['l'], 'values are fetched without waiting for the others')
        for ks, act, way in ((sc, True, 'out'), (ga, False, 'in')):
            for k in ks:
                nm, a, n, fn = ops[k]; R.count('exchange_steps')
                b, ix = member(a[1]), member(a[2])
                if kinds.get(b) != {(act, way)}: bad(fn, n['l'], '%s moves %s, which does not hold the %s elements' % (nm, b, 'owned' if act else 'copied'))
                if kinds.get(ix) != {(act, 'idx')}: bad(fn, n['l'], '%s uses %s, which does not list the %s elements' % (nm, ix, 'owned' if act else 'copied'))

class A(engine.Interp):
    """sizes the processes agreed on"""
    def __init__(self, db):
        engine.Interp.__init__(self, db); self.bad = []; self.n = 0
    def facts0(self): return frozenset()
    def mergekey(self, st): return frozenset((g, p) for g, p in st.guards if 'p_num' in str(g) or 'numBus' in str(g) or 'numBranch' in str(g))
    def on_call(self, n, obj, args, st):
        nm = n.get('n') or ''
        if nm in ('max', 'sum') and '::Communicator::' in (n.get('q') or ''):
            for a in args:
                x = a[1] if a[0] in ('addr', 'ref') else None
                if x is not None: st.env[x] = ('agreed', x)
            return ('void',)
        if re.match('allocXC(Bus|Branch)', nm) and args:
            self.n += 1
            v = self.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            own = [g for g, p in st.guards if re.search('p_num(Buses|Branches)|numBuses|numBranches', str(g)) and p == (g[0] != 'bin' or True)]
            if v[0] != 'agreed' and own: self.bad.append((n, self.fn))
        return None

def agreed(db, R):
    R.rule('X7', 'Every process takes part in the exchange, also one that holds no element')
    for f in db.methods['gridpack::factory::BaseFactory']:
        if f.n != 'setExchange' or f.b is None: continue
        it = A(db); it.run(f)
        R.count('exchange_setups', it.n)
        for n, fn in it.bad: R.report('X7', fn.file, n['l'], 'factory::BaseFactory::setExchange', '%s gets a size that depends on whether this process holds elements' % n['n'])

def steps(lp, cnt, bad, line, what, loops):
    n, fn, guards, facts, step, lo = lp
    k = [x for x in step if step[x][0] == cnt]
    if len(k) != 1 or step[k[0]][1] != engine.fold('+', cnt, ('int', 1)): bad(fn, line, 'the position in %s does not advance by one with each element' % what); return
    if lo.get(k[0]) != ('int', 0): bad(fn, line, 'the position in %s does not start at the first' % what)
    act, i = activity(guards)
    for n2, fn2, g2, f2, s2, lo2 in loops:
        if n2 is n and activity(g2)[0] is not None and activity(g2)[0] != act and k[0] in s2: bad(fn, line, 'the position in %s also advances for other elements' % what)

def analyse(db, R):
    R.rule('X1', 'The published values of a bus lie at distinct places inside the buffer whose size it announces')
    R.rule('X2', 'Whatever changes a value a bus publishes also publishes the new value')
    R.rule('X3', 'Between a change made to the buses a process owns and the next use of a neighbouring bus, or the end of the calculation, the copies are exchanged')
    R.rule('X4', 'A change computed from the branches around a bus is made on owned buses only')
    R.rule('X5', 'What is read of a neighbouring bus comes from its published values')
    info = {}
    callers = {}
    for f in db.fns.values():
        if f.b is None: continue
        for n in calls(f.b):
            g = db.callee(n)
            if g is not None: callers.setdefault(g.f, set()).add(f.cls)
    nets = {}
    for f in db.fns.values():
        if f.b is None: continue
        for n in walk(f.b):
            if n['k'] == 'MCall' and (n.get('q') or '').startswith('gridpack::network::BaseNetwork::'):
                mm = NET.search((n.get('o') or {}).get('t') or '')
                if mm and mm.groups() not in nets: nets[mm.groups()] = None
    for k in list(nets):
        b, br = [next((c for c in db.methods if c == x or c.endswith('::' + x)), None) for x in k]
        nets[k] = Net(db, b, br) if b and br else None
        if nets[k] is None: del nets[k]
    cls = classes(db)
    reload_ = reloading(db)
    for c in cls:
        setx, offs, ptrs, m, ms, sizes = layout(db, R, c)
        nm = c.split('gridpack::')[-1]
        R.count('exchanged_classes')
        info[c] = (offs, ptrs, m)
        for p, o in offs.items():
            if len(o) != 1: R.report('X1', setx.file, setx.l, nm, 'the place of %s depends on the path' % p)
        for f in ms:
            skip = f.n == 'setXCBuf' or f.n == 'load' and c not in reload_
            inner = callers.get(f.f) and all(k in [c] + list(db.derived(c)) for k in callers[f.f]) and not f.n in OVERRIDES
            m.rep = []; m.run(f)
            R.count('methods')
            if skip or inner: continue
            for mem, l, fn in m.rep:
                R.report('X2', f.file, l, nm + '::' + f.n, 'the new value of %s is not published' % mem)
        R.count('stores', m.nst); R.count('published', m.npub)
        ext = []
        for (p, k), node in sorted(m.slots.items(), key=str):
            if k is None: continue
            w = psize(ptrs[p]); o = min(offs[p])
            ext.append((o + k * w, o + (k + 1) * w, p, k))
        for p in ptrs:
            if not any(e[2] == p for e in ext): ext.append((min(offs[p]), min(offs[p]) + psize(ptrs[p]), p, 0))
        ext.sort(); R.count('places', len(ext))
        for a, b in zip(ext, ext[1:]):
            if b[0] < a[1] and (a[2], a[3]) != (b[2], b[3]): R.report('X1', setx.file, setx.l, nm, '%s and %s overlap in the buffer' % (a[2], b[2]))
        for s in sizes or {None}:
            if s is None: R.report('X1', setx.file, setx.l, nm, 'the announced size is not a constant'); continue
            for e in ext:
                if e[1] > s or e[0] < 0: R.report('X1', setx.file, setx.l, nm, '%s lies outside the announced %d bytes' % (e[2], s))
    drive(db, R, nets, info, cls)
    R.rule('X6', 'The exchange sends the values of exactly the owned elements and gives exactly the copies theirs, each list, buffer and index in the same order')
    exchange_body(db, R)
    agreed(db, R)
    for k, v in (('exchanged_classes', 2), ('methods', 70), ('stores', 25), ('published', 10), ('places', 5), ('component_methods', 450), ('neighbour_reads', 40), ('drivers', 15), ('evaluations', 15), ('updates', 16), ('exchanges', 10), ('pulls', 1), ('exchange_steps', 6), ('exchange_setups', 2)): R.floor(k, v)

OVERRIDES = ('load', 'setValues', 'vectorValues', 'setMode')
def reloading(db):
    """classes whose load is run again after the buffers were handed out"""
    out = set()
    for f in db.fns.values():
        if f.b is None or not f.file.startswith('applications/'): continue
        ld = [n for n in calls(f.b) if n.get('n') == 'load' and n['k'] == 'MCall' and '::factory::' in (n.get('q') or '')]
        if not ld or any(n.get('n') == 'setExchange' for n in calls(f.b)): continue
        for n in ld:
            o = re.sub(r'[\s*&]|const ', '', (n.get('o') or {}).get('t') or '')
            for x in db.fields(o):
                m = NET.search(x['t'])
                if m: out.add(m.group(1))
    return out

def drive(db, R, nets, info, cls):
    for net in nets.values():
        net.busfam = family(db, net.bus)
        src = next((c for c in net.busfam if c in info), None)
        if src:
            net.ptrs = info[src][1]; net.pairs = {k: {s[0] for s in v} for k, v in info[src][2].pairs.items()}
    live = {k: n for k, n in nets.items() if n.ptrs}
    # members that are refreshed from the published value by a method of their own, because neighbours read them unrefreshed
    for net in live.values():
        pulls = set(); reads = {}
        for c in sorted(net.fams):
            for f in db.methods.get(c, []):
                if f.b is None or f.isctor: continue
                e = net.effect(f, None)
                R.count('component_methods')
                if len(f.ps) == 0 and e.pull and not e.w: pulls |= set(e.pull)
                for m, (l, fn) in e.own.items(): reads.setdefault(m, (l, fn))
                R.count('neighbour_reads', len(e.r) + len(e.own))
        net.pulled = pulls & set(reads)
        for m, (l, fn) in sorted(reads.items()):
            if m not in net.pulled: R.report('X5', fn.file, l, fn.q.split('gridpack::')[-1], 'the private %s of a neighbouring bus is read' % m)
    # functions in which something of interest happens
    evt = set()
    def direct(f):
        for n in calls(f.b):
            q = n.get('q') or ''
            if q.startswith('gridpack::mapper::') or n.get('n') in ('updateBuses', 'setMode'): return True
            g = db.callee(n)
            if g is not None and g.b is not None and n['k'] == 'MCall':
                for net in live.values():
                    if g.cls in net.busfam:
                        e = net.effect(g, None)
                        if e.w or e.pull: return True
        return False
    fs = [f for f in db.fns.values() if f.b is not None and f.file.startswith('applications/') and '/components/' not in f.file and '/test' not in f.file]
    for f in fs:
        if direct(f): evt.add(f.f)
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f.f in evt: continue
            for n in calls(f.b):
                g = db.callee(n)
                if g is not None and g.f in evt: evt.add(f.f); ch = True; break
    memo = {}
    for f in fs:
        if f.f not in evt or any(f.cls in n.fams for n in nets.values()): continue
        d = D(db, live, evt); d.memo = memo
        d.run(f)
        if not d.st_: continue
        R.count('drivers')
        for k, v in d.st_.items(): R.count(k, len(v))
        for what, n, fn, x, fct in d.rep:
            if what == 'stale': R.report('X3', fn.file, n['l'], fn.q.split('gridpack::')[-1], '%s uses neighbours although %s changed without an exchange' % (x, fct[2]), 'changed at line %s' % fct[3])
            if what == 'exit': R.report('X3', fct[5], n['l'], fct[4].split('gridpack::')[-1], '%s of the copies is left %s' % (fct[2], 'as it was before the change' if fct[0] == 'd' else 'unread after the exchange'))
            if what == 'unpulled': R.report('X3', fn.file, n['l'], fn.q.split('gridpack::')[-1], '%s runs before the copies took over the exchanged %s' % (x, fct[2]))
            if what == 'allcopies': R.report('X4', fn.file, n['l'], fn.q.split('gridpack::')[-1], '%s is applied to copies as well' % x)
