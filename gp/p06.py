"""P06: a device out of service contributes nothing, one in service exactly once."""
EXPLAIN = """The load methods of each application's buses are interpreted over symbolic network data with several generators and
loads, each in or out of service, and then the methods that use them: specified power, Q-limit check, matrix entries, current
injections, totals. What they compute, and the conditions under which they compute it, is compared with the sum over the devices
in service; it may not mention the data of a device out of service."""
import engine, comp, ratf, p26
from engine import const, show, subterms
from ratf import Conv, Big
from p26 import A, B, L, csplit
from p30 import App, APPS, S, num, add, sub, mul, div, cx, values, busdata, runs, net, state, same, csame, CLEAN, SB

GEN = ('PG', 'QG', 'VS', 'QMAX', 'QMIN', 'PMAX', 'PMIN', 'MBASE', 'ZSOURCE', 'INERTIA_CONSTANT_H', 'DAMPING_COEFFICIENT_0', 'DAMPING_COEFFICENT_0', 'RESISTANCE', 'SUBTRANSIENT_REACTANCE')
LOAD = ('PL', 'QL', 'IP', 'IQ', 'YP', 'YQ')
class Dev(object):
    """a device: its label, and whether it is in service"""
    def __init__(self, name, on, **kw): self.name, self.on, self.kw = name, on, kw
    def sym(self, n): return S(n, self.name)

def given(gens, loads, typ=1, w=A):
    g = dict(busdata(w)); g[('BUS_TYPE', None)] = num(typ)
    g[('BUS_VOLTAGE_MAG', None)] = S('v', w[1]); g[('BUS_VOLTAGE_ANG', None)] = S('a', w[1])
    if gens: g[('GENERATOR_NUMBER', None)] = num(len(gens))
    if loads: g[('LOAD_NUMBER', None)] = num(len(loads))
    for i, d in enumerate(gens):
        for n in GEN: g[('GENERATOR_' + n, i)] = d.sym(n)
        for n, v in d.kw.items(): g[('GENERATOR_' + n, i)] = v
        g[('GENERATOR_STAT', i)] = num(d.on); g[('GENERATOR_ID', i)] = ('str', d.name)
    for i, d in enumerate(loads):
        for n in LOAD: g[('LOAD_' + n, i)] = d.sym(n)
        for n, v in d.kw.items(): g[('LOAD_' + n, i)] = v
        g[('LOAD_STATUS', i)] = num(d.on); g[('LOAD_ID', i)] = ('str', d.name)
    return g

def total(devs, n):
    r = num(0)
    for d in devs:
        if d.on: r = add(r, n(d) if callable(n) else d.sym(n))
    return r

def mentions(t, names):
    return sorted({x[2] for x in subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'sym' and x[2] in names})

def desc(gens, loads):
    def one(k, ds): return '%s %s' % (k, ', '.join('on' if d.on else 'off' for d in ds)) if ds else 'no ' + k
    return one('generators', gens) + '; ' + one('loads', loads)

class Cases(object):
    """one application's bus with several devices"""
    def __init__(self, db, R, app, extra=None):
        self.db, self.R, self.app, self.extra = db, R, app, extra or {}
        self.base = app.setup(('line out of service',)) if app.name != 'dynamic simulation (DAE)' else app.built({})
    def load(self, gens, loads, typ=1):
        x = dict(self.extra); x['getValue'] = values(given(gens, loads, typ))
        r = self.app.step(self.base, self.app.meth(self.app.bus, 'load'), A, x)
        self.R.count('cases followed' if r else 'cases not followed')
        return r
    def runs(self, s, f, args=None, extra=None):
        x = dict(self.extra); x.update(extra or {})
        return runs(self.db, self.app.fam, f, A, s, x, args)[1]
    def step(self, sts, f, args=None, extra=None):
        x = dict(self.extra); x.update(extra or {})
        return self.app.step(sts, f, A, x, args)

def models():
    """stand-ins for the generator models: each is known by its device"""
    def make(it, node, obj, args, st):
        v = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
        t = v[1].strip('"') if v[0] == 'str' else None
        return ('thisptr', ('dev', t[2:])) if t and t.startswith('M:') else None
    def reset(it, node, obj, args, st):
        if obj is None or len(args) != 1: return None
        v = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
        st.env[obj] = v
        return ('void',)
    def dev(it, obj, st):
        v = obj
        for k in range(4):
            if v is None: return None
            if v[0] == 'dev': return v[1]
            if v[0] == 'thisptr': v = v[1]
            elif v[0] in ('fld', 'elem', 'loc', 'deref', 'ref'):
                w = it.load(v[1] if v[0] == 'ref' else v, st)
                if w == v: return None
                v = w
            else: return None
    def norton(it, node, obj, args, st):
        d = dev(it, obj, st)
        return cx(S('Yr', d), S('Yi', d)) if d else cx(num(0), num(0))
    def inorton(it, node, obj, args, st):
        d = dev(it, obj, st)
        return cx(S('Ir', d), S('Ii', d)) if d else cx(num(0), num(0))
    return {'createGeneratorModel': make, 'reset': reset, 'NortonImpedence': norton, 'INorton': inorton}

def service(extra):
    """the models keep the status they are given"""
    H = dict(extra)
    def key(it, obj, st):
        v = obj
        for k in range(4):
            if v is None or v[0] in ('dev', 'new'): return v
            if v[0] == 'thisptr': v = v[1]
            elif v[0] in ('fld', 'elem', 'loc', 'deref', 'ref'):
                w = it.load(v[1] if v[0] == 'ref' else v, st)
                if w == v: return None
                v = w
            else: return None
        return v if v is not None and v[0] in ('dev', 'new') else None
    def get(it, node, obj, args, st):
        k = key(it, obj, st)
        return st.env.get(('status', k)) if k is not None else None
    def put(it, node, obj, args, st):
        k = key(it, obj, st)
        if k is None or len(args) != 1: return None
        v = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
        st.env[('status', k)] = v
        return ('void',)
    H.update({'getGenStatus': get, 'SetGenServiceStatus': put, 'setGenStatus': put})
    return H

GS = [(), (1,), (0,), (1, 1), (1, 0), (0, 1), (0, 0), (1, 0, 1)]
LS = [(), (1,), (0,), (1, 1), (1, 0), (0, 1), (0, 0), (0, 1, 1)]
def mixes():
    r = [(g, l) for g in GS for l in LS if len(g) + len(l) <= 2 or g == (1, 0, 1) and l in ((), (1, 1)) or l == (0, 1, 1) and g in ((), (1, 1))]
    return r + [((1, 0), (1, 0)), ((0, 1), (0, 1)), ((1, 1), (1, 1)), ((0, 0), (0, 0)), ((1, 1), (0, 0)), ((0,), (1, 1)), ((0, 0), (1,))]
def devs(k, ons, **kw): return [Dev('%s%d' % (k, i), o, **{n: v(i) for n, v in kw.items()}) for i, o in enumerate(ons)]

class Judge(object):
    def __init__(self, app): app.of = 'a bus with '; self.app = app; self.R = app.R; self.conv = Conv()
    def silent(self, rule, f, what, gens, loads, p, got):
        """nothing of a device out of service"""
        off = {d.name for d in gens + loads if not d.on}
        if not off: return True
        self.R.count('results examined for traces')
        m = [x for t in got for x in mentions(t, off)]
        if m:
            self.app.fail(rule, f, '%s depends on a device out of service' % what, (desc(gens, loads),), got[0])
            return False
        g = [x for c, pol in p.st.guards for x in mentions(c, off)]
        if g:
            self.app.fail(rule, f, 'the way %s is computed depends on a device out of service' % what, (desc(gens, loads),), None)
            return False
        return True
    def equal(self, rule, f, what, gens, loads, got, wants):
        self.R.count('quantities compared')
        if got is not None:
            try:
                if any(same(got, w, self.conv) for w in wants): self.R.count('quantities that agree'); return True
            except Big: self.R.count('quantities not decided'); return True
        self.app.fail(rule, f, what, (desc(gens, loads),), got)
        return False

def outval(p, name):
    """what a method leaves in a parameter that is a reference"""
    for k, v in p.st.env.items():
        b = k[1] if k[0] in ('deref', 'elem') else k
        if b[0] == 'par' and b[1] == name: return v
    return None

PLOAD = lambda d: add(add(d.sym('PL'), d.sym('IP')), d.sym('YP'))
QLOAD = lambda d: sub(sub(d.sym('QL'), d.sym('IQ')), d.sym('YQ'))

# ---- power flow --------------------------------------------------------------
def pf(db, R):
    app = App(db, R, *APPS[0]); C = Cases(db, R, app); J = Judge(app)
    app.fieldof = lambda n: app.field(app.bus, n)
    f = {n: app.meth(app.bus, n) for n in ('load', 'setSBus', 'chkQlim', 'clearQlim', 'setGenStatus', 'isPV', 'scaleLoadPower')}
    f['setGeneratorStatus'] = None
    rhs = app.meth(app.bus, 'vectorValues', lambda s: 'complex' not in s.lower())
    size = app.meth(app.bus, 'vectorSize')
    if None in [v for k, v in f.items() if k != 'setGeneratorStatus'] or rhs is None: R.count('operations not found'); return
    f['setGeneratorStatus'] = app.meth(app.bus, 'setGeneratorStatus')
    def specified(sts):
        """the mismatch of a bus without control of its voltage"""
        out = []
        for s in app.mode(C.step(sts, f['setSBus']), 'RHS', (A,)):
            s = dict(s); app.voltage(s, A)
            for p in C.runs(s, rhs):
                v = p26.stores(p)
                if 0 in v and 1 in v: out.append((cx(v[0], v[1]), p))
        return out
    none = specified(C.load([], []))
    if not none: R.count('cases not followed'); return
    none = none[0][0]
    def oracle(gens, loads, q=None):
        return add(none, cx(sub(div(total(loads, PLOAD), SB), div(total(gens, 'PG'), SB)), sub(div(total(loads, QLOAD), SB), div(q if q is not None else total(gens, 'QG'), SB))))
    WHAT = 'the specified power of a bus is not that of the devices in service'
    for g, l in mixes():
        gens, loads = devs('G', g), devs('L', l)
        sts = C.load(gens, loads)
        off = {d.name for d in gens + loads if not d.on}
        for s in sts:
            for n in ('p_v', 'p_a', 'p_type'):
                R.count('results examined for traces')
                if mentions(s.get(('fld', A, app.field(app.bus, n)), num(0)), off): app.fail('D1', f['load'], 'the initial voltage depends on a generator out of service', (desc(gens, loads),), None)
        for v, p in specified(sts):
            if J.silent('D1', f['setSBus'], 'the specified power', gens, loads, p, [v]): J.equal('D2', f['setSBus'], WHAT, gens, loads, v, [oracle(gens, loads)])
        # who controls the voltage
        for typ in (1, 2):
            sts = C.load(gens, loads, typ)
            control(app, C, J, f, sts, gens, loads, typ, 'of a bus')
            if typ == 2:
                sts2 = [dict(s, **{}) for s in sts]
                fld = app.field(app.bus, 'p_Qinj')
                for s in sts2:
                    s[('fld', A, fld)] = S('Qinj')
                    for p in C.runs(s, f['chkQlim']):
                        st1 = state(p)
                        if not J.silent('D1', f['chkQlim'], 'the check of the reactive limits', gens, loads, p, [num(0)]): continue
                        for v, p2 in specified([st1]):
                            if p.ret is not None and const(p.ret) == 1:
                                w = [oracle(gens, loads, total(gens, 'QMAX')), oracle(gens, loads, total(gens, 'QMIN'))]
                                J.equal('D3', f['chkQlim'], 'the specified power of a bus at its reactive limits is not that of the devices in service, at their limits', gens, loads, v, w)
                        # clearing the limits
                        back = C.step([st1], f['clearQlim'])
                        for b in back:
                            for v, p2 in specified_pv(app, C, f, [b], rhs):
                                J.equal('D3', f['clearQlim'], 'the specified power of a bus whose reactive limits are cleared is not that of the devices in service', gens, loads, v, [num0(oracle(gens, loads))])
                            control(app, C, J, f, [b], gens, loads, typ, 'of a bus whose reactive limits are cleared', f['clearQlim'])
        # switching
        for i, d in enumerate(gens):
            if not d.on: continue
            for typ in (1, 2):
                sts = C.load(gens, loads, typ)
                off = C.step(sts, f['setGenStatus'], [('str', d.name), num(0)])
                gens2 = [Dev(x.name, 0 if x is d else x.on) for x in gens]
                if typ == 1:
                    for v, p in specified(off):
                        if J.silent('D4', f['setGenStatus'], 'the specified power after a generator is switched off', gens2, loads, p, [v]): J.equal('D4', f['setGenStatus'], 'after a generator is switched off, the specified power is not that of the devices in service', gens2, loads, v, [oracle(gens2, loads)])
                control(app, C, J, f, off, gens2, loads, typ, 'of a bus after a generator is switched off', f['setGenStatus'])
                if f['setGeneratorStatus']:
                    g = f['setGeneratorStatus']
                    off = C.step(sts, g, [('str', d.name), num(0), ('thisptr', ('data',))], {'setValue': lambda *a: num(1), 'addValue': lambda *a: num(1)})
                    control(app, C, J, f, off, gens2, loads, typ, 'of a bus after a generator is set out of service', g)
                    if typ == 1:
                        for v, p in specified(off):
                            if J.silent('D4', g, 'the specified power after a generator is set out of service', gens2, loads, p, [v]): J.equal('D4', g, 'after a generator is set out of service, the specified power is not that of the devices in service', gens2, loads, v, [oracle(gens2, loads)])
                off = C.step(sts, f['setGenStatus'], [('str', d.name), num(0)])
                on = C.step(off, f['setGenStatus'], [('str', d.name), num(1)])
                if typ == 1:
                    for v, p in specified(on): J.equal('D4', f['setGenStatus'], 'after a generator is switched off and on, the specified power is not that of the devices in service', gens, loads, v, [oracle(gens, loads)])
                control(app, C, J, f, on, gens, loads, typ, 'of a bus after a generator is switched off and on', f['setGenStatus'])
        # scaling
        for d in loads:
            for s in C.load(gens, loads):
                for v, p in specified(C.step([s], f['scaleLoadPower'], [('str', d.name), S('k')])):
                    w = oracle(gens, loads)
                    if d.on: w = add(w, cx(div(mul(sub(S('k'), num(1)), PLOAD(d)), SB), div(mul(sub(S('k'), num(1)), QLOAD(d)), SB)))
                    J.equal('D4', f['scaleLoadPower'], 'scaling a load changes the specified power by other than its share', gens, loads, v, [w])
    app.flush()

def num0(t): return t
def specified_pv(app, C, f, sts, rhs):
    """the specified power of a bus that controls its voltage, with the control set aside"""
    out = []
    fld = app.field(app.bus, 'p_isPV')
    for s in app.mode(C.step(sts, f['setSBus']), 'RHS', (A,)):
        s = dict(s); s[('fld', A, fld)] = num(0); app.voltage(s, A)
        for p in C.runs(s, rhs):
            v = p26.stores(p)
            if 0 in v and 1 in v: out.append((cx(v[0], v[1]), p))
    return out

def control(app, C, J, f, sts, gens, loads, typ, what, at=None):
    want = 1 if typ == 2 and any(d.on for d in gens) else 0
    for s in sts:
        for p in C.runs(s, f['isPV']):
            J.R.count('quantities compared')
            if p.ret is not None and const(p.ret) == want: J.R.count('quantities that agree')
            else: app.fail('D5', at or f['load'], 'the voltage %s is %s though %s' % (what, 'not controlled' if want else 'controlled', 'a generator is in service' if want else 'no generator is in service' if typ == 2 else 'the bus is a load bus'), (desc(gens, loads),), p.ret)

# ---- dynamic simulation -------------------------------------------------------
def dsf(db, R):
    M = lambda n: ('str', 'M:' + n)
    app = App(db, R, *APPS[4]); C = Cases(db, R, app, service(models())); J = Judge(app)
    f = {n: app.meth(app.bus, n) for n in ('load', 'setGenStatus', 'getTotalLoadPower', 'getTotalGeneratorPower')}
    diag = app.meth(app.bus, 'matrixDiagValues', lambda s: 'complex' in s.lower())
    vec = app.meth(app.bus, 'vectorValues', lambda s: 'complex' in s.lower())
    if None in f.values() or diag is None or vec is None: R.count('operations not found'); return
    V2 = mul(S('v', A[1]), S('v', A[1]))
    def matrix(sts):
        """the diagonal entry after loads and generators are added, with the states"""
        last = []
        for m in ('YBUS', 'YL', 'PG', 'jxd'):
            nxt = []; last = []
            for s in app.mode(sts, m, (A,)):
                for p in C.runs(s, diag):
                    v = p26.stores(p).get(0)
                    o = state(p)
                    for k, x in p.st.env.items():
                        if k[0] == 'status': o[k] = x
                    last.append((v, p)); nxt.append(o)
            sts = []
            for o in nxt:
                if o not in sts: sts.append(o)
            if m == 'YBUS':
                # what the network alone has there
                sts = [dict(o) for o in sts]
                for o in sts:
                    o[('fld', A, app.field(app.bus, 'p_ybusr'))] = S('y0r'); o[('fld', A, app.field(app.bus, 'p_ybusi'))] = S('y0i')
        return last, sts
    def kinds(d, k):
        if k == 'model': return {'MODEL': M(d)}
        if k == 'unknown model': return {'MODEL': ('str', 'NOSUCH')}
        if k == 'negative': return {'MODEL': M(d), 'PG': ('un', '-', S('PG', d))}
        return {}
    seen = set()
    for g, l in mixes():
        for ks in (('model', 'none', 'negative'), ('negative', 'model', 'none'), ('none', 'negative', 'model'), ('model', 'model', 'model')):
            gens = [Dev('G%d' % i, o, **kinds('G%d' % i, ks[i])) for i, o in enumerate(g)]
            loads = devs('L', l)
            key = (g, l, ks[:len(g)])
            if key in seen: continue
            seen.add(key)
            tag = [('a model', 'no model', 'negative output')[('model', 'none', 'negative').index(k)] for k in ks[:len(g)]]
            sts = C.load(gens, loads)
            def neg(d): return sub(num(0), d.sym('PG')) if 'PG' in d.kw else d.sym('PG')
            machine = [d for d, k in zip(gens, ks) if k == 'model' and d.on]
            asload = [d for d, k in zip(gens, ks) if k != 'model' and d.on]
            y = cx(S('y0r'), S('y0i'))
            for d in loads:
                if d.on: y = add(y, div(cx(div(PLOAD(d), SB), sub(num(0), div(QLOAD(d), SB))), V2))
            for d in asload: y = sub(y, div(cx(div(neg(d), SB), sub(num(0), div(d.sym('QG'), SB))), V2))
            for d in machine: y = add(y, cx(S('Yr', d.name), S('Yi', d.name)))
            out, sts2 = matrix(sts)
            for v, p in out:
                if v is not None and not J.silent('D1', diag, 'the diagonal of the network matrix', gens, loads, p, [v]): continue
                J.equal('D2', diag, 'the diagonal of the network matrix is not that of the network and of the devices in service', gens, loads, v, [y])
            ii = cx(num(0), num(0))
            for d in machine: ii = add(ii, cx(S('Ir', d.name), S('Ii', d.name)))
            for s in app.mode(sts2, 'make_INorton_full', (A,)):
                for p in C.runs(s, vec):
                    v = p26.stores(p).get(0)
                    if v is None: continue
                    if J.silent('D1', vec, 'the current injected', gens, loads, p, [v]): J.equal('D2', vec, 'the current injected is not that of the generators in service', gens, loads, v, [ii])
            for name, ds, n, q in (('getTotalLoadPower', loads, PLOAD, QLOAD), ('getTotalGeneratorPower', gens, neg, lambda d: d.sym('QG'))):
                for s in sts:
                    for p in C.runs(s, f[name], [('ref', ('out', 0)), ('ref', ('out', 1))]):
                        v = [p.st.env.get(('out', i)) for i in (0, 1)]
                        if None in v: R.count('totals not found'); continue
                        got = cx(*v); w = cx(total(ds, n), total(ds, q))
                        if J.silent('D1', f[name], 'the total power', gens, loads, p, [got]): J.equal('D2', f[name], 'the total power is not that of the devices in service', gens, loads, got, [w, mul(SB, w)])
            # switching a machine
            for d in machine:
                for s in sts2:
                    s = dict(s); s[('status', ('dev', d.name))] = num(1)
                    ps = C.runs(s, f['setGenStatus'], [('str', d.name), num(0)], CLEAN)
                    for p in ps:
                        o = state(p)
                        for k, x in p.st.env.items():
                            if k[0] == 'status': o[k] = x
                        left = [x for x in machine if x is not d]
                        for s2 in app.mode([dict(o)], 'GENSTATUSCHANGE', (A,)):
                            for p2 in C.runs(s2, diag):
                                J.equal('D4', f['setGenStatus'], 'switching a generator off does not change the network matrix by its admittance', gens, loads, p2 and p26.stores(p2).get(0), [cx(sub(num(0), S('Yr', d.name)), sub(num(0), S('Yi', d.name)))])
                        ii = cx(num(0), num(0))
                        for x in left: ii = add(ii, cx(S('Ir', x.name), S('Ii', x.name)))
                        for s2 in app.mode([dict(o)], 'make_INorton_full', (A,)):
                            for p2 in C.runs(s2, vec):
                                v = p26.stores(p2).get(0)
                                J.equal('D4', f['setGenStatus'], 'after a generator is switched off, the current injected is not that of the generators in service', gens, loads, v if v is not None else cx(num(0), num(0)), [ii])
                        # and on again
                        for s3 in app.mode([dict(o)], 'GENSTATUSCHANGE', (A,)):
                            s3 = dict(s3); s3.update((k, x) for k, x in o.items() if k[0] == 'status')
                            for p3 in C.runs(s3, diag):
                                o3 = state(p3)
                                for k, x in p3.st.env.items():
                                    if k[0] == 'status': o3[k] = x
                                for p4 in C.runs(o3, f['setGenStatus'], [('str', d.name), num(1)], CLEAN):
                                    for p5 in C.runs(state(p4), diag):
                                        J.equal('D4', f['setGenStatus'], 'switching a generator on does not change the network matrix by its admittance', gens, loads, p26.stores(p5).get(0), [cx(S('Yr', d.name), S('Yi', d.name))])
    app.flush()

# ---- reduced simulation and Kalman filter ----------------------------------------
def reduced(db, R, which, mode, ydev, rows):
    app = App(db, R, *APPS[which]); C = Cases(db, R, app); J = Judge(app)
    load, sety = app.meth(app.bus, 'load'), app.meth(app.bus, 'setYBus')
    diag = app.meth(app.bus, 'matrixDiagValues', lambda s: 'complex' in s.lower())
    size = app.meth(app.bus, 'matrixDiagSize')
    if None in (load, sety, diag, size): R.count('operations not found'); return
    def entry(gens, loads):
        out = []
        for s in app.mode(C.step(C.load(gens, loads), sety), mode, (A,)):
            for p in C.runs(s, diag):
                if p26.stores(p).get(0) is not None: out.append((p26.stores(p)[0], p))
        return out
    none = entry([], [])
    if len(none) != 1: R.count('cases not followed'); return
    V2 = mul(S('v', A[1]), S('v', A[1]))
    for g, l in mixes():
        gens = [Dev('G%d' % i, o, ZSOURCE=cx(S('r', 'G%d' % i), S('x', 'G%d' % i)), SUBTRANSIENT_REACTANCE=num(0)) for i, o in enumerate(g)]
        loads = devs('L', l)
        for v, p in entry(gens, loads):
            if not J.silent('D1', diag, 'the diagonal of the network matrix', gens, loads, p, [v]): continue
            # a Kalman bus takes the voltage of a generator
            vs = [V2] if which == 2 or not any(g) else [mul(d.sym('VS'), d.sym('VS')) for d in gens if d.on]
            ws = []
            for vv in vs:
                w = none[0][0]
                for d in loads:
                    if d.on: w = add(w, div(cx(div(d.sym('PL'), SB), sub(num(0), div(d.sym('QL'), SB))), vv))
                for d in gens:
                    if d.on: w = add(w, ydev(d))
                ws.append(w)
            J.equal('D2', diag, 'the diagonal of the network matrix is not that of the network and of the devices in service', gens, loads, v, ws)
        for s in app.mode(C.step(C.load(gens, loads), sety), rows, (A,)):
            for p in C.runs(s, size):
                v = [outval(p, x['n']) for x in size.ps[:2]]
                n = sum(d.on for d in gens)
                J.R.count('quantities compared')
                if p.ret is not None and const(p.ret) == 0 or n in [const(x) for x in v if x is not None]: J.R.count('quantities that agree')
                else: app.fail('D2', size, 'the number of machines of a bus is not that of the generators in service', (desc(gens, loads),), v[0])
    app.flush()

# ---- advancing the models ------------------------------------------------------
MODEL = ('init', 'predictor', 'predictor_currentInjection', 'corrector', 'corrector_currentInjection', 'vectorValues', 'setValues', 'setVoltage')
def callers(app, base):
    """the methods of a bus that have a model of a generator do something"""
    out = {}
    def walk(n, f):
        if isinstance(n, list):
            for x in n: walk(x, f)
        elif isinstance(n, dict):
            if n.get('k') == 'MCall' and n.get('n') in MODEL and base in (n.get('q') or ''): out.setdefault(f, set()).add(n['n'])
            for v in n.values():
                if isinstance(v, (dict, list)): walk(v, f)
    for f in app.db.fns.values():
        if f.cls == app.bus and f.b is not None: walk(f.b, f)
    return sorted(out.items(), key=lambda x: x[0].l)

def taken(app, C, J, f, names, base, sts, gens, ident, modes):
    calls = []
    def note(it, node, obj, args, st):
        i = ident(it, obj, st)
        if i is None or base not in (node.get('q') or ''): return None
        st.env[('calls', node['n'], i, sum(1 for k in st.env if k[0] == 'calls' and k[1] == node['n'] and k[2] == i))] = num(1)
        return ('void',)
    best = 0
    for m in modes:
        for s in app.mode(sts, m, (A,)) if m else sts:
            it, ps = net(app.db, app.fam, f, A, s, dict(C.extra, **{n: note for n in names}), None)
            for p in ps:
                app.R.count('ways to advance the models')
                for n in names:
                    k = {i: sum(1 for x in p.st.env if x[0] == 'calls' and x[1] == n and x[2] == i) for i in range(len(gens))}
                    on = {k[i] for i, d in enumerate(gens) if d.on}
                    if any(k[i] for i, d in enumerate(gens) if not d.on): app.fail('D6', f, 'the model of a generator out of service is made to advance', (desc(gens, []),), None)
                    elif len(on) > 1 or on - {0, 1}: app.fail('D6', f, 'the models of the generators in service are not made to advance once each', (desc(gens, []),), None)
                    elif on == {1}: best += 1
    if any(d.on for d in gens) and not best: app.fail('D6', f, 'the models of the generators in service do not advance', (desc(gens, []),), None)

MIXG = [(1,), (0,), (1, 0), (0, 1), (1, 1), (0, 1, 1), (1, 0, 1)]
def advance(db, R):
    app = App(db, R, *APPS[4]); app.of = 'a bus with '; C = Cases(db, R, app, service(models())); J = None
    base = 'BaseGeneratorModel'
    def ident(it, obj, st):
        for x in subterms(obj):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'dev': return int(x[1][1:])
        v = it.load(obj, st)
        for x in subterms(v):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'dev': return int(x[1][1:])
    fs = callers(app, base)
    for f, names in fs: R.count('methods that advance the models')
    for g in MIXG:
        gens = devs('G', g, MODEL=lambda i: ('str', 'M:G%d' % i))
        sts = C.load(gens, [])
        for f, names in fs: taken(app, C, J, f, names, base, sts, gens, ident, [None])
    app.flush()

# ---- the network as algebraic equations -------------------------------------------
def dae(db, R):
    from p30 import DSIM
    if any(c not in db.recs for c in DSIM): return
    from p30 import family, shadowed
    app = App.__new__(App)
    app.db, app.R, app.name, app.bus, app.branch = db, R, 'dynamic simulation (DAE)', DSIM[0], DSIM[1]
    app.fam = family(db, *DSIM); app.dup = shadowed(db, app.fam); app.conv = Conv(); app.bad = {}
    C = Cases(db, R, app); J = Judge(app)
    app.modes = p26.enum('applications/modules/dynamic_simulation_dae/constants.hpp', 'DSMode')
    app.of = 'a bus with '; daemodels(app, C)
    load, size = app.meth(app.bus, 'load'), app.meth(app.bus, 'vectorSize')
    pl, ql = app.field(app.bus, 'p_pl'), app.field(app.bus, 'p_ql')
    if None in (load, size, pl, ql): R.count('operations not found'); return
    for g, l in mixes():
        gens, loads = devs('G', g, MODEL=lambda i: ('str', 'GENROU')), devs('L', l)
        for s in C.load(gens, loads):
            got = cx(s.get(('fld', A, pl), num(0)), s.get(('fld', A, ql), num(0)))
            J.equal('D2', load, 'the load of a bus is not the sum of the loads in service', gens, loads, got, [cx(div(total(loads, 'PL'), SB), div(total(loads, 'QL'), SB))])
            if any(g): continue
            for p in C.runs(s, size):
                v = outval(p, size.ps[0]['n'])
                J.R.count('quantities compared')
                if const(v or ('x',)) == 2: J.R.count('quantities that agree')
                else: app.fail('D2', size, 'a bus whose generators are out of service has unknowns besides its voltage', (desc(gens, loads),), v)
    app.flush()

def daemodels(app, C):
    base = 'BaseGenModel'
    def ident(it, obj, st):
        for x in subterms(obj):
            if isinstance(x, tuple) and x and x[0] == 'elem' and len(x) == 3 and isinstance(const(x[2]), int): return const(x[2])
    load = app.meth(app.bus, 'load')
    fs = callers(app, base)
    for f, names in fs: app.R.count('methods that advance the models')
    for g in MIXG:
        gens = devs('G', g, MODEL=lambda i: ('str', 'GENROU'))
        def put(it, node, obj, args, st):
            v = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            new = [x for x in subterms(obj) if isinstance(x, tuple) and x and x[0] == 'new']
            for k, o in list(st.env.items()):
                if k[0] == 'elem' and len(k) == 3 and o in new and isinstance(const(k[2]), int): st.env[('told', const(k[2]))] = v
            i = ident(it, obj, st)
            if i is not None: st.env[('told', i)] = v
            return ('void',)
        it, ps = net(app.db, app.fam, load, A, app.built({})[0], {'getValue': values(given(gens, [])), 'setGenStatus': put, 'setStatus': put})
        for p in ps:
            for i, d in enumerate(gens):
                v = const(p.st.env.get(('told', i), num(1)))
                app.R.count('quantities compared')
                if v == d.on: app.R.count('quantities that agree')
                else: app.fail('D6', load, 'the model of a generator is not told its status', (desc(gens, []),), None)
        def get(it, node, obj, args, st):
            i = ident(it, obj, st)
            return num(gens[i].on) if i is not None and i < len(gens) else None
        C.extra = {'getGenStatus': get, 'hasExciter': lambda *a: num(0), 'hasGovernor': lambda *a: num(0), 'getGovernor': lambda *a: num(0)}
        sts = C.load(gens, [])
        for f, names in fs: taken(app, C, None, f, names, base, sts, gens, ident, sorted(app.modes))
    C.extra = {}

def analyse(db, R):
    R.rule('D1', 'No result, and no decision on the way to it, depends on the data of a device out of service.')
    R.rule('D2', 'What the devices of a bus contribute is the sum over those in service, each once.')
    R.rule('D3', 'At its reactive limits a bus has the active power and the loads of its devices in service, and clearing the limits brings back what was specified.')
    R.rule('D4', 'A device that is switched or scaled counts from then on with its new status and amount.')
    R.rule('D6', 'The models of the generators in service advance, once each; those of the others do not.')
    R.rule('D5', 'The voltage of a bus is controlled only while a generator of the bus is in service.')
    pf(db, R)
    dsf(db, R)
    def zs(d): return div(num(1), div(mul(cx(S('r', d.name), S('x', d.name)), SB), d.sym('MBASE')))
    def zk(d): return div(num(1), div(mul(cx(d.sym('RESISTANCE'), S('x', d.name)), SB), d.sym('MBASE')))
    reduced(db, R, 2, 'updateYbus', zs, 'YA')
    reduced(db, R, 3, 'RefreshY', zk, 'YC')
    advance(db, R)
    dae(db, R)
    R.floor('cases followed', 300); R.floor('quantities compared', 2800); R.floor('results examined for traces', 700)
    R.floor('methods that advance the models', 7); R.floor('ways to advance the models', 150)
