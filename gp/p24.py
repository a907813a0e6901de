"""P24: what-if changes reach what they name and can be undone."""
EXPLAIN = """Contingencies, isolation of buses, scaling of areas and their resets are followed over a network of a few buses and branches
with copies of those of other processes; each status is an open quantity that is written and read back. On a bus, the specified
power, the voltage and its control after a change and its reset are compared, as exact rational functions, with what they were."""
import itertools
import engine, fleet, p26, p30, p06
from engine import const, show
from p30 import num, S, cx, A, add, sub, mul, div, SB, App, APPS, state
from fleet import Net, hooks, answer, act, follow, atoms, done, who

FAC = 'gridpack::powerflow::PFFactoryModule'
DFAC, DAPP = 'gridpack::dynamic_simulation::DSFullFactory', 'gridpack::dynamic_simulation::DSFullApp'
APP = 'gridpack::powerflow::PFAppModule'
def T(i, k): return ('str', 'T%d%d' % (i, k))
def methods(db, cls, name): return sorted([f for f in db.fns.values() if f.cls == cls and f.b is not None and f.q.split('::')[-1] == name], key=lambda f: f.l)

class Judge(object):
    def __init__(self, db, R): self.db, self.R = db, R; self.bad = {}
    def fail(self, rule, f, what): self.bad.setdefault((rule, f, what), 1)
    def flush(self):
        for rule, f, what in self.bad: self.R.report(rule, f.file, f.l, f.q, what, '')

# ---- contingencies -----------------------------------------------------------
def status(prefix):
    """a status that is kept: reading and writing it"""
    def cell(it, obj, args, st):
        w = who(it, obj, st)
        if w is None: return None
        return ('status', prefix, w) + tuple(it.load(a[1], st) if a[0] == 'ref' else a for a in args[:1])
    def get(it, node, obj, args, st):
        k = cell(it, obj, args, st)
        return None if k is None else st.env.get(k)
    def put(it, node, obj, args, st):
        k = cell(it, obj, args, st)
        if k is None: return None
        v = args[1]
        st.env[k] = it.load(v[1], st) if v[0] == 'ref' else v
        return ('void',)
    return get, put
def truth(v):
    """the status without conversions"""
    while v is not None and v[0] in ('cast', 'conv') : v = v[-1]
    return v

def contingencies(db, R, J):
    en = {}
    for f in methods(db, APP, 'setContingency'):
        un = methods(db, APP, 'unSetContingency')
        if len(un) != 1: R.count('changes not followed'); return
        un = un[0]
        where = {11: [0], 12: [1], 13: [2]}
        lines = {(11, 12): [0], (12, 13): [1], (13, 11): [2]}
        for kind, want in [('Generator', w) for w in ([(11, 'a')], [(11, 'a'), (12, 'a')], [(13, 'b'), (13, 'a')], [(11, 'a'), (11, 'a')], [(12, 'a'), (13, 'b'), (12, 'a')])] + \
                          [('Branch', w) for w in ([(11, 12, 'a')], [(11, 12, 'a'), (11, 12, 'b')], [(12, 13, 'a'), (13, 11, 'b')], [(13, 11, 'a'), (13, 11, 'a')], [(11, 12, 'b'), (12, 13, 'a'), (11, 12, 'b')])]:
            gs, gp = status('gen'); bs, bp = status('line')
            P = ('loc', 'event')
            def fld(n): return ('fld', P, n)
            code = enumval(db, kind)
            if code is None: R.count('changes not followed'); return
            env = {fld('p_type'): num(code), fld('p_name'): ('str', 'N')}
            names = ('p_busid', 'p_genid') if kind == 'Generator' else ('p_from', 'p_to', 'p_ckt')
            for n in ('p_busid', 'p_genid', 'p_from', 'p_to', 'p_ckt', 'p_saveLineStatus', 'p_saveGenStatus'): env[('size', fld(n))] = num(0)
            for j, n in enumerate(names):
                env[('size', fld(n))] = num(len(want))
                for i, w in enumerate(want): env[('elem', fld(n), num(i))] = num(w[j]) if isinstance(w[j], int) else ('str', w[j])
            save = fld('p_saveGenStatus' if kind == 'Generator' else 'p_saveLineStatus')
            env[('size', save)] = num(len(want))
            for i in range(len(want)): env[('elem', save, num(i))] = num(1)
            def local(table):
                def h(it, node, obj, args, st):
                    k = [const(it.load(a[1], st) if a[0] == 'ref' else a) for a in args]
                    l = table.get(k[0] if len(k) == 1 else tuple(k), [])
                    tmp = ('loc', 'indices') + tuple(k)
                    for n, i in enumerate(l): st.env[('elem', tmp, num(n))] = num(i)
                    st.env[('size', tmp)] = num(len(l))
                    return ('ref', tmp)
                return h
            H = hooks(Net([(1, 11), (1, 12), (1, 13)], [(1, 0, 1), (1, 1, 2), (1, 2, 0)]), extra={'getLocalBusIndices': local(where), 'getLocalBranchIndices': local(lines), 'getGenStatus': gs, 'setGenStatus': gp, 'getBranchStatus': bs, 'setBranchStatus': bp,
                          'checkLoneBus': lambda it, node, obj, args, st: (st.env.__setitem__(('lone',), num(1)), num(1))[1], 'clearLoneBus': lambda it, node, obj, args, st: (st.env.__setitem__(('lone',), num(0)), ('void',))[1]})
            cells = [('status', 'gen' if kind == 'Generator' else 'line', ('bus', where[w[0]][0]) if kind == 'Generator' else ('branch', lines[w[:2]][0]), ('str', w[-1])) for w in want]
            ref = ('ref', P)
            others = [('status', 'gen', ('bus', i), ('str', t)) for i in range(3) for t in 'ab'] + [('status', 'line', ('branch', i), ('str', t)) for i in range(3) for t in 'ab']
            for was in itertools.product((1, 0), repeat=len(set(cells))):
              before = {c: num(1) for c in others}
              before.update(zip(sorted(set(cells)), map(num, was)))
              it, ps = follow(db, APP, f, H, {**env, **before}, [ref])
              R.count('changes followed' if ps else 'changes not followed')
              for st, v in ps:
                R.count('statuses examined', len(cells))
                for c in cells:
                    if const(st.env.get(c, ('x',))) != 0: J.fail('U1', f, 'a device named in a contingency stays in service')
                if any(truth(st.env.get(k)) != before[k] for k in before if k not in cells): J.fail('U1', f, 'a device that is not named in a contingency is switched')
                if v is None or const(v) != 1: J.fail('U1', f, 'a contingency whose devices are all there is refused')
                if st.env.get(('lone',)) != num(1): J.fail('U1', f, 'buses that a contingency isolates are not looked for')
                e = {k: x for k, x in st.env.items() if k[0] in ('status', 'lone') or str(P) in str(k)}
                it2, qs = follow(db, APP, un, H, e, [ref])
                R.count('changes followed' if qs else 'changes not followed')
                for st2, v2 in qs:
                    R.count('statuses examined', len(cells))
                    for c in cells:
                        if const(truth(st2.env.get(c, ('x',)))) != const(before[c]): J.fail('U1', un, 'a device named in a contingency does not get back the status it had')
                    if any(truth(st2.env.get(k)) != before[k] for k in before if k not in cells): J.fail('U1', un, 'a device that is not named in a contingency is switched')
                    if st2.env.get(('lone',)) != num(0): J.fail('U1', un, 'buses that a contingency isolated stay isolated')

def enumval(db, name):
    for f in db.fns.values():
        if f.cls == APP and f.q.endswith('::setContingency') and f.b is not None:
            found = []
            def walk(n):
                if isinstance(n, dict):
                    if n.get('n') == name and n.get('k') == 'Ref' and n.get('v') is not None: found.append(n['v'])
                    for x in n.values(): walk(x)
                elif isinstance(n, list):
                    for x in n: walk(x)
            walk(f.b)
            return found[0] if found else None
    return None

def lone(db, R, J):
    chk, clr = methods(db, FAC, 'checkLoneBus'), methods(db, FAC, 'clearLoneBus')
    if len(chk) != 1 or len(clr) != 1: R.count('changes not followed'); return
    chk, clr = chk[0], clr[0]
    buses = [(1, 11), (1, 12), (0, 13), (1, 14), (1, 15)]
    branches = [(1, 0, 1, 2), (1, 1, 2, 1), (1, 1, 3, 1)]        # ends and number of lines; the last bus has no branch
    for sts, init in itertools.product(itertools.product((0, 1), repeat=4), ((0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (0, 1, 0, 0, 1), (1, 0, 1, 1, 0))):
        per = [sts[:2], sts[2:3], sts[3:4]]
        def lines(it, node, obj, args, st):
            w = who(it, obj, st)
            if w is None or w[0] != 'branch': return None
            tmp = ('loc', 'status', w[1])
            for k, x in enumerate(per[w[1]]): st.env[('elem', tmp, num(k))] = num(x)
            st.env[('size', tmp)] = num(len(per[w[1]]))
            return ('ref', tmp)
        def get(it, node, obj, args, st):
            w = who(it, obj, st)
            return None if w is None else st.env.get(('isolated', w), num(init[w[1]]))
        def put(it, node, obj, args, st):
            w = who(it, obj, st)
            if w is None: return None
            st.env[('isolated', w)] = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            return ('void',)
        H = hooks(Net(buses, branches), extra={'getLineStatus': lines, 'isIsolated': get, 'setIsolated': put})
        saved = {('size', ('fld', ('this',), 'p_saveIsolatedStatus')): num(0)}
        it, ps = follow(db, FAC, chk, H, saved, [('null',)] if len(chk.ps) == 1 else None)
        R.count('changes followed' if ps else 'changes not followed')
        alone = [i for i, b in enumerate(buses) if not any(i in br[1:3] and any(per[j]) for j, br in enumerate(branches))]
        for st, v in ps:
            for i, b in enumerate(buses):
                if not b[0]: continue
                R.count('statuses examined')
                x = st.env.get(('isolated', ('bus', i)))
                if i in alone and const(x or ('x',)) != 1: J.fail('U2', chk, 'a bus without a line in service is not isolated')
                if i not in alone and x is not None and const(truth(x)) != init[i]: J.fail('U2', chk, 'a bus with a line in service is isolated')
            e = {k: x for k, x in st.env.items() if k[0] == 'isolated' or 'fld' in k or 'p_' in str(k)}
            it2, qs = follow(db, FAC, clr, H, e)
            R.count('changes followed' if qs else 'changes not followed')
            for st2, v2 in qs:
                for i, b in enumerate(buses):
                    R.count('statuses examined')
                    x = truth(st2.env.get(('isolated', ('bus', i)), num(init[i])))
                    if const(x) != init[i]: J.fail('U2', clr, 'a bus does not get back the isolation it had before')

# ---- areas -------------------------------------------------------------------
BUSES = [(1, 11), (0, 12), (1, 13), (1, 14)]
PLACE = [(1, 5), (1, 5), (1, 6), (2, 5)]
def places():
    def at(k):
        def h(it, node, obj, args, st):
            w = who(it, obj, st)
            return num(PLACE[w[1]][k]) if w is not None and w[0] == 'bus' else None
        return h
    return {'getArea': at(0), 'getZone': at(1)}
def named(kind):
    def h(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None or args: return None
        tmp = ('loc', 'names', kind, w[1])
        for k in (0, 1): st.env[('elem', tmp, num(k))] = T(w[1], k)
        st.env[('size', tmp)] = num(2)
        return ('ref', tmp)
    return h
REQ = [(1, 5), (1, 6), (1, 0), (2, 5), (2, 6), (2, -1), (3, 0)]
def inside(a, z): return [i for i, p in enumerate(PLACE) if p[0] == a and (z < 1 or p[1] == z)]

def both(db, n, classes): return [(c, f) for c in classes for f in methods(db, c, n)]
def data(it, node, obj, args, st):
    i = const(it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]) if len(args) == 1 else None
    return ('thisptr', ('data', i)) if isinstance(i, int) else None

def areas(db, R, J):
    for n, kind in (('scaleGeneratorRealPower', 'generator'), ('scaleLoadPower', 'load')):
        for c, f in both(db, n, (FAC, DFAC)):
            for a, z in REQ:
                H = hooks(Net(BUSES), extra=dict(places(), getGenerators=named('g'), getLoads=named('l'), getBusData=data, **{n: act('scaled')}))
                it, ps = follow(db, c, f, H, None, [S('scale'), num(a), num(z)])
                R.count('changes followed' if ps else 'changes not followed')
                for st, v in ps:
                    d = done(st)
                    for x in d:
                        for y in x[4:]:
                            w = who(it, y, st)
                            if w is not None and w != ('data', x[1][1]): J.fail('U3', f, 'a %s is scaled with the data of another bus' % kind)
                    d = [x[:4] for x in d]
                    for i, b in enumerate(BUSES):
                        for k in (0, 1):
                            R.count('devices examined')
                            m = d.count(('scaled', ('bus', i), T(i, k), S('scale')))
                            if i in inside(a, z) and m != 1: J.fail('U3', f, 'a %s in the area and zone is not scaled once' % kind)
                            if i not in inside(a, z) and m: J.fail('U3', f, 'a %s outside the area and zone is scaled' % kind)
                    if any(x[2:] != (T(x[1][1], 0), S('scale')) and x[2:] != (T(x[1][1], 1), S('scale')) for x in d): J.fail('U3', f, 'a %s is scaled by other than what was asked for' % kind)
    # the buses that power is moved between
    for c, f in both(db, 'setRTPRParams', (FAC, DFAC)):
        for (a, z), (b, y) in [(REQ[i], REQ[j]) for i in range(len(REQ)) for j in range(len(REQ)) if i != j]:
            H = hooks(Net(BUSES), extra=dict(places(), setSource=act('source'), setSink=act('sink'), setScale=act('scale')))
            it, ps = follow(db, c, f, H, None, [num(a), num(z), num(b), num(y), S('gscale'), S('lscale')])
            R.count('changes followed' if ps else 'changes not followed')
            for st, v in ps:
                d = done(st)
                for i, bus in enumerate(BUSES):
                    last = {}
                    for x in d:
                        if x[1] == ('bus', i): last[x[0]] = truth(x[2])
                    R.count('devices examined')
                    src, snk = i in inside(a, z), i in inside(b, y)
                    if const(last.get('source', ('x',))) != int(src): J.fail('U3', f, 'the buses marked as the source are not those of its area and zone')
                    if const(last.get('sink', ('x',))) != int(snk): J.fail('U3', f, 'the buses marked as the sink are not those of its area and zone')
                    w = last.get('scale')
                    if w is None or (w != S('gscale') and w != S('lscale') if src and snk else w != S('gscale') if src else w != S('lscale') if snk else p30.rnum(w) != 1): J.fail('U3', f, 'a bus does not get the factor of the source or sink it belongs to')
    # totals
    def lists(names, on):
        def h(it, node, obj, args, st):
            w = who(it, obj, st)
            if w is None or len(args) != len(names): return None
            for a, n in zip(args, names):
                if a[0] != 'ref': return None
                for k in (0, 1): st.env[('elem', a[1], num(k))] = T(w[1], k) if n == 'tag' else num(on[k]) if n == 'status' else S(n, w[1], k)
                st.env[('size', a[1])] = num(2)
            return ('void',)
        return h
    def total(it, node, obj, args, st):
        o = args[0][1] if args[0][0] in ('addr', 'ref') else args[0] if args[0][0] in ('loc', 'deref', 'elem') else ('deref', args[0])
        n = const(it.load(args[1][1], st) if args[1][0] == 'ref' else args[1]) if len(args) > 1 else 1
        for i in range(n or 1):
            c = ('elem', o[1], num(const(o[2]) + i)) if o[0] == 'elem' and isinstance(const(o[2]), int) else ('elem', o, num(i)) if (n or 1) > 1 else o
            v = it.load(c, st)
            st.env[c] = ('call', 'all', ('noobj',), v)
        return ('void',)
    conv = p30.Conv()
    def agree(got, n, ids, on):
        w = num(0)
        for i in ids:
            for k in (0, 1):
                if BUSES[i][0] and on[k]: w = add(w, S(n, i, k))
        v = truth(got)
        if v is None or v[0] != 'call' or v[1] != 'all': return 'without'
        try: return p30.same(v[3], w, conv)
        except p30.Big: return None
    for n, names in (('getTotalLoadRealPower', ('pl',)), ('getGeneratorMargins', ('current', 'pmin', 'pmax'))):
        for c, f in both(db, n, (FAC, DFAC)):
            for a, z, on in [q + (on,) for q in REQ for on in ((1, 0), (0, 1), (1, 1))]:
                H = hooks(Net(BUSES), extra=dict(places(), getLoadPower=lists(('tag', 'pl', 'ql', 'status'), on), getGeneratorMargins=lists(('tag', 'current', 'pmin', 'pmax', 'status'), on), sum=total))
                outs = [('loc', 'out', x) for x in names]
                args = [num(a), num(z)] + ([('addr', o) for o in outs] if len(names) > 1 else [])
                it, ps = follow(db, c, f, H, None, args)
                R.count('changes followed' if ps else 'changes not followed')
                for st, v in ps:
                    for x, o in zip(names, outs):
                        R.count('totals compared')
                        got = v if len(names) == 1 else st.env.get(o, st.env.get(('deref', ('addr', o))))
                        r = agree(got, x, inside(a, z), on)
                        if r == 'without': J.fail('U4', f, 'the total is that of one process')
                        elif r is False: J.fail('U4', f, 'the total over an area does not count each device in service there once, whichever process owns it')

# ---- resets of all buses ------------------------------------------------------
def resets(db, R, J):
    for n, what, each in (('resetVoltages', 'resetVoltage', 0), ('clearQlimViolations', 'clearQlim', 0), ('resetPower', 'resetPower', 1)):
        for c, f in both(db, n, (FAC, DFAC) if each else (FAC,)):
            H = hooks(Net(BUSES), extra={what: act('reset'), 'pushIsPV': act('push'), 'getBusData': data, 'updateBuses': lambda it, node, obj, args, st: (st.env.__setitem__(('did', sum(1 for k in st.env if k[0] == 'did')), ('update', None)), ('void',))[1]})
            it, ps = follow(db, c, f, H)
            R.count('changes followed' if ps else 'changes not followed')
            for st, v in ps:
                d = done(st); w = [x[0] for x in d]
                for x in d:
                    for y in x[2:]:
                        y = who(it, y, st)
                        if y is not None and y != ('data', x[1][1]): J.fail('U5', f, 'a bus is reset with the data of another')
                d = [x[:2] for x in d]
                for i, b in enumerate(BUSES):
                    R.count('resets examined')
                    if (b[0] or each) and ('reset', ('bus', i)) not in d: J.fail('U5', f, 'a bus is not reset')
                    if not b[0] and not each and n == 'clearQlimViolations' and ('push', ('bus', i)) not in d: J.fail('U5', f, 'the copy of a bus is not brought up to date')
                if not each and ('update' not in w or 'reset' in w[w.index('update'):] or 'push' in w[:w.index('update')]): J.fail('U5', f, 'copies of buses are not exchanged after the reset')
    for n in ('resetVoltages', 'resetPower', 'clearQlimViolations', 'scaleGeneratorRealPower', 'scaleLoadPower', 'getTotalLoadRealPower', 'getGeneratorMargins'):
        for c, f in both(db, n, (APP, DAPP)):
            def h(it, node, obj, args, st):
                k = sum(1 for x in st.env if x[0] == 'did')
                st.env[('did', k)] = ('asked',) + tuple(a[1] if a[0] == 'ref' else a for a in args)
                return S('answer')
            a = [S('arg', i) for i, p in enumerate(f.ps)]
            it, ps = follow(db, c, f, hooks(Net([]), extra={n: h}), None, a)
            for st, v in ps:
                R.count('requests passed on')
                if done(st) != [('asked',) + tuple(a)]: J.fail('U5', f, 'the request is not passed on as it was made')
                elif n == 'getTotalLoadRealPower' and v != S('answer'): J.fail('U5', f, 'the answer is not the one that was found')

# ---- one bus -----------------------------------------------------------------
def bus(db, R):
    app = App(db, R, *APPS[0]); C = p06.Cases(db, R, app); J = p06.Judge(app)
    names = ('setSBus', 'chkQlim', 'clearQlim', 'setGenStatus', 'isPV', 'scaleLoadPower', 'scaleGeneratorRealPower', 'resetPower', 'resetVoltage', 'setIsPV', 'resetIsPV', 'getVoltage', 'getPhase', 'setVoltage', 'setPhase')
    f = {n: app.meth(app.bus, n) for n in names}
    rhs = app.meth(app.bus, 'vectorValues', lambda s: 'complex' not in s.lower())
    if None in [f[n] for n in names if n not in ('setVoltage', 'setPhase')] or rhs is None: R.count('operations not found'); return
    def power(sts): return [v for v, p in p06.specified_pv(app, C, f, sts, rhs)]
    def ask(sts, g): return [p.ret for s in sts for p in C.runs(s, g)]
    ptrs = [('fld', A, app.field(app.bus, n)) for n in ('p_vMag_ptr', 'p_vAng_ptr')]
    mags = [('deref', p) for p in ptrs]
    def step(sts, g, args=None):
        """buses have a place for the voltage that others see"""
        out = []
        for s in sts:
            for p in C.runs(s, g, args):
                if any((q, False) in p.st.guards for q in ptrs): continue
                o = state(p)
                if o not in out: out.append(o)
        return out
    vfld = {n: ('fld', A, app.field(app.bus, n)) for n in ('p_v', 'p_a', 'p_Qinj')}
    def solved(sts):
        """a solution has been found"""
        out = []
        for s in sts:
            s = dict(s)
            for k in mags + [vfld['p_v'], vfld['p_a']]: s[k] = S('solved', str(k))
            s[vfld['p_Qinj']] = S('Qinj')
            out.append(s)
        return out
    def same(a, b):
        R.count('quantities compared')
        if a is None or b is None: return a == b
        try: r = p30.same(a, b, J.conv)
        except p30.Big: R.count('quantities not decided'); return True
        if r: R.count('quantities that agree')
        return r
    def compare(rule, at, what, before, after, gens, loads, volt=False):
        d = (p06.desc(gens, loads),)
        if not after: R.count('cases not followed'); return
        p0 = power(before)
        for v in power(after):
            if not any(same(v, w) for w in p0): app.fail(rule, at, 'the specified power after %s is not the one before' % what, d, v)
        c0 = {const(x) for x in ask(before, f['isPV'])}
        for x in ask(after, f['isPV']):
            R.count('quantities compared')
            if const(x) not in c0: app.fail(rule, at, 'the control of the voltage after %s is not the one before' % what, d, x)
            else: R.count('quantities that agree')
        if volt:
            for k, n in ((vfld['p_v'], 'magnitude'), (vfld['p_a'], 'phase')):
                w = [s.get(k) for s in before]
                for s in after:
                    if not any(same(s.get(k), x) for x in w): app.fail(rule, at, 'the %s of the voltage after %s is not the initial one' % (n, what), d, s.get(k))
                    g = mags[n == 'phase']
                    if n == 'magnitude' and not any(same(s.get(g), x) for x in w): app.fail(rule, at, 'the %s of the voltage others see after %s is not the initial one' % (n, what), d, s.get(g))
    mixes = [(g, l) for g in ((), (1,), (0,), (1, 0), (0, 1), (1, 1)) for l in ((), (1,), (0, 1)) if len(g) + len(l) <= 3]
    for g, l in mixes:
        gens, loads = p06.devs('G', g), p06.devs('L', l)
        for typ in (1, 2):
            s0 = C.load(gens, loads, typ)
            # voltages
            compare('U6', f['resetVoltage'], 'resetting the voltage', s0, step(solved(s0), f['resetVoltage']), gens, loads, True)
            # scaling everything, once and again
            sts = solved(s0)
            for rep in (0, 1):
                for d in gens: sts = step(sts, f['scaleGeneratorRealPower'], [('str', d.name), S('k')])
                for d in loads: sts = step(sts, f['scaleLoadPower'], [('str', d.name), S('k')])
                compare('U6', f['resetPower'], 'scaling and resetting', s0, step(sts, f['resetPower']), gens, loads, True)
            for d in gens:
                compare('U6', f['resetPower'], 'scaling down and resetting', s0, step(step(s0, f['scaleGeneratorRealPower'], [('str', d.name), num(-1)]), f['resetPower']), gens, loads)
            # control of the voltage
            for w in (0, 1):
                compare('U7', f['resetIsPV'], 'setting and resetting the control', s0, step(step(s0, f['setIsPV'], [num(w)]), f['resetIsPV']), gens, loads)
            # reactive limits, with and without a contingency
            lim = [state(p) for s in solved(s0) for p in C.runs(s, f['chkQlim']) if p.ret is not None and const(p.ret) == 1]
            if lim:
                compare('U7', f['clearQlim'], 'enforcing and clearing reactive limits', s0, step(lim, f['clearQlim']), gens, loads)
                compare('U7', f['clearQlim'], 'clearing reactive limits twice', s0, step(step(lim, f['clearQlim']), f['clearQlim']), gens, loads)
            for d in gens:
                if not d.on: continue
                off = step(s0, f['setGenStatus'], [('str', d.name), num(0)])
                if lim:
                    # the limits are those there were
                    p0 = power(lim)
                    again = [state(p) for s in solved(step(off, f['setGenStatus'], [('str', d.name), num(1)])) for p in C.runs(s, f['chkQlim']) if p.ret is not None and const(p.ret) == 1]
                    for v in power(again):
                        if not any(same(v, w) for w in p0): app.fail('U7', f['setGenStatus'], 'the specified power at the reactive limits after a generator contingency is not the one before', (p06.desc(gens, loads),), v)
                compare('U7', f['setGenStatus'], 'a generator contingency', s0, step(off, f['setGenStatus'], [('str', d.name), num(1)]), gens, loads)
                lim2 = [state(p) for s in solved(off) for p in C.runs(s, f['chkQlim']) if p.ret is not None and const(p.ret) == 1]
                if lim2:
                    compare('U7', f['setGenStatus'], 'a generator contingency at the reactive limits', s0, step(step(lim2, f['clearQlim']), f['setGenStatus'], [('str', d.name), num(1)]), gens, loads)
                if lim:
                    for s in lim:
                        o = step([s], f['setGenStatus'], [('str', d.name), num(0)])
                        compare('U7', f['setGenStatus'], 'a generator contingency while limits are enforced', [s], step(o, f['setGenStatus'], [('str', d.name), num(1)]), gens, loads)
                    o = step(step(lim, f['setGenStatus'], [('str', d.name), num(0)]), f['clearQlim'])
                    compare('U7', f['clearQlim'], 'clearing reactive limits during a contingency', off, o, [p06.Dev(x.name, 0 if x is d else x.on) for x in gens], loads)
    app.flush()

def lists(db, R):
    """what a bus says of its devices, and how it is put back"""
    for k in (0, 4):
        app = App(db, R, *APPS[k]); C = p06.Cases(db, R, app, p06.service(p06.models()) if k else None); conv = p30.Conv()
        f = {n: app.meth(app.bus, n) for n in ('getLoadPower', 'getGeneratorMargins', 'scaleGeneratorRealPower', 'scaleLoadPower', 'resetPower', 'getTotalLoadPower', 'getTotalGeneratorPower')}
        if None in [f[n] for n in f if k or 'Total' not in n]: R.count('operations not found'); continue
        def same(a, b):
            R.count('quantities compared')
            try: r = a is not None and p30.same(a, b, conv)
            except p30.Big: return True
            if r: R.count('quantities that agree')
            return r
        for g, l in [(g, l) for g in ((), (1,), (0,), (1, 0), (0, 1)) for l in ((), (1,), (0, 1), (1, 0)) if len(g) + len(l) <= 3]:
            gens, loads = p06.devs('G', g), p06.devs('L', l)
            sts = C.load(gens, loads)
            for n, ds, outs in (('getLoadPower', loads, ('tag', p06.PLOAD, p06.QLOAD, 'on')), ('getGeneratorMargins', gens, ('tag', lambda d: d.sym('PG'), lambda d: d.sym('PMIN'), lambda d: d.sym('PMAX'), 'on'))):
                for s in sts:
                    for p in C.runs(s, f[n], [('ref', ('loc', 'out', i)) for i in range(len(outs))]):
                        e = p.st.env
                        m = const(e.get(('size', ('loc', 'out', 0)), ('x',)))
                        if not isinstance(m, int): R.count('lists not followed'); continue
                        rows = [[e.get(('elem', ('loc', 'out', i), num(r))) for i in range(len(outs))] for r in range(m)]
                        for d in ds:
                            mine = [x for x in rows if x[0] == ('str', d.name)]
                            R.count('devices listed')
                            on = [x for x in mine if truth(x[-1]) is None or const(truth(x[-1])) != 0]
                            if len(on) != d.on: app.fail('U4', f[n], 'the devices of a bus that are given as in service are not those in service', (p06.desc(gens, loads),), rows and rows[0][-1]); continue
                            for x in on:
                                for v, w in list(zip(x, outs))[1:-1]:
                                    w = w(d)
                                    if not any(same(v, y) for y in (w, div(w, SB))): app.fail('U4', f[n], 'what a bus gives for a device is not the value of that device', (p06.desc(gens, loads),), v)
            if not k: continue
            # the totals after scaling and resetting are those before
            def totals(sts): return [tuple(p.st.env.get(('loc', 'out', i)) for i in (0, 1)) for n in ('getTotalLoadPower', 'getTotalGeneratorPower') for s in sts for p in C.runs(s, f[n], [('ref', ('loc', 'out', 0)), ('ref', ('loc', 'out', 1))])]
            where = ('thisptr', ('data', 0))
            def put(it, node, obj, args, st):
                a = [it.load(x[1], st) if x[0] == 'ref' else x for x in args]
                if len(a) == 3 and a[0][0] == 'str': st.env[('fld', A, '@' + str(a[0][1]) + str(const(a[2])))] = a[1]
                return ('void',)
            X = {'setValue': put}
            before = totals(sts); after = sts
            for rep in (0, 1):
                for d in gens: after = C.step(after, f['scaleGeneratorRealPower'], [('str', d.name), S('k'), where], X)
                for d in loads: after = C.step(after, f['scaleLoadPower'], [('str', d.name), S('k')], X)
                after = C.step(after, f['resetPower'], [where], X)
            if not after: R.count('cases not followed'); continue
            for got, want in zip(totals(after), before):
                for v, w in zip(got, want):
                    if None not in (v, w) and not same(v, w): app.fail('U6', f['resetPower'], 'the power after scaling and resetting is not the one before', (p06.desc(gens, loads),), v)
            for s in after:
                for i, d in enumerate(gens):
                    v = [x for q, x in s.items() if q[0] == 'fld' and q[1] == A and str(q[2]).startswith('@') and 'GENERATOR_PG' in q[2] and q[2].endswith(str(i))]
                    R.count('values put back')
                    if not v or not same(v[0], d.sym('PG')): app.fail('U6', f['resetPower'], 'the data of a generator do not get back the power it had', (p06.desc(gens, loads),), v and v[0])
        app.flush()

def analyse(db, R):
    J = Judge(db, R)
    R.rule('U1', 'A contingency takes the devices it names out of service, and no others; taking it back gives each the status it had.')
    R.rule('U2', 'A bus is isolated exactly while no line to it is in service, and is then as it was before.')
    R.rule('U3', 'Scaling reaches each device of the area and zone once, and no others.')
    R.rule('U4', 'Totals of an area count each device in service there once, over all processes.')
    R.rule('U5', 'Resets reach every bus, and the copies of buses follow.')
    R.rule('U6', 'Resetting brings back the specified power and the initial voltage.')
    R.rule('U7', 'Enforcing and clearing limits, setting and resetting control and switching a generator off and on leave the power and the control of the voltage as they were.')
    contingencies(db, R, J); lone(db, R, J); areas(db, R, J); resets(db, R, J)
    J.flush()
    bus(db, R); lists(db, R)
    R.floor('statuses examined', 600); R.floor('devices examined', 300); R.floor('totals compared', 80); R.floor('devices listed', 120); R.floor('quantities compared', 1500); R.floor('resets examined', 8); R.floor('requests passed on', 8)
