"""P12: limit checks report every violation that counts, and only those."""
EXPLAIN = """The checks are followed over a network of a few buses and branches, on this and on other processes, whose state is left open:
whether a bus is ignored, outside its limits or in the area, whether the flow of a line exceeds its rating. On each path the
verdict and the list of violations are compared with what the decisions on the path imply, and a verdict that the decisions
do not settle is an error too."""
import engine, fleet, p26, p30
from engine import const, show
from p30 import num, S, cx
from fleet import Net, hooks, answer, act, follow, atoms, done, who

FAC = 'gridpack::powerflow::PFFactoryModule'
APP = 'gridpack::powerflow::PFAppModule'
BUS = 'gridpack::powerflow::PFBus'
def T(i, k): return ('str', 'T%d%d' % (i, k))
# buses: in charge of it, number; branches: in charge of it, ends, lines with ratings A and B (None: not given, 0: no limit)
BUSES = [(1, 11), (0, 12), (1, 13)]
LINES = [(1, 0, 1, [('A', 'B'), ('A', None)]), (0, 1, 2, [('A', 'B')]), (1, 0, 2, [(0, 'B')]), (1, 2, 1, [(None, None), (None, 'B')])]
def rating(spec, b):
    """the rating in use, or None"""
    r = spec[1] if b and spec[1] is not None else spec[0]
    return None if r in (None, 0) else r

def overload(it, node, obj, args, st):
    w = who(it, obj, st)
    if w is None or w[0] != 'branch' or len(args) != 1: return None
    t = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
    return cx(S('flow', w[1], t), num(0))
def everywhere(it, node, obj, args, st):
    v = it.load(args[0][1], st) if args[0][0] in ('ref', 'addr') else args[0]
    st.env[('everywhere',)] = v
    return v if node['n'] == 'checkTrue' else ('void',)
def mag(it, node, obj, args, st):
    a = it.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
    r, i = p26.csplit(a)
    return r if r[0] == 'sym' and r[1] == 'flow' else None
def rates(lines):
    def h(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None or w[0] != 'data': return None
        a = [it.load(x[1], st) if x[0] == 'ref' else x for x in args]
        key = p30.key_of(a[0]); b = lines[w[1]]
        o = list(p26.outargs(args[1:2]))
        v = None
        if key == 'BRANCH_NUM_ELEMENTS' and len(args) == 2: v = num(len(b[3]))
        elif len(args) == 3 and isinstance(const(a[2]), int) and const(a[2]) < len(b[3]):
            k = const(a[2])
            if key in ('BRANCH_RATING_A', 'BRANCH_RATING_B'):
                x = b[3][k][key[-1] == 'B']
                v = None if x is None else num(0) if x == 0 else S('rate', w[1], k, x)
            elif key == 'BRANCH_CKT': v = T(w[1], k)
        if v is None or len(o) != 1: return num(0)
        st.env[o[0]] = v
        return num(1)
    return h
def tags(lines):
    def h(it, node, obj, args, st):
        w = who(it, obj, st)
        if w is None or w[0] != 'branch': return None
        tmp = ('loc', 'tags', w[1])
        for k in range(len(lines[w[1]][3])): st.env[('elem', tmp, num(k))] = T(w[1], k)
        st.env[('size', tmp)] = num(len(lines[w[1]][3]))
        return ('ref', tmp)
    return h
def recorder(base):
    def push(it, node, obj, args, st):
        if obj is not None and obj[0] == 'fld' and 'iolation' in str(obj[2]) and len(args) == 1:
            v = args[0][1] if args[0][0] == 'ref' else it.lv(node['a'][0], st, engine.Flow())[0][1]
            def g(n): return st.env.get(('fld', v, n))
            n = sum(1 for k in st.env if k[0] == 'did')
            st.env[('did', n)] = ('found', g('bus1'), g('bus2'), g('bus_violation'), g('line_violation'), st.env.get(('copied', ('fld', v, 'tag'))))
            return ('void',)
        return base(it, node, obj, args, st)
    return push

class Judge(object):
    def __init__(self, db, R): self.db, self.R = db, R; self.bad = {}
    def fail(self, rule, f, what): self.bad.setdefault((rule, f, what), 1)
    def flush(self):
        for rule, f, what in self.bad: self.R.report(rule, f.file, f.l, f.q, what, '')

def methods(db, cls, name): return sorted([f for f in db.fns.values() if f.cls == cls and f.b is not None and f.q.split('::')[-1] == name], key=lambda f: f.l)
def inarea(at, buses):
    """is one of the buses in the area: None if not settled"""
    r = []
    for b in buses:
        v = [x for k, x in at.items() if k[0] == '==' and any(isinstance(z, tuple) and z[:3] == ('sym', 'is', 'getArea') and z[3] == ('bus', b) for z in k[1:])]
        if v: r.append(v[0])
        else: r.append(None)
    return True if True in r else None if None in r else False

def checks(db, R, J):
    N = Net(BUSES, LINES)
    base = hooks(N)
    for name, kind, atom in (('checkVoltageViolations', 'bus', 'checkVoltageViolation'), ('checkQlimViolations', 'bus', 'chkQlim'), ('checkLineOverloadViolations', 'line', None)):
        for f in methods(db, FAC, name):
            if len(f.ps) > 1: continue
            area = len(f.ps) == 1
            for rb in ((0, 1) if kind == 'line' else (0,)):
                H = hooks(N, extra={'getIgnore': answer('getIgnore'), 'getArea': answer('getArea'), 'checkVoltageViolation': answer('checkVoltageViolation'), 'chkQlim': answer('chkQlim'),
                                    'getComplexPower': overload, 'abs': mag, 'getValue': rates(LINES), 'getLineTags': tags(LINES), 'push_back': recorder(base['push_back']), 'checkTrue': everywhere, 'sum': everywhere, 'max': everywhere, 'min': everywhere, 'updateBuses': lambda *a: ('void',), 'pushIsPV': act('pushIsPV')})
                it, ps = follow(db, FAC, f, H, {('fld', ('this',), 'p_rateB'): num(rb)}, [S('area', 0)] if area else None)
                if it.trunc: R.count('explorations cut short')
                for st, v in ps:
                    R.count('paths to a verdict')
                    at = atoms(st); found = [d for d in done(st) if d[0] == 'found']
                    if ('everywhere',) not in st.env: J.fail('L1', f, 'the verdict of a process is given without those of the others')
                    bad, open_ = [], []
                    def settle(key, scope, ignore, over, where):
                        R.count('decisions on a bus or line')
                        if scope is False or ignore is True or over is False: return
                        if scope and (ignore is False) and over: bad.append(where)
                        else: open_.append(where)
                    if kind == 'bus':
                        for i, (own, idx) in enumerate(BUSES):
                            if not own: continue
                            x = at.get(S('is', atom, ('bus', i)))
                            if atom == 'checkVoltageViolation' and x is not None: x = not x
                            ig = at.get(S('is', 'getIgnore', ('bus', i))) if atom != 'chkQlim' else False
                            settle(i, inarea(at, [i]) if area else True, ig, x, (num(idx), None))
                            if atom == 'chkQlim' and x is None and not (area and inarea(at, [i]) is False): J.fail('L2', f, 'the reactive limits of a bus are not enforced once another bus is found to violate its own')
                    else:
                        for i, (own, a, b, ls) in enumerate(LINES):
                            if not own: continue
                            for k, spec in enumerate(ls):
                                r = rating(spec, rb)
                                if r is None:
                                    # there is nothing to compare with
                                    if any(w[1] for w in at.items() if ('flow', i, T(i, k)) == tuple(w[0][1][1:4]) and w[0][0] == '>'): J.fail('L1', f, 'a line without a rating is compared with one')
                                    continue
                                fl, rt = S('flow', i, T(i, k)), S('rate', i, k, r)
                                lo, hi = sorted((fl, rt))
                                x = at.get(('>', lo, hi))
                                if x is not None and lo == rt: x = not x
                                settle((i, k), inarea(at, [a, b]) if area else True, at.get(S('is', 'getIgnore', ('branch', i), T(i, k))), x, (num(BUSES[a][1]), num(BUSES[b][1]), T(i, k)))
                    ok = const(v) if v is not None else None
                    what = {'checkVoltageViolations': 'the voltage of a bus', 'checkQlimViolations': 'the reactive power of a bus', 'checkLineOverloadViolations': 'the flow of a line'}[name] + (' in the area' if area else '')
                    if bad and ok != 0: J.fail('L1', f, '%s is beyond its limit and the check reports none' % what)
                    elif not bad and ok != 1: J.fail('L1', f, 'the check reports a violation though no %s is beyond its limit' % what[4:])
                    elif not bad and open_: J.fail('L1', f, 'the check reports none without deciding on each bus or line')
                    if name == 'checkQlimViolations': continue
                    if bad and open_: J.fail('L3', f, 'violations are listed without deciding on each bus or line')
                    for w in bad:
                        n = [d for d in found if d[1] == w[0] and (len(w) == 2 or d[2] == w[1] and d[5] == w[2])]
                        n = [d for d in n if (const(d[3] or ('x',)) == 1) == (kind == 'bus') and (const(d[4] or ('x',)) == 1) == (kind == 'line')]
                        R.count('violations that are listed')
                        if len(n) != 1: J.fail('L3', f, 'a violation is found that is not added to the list of violations, once and with its place')
                    if len(found) > len(bad): J.fail('L3', f, 'the list of violations has entries for which there is none')
                if not ps: R.count('checks not followed')

def named(db, R, J):
    """the check of lines that are named"""
    N = Net(BUSES, LINES)
    for f in methods(db, FAC, 'checkLineOverloadViolations'):
        if len(f.ps) != 4: continue
        for rb in (0, 1):
            for want in ([(0, 1)], [(0, 0), (0, 1)], [(2, 0), (0, 0)], [(3, 1), (3, 0)], [(1, 0), (0, 1)]):
                env = {('fld', ('this',), 'p_rateB'): num(rb)}
                P = [('loc', 'arg', n) for n in range(4)]
                for n, (i, k) in enumerate(want):
                    b = LINES[i]
                    env[('elem', P[0], num(n))] = num(BUSES[b[1]][1]); env[('elem', P[1], num(n))] = num(BUSES[b[2]][1]); env[('elem', P[2], num(n))] = T(i, k)
                for q in P[:3]: env[('size', q)] = num(len(want))
                env[('size', P[3])] = num(0)
                def local(it, node, obj, args, st):
                    a = [const(it.load(x[1], st) if x[0] == 'ref' else x) for x in args]
                    l = [i for i, b in enumerate(LINES) if [BUSES[b[1]][1], BUSES[b[2]][1]] == a]
                    tmp = ('loc', 'indices') + tuple(l)
                    for n, i in enumerate(l): st.env[('elem', tmp, num(n))] = num(i)
                    st.env[('size', tmp)] = num(len(l))
                    return ('ref', tmp)
                H = hooks(N, extra={'getIgnore': answer('getIgnore'), 'getComplexPower': overload, 'abs': mag, 'getValue': rates(LINES), 'getLineTags': tags(LINES), 'getLocalBranchIndices': local, 'sum': lambda *a: ('void',)})
                it, ps = follow(db, FAC, f, H, env, [('ref', q) for q in P])
                if it.trunc: R.count('explorations cut short')
                for st, v in ps:
                    R.count('paths to a verdict')
                    at = atoms(st)
                    for n, (i, k) in enumerate(want):
                        R.count('decisions on a bus or line')
                        r = rating(LINES[i][3][k], rb)
                        ig = at.get(S('is', 'getIgnore', ('branch', i), T(i, k)))
                        x = False
                        if r is not None:
                            fl, rt = S('flow', i, T(i, k)), S('rate', i, k, r)
                            lo, hi = sorted((fl, rt)); x = at.get(('>', lo, hi))
                            if x is not None and lo == rt: x = not x
                        got = const(st.env.get(('elem', P[3], num(n)), ('x',)))
                        if ig is False and x is True: w = 0
                        elif ig is True or x is False: w = 1
                        else: w = None
                        if w is None: J.fail('L4', f, 'the verdict on a named line is given without comparing its own flow with its own rating in use')
                        elif got != w: J.fail('L4', f, 'the verdict on a named line is not that of its own flow, rating in use and mark')
                    ok = const(v) if v is not None else None
                    if ok != int(all(const(st.env.get(('elem', P[3], num(n)), ('x',))) == 1 for n in range(len(want)))): J.fail('L4', f, 'the overall verdict on named lines is not that of the lines')
                if not ps: R.count('checks not followed')

def marks(db, R, J):
    N = Net(BUSES, LINES)
    H0 = {'checkVoltageViolation': answer('checkVoltageViolation'), 'getComplexPower': overload, 'abs': mag, 'getValue': rates(LINES), 'getLineTags': tags(LINES), 'setIgnore': act('setIgnore'), 'getIgnore': answer('getIgnore')}
    for name in ('ignoreVoltageViolations', 'clearVoltageViolations', 'ignoreLineOverloadViolations', 'clearLineOverloadViolations'):
        for f in methods(db, FAC, name):
            for rb in (0, 1):
                it, ps = follow(db, FAC, f, hooks(N, extra=H0), {('fld', ('this',), 'p_rateB'): num(rb)})
                if it.trunc: R.count('explorations cut short')
                if not ps: R.count('checks not followed')
                for st, v in ps:
                    at = atoms(st); R.count('paths that mark')
                    last = {}
                    for d in done(st):
                        if d[0] == 'setIgnore': last[d[1:-1]] = const(d[-1])
                    items = []
                    if 'Voltage' in name:
                        for i, (own, idx) in enumerate(BUSES):
                            if own:
                                x = at.get(S('is', 'checkVoltageViolation', ('bus', i)))
                                items.append(((('bus', i),), None if x is None else not x))
                    else:
                        for i, (own, a, b, ls) in enumerate(LINES):
                            for k, spec in enumerate(ls):
                                if not own: continue
                                r = rating(spec, rb); x = False
                                if r is not None:
                                    lo, hi = sorted((S('flow', i, T(i, k)), S('rate', i, k, r))); x = at.get(('>', lo, hi))
                                    if x is not None and lo[1] == 'rate': x = not x
                                items.append(((('branch', i), T(i, k)), x))
                    for key, x in items:
                        R.count('marks examined')
                        g = last.get(key)
                        if name.startswith('clear'):
                            if g != 0: J.fail('L5', f, 'a mark is not removed')
                        elif x is True and g != 1: J.fail('L5', f, 'a bus or line beyond its limit is not marked to be ignored')
                        elif x is False and g == 1: J.fail('L5', f, 'a bus or line within its limits is marked to be ignored')
                        elif x is None: J.fail('L5', f, 'a bus or line is marked or left unmarked without deciding whether it is beyond its limit')

def limits(db, R, J):
    """the voltage of a bus against limits that are set"""
    fset, fchk, fig, fgi = [(methods(db, BUS, n) or [None])[0] for n in ('setVoltageLimits', 'checkVoltageViolation', 'setIgnore', 'getIgnore')]
    if None in (fset, fchk, fig, fgi): R.count('checks not followed'); return
    for v, ok in ((1, 0), (5, 1), (9, 0)):
        env = {('deref', ('fld', p26.A, 'p_vMag_ptr')): num(v)}
        for st in p30.runs(db, [BUS], fset, p26.A, env, None, [num(3), num(7)])[1]:
            e = dict(p30.state(st)); e.update(env)
            for p in p30.runs(db, [BUS], fchk, p26.A, e)[1]:
                R.count('limits examined')
                if p.ret is None or const(p.ret) != ok: J.fail('L1', fchk, 'a voltage %s its limits is taken as one %s them' % (('outside', 'inside') if not ok else ('inside', 'outside')))
    for f in methods(db, FAC, 'setVoltageLimits'):
        it, ps = follow(db, FAC, f, hooks(Net(BUSES), extra={'setVoltageLimits': act('limits')}), None, [S('lo'), S('hi')])
        for st, v in ps:
            d = done(st)
            R.count('limits examined')
            for i, b in enumerate(BUSES):
                if b[0] and ('limits', ('bus', i), S('lo'), S('hi')) not in d: J.fail('L1', f, 'the limits are not set on each bus as they are given')
    for k in (0, 1):
        for p in p30.runs(db, [BUS], fig, p26.A, {}, None, [num(k)])[1]:
            for q in p30.runs(db, [BUS], fgi, p26.A, p30.state(p))[1]:
                R.count('marks examined')
                if q.ret is None or const(q.ret) != k: J.fail('L5', fgi, 'the mark of a bus is not the one that was set')
    app = p30.App(db, R, *p30.APPS[0])
    s, g = app.meth(app.branch, 'setIgnore'), app.meth(app.branch, 'getIgnore')
    if None in (s, g): R.count('checks not followed'); return
    for env in app.setup(('line', 'line')):
        for n in (0, 1):
            for st in app.step([env], s, p26.L, None, [p30.tag(n), num(1)]):
                for st, w in ((st, 1), (app.step([st], s, p26.L, None, [p30.tag(n), num(0)])[0], 0)):
                    for m in (0, 1):
                        for p in p30.runs(db, app.fam, g, p26.L, st, None, [p30.tag(m)])[1]:
                            R.count('marks examined')
                            if p.ret is None or const(p.ret) != (w if m == n else 0): J.fail('L5', g, 'the mark of a line is not the one that was set')

def listing(db, R, J):
    """violations of all processes in one list"""
    for f in methods(db, FAC, 'getViolations'):
        sizes = [2, 0, 1, 3]
        for me in range(len(sizes)):
            def total(it, node, obj, args, st):
                o = args[0][1] if args[0][0] in ('addr', 'ref') else None
                if o is None or o[0] != 'elem': return None
                for i, n in enumerate(sizes): st.env[('elem', o[1], num(i))] = num(n)
                return ('void',)
            def add(it, node, obj, args, st):
                if args[0][0] != 'ref': l = args[0]
                else: l = args[0][1]
                n = const(st.env.get(('size', l), ('x',)))
                if isinstance(n, int): st.env[('did', 0)] = ('places',) + tuple(st.env.get(('elem', l, num(i))) for i in range(n))
                return ('void',)
            H = hooks(Net([]), extra={'rank': lambda *a: num(me), 'sum': total, 'addElements': add})
            old = H['size']
            H['size'] = lambda it, node, obj, args, st: num(len(sizes)) if 'ommunicator' in (node.get('q') or '') else old(it, node, obj, args, st)
            it, ps = follow(db, FAC, f, H, {('size', ('fld', ('this',), 'p_violations')): num(sizes[me])})
            for st, v in ps:
                d = done(st)
                R.count('lists put together')
                w = tuple(num(sum(sizes[:me]) + i) for i in range(sizes[me]))
                if d and d[0][1:] != w: J.fail('L6', f, 'the violations of a process are not given places of their own in the list of all processes')
                if not d: J.fail('L6', f, 'the violations of a process are not put in the list of all processes')

def passing(db, R, J):
    """the application asks the factory"""
    for n in ('setVoltageLimits', 'checkVoltageViolations', 'ignoreVoltageViolations', 'clearVoltageViolations', 'checkLineOverloadViolations', 'ignoreLineOverloadViolations', 'clearLineOverloadViolations', 'checkQlimViolations', 'clearQlimViolations', 'useRateB'):
        for f in methods(db, APP, n):
            def h(it, node, obj, args, st):
                k = sum(1 for x in st.env if x[0] == 'did')
                st.env[('did', k)] = ('asked',) + tuple(a[1] if a[0] == 'ref' else a for a in args)
                return S('verdict')
            a = [S('arg', i) if p['t'].endswith('&') is False else ('ref', ('loc', 'arg', i)) for i, p in enumerate(f.ps)]
            it, ps = follow(db, APP, f, hooks(Net([]), extra={n: h}), None, a)
            for st, v in ps:
                R.count('requests passed on')
                d = done(st)
                if d != [('asked',) + tuple(x[1] if x[0] == 'ref' else x for x in a)]: J.fail('L7', f, 'the request is not passed on as it was made')
                elif n.startswith('check') and v != S('verdict'): J.fail('L7', f, 'the verdict is not the one that was found')

def analyse(db, R):
    J = Judge(db, R)
    R.rule('L1', 'A check reports success exactly when no bus or line it covers that is not ignored is beyond its limit.')
    R.rule('L2', 'Enforcing reactive limits looks at every bus it covers.')
    R.rule('L3', 'Each violation that is found, and nothing else, is listed once with its place.')
    R.rule('L4', 'The verdict on a line that is named is that of its own flow, rating in use and mark.')
    R.rule('L5', 'Marking violations to be ignored marks those there are; clearing removes all marks; marks are kept as set.')
    R.rule('L6', 'The list of all processes has a place for each violation of each process.')
    R.rule('L7', 'The application passes requests and verdicts on unchanged.')
    checks(db, R, J); named(db, R, J); marks(db, R, J); limits(db, R, J); listing(db, R, J); passing(db, R, J)
    J.flush()
    R.floor('paths to a verdict', 300); R.floor('marks examined', 60); R.floor('violations that are listed', 100); R.floor('requests passed on', 5)
