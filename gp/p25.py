"""Predictor/corrector agreement of the explicitly integrated device models."""
import engine, poly
from engine import show, const
from fractions import Fraction
EXPLAIN = ("For every class with a predictor and a corrector stage both bodies (own helpers inlined) are reduced to the set of member updates and of "
  "calls into control blocks and attached devices, as terms over members.  States are the members whose update is linear in the step size; the corrector's "
  "terms must equal the predictor's after renaming every state to its predicted counterpart.")
H = ('h',)

def unclamp(t):
    """max(lo, min(x, hi)) in any nesting -> x"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'call' and str(t[1]).split('::')[-1] in ('max', 'min') and len(t) >= 5:
        n = str(t[1]).split('::')[-1]; o = 'min' if n == 'max' else 'max'
        a, b = t[3], t[4]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'call' and str(x[1]).split('::')[-1] == o and len(x) >= 5:
                # inner clamp: the operand that is not a limit is the compound one
                p, q = x[3], x[4]
                v = p if engine.tsize(p) > engine.tsize(q) else q
                return unclamp(v)
        return tuple(unclamp(x) if isinstance(x, tuple) else x for x in t)
    return tuple(unclamp(x) if isinstance(x, tuple) else x for x in t)

class Stage(engine.Interp):
    def __init__(self, db, cls, bases, hname):
        engine.Interp.__init__(self, db)
        self.classes = set([cls]) | set(bases)
        self.stores = []; self.calls = []; self.h = hname; self.track = ()
    def load(self, lv, st):
        # members are opaque: what matters is which member an update reads
        if self.member(lv):
            return ('post', lv) if ('upd', lv) in st.env else lv
        return engine.Interp.load(self, lv, st)
    def member(self, lv):
        if lv[0] == 'fld':
            return lv[1] == ('this',) or self.member(lv[1])
        if lv[0] == 'elem':
            return self.member(lv[1])
        return False
    def mergekey(self, st):
        return ()
    def cap(self, t):
        if engine.tsize(t) > 4000:
            self.uid += 1
            return ('big', self.uid)
        return t
    def should_inline(self, fn, node, st):
        if node['k'] == 'MCall' and (node.get('o') is None or node['o']['k'] == 'This'):
            return fn.cls in self.classes
        return node['k'] == 'Call' and fn.q.startswith('gridpack') and fn.file == self.fn.file
    def on_store(self, lv, v, n, st):
        if self.member(lv):
            v = unloop(v)
            self.stores.append((lv, v, n, self.fn))
            if lv in self.track:
                st.env[('upd', lv)] = ('int', 1)
            if self.h is not None:
                for x in (v[1:] if v[0] == 'phi' else (v,)):
                    d = hpoly(x, self.h)
                    if 1 in d and not set(d) - {0, 1} and linear_members(d[1]):
                        st.env[('upd', lv)] = ('int', 1)
    def on_call(self, n, obj, args, st):
        if n['k'] == 'MCall' and obj is not None and obj != ('this',) and self.rooted(obj):
            self.calls.append((unloop(obj), n, tuple(unloop(a) for a in args), self.fn))
            sp = stage_params(n)
            if sp:
                return ('call', n['q'], unloop(obj)) + tuple(a for i, a in enumerate(args) if i not in sp)
        return None
    def rooted(self, t):
        while t[0] in ('deref', 'elem', 'fld', 'addr') and t != ('this',):
            if t[0] == 'fld' and t[1] == ('this',):
                return True
            t = t[1]
        return False

def unloop(t):
    """the index of a loop over a collection: which element, not where the loop is"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'loop' and len(t) == 3:
        return ('loop', 0, ('each',))
    return tuple(unloop(x) if isinstance(x, tuple) else x for x in t)

def sub(t, ren):
    if not isinstance(t, tuple):
        return t
    if t in ren:
        return ren[t]
    return tuple(sub(x, ren) if isinstance(x, tuple) else x for x in t)

def clampphi(t):
    """a minimum, a maximum and a choice between values are the same here: one of the operands"""
    if not isinstance(t, tuple):
        return t
    t = tuple(clampphi(x) if isinstance(x, tuple) else x for x in t)
    if t and t[0] == 'call' and str(t[1]).split('::')[-1] in ('max', 'min', 'fmin', 'fmax') and len(t) >= 5:
        t = ('phi',) + tuple(t[3:5])
    if t and t[0] == 'phi':
        s = set()
        for x in t[1:]:
            s |= set(x[1:]) if x[0] == 'phi' else {x}
        s = sorted(s, key=repr)
        return s[0] if len(s) == 1 else ('phi',) + tuple(s)
    return t

def alts(t):
    t = clampphi(t)
    return t[1:] if t[0] == 'phi' else (t,)

def nf(t):
    return poly.nf(clampphi(t))

def hpoly(v, h):
    p = poly.poly(unclamp(sub(v, {h: H})))
    return poly.degree_in(p, H)

def is_member(a):
    return isinstance(a, tuple) and a[0] in ('fld', 'elem')

def single(p):
    """the one member a polynomial is equal to"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and is_member(m[0][0]):
            return m[0][0]
    return None

def linear_members(p):
    """{member: coefficient} when p is a linear combination of members"""
    r = {}
    for m, c in p.items():
        if len(m) != 1 or m[0][1] != 1 or not is_member(m[0][0]):
            return None
        r[m[0][0]] = c
    return r

def name(f):
    return f.q.replace('gridpack::', '').replace('dynamic_simulation::', '')

def stage_params(n):
    """indices of arguments of an integration-stage type"""
    f = n.get('f') or ''
    q = n.get('q') or ''
    ps = f[len(q) + 1:]
    if ')' not in ps: return []
    ps = [p.strip() for p in ps[:ps.rindex(')')].split(',')]
    # some blocks take the stage as "update now" instead
    return [i for i, p in enumerate(ps) if 'IntegrationStage' in p] or [i for i, p in enumerate(ps) if p in ('bool', '_Bool') and n.get('n') == 'getoutput']

def run_stage(db, cls, fn, h, args=None, track=()):
    it = Stage(db, cls, db.bases(cls), h)
    it.track = track
    it.run(fn, args=args)
    return it

def updates(it, h):
    """stores of the form member = S + h*(linear combination of members)"""
    out = []
    for lv, v, n, f in it.stores:
        vs = v[1:] if v[0] == 'phi' else (v,)
        for x in vs:
            d = hpoly(x, h)
            if set(d) - {0, 1} or 1 not in d:
                continue
            lin = linear_members(d[1])
            if not lin:
                continue
            out.append((lv, d.get(0, {}), lin, n, f, x))
    return out

def carried(P, C):
    """{B: A}: the predictor starts from A = B, and the corrector computes B"""
    cs = set(lv for lv, v, n, f in C.stores)
    r = {}
    for lv, v, n, f in P.stores:
        for x in (v[1:] if v[0] == 'phi' else (v,)):
            x = x[1] if x[0] == 'post' else x
            if is_member(x) and x != lv and x in cs and is_member(lv) and lv not in cs:
                r[x] = lv
    return r

def compare(db, res, cls, P, C, h, fp, fc, comp):
    st = {}
    cn = cls.split('::')[-1]
    half = Fraction(1, 2)
    up = updates(P, h); uc = updates(C, h)
    ren = {}
    pred = {}
    for T, base, lin, n, f, v in up:
        S = single(base)
        if len(lin) == 1 and S is not None and list(lin.values())[0] == 1:
            D = list(lin)[0]
            pred[S] = (T, D, n, f)
            res.count('states')
        else:
            res.report('U1 predictor step', f.file, n['l'], cn + '::' + f.n, 'update of %s is not state + derivative * step' % show(T), show(v)[:120])
    corr = {}
    for T, base, lin, n, f, v in uc:
        S = single(base)
        if S is not None and len(lin) == 2 and set(lin.values()) == {half}:
            if S not in pred:
                res.report('U2 same states', f.file, n['l'], cn + '::' + f.n, 'state %s is corrected but never predicted' % show(S))
                continue
            D0 = pred[S][1]
            if D0 not in lin:
                res.report('U3 corrector average', f.file, n['l'], cn + '::' + f.n, 'correction of %s does not use the derivative the predictor used' % show(S), show(v)[:120])
                continue
            D1 = [d for d in lin if d != D0]
            D1 = D1[0]
            if T not in (S, pred[S][0]):
                res.report('U4 corrected into the state', f.file, n['l'], cn + '::' + f.n, 'correction of %s is stored in %s' % (show(S), show(T)))
                continue
            corr[S] = (T, D1, n, f)
        else:
            res.report('U3 corrector average', f.file, n['l'], cn + '::' + f.n, 'update of %s is not state + (derivative + derivative)/2 * step' % show(T), show(v)[:120])
    for S in pred:
        if S not in corr and (corr or uc or pred):
            T, D, n, f = pred[S]
            res.report('U2 same states', fc.file, fc.l, cn + '::' + fc.n, 'state %s is predicted but never corrected' % show(S))
    targets = {}
    for S, (T, D, n, f) in pred.items():
        if T != S:
            ren[T] = S
        if T in targets.values():
            res.report('U1 predictor step', f.file, n['l'], cn + '::' + f.n, 'two states predicted into %s' % show(T))
        targets[S] = T
        if S in corr:
            ren[corr[S][1]] = D
            ren[('post', corr[S][0])] = ('post', T)
    ds = {}
    for S, (T, D, n, f) in pred.items():
        if D in ds:
            res.report('U1 predictor step', f.file, n['l'], cn + '::' + f.n, 'one derivative %s advances two states' % show(D))
        ds[D] = S
    ds1 = {}
    for S, (T, D1, n, f) in corr.items():
        if D1 in ds1:
            res.report('U3 corrector average', f.file, n['l'], cn + '::' + f.n, 'one derivative %s corrects two states' % show(D1))
        ds1[D1] = S
    # carry over: corrected value stored in the predicted member must be copied back
    for S, (T, D1, n, f) in corr.items():
        if T != S:
            if not any(lv == S and T in (v[1:] if v[0] == 'phi' else (v,)) for lv, v, nn, ff in P.stores):
                res.report('U5 carry over', fp.file, fp.l, cn + '::' + fp.n, 'corrected %s is never carried over to %s' % (show(T), show(S)))
            else:
                res.count('carried_over')
    renp = {}
    for B, A in comp.items():
        renp[B] = A; ren.setdefault(B, A)
        renp[('post', B)] = ren[('post', B)] = ('post', B)
        ren.setdefault(A, ('old', A))
    for S, (T, D, n, f) in pred.items():
        renp[('post', T)] = ('post', T)
        if T != S:
            renp[T] = S
            ren.setdefault(S, ('old', S))
        ren.setdefault(D, ('old', D))
        ren.setdefault(('post', T), ('post', T))
    # right-hand sides
    for S, (T, D1, n, f) in corr.items():
        D0 = pred[S][1]
        a = rhs(P, D0, renp); b = rhs(C, D1, ren)
        res.count('right_hand_sides')
        if a != b:
            x = [k for k in b if k not in a] or [k for k in a if k not in b]
            src = [(nn, ff, v) for lv, v, nn, ff in C.stores if lv == D1]
            nn, ff, v = src[0] if src else (n, f, ('none',))
            res.report('U6 same derivative', ff.file, nn['l'], cn + '::' + ff.n, 'derivative of %s differs between the stages' % show(S), show(v)[:140])
    return renp, ren

def rhs(it, D, ren):
    out = {}
    for lv, v, n, f in it.stores:
        if lv == D:
            for x in alts(v):
                k = nf(sub(x, ren))
                if k == () or all(m == () for m, c in k):
                    k = ('const',)
                out[k] = (n, f, x)
    # resets to a constant are not derivatives
    return frozenset(k for k in out if k != ('const',))

def block_events(it, ren):
    """{(object, method): set of argument normal forms (stage removed)}, stages used"""
    ev = {}
    for obj, n, args, f in it.calls:
        sp = stage_params(n)
        nm = n['n']
        if sp:
            a = tuple(nf(sub(x, ren)) for i, x in enumerate(args) if i not in sp)
            stg = tuple(args[i] for i in sp)
            ev.setdefault((obj, nm), []).append((a, stg, n, f))
    return ev

def child_events(it):
    ev = {}
    for obj, n, args, f in it.calls:
        for s in ('predictor', 'corrector'):
            if n['n'].startswith(s):
                ev.setdefault((obj, n['n'][len(s):]), []).append((s, n, f))
    return ev

def analyse(db, res):
    for k, t in (('U1 predictor step', 'every explicit state is predicted as state + derivative * step, each with its own derivative and target'),
                 ('U2 same states', 'the corrector corrects exactly the states the predictor predicted'),
                 ('U3 corrector average', 'the corrector uses state + (old derivative + new derivative)/2 * step'),
                 ('U4 corrected into the state', 'the corrected value replaces the state or its predicted copy'),
                 ('U5 carry over', 'a corrected value kept in the predicted copy becomes the state of the next step'),
                 ('U6 same derivative', 'the new derivative is the same function of the predicted states as the old one of the states'),
                 ('U7 intermediate', 'a member computed in both stages is the same function of the states in both'),
                 ('B1 stage', 'a control block is asked for the stage that is running'),
                 ('B2 same blocks', 'both stages drive the same control blocks with the same inputs'),
                 ('B3 attached devices', 'both stages advance the same attached devices, with the matching stage')):
        res.rule(k, t)
    nc = 0
    for cls in sorted(db.methods):
        if not cls.startswith('gridpack::dynamic_simulation::'):
            continue
        ms = {}
        for f in db.methods[cls]:
            if f.b is not None: ms.setdefault(f.n, f)
        ren0 = None
        for suf in ('', '_currentInjection'):
            fp, fc = ms.get('predictor' + suf), ms.get('corrector' + suf)
            if (fp is None) != (fc is None):
                f = fp or fc
                res.report('B3 attached devices', f.file, f.l, cls.split('::')[-1], 'only one of the two stages is defined')
            if fp is None or fc is None:
                continue
            if '/test/' in fp.file: continue
            nc += 1
            r = check_pair(db, res, cls, fp, fc, ren0)
            if suf == '': ren0 = r
    res.count('model_stage_pairs', nc)
    cb = [f for f in db.fns.values() if f.n == 'updatestate' and f.b is not None and len(f.ps) > 3]
    for f in cb:
        check_block(db, res, f)
    res.floor('model_stage_pairs', 38); res.floor('states', 36); res.floor('right_hand_sides', 36); res.floor('blocks', 40); res.floor('attached', 16)

def hparam(fn):
    """the step size: the last double parameter"""
    r = None
    for i, p in enumerate(fn.ps):
        if p['t'].replace('const ', '') == 'double':
            r = ('par', p['n'], i)
    return r

def check_pair(db, res, cls, fp, fc, ren0):
    cn = cls.split('::')[-1]
    h = hparam(fp); h2 = hparam(fc)
    # parameters by position, so that the stages may name them differently
    argp = [(('par', p['n'], i)) for i, p in enumerate(fp.ps)]
    args = [('par', fp.ps[i]['n'], i) if i < len(fp.ps) else None for i in range(len(fc.ps))]
    P0 = run_stage(db, cls, fp, h, argp); C0 = run_stage(db, cls, fc, h, args)
    comp = carried(P0, C0)
    if h is not None:
        adv = set(u[0] for u in updates(P0, h) + updates(C0, h))
        comp = dict((k, v) for k, v in comp.items() if k not in adv)
    elif ren0:
        comp = dict((k, v) for k, v in comp.items() if k in ren0[2])
    P = run_stage(db, cls, fp, h, argp, comp); C = run_stage(db, cls, fc, h, args, comp)
    if h is not None:
        renp, ren = compare(db, res, cls, P, C, h, fp, fc, comp)
        ren0 = (renp, ren, comp)
    elif ren0:
        renp, ren = ren0[:2]
    else:
        renp = ren = dict(comp)
    pe = block_events(P, renp); ce = block_events(C, ren)
    for ev, stg, f0 in ((pe, 0, fp), (ce, 1, fc)):
        for (obj, nm), l in ev.items():
            for a, s, n, f in l:
                if any(const(x) is not None and const(x) != stg for x in s):
                    res.report('B1 stage', f.file, n['l'], cn + '::' + f.n, '%s.%s runs the other stage from %s' % (show(obj), nm, f0.n))
    for k in sorted(set(pe) | set(ce), key=repr):
        res.count('blocks')
        a = pe.get(k, []); b = ce.get(k, [])
        if not a or not b:
            n, f = (a or b)[0][2:4]
            res.report('B2 same blocks', f.file, n['l'], cn, '%s.%s is driven in one stage only' % (show(k[0]), k[1]))
        elif set(x[0] for x in a) != set(x[0] for x in b):
            n, f = b[0][2:4]
            res.report('B2 same blocks', f.file, n['l'], cn, '%s.%s gets different inputs in the two stages' % (show(k[0]), k[1]))
    pc = child_events(P); cc = child_events(C)
    for ev, s0, f0 in ((pc, 'predictor', fp), (cc, 'corrector', fc)):
        for (obj, suf), l in ev.items():
            for s, n, f in l:
                if s != s0:
                    res.report('B3 attached devices', f.file, n['l'], cn + '::' + f0.n, '%s.%s%s called from the other stage' % (show(obj), s, suf))
    for k in sorted(set(pc) | set(cc), key=repr):
        res.count('attached')
        if k not in pc or k not in cc:
            s, n, f = (pc.get(k) or cc.get(k))[0]
            res.report('B3 attached devices', f.file, n['l'], cn, '%s is advanced in one stage only (%s%s)' % (show(k[0]), s, k[1]))
    inter(db, res, cn, P, C, renp, ren, fp, fc, comp)
    return ren0

def inter(db, res, cn, P, C, renp, ren, fp, fc, comp0):
    def tab(it, r, skip):
        t = {}
        for lv, v, n, f in it.stores:
            if lv in skip: continue
            for x in alts(v):
                k = nf(sub(x, r))
                if all(m == () for m, c in k): continue
                t.setdefault(lv, {})[k] = (n, f, x)
        return t
    # states, derivatives and the sources of carried copies have rules of their own
    skip = set(ren) - set(comp0)
    skip |= set(comp0.values()) | set(k for k in comp0 if ren.get(('post', k)) != ('post', k))
    skip |= set(k for k in comp0 if any(lv == k and 1 in hpoly(v, P.h) for lv, v, n, f in P.stores)) if P.h is not None else set()
    a = tab(P, renp, skip); b = tab(C, ren, skip)
    for k in sorted(set(a) & set(b), key=repr):
        res.count('intermediates')
        if set(a[k]) != set(b[k]):
            d = [x for x in b[k] if x not in a[k]] or [x for x in a[k] if x not in b[k]]
            n, f, v = (b[k].get(d[0]) or a[k].get(d[0]))
            res.report('U7 intermediate', f.file, n['l'], cn + '::' + fc.n, '%s is computed differently in the two stages' % show(k), show(v)[:120])

def check_block(db, res, f):
    """a block whose one update function takes the stage as a parameter"""
    sp = [i for i, p in enumerate(f.ps) if 'IntegrationStage' in p['t']]
    if not sp:
        return
    res.count('block_functions')
    h = [('par', p['n'], i) for i, p in enumerate(f.ps) if p['n'] in ('dt', 't_inc', 'h')]
    h = h[0] if h else None
    its = []
    for s in (0, 1):
        args = [('par', p['n'], i) for i, p in enumerate(f.ps)]
        args[sp[0]] = ('int', s)
        its.append(run_stage(db, f.cls, f, h, args))
    P, C = its
    cn = f.cls.split('::')[-1]
    if h is None:
        return
    # P: xhat = x + h*d ; d = f(x).  C: x = x + h*(d + f(xhat))/2
    ok = False
    p1 = [(lv, hpoly(v, h), n) for lv, v, n, ff in P.stores if 1 in hpoly(v, h)]
    c1 = [(lv, hpoly(v, h), n) for lv, v, n, ff in C.stores if 1 in hpoly(v, h)]
    if len(p1) == 1 and len(c1) == 1:
        T, dp, n = p1[0]; T2, dc, n2 = c1[0]
        S = single(dp.get(0, {})); S2 = single(dc.get(0, {}))
        D = single(dp[1])
        if S is None or S != S2 or T2 != S or D is None:
            res.report('U1 predictor step', f.file, n['l'], cn + '::' + f.n, 'block state is not advanced by one Euler step and corrected in place')
            return
        drv = [v for lv, v, nn, ff in P.stores if lv == D]
        exp = None
        if len(drv) == 1:
            e = poly.poly(unclamp(sub(drv[0], {S: T})))
            exp = poly.padd({((D, 1),): Fraction(1, 2)}, {m: c / 2 for m, c in e.items()})
        if exp != dc[1]:
            res.report('U3 corrector average', f.file, n2['l'], cn + '::' + f.n, 'block correction is not the average of the derivative at the old and at the predicted state')
        else:
            res.count('states')
    else:
        res.report('U1 predictor step', f.file, f.l, cn + '::' + f.n, 'block state is not advanced by one update per stage')
