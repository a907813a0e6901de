"""Solver-library status codes are checked, objects released."""
import engine, re
from engine import walk, calls
from res import ResI
EXPLAIN = """Every function that calls the solver library is interpreted path by path over the clang AST (branch conditions are decided
against what the path already established, callees of this repository that also use the library are inlined). Carried facts: which
status values have not been examined, which handles, arrays and rows are held, which solve has not been asked for its outcome.
Each fact has to be discharged before the function returns normally."""
LIB = re.compile(r'^(Vec|Mat|KSP|SNES|TS|PC|IS|Petsc|PetscViewer|PetscObject|MatCreate\w*|ParMETIS_\w*)[A-Z]\w*$|^Petsc[A-Z]\w*$')
NOSTATUS = ('PetscObjectComm', 'PetscErrorMessage', 'PetscError', 'PetscUnlikely', 'PetscBool', 'PetscExp')
ACQ = {'VecCreate': [('Vec', 1)], 'VecDuplicate': [('Vec', 1)], 'VecScatterCreateToAll': [('VecScatter', 1), ('Vec', 2)], 'VecScatterCreateToZero': [('VecScatter', 1), ('Vec', 2)], 'VecScatterCreate': [('VecScatter', 4)],
 'VecCreateSeq': [('Vec', 2)], 'VecCreateMPI': [('Vec', 3)], 'MatCreateVecs': [('Vec', 1), ('Vec', 2)],
 'MatCreate': [('Mat', 1)], 'MatDuplicate': [('Mat', 2)], 'MatTranspose': [('Mat', 2)], 'MatMatMult': [('Mat', 4)], 'MatConvert': [('Mat', 3)], 'MatGetFactor': [('Mat', 3)], 'MatCreateSubMatrix': [('Mat', 4)], 'MatCreateDense': [('Mat', 6)], 'MatCreateRedundantMatrix': [('Mat', 4)], 'MatCreateSeqAIJ': [('Mat', 5)], 'MatCreateAIJ': [('Mat', 9)],
 'ISCreateStride': [('IS', 4)], 'ISSortPermutation': [('IS', 2)], 'ISInvertPermutation': [('IS', 2)], 'ISDuplicate': [('IS', 1)], 'ISAllGather': [('IS', 1)], 'MatCreateSubMatrices': [('submatrices', 5)], 'ISGetIndices': [('indices', 1)], 'ISCreateGeneral': [('IS', 4)], 'MatGetOrdering': [('IS', 2), ('IS', 3)], 'MatGetOwnershipIS': [('IS', 1), ('IS', 2)],
 'KSPCreate': [('KSP', 1)], 'SNESCreate': [('SNES', 1)], 'TSCreate': [('TS', 1)], 'PetscViewerASCIIOpen': [('PetscViewer', 2)], 'PetscViewerBinaryOpen': [('PetscViewer', 3)],
 'VecGetArray': [('array', 1)], 'VecGetArrayRead': [('array', 1)], 'MatDenseGetArray': [('array', 1)], 'MatGetRow': [('row', 3), ], 'PetscMalloc': []}
REL = {'VecDestroy': [('Vec', 0)], 'VecScatterDestroy': [('VecScatter', 0)], 'MatDestroy': [('Mat', 0)], 'ISDestroy': [('IS', 0)], 'KSPDestroy': [('KSP', 0)], 'SNESDestroy': [('SNES', 0)], 'TSDestroy': [('TS', 0)], 'PetscViewerDestroy': [('PetscViewer', 0)],
 'VecRestoreArray': [('array', 1)], 'VecRestoreArrayRead': [('array', 1)], 'MatDenseRestoreArray': [('array', 1)], 'MatRestoreRow': [('row', 3)], 'MatDestroySubMatrices': [('submatrices', 1)], 'ISRestoreIndices': [('indices', 1)]}

def status(q, n):
    return bool(LIB.match(q)) and q not in NOSTATUS and n.get('t') in ('int', 'PetscErrorCode')

SOLVES = {'KSPSolve': 'KSPGetConvergedReason', 'SNESSolve': 'SNESGetConvergedReason', 'TSSolve': 'TSGetConvergedReason'}
HANDLE = re.compile(r'_p_(Vec|Mat|KSP|SNES|TS|PetscViewer|IS|VecScatter)\b')

class I(ResI):
    ACQ = ACQ; REL = REL
    ERR = staticmethod(status)
    CHECKERS = ('throw_petsc_exception', 'PetscError')
    def __init__(self, db, only):
        ResI.__init__(self, db, only)
        self.early = []
    def on_call(self, n, obj, args, st):
        q = n.get('q') or ''
        if LIB.match(q):
            for i, (a, an) in enumerate(zip(args, n.get('a', []))):
                if a[0] in ('addr',) or not HANDLE.search(an.get('t', '')) or an.get('t', '').endswith('**'): continue
                v = self.load(a[1], st) if a[0] == 'ref' else a
                # the value of a handle nothing has been stored in yet: a local, or a member of the object being constructed
                top = self.stack[0][0]
                if v == ('undef',) or v[0] == 'loc' or (self.isfield(v) and top.isctor and self.isown(v, top)):
                    self.early.append((n, q, i, self.fn, v))
        for a, an in zip(args, n.get('a', [])):
            if a[0] == 'addr' and 'MatFactorInfo' in an.get('t', ''):
                if q == 'MatFactorInfoInitialize': st.facts |= {('m', a[1])}
                elif ('m', a[1]) not in st.facts and a[1][0] == 'loc': self.early.append((n, q, 0, self.fn, a[1]))
        r = ResI.on_call(self, n, obj, args, st)
        if q in SOLVES:
            self.stat('solves')
            st.facts |= {('s', SOLVES[q], q, n.get('l'), '')}
        for x in list(st.facts):
            if x[0] == 's' and x[1] == q:
                a = args[1]
                if a[0] == 'addr': st.env[a[1]] = ('reason', q)
                st.facts = (st.facts - {x}) | {('q', x[1], x[2], x[3], '')}
        return r
    def isown(self, v, top):
        return not any(i.get('fld') and i['n'] == v[2] for i in top.inits)
    def on_cond(self, term, pol, node, st):
        ResI.on_cond(self, term, pol, node, st)
        for x in list(st.facts):
            if x[0] == 'q':
                for t in engine.subterms(term):
                    if isinstance(t, tuple) and t[0] == 'bin' and ('reason', x[1]) in t:
                        t0, p = engine.norm_cond(t, pol)
                        neg = negative(t0, p, ('reason', x[1]))
                        if neg is None: continue
                        st.facts = st.facts - {x}
                        if neg: st.facts |= {('d', x[1], x[2], x[3], '')}
                        break
    def on_exit(self, kind, st, val, node, fn):
        ResI.on_exit(self, kind, st, val, node, fn)
        if kind == 'ret':
            for x in st.facts:
                if x[0] in ('s', 'q'): self.rep.append(('unasked', {'l': x[3]}, '', x[2], fn))
                if x[0] == 'd': self.rep.append(('diverged', {'l': x[3]}, '', x[2], fn))

def negative(t, pol, r):
    """does this condition select the divergence codes (True), the others (False), or neither (None)"""
    op, a, b = t[1], t[2], t[3]
    if b == r: a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    if a != r: return None
    c = engine.const(b)
    if c is None: return None
    if not pol: op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}.get(op, op)
    if (op, c) in (('<', 0), ('<=', -1), ('<=', 0), ('<', 1)): return True
    if (op, c) in (('>=', 0), ('>', -1), ('>', 0), ('>=', 1)): return False
    return None

def analyse(db, res):
    res.rule('E1 status checked', 'the status of every library call is examined (or handed to the caller) on every path before the function returns normally; destructors excepted')
    res.rule('E2 released', 'an object, array or row obtained from the library into a local is released, handed on or stored on every normal path, and not obtained again while held')
    res.rule('E3 created before use', 'no library call receives a handle that nothing has created or assigned yet')
    res.rule('E4 divergence raised', 'after a solve the convergence reason is examined and no path on which it is negative returns normally')
    res.rule('E5 owner releases', 'a handle a class obtains into a member is released by a member function of the class')
    touch = set()
    for f in db.fns.values():
        if f.b is None or '/test/' in f.file: continue
        if any(LIB.match(n.get('q') or '') for n in calls(f.b)): touch.add(f.f)
    acq = {}; rel = set()
    for f in db.fns.values():
        if f.f not in touch: continue
        it = I(db, touch)
        it.run(f)
        for k, v in it.stats.items(): res.count(k, v)
        res.count('functions')
        for what, n, kind, q, fn in it.rep:
            if what == 'unchecked' and fn.isdtor: continue
            if what == 'unchecked': res.report('E1 status checked', fn.file, n['l'], sh(fn), 'the status of %s is not examined' % q)
            elif what == 'leak': res.report('E2 released', fn.file, n['l'], sh(fn), 'a %s from %s is not released' % (kind, q))
            elif what == 'again': res.report('E2 released', fn.file, n['l'], sh(fn), 'a %s from %s is obtained again before it is released' % (kind, q))
            elif what == 'unasked': res.report('E4 divergence raised', fn.file, n['l'], sh(fn), 'the outcome of %s is not examined' % q)
            elif what == 'diverged': res.report('E4 divergence raised', fn.file, n['l'], sh(fn), 'a diverged %s returns as if it had converged' % q)
        for n, q, i, fn, v in it.early:
            res.report('E3 created before use', fn.file, n['l'], sh(fn), '%s receives %s before anything created it' % (q, v[-1]))
        for fld, kind, n, fn, before in it.fieldacq:
            if fn.cls: acq.setdefault((fn.cls, fld), (kind, n, fn))
        for fld, kind in it.fieldrel:
            rel.add((f.cls, fld))
    for (c, fld), (kind, n, fn) in acq.items():
        res.count('member_handles')
        if (c, fld) not in rel:
            res.report('E5 owner releases', fn.file, n.get('l'), sh(fn), 'member %s holds a %s that no member function releases' % (fld, kind))

    for k, v in (('acquisitions', 40), ('functions', 80), ('member_handles', 4), ('releases', 35), ('solves', 3), ('status_calls', 280)): res.floor(k, v)

def sh(f): return f.q.replace('gridpack::math::', '')
