"""No process skips a collective operation."""
import engine
from engine import walk, kids, CALLS
EXPLAIN = ("Collective operations (MPI, Global Arrays, PETSc, and every repository function that reaches one) are matched structurally: under a condition that can differ "
  "between processes (process rank, local bus/branch counts, active flags, task numbers, and everything computed from them by data or control until it is reduced or broadcast) "
  "both alternatives must run the same collective sequence, no alternative may leave the function or loop before a later collective, and no loop whose trip count differs may contain one.")

PRIM = set('''GA_Pgroup_sync GA_Sync NGA_Pgroup_sync GA_Allocate NGA_Allocate GA_Destroy NGA_Destroy GA_Pgroup_igop GA_Pgroup_lgop GA_Pgroup_fgop GA_Pgroup_dgop
GA_Igop GA_Dgop GA_Lgop GA_Fgop GA_Brdcst GA_Pgroup_brdcst GA_Zero NGA_Zero GA_Fill GA_Copy GA_Add GA_Duplicate GA_Pgroup_create GA_Pgroup_destroy GA_Create NGA_Create GA_Create_irreg
GA_Ddot GA_Dgemm GA_Transpose GA_Terminate GA_Initialize NGA_Create_config GA_Pgroup_split
MPI_Allreduce MPI_Bcast MPI_Barrier MPI_Reduce MPI_Gather MPI_Gatherv MPI_Scatter MPI_Scatterv MPI_Allgather MPI_Allgatherv MPI_Alltoall MPI_Alltoallv MPI_Scan MPI_Exscan
MPI_Comm_split MPI_Comm_dup MPI_Comm_create MPI_Comm_free MPI_Init MPI_Finalize
boost::mpi::all_reduce boost::mpi::broadcast boost::mpi::reduce boost::mpi::gather boost::mpi::all_gather boost::mpi::scatter boost::mpi::all_to_all boost::mpi::scan
boost::mpi::communicator::barrier boost::mpi::communicator::split boost::mpi::communicator::create ParMETIS_V3_PartKway
PetscInitialize PetscFinalize'''.split())
PETSC_LOCAL = set('''PetscInitialized PetscObjectComm PetscErrorMessage PetscSplitOwnership VecGetLocalSize VecGetOwnershipRange VecGetArray VecRestoreArray VecGetArrayRead VecRestoreArrayRead
VecGetValues VecSetValue VecSetValues MatGetOwnershipRange MatGetLocalSize MatGetSize MatGetRow MatRestoreRow MatGetValues MatSetValues MatGetType MatAssembled VecGetSize TSGetApplicationContext
TSGetTime KSPGetIterationNumber KSPGetConvergedReason KSPGetResidualNorm SNESGetConvergedReason SNESGetIterationNumber TSGetConvergedReason TSGetStepNumber TSGetSolveTime PetscError PetscObjectGetComm
PetscObjectGetTabLevel PetscViewerASCIIAddTab PetscViewerASCIISubtractTab PetscViewerASCIIGetStdout PetscOptionsInsertString PetscOptionsClearValue MatFactorInfo MatInfo
MatSetType MatSetOption MatSetSizes VecSetSizes VecSetType VecSetOption KSPSetOptionsPrefix KSPSetTolerances SNESSetTolerances SNESSetOptionsPrefix TSSetTime TSSetTimeStep TSSetMaxSteps TSSetMaxTime
TSSetExactFinalTime TSSetApplicationContext TSGetAdapt TSAdaptSetType TSSetProblemType SNESMonitorSet KSPSetInitialGuessNonzero SNESSetFunction SNESSetJacobian TSSetIFunction TSSetIJacobian
TSSetPreStep TSSetPostStep TSSetEventHandler TSSetOptionsPrefix TSSetSolution KSPSetOperators'''.split())
import re
PETSC = re.compile(r'^(Vec|Mat|KSP|SNES|TS|PetscViewer|PetscObject)[A-Z]\w*$')

def prim(q):
    if not q: return False
    if q in PRIM: return True
    return bool(PETSC.match(q)) and q not in PETSC_LOCAL and not q.startswith(('MatFactorInfo', 'MatInfo'))

# values that differ between processes
SOURCE_CALLS = set('''GA_Nodeid GA_Pgroup_nodeid NGA_Nodeid NGA_Read_inc GA_Read_inc boost::mpi::communicator::rank
gridpack::parallel::Communicator::rank gridpack::parallel::Communicator::worldRank gridpack::network::BaseNetwork::numBuses gridpack::network::BaseNetwork::numBranches
gridpack::network::BaseNetwork::getActiveBus gridpack::network::BaseNetwork::getActiveBranch gridpack::network::BaseNetwork::getLocalBusIndices gridpack::network::BaseNetwork::getLocalBranchIndices'''.split())
SOURCE_OUT = {'MPI_Comm_rank': [1], 'NGA_Distribution': [2, 3], 'VecGetOwnershipRange': [1, 2], 'MatGetOwnershipRange': [1, 2], 'VecGetLocalSize': [1], 'MatGetLocalSize': [1, 2], 'NGA_Get': [], 'NGA_Gather': []}
SOURCE_FIELDS = set('''gridpack::network::BaseNetwork::p_buses gridpack::network::BaseNetwork::p_branches'''.split())
# values that agree on all processes afterwards: argument positions
UNIFORM = {'gridpack::parallel::TaskManager::nextTask': [1], 'GA_Pgroup_igop': [1], 'GA_Pgroup_lgop': [1], 'GA_Pgroup_fgop': [1], 'GA_Pgroup_dgop': [1], 'GA_Igop': [0], 'GA_Dgop': [0], 'GA_Pgroup_brdcst': [1], 'GA_Brdcst': [0],
  'MPI_Allreduce': [1], 'MPI_Bcast': [0], 'MPI_Allgather': [3], 'MPI_Allgatherv': [3], 'boost::mpi::all_reduce': [2], 'boost::mpi::broadcast': [1], 'boost::mpi::all_gather': [2],
  'gridpack::parallel::Communicator::sum': [0], 'gridpack::parallel::Communicator::max': [0], 'gridpack::parallel::Communicator::min': [0]}
UNIFORM_RESULT = set(['gridpack::parallel::Communicator::any', 'gridpack::parallel::Communicator::all', 'boost::mpi::all_reduce'])

def base_var(n):
    """the variable or member an lvalue, pointer or container expression is rooted in"""
    while n is not None:
        k = n['k']
        if k == 'Ref':
            return ('v', n['id']) if 'id' in n else ('g', n.get('q') or n['n'])
        if k == 'Mem':
            b = n.get('b')
            if b is not None and b['k'] not in ('This',):
                bb = base_var(b)
                if bb is not None and bb[0] == 'v':
                    return bb
            return ('f', n.get('q') or n['n'])
        if k in ('Sub', 'Un', 'Cast', 'ICast'):
            n = n.get('b') if k == 'Sub' else n.get('e'); continue
        if k == 'OCall' and n.get('a'):
            n = n['a'][0]; continue
        if k == 'MCall' and n.get('o') is not None:
            n = n['o']; continue
        if k == 'MCall':
            return None
        return None
    return None

DATA_DIRS = ('parallel/', 'network/', 'mapper/', 'serial_io/', 'analysis/', 'component/', 'partition/')

class Summ(object):
    __slots__ = ('ret', 'outs', 'unif')
    def __init__(self):
        self.ret = False; self.outs = frozenset(); self.unif = frozenset()
    def key(self):
        return (self.ret, self.outs, self.unif)

class Analysis(object):
    def __init__(self, db):
        self.db = db
        self.callees = {}
        self.coll = set()
        self.build_collective()
        self.fields = set(('f', q) for q in SOURCE_FIELDS)
        self.summ = {}
        # the size of the exchanged record: every bus (branch) has the same; a process that has none is reported where the size is taken
        self.sizes = {}
        for f in db.fns.values():
            if 'network/' not in f.file or f.b is None: continue
            for n in self.calls[f.f]:
                if n.get('q') == 'NGA_Register_type' and n['a']:
                    for x in walk(n['a'][0]):
                        if x['k'] == 'Mem' and not x.get('f'): self.sizes.setdefault(('f', x.get('q') or x['n']), set())
        self.sized = {}
        self.fixpoint()
    # -- collective closure
    def targets(self, n):
        k = n.get('f'), n.get('q'), len(n.get('a', []))
        t = self.callees.get(k)
        if t is None:
            t = self.callees[k] = [x for x in self.db.dispatch(n) if x.b is not None] if (n.get('q') or '').startswith('gridpack') or n['k'] == 'Call' else []
        return t
    def build_collective(self):
        calls = {}
        for f in self.db.fns.values():
            l = []
            for r in self.roots(f):
                l += engine.calls(r)
            calls[f.f] = l
        self.calls = calls
        direct = set(f for f, l in calls.items() if any(prim(n.get('q')) for n in l))
        rev = {}
        for f, l in calls.items():
            for n in l:
                for t in self.targets(n):
                    rev.setdefault(t.f, set()).add(f)
        todo = list(direct); self.coll = set(direct)
        while todo:
            for c in rev.get(todo.pop(), ()):
                if c not in self.coll:
                    self.coll.add(c); todo.append(c)
    def roots(self, f):
        r = [i['e'] for i in f.inits if i.get('e')] if f.isctor else []
        if f.b is not None: r = r + [f.b]
        return r
    def is_coll(self, n):
        if n['k'] not in CALLS: return False
        if prim(n.get('q')): return True
        return any(t.f in self.coll for t in self.targets(n))
    # -- taint
    def fixpoint(self):
        for f in self.db.fns.values():
            self.summ[f.f] = Summ()
        fl = [f for f in self.db.fns.values() if f.b is not None]
        for it in range(6):
            ch = False
            for f in fl:
                t = Walker(self, f); t.go()
                s = self.summ[f.f]; k = s.key()
                s.ret, s.outs, s.unif = t.ret, frozenset(t.outs()), frozenset(t.unif)
                if s.key() != k: ch = True
                nf = t.fields_out() - self.fields
                if nf:
                    self.fields |= nf; ch = True
            if not ch: break
        self.iterations = it + 1
    def taint_name(self, k):
        return k in self.fields

class Walker(object):
    """one function: which variables can differ between processes, in statement order"""
    def __init__(self, A, f, res=None):
        self.A = A; self.f = f; self.res = res
        self.t = {}            # base var -> True / False (overrides)
        self.ret = False; self.unif = set(); self.ctl = 0; self.rctl = 0; self.rest = {}
        self.pids = dict((p['id'], i) for i, p in enumerate(f.ps))
        self.local_data = f.file.startswith(DATA_DIRS) and 'ommunicator' not in f.file
        if self.local_data:
            # what each process contributes or asks for is its own
            for p in f.ps:
                if 'vector<' in p['t']: self.t[('v', p['id'])] = True
        self.branches = []; self.deps = {}
    def get(self, k):
        if k is None: return False
        v = self.t.get(k)
        if v is not None: return v
        return k in self.A.fields
    def set(self, k, v):
        if k is None: return
        if v and k in self.A.sizes:
            self.A.sized.setdefault(self.f.f, (self.f, k)); v = False
        self.t[k] = v
    def outs(self):
        r = []
        for p in self.f.ps:
            if self.t.get(('v', p['id'])) and ('&' in p['t'] or '*' in p['t']) and not p['t'].startswith('const '):
                r.append(self.pids[p['id']])
        return r
    def fields_out(self):
        return set(k for k, v in self.t.items() if v and k[0] == 'f' and k[1].startswith('gridpack'))
    def go(self):
        for r in self.A.roots(self.f):
            self.st(r)
    # expression taint (with effects, in evaluation order)
    def ev(self, n):
        if n is None: return False
        k = n['k']
        if k == 'Ref':
            return self.get(base_var(n)) if n.get('d') in ('loc', 'par', 'glob', 'sfield') else False
        if k == 'Mem':
            if n.get('f'): return False
            b = n.get('b')
            tb = self.ev(b) if b is not None and b['k'] != 'This' else False
            return tb or self.get(('f', n.get('q') or n['n']))
        if k == 'Asg':
            y = self.ev(n['y'])
            b = base_var(n['x'])
            x = self.get(b) if n['op'] != '=' else False
            whole = n['x']['k'] in ('Ref', 'Mem')
            if not whole:
                # element or pointee: the container may differ if any element does
                self.ev_index(n['x'])
                v = y or self.ctl > 0 or self.get(b)
            else:
                v = y or x or self.ctl > 0
                if b in self.A.sizes and litv(n['y']) == 0: v = False
            self.set(b, v)
            return v
        if k == 'Un' and n['op'] in ('++', '--', 'p++', 'p--'):
            b = base_var(n['e']); v = self.get(b) or self.ctl > 0
            self.set(b, v); return v
        if k == 'Cnd':
            c = self.ev(n['cond']); x = self.ev(n['x']); y = self.ev(n['y'])
            if c: self.check_two(n, n['x'], n['y'])
            return c or x or y
        if k == 'Bin' and n['op'] in ('&&', '||'):
            x = self.ev(n['x'])
            if x:
                self.check_two(n, n['y'], None)
                self.ctl += 1
            y = self.ev(n['y'])
            if x: self.ctl -= 1
            return x or y
        if k in CALLS:
            return self.call(n)
        if k == 'Lam': return False
        if k == 'Var':
            self.decl(n); return False
        r = False
        for c in kids(n):
            if self.ev(c): r = True
        return r
    def ev_index(self, n):
        if n['k'] == 'Sub':
            self.ev(n.get('i')); 
    def call(self, n):
        A = self.A
        q = n.get('q') or n.get('n') or ''
        to = self.ev(n['o']) if n.get('o') is not None and n['o']['k'] != 'This' else False
        if n.get('fe') is not None: self.ev(n['fe'])
        ta = [self.ev(a) for a in n.get('a', [])]
        args = n.get('a', [])
        tg = A.targets(n)
        name = n.get('n', '')
        # agreement
        un = UNIFORM.get(q)
        if un is not None and q.endswith('nextTask') and len(args) < 2:
            self.set(base_var(args[0]), True); return True
        if un is not None:
            for i in un:
                if i < len(args):
                    b = base_var(args[i]); self.set(b, False)
                    if b and b[0] == 'v' and b[1] in self.pids: self.unif.add(self.pids[b[1]])
            return False
        if q in UNIFORM_RESULT: return False
        if q in SOURCE_CALLS: return True
        if q in SOURCE_OUT:
            for i in SOURCE_OUT[q]:
                if i < len(args): self.set(base_var(args[i]), True)
            return False
        if n['k'] == 'OCall' and name in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator<<', 'operator>>') and len(args) == 2:
            b = base_var(args[0])
            if name == 'operator=':
                v = ta[1] or self.ctl > 0
                if args[0]['k'] not in ('Ref', 'Mem'): v = v or self.get(b)
                self.set(b, v)
                return v
            return any(ta) or self.ctl > 0
        if tg and any((t.q.startswith('gridpack')) for t in tg):
            r = any(A.summ[t.f].ret for t in tg)
            for t in tg:
                s = A.summ[t.f]
                for i in s.outs:
                    if i < len(args): self.set(base_var(args[i]), True)
                for i in s.unif:
                    if i < len(args) and i not in s.outs: self.set(base_var(args[i]), False)
            small = [t for t in tg if t.b is not None and len(t.ps)]
            # the result of a repository function follows its arguments only for plain values
            if any(ta) and not r and n.get('t') not in ('void', None) and self.passthru(tg):
                r = True
            return r
        # library: result and modified object follow the operands
        r = to or any(ta)
        if n['k'] == 'MCall' and not n.get('f', 'c').endswith('c') and name not in engine.PURE_STD and n.get('o') is not None:
            b = base_var(n['o'])
            if name in ('clear',):
                if self.ctl == 0: self.set(b, False)
            elif self.local_data and name in ('push_back', 'insert', 'emplace_back') and b and b[0] == 'f' and any(
                    x['k'] == 'Ref' and x.get('d') == 'par' for a in args for x in walk(a)):
                # an element each process adds for itself: the container is its own
                self.set(b, True)
            elif self.ctl > 0 or (any(ta) and name in ('resize', 'insert', 'assign', 'erase')):
                self.set(b, True)
        for i, (a, w) in enumerate(zip(args, n.get('w', ''))):
            if w in 'rp' and (self.ctl > 0 or (w == 'r' and any(ta))) and q and not q.startswith(('GA_', 'NGA_', 'MPI_')) and a['k'] in ('Ref', 'Un', 'Mem'):
                if n['k'] in ('Call', 'MCall') and name not in ('push_back', 'printf', 'swap'):
                    b = base_var(a)
                    if b and b[0] == 'v' and self.ctl > 0: self.set(b, True)
        return r
    def passthru(self, tg):
        return False
    def decl(self, v):
        t = False
        for c in ('i', 'vla'):
            if v.get(c) is not None:
                t = self.ev(v[c]) or t
        self.set(('v', v['id']), t or (self.ctl > 0 and v.get('i') is not None and False))
    # statements
    def st(self, n):
        if n is None: return
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        self.ev(n)
    def s_Blk(self, n):
        up = self.rest.get(id(n), ())
        for i, c in enumerate(n['c']):
            self.rest[id(c)] = tuple(n['c'][i + 1:]) + (up if up is not None else (None,))
            self.st(c)
    def s_Decl(self, n):
        for v in n['c']: self.decl(v)
    def s_Null(self, n): pass
    def s_Label(self, n): self.st(n.get('s'))
    def s_Case(self, n): self.st(n.get('s'))
    def s_Default(self, n): self.st(n.get('s'))
    def s_Break(self, n): pass
    s_Continue = s_Goto = s_Break
    def s_Ret(self, n):
        if n.get('e') is not None:
            if self.ev(n['e']) or self.rctl > 0: self.ret = True
    def s_Throw(self, n):
        if n.get('e') is not None: self.ev(n['e'])
    def cont(self, n):
        """the statements after n up to the end of the function; None inside a loop"""
        r = self.rest.get(id(n), ())
        if r is None or None in r: return None
        return r
    def same_returns(self, arms, n):
        if not any('ret' in exits(a) for a in arms if a is not None): return True
        r = self.cont(n)
        if r is None: return False
        t = [self.term(((a,) if a is not None else ()) + r, True) for a in arms]
        return t[0] == t[1]
    def same_tail(self, arms, n):
        r = self.cont(n)
        if r is None: return False
        t = [self.term(((a,) if a is not None else ()) + r, False) for a in arms]
        return t[0] == t[1]
    def term(self, stmts, vals, depth=0):
        """the collective operations (and, with vals, the values returned) along a list of statements, as a decision tree"""
        out = []
        for i, n in enumerate(stmts):
            if n is None: continue
            k = n['k']
            if k == 'Blk':
                return tuple(out) + self.term(tuple(n['c']) + tuple(stmts[i + 1:]), vals, depth)
            if k == 'If' and (exits(n) & {'ret'} or never_returns(n.get('then')) or never_returns(n.get('else'))) and depth < 40:
                out += self.seq(n['cond'], True)
                a = self.term((n.get('then'),) + tuple(stmts[i + 1:]), vals, depth + 1)
                b = self.term((n.get('else'),) + tuple(stmts[i + 1:]), vals, depth + 1)
                if a == ('err',): return tuple(out) + b
                if b == ('err',): return tuple(out) + a
                if a == b: return tuple(out) + a
                # the common beginning does not depend on the condition
                while a and b and a[0] == b[0]:
                    out.append(a[0]); a = a[1:]; b = b[1:]
                return tuple(out) + (('if',) + tuple(sorted((a, b), key=repr)),)
            if k == 'Ret':
                e = n.get('e')
                while e is not None and e['k'] in ('Cast', 'ICast', 'Paren') and e.get('e') is not None: e = e['e']
                if e is not None and e['k'] in CALLS and depth < 40:
                    t = [t for t in self.A.targets(e) if t.b is not None]
                    if len(t) == 1 and (t[0].f in self.A.coll or vals):
                        for a in e.get('a', []): out += self.seq(a, True)
                        return tuple(out) + self.term((t[0].b,), vals, depth + 20)
                out += self.seq(n.get('e'), True)
                if vals:
                    c = litv(e)
                    out.append(('ret', c if c is not None else engine.show(e) if e is not None else ''))
                return tuple(out)
            if never_returns(n, True): return ('err',)
            if k == 'Try':
                return tuple(out) + self.term((n['body'],) + tuple(stmts[i + 1:]), vals, depth)
            out += self.seq(n, True)
        return tuple(out)
    def arms(self, c, arms, n):
        """alternatives of a branch whose condition is tainted (c) or not"""
        s0 = dict(self.t); outs = []
        rc = c and not self.same_returns(arms, n)
        for a in arms:
            self.t = dict(s0)
            if c: self.ctl += 1
            if rc: self.rctl += 1
            if a is not None:
                self.rest[id(a)] = self.rest.get(id(n))
                self.st(a)
            if c: self.ctl -= 1
            if rc: self.rctl -= 1
            outs.append((self.t, a is not None and never_returns(a)))
        live = [t for t, d in outs if not d] or [t for t, d in outs]
        m = {}
        for t in live:
            for k, v in t.items():
                m[k] = m.get(k, False) or v
        for k in list(m):
            if not all(k in t for t in live) and not m[k]:
                # not overridden on every path: the table decides
                if k in self.A.fields: m[k] = True
        self.t = m
    def s_If(self, n):
        if n.get('init'): self.st(n['init'])
        if n.get('cv'): self.decl(n['cv'])
        c = self.ev(n['cond'])
        if n.get('cv'): c = c or self.get(('v', n['cv']['id']))
        if c: self.check_two(n, n.get('then'), n.get('else'))
        self.arms(c, [n.get('then'), n.get('else')], n)
    def s_Switch(self, n):
        c = self.ev(n['cond'])
        if c:
            body = n.get('body') or {}
            if any(self.A.is_coll(x) for x in walk(body)):
                self.flag(n, 'a switch over a process-dependent value contains %s' % self.first(body))
        self.arms(c, [n.get('body'), None], n)
    def loopbody(self, n, c, parts):
        if c:
            for p in parts:
                if p is not None and any(self.A.is_coll(x) for x in walk(p)):
                    self.flag(n, 'a loop whose length depends on the process contains %s' % self.first(p))
                    break
        for rep in range(2):
            if c: self.ctl += 1; self.rctl += 1
            for p in parts:
                if p is not None: self.rest[id(p)] = None
                if p is not None: self.st(p) if p['k'] in STM else self.ev(p)
            if c: self.ctl -= 1; self.rctl -= 1
    def s_For(self, n):
        if n.get('init'): self.st(n['init'])
        c = self.ev(n['cond']) if n.get('cond') is not None else False
        self.loopbody(n, c, [n.get('body'), n.get('inc')])
        if n.get('cond') is not None and not c and self.ev(n['cond']):
            self.loopbody(n, True, [n.get('body'), n.get('inc')])
    def s_While(self, n):
        c = self.ev(n['cond'])
        self.loopbody(n, c, [n.get('body')])
        if not c and self.ev(n['cond']):
            self.loopbody(n, True, [n.get('body'), n['cond']])
    def s_Do(self, n):
        self.rest[id(n.get('body'))] = None
        self.st(n.get('body'))
        c = self.ev(n['cond'])
        self.loopbody(n, c, [n.get('body')])
    def s_RFor(self, n):
        c = self.ev(n['range'])
        self.set(('v', n['var']['id']), c)
        self.loopbody(n, c, [n.get('body')])
    def s_Try(self, n):
        self.rest[id(n['body'])] = self.rest.get(id(n), ())
        for h in n.get('h', []): self.rest[id(h['body'])] = self.rest.get(id(n), ())
        self.st(n['body'])
        for h in n.get('h', []): self.st(h['body'])
    # -- rules
    def first(self, p):
        for x in walk(p):
            if self.A.is_coll(x): return short(x)
        return '?'
    def flag(self, n, what):
        if self.res is not None:
            self.res.report('C1 same collectives', self.f.file, n.get('l') or self.f.l, fname(self.f), what + self.dep(n))
    def counter(self, n):
        r = [x for x in walk(n.get('cond') or {'k': 'Null'}) if x['k'] == 'Ref' and x.get('d') == 'par']
        return bool(r) and any(x['k'] in CALLS and x.get('q') == 'NGA_Read_inc' for x in walk(self.f.b))
    def dep(self, n):
        c = n.get('cond') or n.get('range') or n.get('x')
        r = set()
        for x in walk(c) if c is not None else ():
            if x['k'] in ('Ref', 'Mem') and self.get(base_var(x)): r.add(x['n'])
            elif x['k'] in CALLS and (x.get('q') in SOURCE_CALLS or any(self.A.summ[t.f].ret for t in self.A.targets(x))): r.add(short(x))
        return ' (depends on %s)' % ', '.join(sorted(r)) if r else ''
    def check_two(self, n, a, b):
        if self.res is None: return
        # the shared task counter: every process asks until it is told there is nothing left, so each reaches the final barrier once
        if self.f.q == 'gridpack::parallel::TaskManager::nextTask' and self.counter(n): return
        self.res.count('process_dependent_branches')
        sa = self.seq(a); sb = self.seq(b)
        da = a is not None and never_returns(a, True); dbb = b is not None and never_returns(b, True)
        if da or dbb:
            # a branch that throws or aborts is an error path
            return
        if n['k'] == 'If' and (exits(a) | exits(b)) & {'ret'} and self.same_tail([a, b], n):
            return
        if sa != sb:
            ea = self.seq(a, True); eb = self.seq(b, True)
            if ea != eb:
                x = [t for t in sa if t not in sb] or [t for t in sb if t not in sa] or list(sa or sb)
                self.flag(n, 'only some processes reach %s' % (x[0].split('::')[-1] if isinstance(x[0], str) else 'a collective loop'))
        ex = exits(a) | exits(b)
        if ex:
            self.branches.append((n, ex)); self.deps[id(n)] = self.dep(n)
    def seq(self, n, expand=False, depth=0):
        """collective calls of a statement, in order"""
        out = []
        if n is None: return ()
        if n['k'] in ('For', 'While', 'Do', 'RFor'):
            s = ()
            for c in kids(n): s += self.seq(c, expand, depth)
            return (('loop', s),) if s else ()
        if n['k'] == 'If' or n['k'] == 'Cnd':
            c = self.seq(n.get('cond'), expand, depth)
            x = self.seq(n.get('then') or n.get('x'), expand, depth); y = self.seq(n.get('else') or n.get('y'), expand, depth)
            if x == y: return c + x
            return c + (('if', x, y),)
        for c in kids(n):
            out += self.seq(c, expand, depth)
        if n['k'] in CALLS and self.A.is_coll(n):
            if expand and not prim(n.get('q')) and depth < 6:
                t = [t for t in self.A.targets(n) if t.f in self.A.coll]
                if len(t) >= 1:
                    for r in self.A.roots(t[0]): out += self.seq(r, expand, depth + 1)
                    return tuple(out)
            out.append(n.get('q'))
        return tuple(out)

STM = ('Blk', 'If', 'For', 'While', 'Do', 'RFor', 'Switch', 'Decl', 'Null', 'Ret', 'Break', 'Continue', 'Throw', 'Try', 'Label', 'Case', 'Default', 'Goto')

def never_returns(n, only_error=False):
    """every path of the statement throws, exits or (unless only_error) returns"""
    if n is None: return False
    k = n['k']
    if k == 'Throw': return True
    if k in ('Ret', 'Break', 'Continue', 'Goto'): return not only_error
    if k in CALLS:
        return n.get('n') in ('exit', 'abort', 'MPI_Abort', 'GA_Error', '_exit')
    if k == 'Blk': return any(never_returns(c, only_error) for c in n['c'])
    if k == 'If': return n.get('else') is not None and never_returns(n.get('then'), only_error) and never_returns(n.get('else'), only_error)
    if k == 'ICast' or k == 'Cast': return never_returns(n.get('e'), only_error)
    return False

def exits(n, inloop=False):
    """ways a statement leaves: 'ret', 'brk' (of the enclosing loop)"""
    r = set()
    if n is None: return r
    k = n['k']
    if k == 'Ret': return {'ret'}
    if k in ('Break', 'Continue'): return set() if inloop else {'brk' if k == 'Break' else 'cont'}
    if k == 'Lam': return r
    if k == 'Switch':
        for c in kids(n):
            r |= exits(c, inloop) - {'brk'}
        return r
    for c in kids(n):
        r |= exits(c, inloop or k in ('For', 'While', 'Do', 'RFor'))
    return r

def litv(e):
    while e is not None and e['k'] in ('Cast', 'ICast', 'Paren') and e.get('e') is not None: e = e['e']
    return int(e['v']) if e is not None and e['k'] in ('Int', 'Bool') else None

def short(n):
    return (n.get('q') or n.get('n') or '?').split('::')[-1]

def fname(f):
    return f.q.replace('gridpack::', '')

def early_exits(w, f, res):
    """a process-dependent branch that leaves before a collective the others reach"""
    par = {}
    for r in w.A.roots(f):
        st = [(r, None)]
        for x in walk(r):
            for c in kids(x):
                par[id(c)] = x
    for n, ex in w.branches:
        # the collectives after n: later siblings at each level up to the function (ret) or the enclosing loop
        c = n; hit = None; passed_loop = False
        while id(c) in par and hit is None:
            p = par[id(c)]
            if p['k'] == 'Blk':
                i = [id(x) for x in p['c']].index(id(c))
                for s in p['c'][i + 1:]:
                    if (never_returns(s)): 
                        if any(w.A.is_coll(x) for x in walk(s)): hit = w.first(s)
                        break
                    if any(w.A.is_coll(x) for x in walk(s)):
                        hit = w.first(s); break
            if p['k'] in ('For', 'While', 'Do', 'RFor'):
                # skipping iterations of a loop with collectives anywhere inside
                if hit is None and (ex & {'ret', 'brk'}) and any(w.A.is_coll(x) for x in walk(p)):
                    hit = w.first(p)
                if not (ex & {'ret'}): break
            c = p
        if hit is not None:
            # both alternatives may run the same tail
            res.report('C2 no early exit', f.file, n.get('l') or f.l, fname(f), 'a process-dependent condition leaves before %s%s' % (hit, w.deps.get(id(n), '')))

def analyse(db, res):
    res.rule('C1 same collectives', 'alternatives of a process-dependent condition run the same collective operations; process-dependent loops run none')
    res.rule('C2 no early exit', 'a process-dependent condition does not leave a function or loop before a collective the other processes reach')
    res.rule('C3 record size', 'the size of the exchanged record, which decides whether a process joins the exchange, is the same on every process')
    A = Analysis(db)
    res.count('collective_functions', len(A.coll))
    res.count('process_dependent_members', len([f for f in A.fields]))
    for f in db.fns.values():
        if f.b is None: continue
        if '/test/' in f.file or f.file.startswith('test'): continue
        has = f.f in A.coll
        if has: res.count('functions_with_collectives')
        w = Walker(A, f, res if has else None); w.go()
        if has: early_exits(w, f, res)
        for n in A.calls[f.f]:
            if A.is_coll(n): res.count('collective_call_sites')
    res.count('exchange_record_sizes', len(A.sizes))
    for f, k in A.sized.values():
        res.report('C3 record size', f.file, f.l, fname(f), 'the size of the exchanged record is set only on processes that have local elements')
    res.floor('collective_call_sites', 1200)
    res.floor('functions_with_collectives', 400)
    res.floor('process_dependent_branches', 700)
    res.floor('exchange_record_sizes', 1)
