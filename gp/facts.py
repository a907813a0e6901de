"""Fact base: runs the clang-based extractor over /repo's current sources and
loads the result.  Every check goes through load(), which re-extracts any
translation unit whose sources (transitively, by content) changed."""
import os, sys, json, hashlib, subprocess, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GP_REPO', '/repo')
SRC = os.path.realpath(os.path.join(REPO, 'src')) + '/'
CACHE = os.environ.get('GP_CACHE', os.path.join(VERIF, '.cache'))
CLANG = '/usr/bin/clang++-18'

class ToolError(Exception):
    pass

def build_tool():
    src = os.path.join(VERIF, 'tool', 'gpx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(CACHE, 'gpx-' + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([CLANG, '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                            '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise ToolError('extractor does not build: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out

INC = ['-std=gnu++17', '-w', '-ferror-limit=0', '-DBOOST_ATOMIC_DYN_LINK', '-DBOOST_MPI_DYN_LINK', '-DBOOST_MPI_NO_LIB', '-DBOOST_SERIALIZATION_DYN_LINK']
SYS = ['/usr/lib/x86_64-linux-gnu/openmpi/include', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
       '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex/include']

def repo_files():
    out = []
    for d, ds, fs in os.walk(SRC):
        ds[:] = sorted(x for x in ds if x not in ('ga', 'test', 'examples', 'Configuration Extras', 'CMakeFiles') and not os.path.islink(os.path.join(d, x)))
        for f in sorted(fs):
            if f.endswith(('.cpp', '.hpp', '.h', '.ipp')):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    return out

SKIP = ('serial_io/goss', 'utilities/Configuration Extras', 'applications/rtpr',
        'component/optimization_ifc.cpp', 'math/small_matrix_solve.cpp')

def tus(files):
    """(name, path, emit prefixes, inst, extra include dirs)"""
    r = [('drv_core', os.path.join(VERIF, 'drivers', 'core.cpp'), [''], True, ['parser', 'math'])]
    for f in files:
        if not f.endswith('.cpp') or f.startswith(SKIP) or 'orgimplement' in f or f == 'configuration/no_print.cpp':
            continue
        d = os.path.dirname(f)
        emit = [f]
        top = d
        if d.startswith('applications/modules/'):
            top = '/'.join(d.split('/')[:3])
        emit.append(top + '/')
        if f.startswith('applications/'):
            emit.append('applications/')
        incs = [d, 'math', 'parser', 'parser/parser_classes', 'parser/block_parsers', 'partition']
        if d.startswith('applications/modules/dynamic_simulation'):
            incs = [d, top, top + '/base_classes', top + '/model_classes'] + incs[1:]
        if d == 'applications/dynamic_simulation_dae':
            incs += ['applications/modules/dynamic_simulation_dae' + x for x in ('', '/base_classes', '/model_classes')]
        r.append((f.replace('/', '__')[:-4], SRC + f, emit, f.startswith(('math/', 'partition/')), incs))
    return r

def sha(b):
    return hashlib.sha256(b).hexdigest()

_hash = {}
def fhash(rel):
    if rel not in _hash:
        try:
            with open(SRC + rel, 'rb') as fh:
                _hash[rel] = sha(fh.read())
        except OSError:
            _hash[rel] = 'missing'
    return _hash[rel]

def extract(verbose=False):
    tool = build_tool()
    os.makedirs(CACHE + '/tu', exist_ok=True)
    jobs = []
    files = repo_files()
    listing = sha('\n'.join(files).encode())
    outs = []
    for name, path, emit, inst, incs in tus(files):
        args = [SRC, None, path] + (['-inst'] if inst else [])
        for e in emit:
            args += ['-emit', e]
        flags = INC + ['-I' + SRC[:-1]] + ['-I' + SRC + x for x in incs]
        for s in SYS:
            flags += ['-isystem', s]
        out = CACHE + '/tu/' + name + '.jsonl'
        key = sha(('\n'.join(map(str, args)) + '\n'.join(flags) + tool + sha(open(path, 'rb').read())).encode())
        meta = out + '.key'
        ok = False
        try:
            m = json.load(open(meta))
            ok = m['key'] == key and os.path.exists(out) and all(fhash(d) == h for d, h in m['deps'].items())
        except (OSError, ValueError, KeyError):
            pass
        outs.append((name, out, path))
        if not ok:
            jobs.append((name, out, path, args, flags, key, meta))
    def run(j):
        name, out, path, args, flags, key, meta = j
        tmp = out + '.tmp%d' % os.getpid()
        a = [tool] + args + ['--'] + flags
        a[2] = tmp
        r = subprocess.run(a, capture_output=True, text=True, cwd='/')
        try:
            with open(tmp, 'rb') as fh:
                fh.seek(0, 2)
                n = fh.tell()
                fh.seek(max(0, n - 200000))
                last = fh.read().decode().rstrip('\n').split('\n')[-1]
            end = json.loads(last)
            assert end['k'] == 'End'
        except Exception:
            return (name, 'extractor failed: ' + r.stderr[-800:])
        if 'fatal error' in r.stderr:
            return (name, 'fatal: ' + [x for x in r.stderr.split('\n') if 'fatal error' in x][0])
        os.rename(tmp, out)
        json.dump({'key': key, 'deps': {d: fhash(d) for d in end['deps']}, 'errors': end['errors']}, open(meta + '.tmp%d' % os.getpid(), 'w'))
        os.rename(meta + '.tmp%d' % os.getpid(), meta)
        if verbose:
            print(name, end['errors'], os.path.getsize(out))
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        raise ToolError('extraction failed: ' + '; '.join('%s: %s' % e for e in errs[:5]))
    return outs, len(jobs)

class Fn(object):
    __slots__ = ('h', 'raw', '_b', 'f', 'q', 'n', 'file', 'l', 'cls', 'inst', 'tu')
    def __init__(self, h, raw, tu):
        self.h = h; self.raw = raw; self._b = None; self.tu = tu
        self.f = h['f']; self.q = h['q']; self.n = h['n']; self.file = h['file']; self.l = h['l']
        self.cls = h.get('cls'); self.inst = bool(h.get('ti'))
    @property
    def body(self):
        if self._b is None:
            self._b = json.loads(self.raw)
            self.raw = None
        return self._b
    @property
    def b(self):
        return self.body.get('b')
    @property
    def inits(self):
        return self.body.get('inits', [])
    @property
    def ps(self):
        return self.h.get('ps', [])
    @property
    def isctor(self):
        return self.h.get('sp') == 'ctor'
    @property
    def isdtor(self):
        return self.h.get('sp') == 'dtor'
    def __repr__(self):
        return '<%s %s:%d>' % (self.f, self.file, self.l)

class DB(object):
    def __init__(self):
        self.fns = {}      # f -> Fn
        self.byq = {}      # qualified name -> [Fn]
        self.recs = {}     # q -> Rec
        self.enums = {}
        self.enumval = {}
        self.files = set()
        self.subs = {}     # class -> direct derived
        self.tus = 0
    def finish(self):
        for fn in self.fns.values():
            self.byq.setdefault(fn.q, []).append(fn)
            self.files.add(fn.file)
        for r in self.recs.values():
            for b in r['bases']:
                self.subs.setdefault(b, []).append(r['q'])
        self.methods = {}
        for fn in self.fns.values():
            if fn.cls:
                self.methods.setdefault(fn.cls, []).append(fn)
        self._over = {}
    def rec(self, q):
        return self.recs.get(q)
    def bases(self, q, seen=None):
        """all (transitive) bases, nearest first"""
        out = []
        todo = [q]
        while todo:
            r = self.recs.get(todo.pop(0))
            if not r:
                continue
            for b in r['bases']:
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out
    def derived(self, q):
        out = []
        todo = [q]
        while todo:
            for s in self.subs.get(todo.pop(0), []):
                if s not in out:
                    out.append(s)
                    todo.append(s)
        return out
    def find(self, q):
        """functions by qualified name"""
        return self.byq.get(q, [])
    def fields(self, q, inherited=False):
        r = self.recs.get(q)
        out = [f for f in r['fields'] if not f.get('static')] if r else []
        return out
    def callee(self, n):
        """function definition(s) a call node resolves to statically (no dispatch)"""
        fn = self.fns.get(n.get('f'))
        if fn:
            return fn
        c = self.byq.get(n.get('q'), [])
        if len(c) == 1:
            return c[0]
        na = len(n.get('a', []))
        c = [x for x in c if len(x.ps) == na]
        return c[0] if len(c) == 1 else None
    def dispatch(self, n):
        """definitions a call may reach, with virtual dispatch by class hierarchy"""
        out = []
        c = self.callee(n)
        if c:
            out.append(c)
        q = n.get('q')
        if q and n['k'] == 'MCall' and '::' in q:
            cls, name = q.rsplit('::', 1)
            sig = n.get('f', '')[len(q):]
            ck = (cls, name, sig)
            if ck not in self._over:
                l = []
                for d in self.derived(cls):
                    for x in self.methods.get(d, []):
                        if x.n == name and x.f[len(x.q):] == sig:
                            l.append(x)
                self._over[ck] = l
            for x in self._over[ck]:
                if x not in out:
                    out.append(x)
        return out

_db = None
def load(verbose=False):
    global _db
    if _db:
        return _db
    t = time.time()
    outs, njobs = extract(verbose)
    db = DB()
    db.extracted = njobs
    db.tus = len(outs)
    for name, out, path in outs:
        rp = os.path.relpath(path, SRC)
        with open(out, encoding='utf-8', errors='replace') as fh:
            for line in fh:
                if line.startswith('{"k":"Fn"'):
                    head, body = line.rstrip('\n').split('\t', 1)
                    h = json.loads(head)
                    fn = Fn(h, body, name)
                    old = db.fns.get(fn.f)
                    if old is None or (fn.inst and not old.inst):
                        if old is not None and old.file != fn.file:
                            # same id in two files (file-local or per-program): keep both
                            fn2 = fn.f + '@' + fn.file
                            fn.f = fn2
                        db.fns[fn.f] = fn
                    elif old.file != fn.file:
                        fn.f = fn.f + '@' + fn.file
                        db.fns.setdefault(fn.f, fn)
                elif line.startswith('{"k":"Rec"'):
                    r = json.loads(line)
                    old = db.recs.get(r['q'])
                    if old is None:
                        db.recs[r['q']] = r
                elif line.startswith('{"k":"Enum"'):
                    r = json.loads(line)
                    db.enums[r['q']] = r
                    for n, v in r['c']:
                        db.enumval[n] = v
    db.finish()
    db.load_s = time.time() - t
    _db = db
    return db

if __name__ == '__main__':
    t = time.time()
    db = load('-v' in sys.argv)
    print('tus %d extracted %d functions %d records %d files %d in %.1fs' % (db.tus, db.extracted, len(db.fns), len(db.recs), len(db.files), time.time() - t))
    if '-m' in sys.argv:
        have = db.files | set(r['file'] for r in db.recs.values())
        print('\n'.join(f for f in repo_files() if f not in have))
