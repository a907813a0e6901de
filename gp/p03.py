"""Global arrays, registered types, groups, communicators, files and scratch memory are released."""
import engine
from engine import walk, calls
from res import ResI, has
EXPLAIN = """Every function that obtains or releases a distributed array, registered type, process group, communicator, file or memory
block is interpreted path by path over the clang AST (callees that do the same are inlined). Carried facts: what is held, what has
been released, which sections of an array are locked for access. On every normal return what is held has been released, stored in
the owning object or returned; nothing released is used or released again; an owning class releases what it stores."""
ACQ = {'GA_Create_handle': [('array', 'ret')], 'NGA_Create_handle': [('array', 'ret')], 'GA_Duplicate': [('array', 'ret')], 'NGA_Register_type': [('type', 'ret')], 'GA_Pgroup_create': [('group', 'ret')],
 'MPI_Comm_dup': [('communicator', 1)], 'MPI_Comm_split': [('communicator', 3)], 'MPI_Comm_create': [('communicator', 2)], 'fopen': [('file', 'ret')]}
REL = {'GA_Destroy': [('array', 0)], 'NGA_Destroy': [('array', 0)], 'NGA_Deregister_type': [('type', 0)], 'GA_Pgroup_destroy': [('group', 0)], 'MPI_Comm_free': [('communicator', 0)], 'fclose': [('file', 0)]}

class I(ResI):
    ACQ = ACQ; REL = REL
    def __init__(self, db, only):
        ResI.__init__(self, db, only)
        self.forms = {}        # member -> {array form} of new, and of delete
    def gone(self, st, kind, v, n, q):
        if not (v[0] in ('res', 'new') or self.isfield(v)): return
        for x in st.facts:
            if x[0] == 'x' and x[1] == kind and x[2] == v: self.rep.append(('twice', n, kind, q, self.fn))
        st.facts |= {('x', kind, v, n.get('l'), q)}
    def on_store(self, lv, val, node, st):
        if self.isfield(lv) and val[0] == 'new': self.forms.setdefault((lv[2], 'new'), set()).add(val[4] is not None)
        self.drop(st, lambda x: x[0] == 'x' and x[2] == lv)
        ResI.on_store(self, lv, val, node, st)
    def on_new(self, n, st, val):
        self.drop(st, lambda x: x[0] == 'x' and x[2] == val)
        if not n.get('arr'): return
        self.stat('buffers')
        st.facts |= {('h', 'buffer', val, n.get('l'), 'new[]', self.fn)}
    def on_delete(self, n, st, val):
        lv = val
        if val[0] in ('ref', 'cast'): lv = val[-1]
        if val[0] == 'ref': val = self.load(val[1], st)
        self.rawdel(n, st, val)
        v = val
        while v[0] == 'cast': v = v[-1]
        if v[0] == 'new' and (v[4] is not None) != bool(n.get('arr')): self.rep.append(('form', n, 'block', 'new', self.fn))
        if self.isfield(v): self.forms.setdefault((v[2], 'del'), set()).add(bool(n.get('arr')))
        self.gone(st, 'buffer', v, n, 'delete')
        self.drop(st, lambda x: x[0] == 'h' and x[1] == 'buffer' and has(val, x[2]))
    def rawdel(self, n, st, val):
        for x in walk(n['e'] if 'e' in n else n):
            if x['k'] == 'Mem' and x.get('b', {}).get('k') == 'This':
                self.fieldrel.add((x['n'], 'buffer'))
                if 'arr' in n: st.facts |= {('r', 'buffer', x['n'], 0, 'delete')}
                break
    def on_call(self, n, obj, args, st):
        q = n.get('q') or ''
        if q == 'NGA_Access':
            g = self.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            st.facts |= {('h', 'access', ('acc', g), n.get('l'), q, self.fn)}
        if q in ('NGA_Release', 'NGA_Release_update'):
            g = self.load(args[0][1], st) if args[0][0] == 'ref' else args[0]
            self.drop(st, lambda x: x[0] == 'h' and x[2] == ('acc', g))
        vals = [self.load(a[1], st) if a[0] == 'ref' else a for a in args]
        if q not in REL and q.startswith(('GA_', 'NGA_', 'MPI_', 'f')):
            for v in vals:
                for x in st.facts:
                    if x[0] == 'x' and x[1] != 'buffer' and (v == x[2] or v == ('addr', x[2])): self.rep.append(('after', n, x[1], q, self.fn))
        for kind, i in REL.get(q, ()):
            v = self.load(args[i][1], st) if args[i][0] in ('ref', 'addr') else args[i]
            self.gone(st, kind, v, n, q)
        for kind, i in ACQ.get(q, ()):
            t = ('res', kind, q, self.where(n), i)
            self.drop(st, lambda x: x[0] == 'x' and x[2] == t)
            if i != 'ret' and args[i][0] == 'addr': self.drop(st, lambda x: x[0] == 'x' and x[2] == args[i][1])
        if n['k'] == 'MCall' and q.startswith('gridpack') and self.db.callee(n) is not None and not self.should_inline(self.db.callee(n), n, st):
            self.drop(st, lambda x: x[0] == 'x' and self.isfield(x[2]))
        return ResI.on_call(self, n, obj, args, st)

WHAT = {'leak': ('H1 released', 'a %s from %s is not released on every path'), 'again': ('H1 released', 'a %s from %s is obtained again while held'),
 'twice': ('H3 not after release', 'a %s is released twice (%s)'), 'after': ('H3 not after release', 'a %s is used by %s after it was released'),
 'form': ('H4 matching form', 'a %s from %s is released in the other form (array or single)')}

def analyse(db, res):
    res.rule('H1 released', 'a distributed array, registered type, process group, communicator, file, memory block or access lock obtained into a local is released, stored or returned on every normal path, and not obtained again while held')
    res.rule('H2 owner releases', 'what a class obtains into a member is released by a member function of the class')
    res.rule('H3 not after release', 'no path uses or releases what it has already released')
    res.rule('H5 released before renewal', 'a member function that releases one of the members it obtains again releases all of them')
    res.rule('H4 matching form', 'array blocks are released as arrays, single objects as single objects, and a single object is not indexed')
    touch = set()
    for f in db.fns.values():
        if f.b is None or '/test/' in f.file: continue
        if any((n.get('q') or '') in ACQ or (n.get('q') or '') in REL for n in calls(f.b)): touch.add(f.f)
    acq = {}; rel = set(); forms = {}; renew = {}
    for f in db.fns.values():
        if f.b is None or '/test/' in f.file: continue
        if f.f not in touch and not any(n['k'] in ('New', 'Del') for n in walk(f.b)): continue
        it = I(db, touch)
        it.run(f)
        for k, v in it.stats.items(): res.count(k, v)
        res.count('functions')
        for what, n, kind, q, fn in it.rep:
            rule, txt = WHAT[what]
            res.report(rule, fn.file, n['l'], sh(fn), txt % (kind, q))
        for fld, kind, n, fn, before in it.fieldacq:
            if fn.cls: acq.setdefault((fn.cls, fld), (kind, n, fn))
            if not f.isctor and not f.isdtor: renew.setdefault(f, {}).setdefault((fld, kind), (set(), n, fn))[0].add(before)
        for fld, kind in it.fieldrel: rel.add((f.cls, fld))
        for (fld, w), v in it.forms.items():
            forms.setdefault((f.cls, fld), {}).setdefault(w, set()).update(v)
            forms[(f.cls, fld)].setdefault('fn', f)
        # a pointer local initialized with a single object and indexed
        one = {x['id']: x for x in walk(f.b) if x['k'] == 'Var' and x.get('i', {}).get('k') == 'New' and not x['i'].get('arr')}
        for x in walk(f.b):
            if x['k'] == 'Sub' and x['b'].get('k') == 'Ref' and x['b'].get('id') in one:
                res.report('H4 matching form', f.file, one[x['b']['id']]['l'], sh(f), 'a single object is indexed as an array'); break
    for (c, fld), (kind, n, fn) in acq.items():
        res.count('member_handles')
        if (c, fld) not in rel:
            res.report('H2 owner releases', fn.file, n.get('l'), sh(fn), 'member %s holds a %s that no member function releases' % (fld, kind))
    for f, d in renew.items():
        # a function that releases some of what it is about to obtain again is run repeatedly
        if not any(True in b for b, n, fn in d.values()): continue
        res.count('renewals', len(d))
        for (fld, kind), (b, n, fn) in d.items():
            if True not in b:
                res.report('H5 released before renewal', fn.file, n.get('l'), sh(fn), 'member %s obtains another %s without releasing the one it holds' % (fld, kind))
    for (c, fld), d in forms.items():
        if 'new' in d and 'del' in d:
            res.count('member_blocks')
            if d['new'] != d['del']:
                res.report('H4 matching form', d['fn'].file, d['fn'].l, c or '', 'member %s is obtained and released in different forms' % fld)
    for k, v in (('acquisitions', 150), ('buffers', 400), ('functions', 170), ('member_handles', 50), ('releases', 130), ('member_blocks', 30)): res.floor(k, v)

def sh(f): return f.q.replace('gridpack::', '')
