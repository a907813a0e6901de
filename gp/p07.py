"""Dynamic-model (.dyr) records: for every model, the value stored under a key
is the same function of the same column of the record whether the record is
put in the data collection directly (parse) or travels through the transport
struct (store on the reading process, extract on the owning one)."""
import engine
from engine import show, mentions, const
EXPLAIN = ("For every class template with parse/store/extract members taking a token vector and a DataCollection, the three "
  "bodies (helpers inlined) are interpreted over terms: which column expression reaches which key (parse), which struct field (store), "
  "and which struct field reaches which key (extract). extract composed with store must equal parse, key by key.")
DC = 'gridpack::component::DataCollection::'

def strip(t):
    """value terms modulo representation changes of a string"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'call':
        n = str(t[1]).split('::')[-1]
        if n in ('c_str', 'data', 'str') and len(t) >= 3:
            return strip(t[2])
        if n in ('trimQuotes', 'clean2Char', 'toUpper', 'toLower', 'trim'):
            args = [a for a in t[3:] if not (isinstance(a, tuple) and a[0] == '@')]
            return ('call', n, ('noobj',)) + tuple(strip(a) for a in args)
        if n in ('atof', 'atoi', 'strtod', 'strtol', 'stod', 'stoi'):
            n = {'strtod': 'atof', 'stod': 'atof', 'strtol': 'atoi', 'stoi': 'atoi'}.get(n, n)
            return ('call', n, ('noobj',), strip(t[3]))
        return t
    if t[0] == 'hav' and isinstance(t[2], tuple) and t[2][0] == 'out':
        return t
    if t[0] == 'ctor' and len(t) >= 3 and 'string' in str(t[1]):
        return strip(t[2])
    if t[0] == 'cast':
        v = strip(t[2])
        if t[1] == 'int' and v[0] == 'call' and v[1] == 'atof':
            return ('call', 'atoi') + v[2:]
        return v
    return tuple(strip(x) if isinstance(x, tuple) else x for x in t)

class I(engine.Interp):
    def __init__(self, db):
        engine.Interp.__init__(self, db)
        self.dc = []       # (op, key, value, idx, type, presence, guard, node, where)
        self.probes = []
        self.final = []
        self.st = []       # (field, value, guards, node)
        self.struct = None
    def should_inline(self, fn, node, st):
        return fn.q.startswith('gridpack::parser::')
    def mergekey(self, st):
        return ()
    def on_call(self, n, obj, args, st):
        q = n.get('q') or ''
        name = n.get('n')
        if name in ('addValue', 'setValue', 'getValue') and (q.startswith(DC) or n.get('unres')):
            ty = None
            f = n.get('f', '')
            if f.startswith(q + '('):
                ty = f[len(q) + 1:].rstrip('c').rstrip(')').split(',')[1:2]
                ty = ty[0] if ty else None
            a = [self.load(x[1], st) if x[0] == 'ref' else x for x in args]
            key = strip(a[0]) if a else None
            idx = a[2] if len(a) > 2 else ('none',)
            k = kind(ty)
            slot = ('dc', key, idx)
            if name == 'getValue':
                self.probes.append((key, idx, k, n, self.where(n)))
                lv = args[1][1] if len(args) > 1 and args[1][0] == 'addr' else None
                if lv is not None:
                    st.env[lv] = ('stored', key)
                return ('call', 'DC::has', key, k or '', idx)
            val = strip(a[1]) if len(a) > 1 else None
            p, gt = has_guard(st.guards, key, idx, st)
            self.dc.append((name, key, val, idx, k, p, gt, n, self.where(n)))
            if not (name == 'addValue' and slot in st.env and st.env[slot][0] != 'phi' and False):
                st.env[slot] = ('val', val, k or '')
            return ('void',)
        if name in ('strcpy', 'strncpy', 'sprintf', 'snprintf', 'memcpy') and args:
            d = args[0]
            v = args[1] if name.startswith(('str', 'mem')) else args[-1]
            if d[0] == 'addr':
                d = d[1]
            if d[0] == 'elem' and d[2] == ('int', 0):
                d = d[1]
            self.on_store(d, v, n, st)
            st.env[d] = v
            return ('void',)
        if name == 'toUpper' or name == 'toLower' or name == 'trim':
            if args and args[0][0] == 'ref':
                lv = args[0][1]
                st.env[lv] = ('call', name, ('noobj',), self.load(lv, st))
                return ('void',)
        return None
    def call1(self, n, obj, vs, s, out):
        # string helpers take their argument by non-const reference but only
        # read it (trimQuotes, clean2Char): keep the argument's value
        if n.get('n') in ('trimQuotes', 'clean2Char'):
            vs2 = tuple(self.load(x[1], s) if x[0] == 'ref' else x for x in vs)
            return [(s, ('call', n['n'], ('noobj',)) + vs2)]
        return engine.Interp.call1(self, n, obj, vs, s, out)
    def on_store(self, lv, val, node, st):
        l = lv
        while l[0] == 'elem':
            l = l[1]
        if self.struct is not None and l[0] == 'fld' and l[1] == self.struct:
            self.st.append((l[2], val, st.guards, node, self.where(node)))

def cols(t):
    out = set()
    for x in engine.subterms(t):
        if isinstance(x, tuple) and x[0] == 'elem' and x[1] == ('TOK',) and const(x[2]) is not None:
            out.add(x[2][1])
    return out

def canon(t):
    return show(strip(t))

def models(db):
    out = {}
    for fn in db.fns.values():
        if fn.cls and fn.file.startswith('parser/parser_classes/') and fn.n in ('parse', 'store', 'extract'):
            out.setdefault(fn.cls, {})[fn.n] = fn
    return out

def run(db, fn, roles):
    it = I(db)
    args = []
    for p in fn.ps:
        t = p['t']
        if 'vector' in t and 'string' in t:
            args.append(('ref', ('TOK',)))
        elif 'DataCollection' in t:
            args.append(('addr', ('DATA',)))
        elif t.endswith('int') or t == 'int &':
            args.append(('IDX',))
        else:
            args.append(('ref', ('STRUCT',)))
            it.struct = ('STRUCT',)
    it.final = [x[1] for x in it.run(fn, args=args)]
    return it

def keyname(k):
    return k[1] if isinstance(k, tuple) and k[0] == 'str' else show(k)

def has_guard(guards, key, idx, st=None):
    """presence of key known on the path: (polarity, guard term)"""
    for t, p in guards:
        if t[0] == 'call' and t[1] == 'DC::has' and t[2] == key:
            return p, t
    return None, None

KIND = {'int': 'int', 'double': 'double', 'bool': 'bool', 'float': 'float', 'long': 'long', 'const char *': 'str'}
def kind(ty):
    if ty is None: return None
    t = ty.replace('&', '').replace('const ', '', 1).strip()
    if 'basic_string' in ty or 'char' in ty: return 'str'
    if 'complex' in ty: return 'complex' + ('f' if 'float' in ty else 'd')
    t = t.replace('*', '').strip()
    return t

def analyse(db, res):
    res.rule('R1 same column', 'for each key, the column expression of parse equals the composition extract(store)')
    res.rule('R2 add/set agree', 'the value and device index written when the key is new equal those written when it already exists')
    res.rule('R3 probe type', 'presence of a key is probed with the type it is stored with')
    res.rule('R4 distinct columns', 'two keys of one model never take their values from the same column')
    res.rule('R5 every key both ways', 'parse and extract write the same set of keys')
    res.rule('R6 device index', 'every per-device key is written at the index of the device the record names')
    ms = models(db)
    res.floor('models', 28); res.floor('keys', 500); res.floor('struct_fields', 450); res.floor('writes', 2000)
    for cls, m in sorted(ms.items()):
        short = cls.split('::')[-1]
        if set(m) != {'parse', 'store', 'extract'}:
            continue
        res.count('models')
        P = run(db, m['parse'], 'p'); S = run(db, m['store'], 's'); E = run(db, m['extract'], 'e')
        tab = {}
        for nm, it in (('parse', P), ('extract', E)):
            fnm = '%s::%s' % (short, nm)
            idxparam = any(p['t'] == 'int' for p in m[nm].ps)
            d = {}
            for op, key, val, idx, ty, p, gt, n, wh in it.dc:
                if key is None or key[0] != 'str':
                    res.count('dynamic_keys')
                    continue
                res.count('writes')
                file, line = wh.split(':')
                k = keyname(key)
                d.setdefault(k, {'where': wh, 'types': set(), 'vals': set(), 'ops': set()})
                d[k]['types'].add(ty); d[k]['ops'].add(op)
                if p is not None:
                    if (op == 'addValue') == p:
                        res.report('R2 add/set agree', file, line, fnm, 'key %s: %s on the path where it %s' % (k, op, 'exists' if p else 'does not exist'))
                    if gt[3] and ty and gt[3] != ty:
                        res.report('R3 probe type', file, line, fnm, 'key %s probed as %s but written as %s' % (k, gt[3], ty))
                    if gt[4] != idx:
                        res.report('R6 device index', file, line, fnm, 'key %s probed at index %s, written at %s' % (k, show(gt[4]), show(idx)))
                if idxparam and idx != ('IDX',):
                    res.report('R6 device index', file, line, fnm, 'key %s written at index %s instead of the device index' % (k, show(idx)))
            # values on exit
            for st in it.final:
                for slot, v in st.env.items():
                    if slot[0] != 'dc' or slot[1][0] != 'str':
                        continue
                    k = keyname(slot[1])
                    for x in (v[1:] if v[0] == 'phi' else (v,)):
                        if x[0] == 'val':
                            d[k]['vals'].add(x[1])
            for k, e in sorted(d.items()):
                res.count('keys')
                file, line = e['where'].split(':')
                c = set(canon(v) for v in e['vals'] if 'stored' not in canon(v))
                e['canon'] = c
                if len(c) > 1:
                    res.report('R2 add/set agree', file, line, fnm, 'key %s ends as %s depending on whether it existed' % (k, ' or '.join(sorted(c))))
                if e['ops'] == {'setValue'}:
                    res.report('R2 add/set agree', file, line, fnm, 'key %s is only ever overwritten, never created' % k)
                if len(e['types']) > 1:
                    res.report('R3 probe type', file, line, fnm, 'key %s written with types %s' % (k, '/'.join(sorted(map(str, e['types'])))))
            tab[nm] = d
        # store: field -> column
        sf = {}
        for st in S.final:
            for lv, v in st.env.items():
                if lv[0] == 'fld' and lv[1] == ('STRUCT',):
                    for x in (v[1:] if v[0] == 'phi' else (v,)):
                        if x != lv:
                            sf.setdefault(lv[2], set()).add(canon(x))
        swh = {}
        for f, v, g, n, wh in S.st:
            swh[f] = wh
        res.count('struct_fields', len(sf))
        for f, vs in sorted(sf.items()):
            if len(vs) > 1:
                file, line = swh.get(f, '?:0').split(':')
                res.report('R1 same column', file, line, short + '::store', 'field %s filled from %s' % (f, ' or '.join(sorted(vs))))
        kp, ke = set(tab['parse']), set(tab['extract'])
        for k in sorted(kp - ke):
            file, line = tab['parse'][k]['where'].split(':')
            res.report('R5 every key both ways', file, line, short + '::extract', 'key %s is set by parse but not by extract' % k)
        for k in sorted(ke - kp):
            file, line = tab['extract'][k]['where'].split(':')
            res.report('R5 every key both ways', file, line, short + '::parse', 'key %s is set by extract but not by parse' % k)
        bycol = {}
        for k in sorted(kp):
            for v in tab['parse'][k]['vals']:
                for c in cols(v):
                    bycol.setdefault(c, set()).add(k)
        for c, ks in sorted(bycol.items()):
            if len(ks) > 1:
                file, line = tab['parse'][sorted(ks)[-1]]['where'].split(':')
                res.report('R4 distinct columns', file, line, short + '::parse', 'column %d feeds keys %s' % (c, ', '.join(sorted(ks))))
        fcol = {}
        for f, vs in sf.items():
            for c in vs:
                fcol.setdefault(c, set()).add(f)
        for c, fs in sorted(fcol.items()):
            if len(fs) > 1 and 'TOK' in c:
                file, line = swh.get(sorted(fs)[-1], '?:0').split(':')
                res.report('R4 distinct columns', file, line, short + '::store', 'column %s feeds fields %s' % (c, ', '.join(sorted(fs))))
        byfld = {}
        for k in sorted(ke):
            for val in tab['extract'][k]['vals']:
                for x in engine.subterms(val):
                    if isinstance(x, tuple) and x[0] == 'fld' and x[1] == ('STRUCT',):
                        byfld.setdefault(x[2], set()).add(k)
        for f, ks in sorted(byfld.items()):
            if len(ks) > 1:
                file, line = tab['extract'][sorted(ks)[-1]]['where'].split(':')
                res.report('R4 distinct columns', file, line, short + '::extract', 'field %s feeds keys %s' % (f, ', '.join(sorted(ks))))
        for f in sorted(set(sf) - set(byfld)):
            if f not in ('bus_id', 'gen_id', 'id', 'model', 'from_bus', 'to_bus'):
                file, line = swh.get(f, '?:0').split(':')
                res.report('R5 every key both ways', file, line, short + '::extract', 'field %s is filled by store but never extracted' % f)
        for k in sorted(kp & ke):
            pv = tab['parse'][k]['canon']
            ev = set()
            file, line = tab['extract'][k]['where'].split(':')
            for v in tab['extract'][k]['vals']:
                if v[0] == 'elem' and v[2] == ('int', 0): v = v[1]
                if v[0] == 'fld' and v[1] == ('STRUCT',):
                    if v[2] not in sf:
                        if v[2] not in ('model', 'gen_id', 'id', 'bus_id', 'from_bus', 'to_bus'):
                            res.report('R1 same column', file, line, short + '::extract', 'key %s read from field %s which store never fills' % (k, v[2]))
                        continue
                    ev |= sf[v[2]]
                elif 'stored' not in canon(v):
                    ev.add(canon(v))
            pt = tab['parse'][k]['types'] - {None}; et = tab['extract'][k]['types'] - {None}
            if pt and et and pt != et:
                res.report('R3 probe type', file, line, short + '::extract', 'key %s stored as %s by extract, as %s by parse' % (k, '/'.join(sorted(et)), '/'.join(sorted(pt))))
            if ev and pv != ev:
                res.report('R1 same column', file, line, short, 'key %s: parse takes %s, store/extract takes %s' % (k, '/'.join(sorted(pv)), '/'.join(sorted(ev))))
            res.count('keys_compared')
