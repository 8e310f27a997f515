"""Replays behaviours of spec/NcFile.tla: the dataset is written with the reference library, then read through the code under test."""
import os, re, signal, threading
from ctypes import byref, c_int
from multiprocessing import get_context
from vlib import *
from vlib import _h
import nclib, storage
from nclib import ck, sizes

NINV = ['Listed', 'Stepwise', 'ShapesAgree', 'InScope', 'OneAnswer']
NPROP = ['ReadOnly']


# --------------------------------------------------------------------------- values

def mix(u, tok, k):
    """As in Copy.tla: the values of the parts of an element."""
    return (tok * 31 + k * 17 + u * 101 + 7) % 9973


class Values:
    """Types and values of a behaviour."""
    def __init__(self, tr):
        self.tr, self.layout = tr, {}

    def struct(self, ref):
        """The type as nclib.py wants it; ids are the numbers of the behaviour."""
        if not ref['u']:
            return [ref['b']]
        u = ref['u']
        if u in self.layout:
            return self.layout[u]
        t = self.tr['typ'][u - 1]
        if t['k'] == 'enum':
            w = WIDTH[t['base']]
            r = ['enum', u, t['base'], [[m['n'], '%0*x' % (2 * w, m['v'] & ((1 << 8 * w) - 1))] for m in t['members']]]
        elif t['k'] == 'opaque':
            r = ['opaque', u, t['size']]
        elif t['k'] == 'vlen':
            r = ['vlen', u, self.struct(t['of'])]
        else:
            off, fs, al = 0, [], 1
            pad = t['pad']
            for i in t['ord']:
                i, f = i - 1, t['fields'][i - 1]
                ft = self.struct(f['t'])
                a = nclib.align(ft) if pad != 'packed' else 1
                al = max(al, a)
                if pad == 'loose':
                    off += _h('gap', u, i) % 9
                off = (off + a - 1) // a * a
                fs.append((i, [f['n'], off, ft, f['d']]))
                n = nclib.tsize(ft)
                for d in f['d']:
                    n *= d
                off += n
            if pad == 'loose':
                off += _h('tail', u) % 9
            off = (off + al - 1) // al * al
            r = ['compound', u, off, [f for _, f in sorted(fs)]]
        self.layout[u] = r
        return r

    def val(self, ref, tok, k):
        """One element."""
        if not ref['u']:
            return storage.value(ref['b'], tok, k)
        t = self.tr['typ'][ref['u'] - 1]
        h = mix(ref['u'], tok, k)
        if t['k'] == 'enum':
            m = self.struct(ref)[3]
            return m[h % len(m)][1]
        if t['k'] == 'opaque':
            return ''.join('%016x' % _h('o', h, i) for i in range(t['size'] // 8 + 1))[:2 * t['size']]
        if t['k'] == 'vlen':
            return [self.val(t['of'], h, i) for i in range(h % 4)]
        out = []
        for i, f in enumerate(t['fields']):
            n = 1
            for d in f['d']:
                n *= d
            vs = [self.val(f['t'], h + i, j) for j in range(n)]
            out.append(vs if f['d'] else vs[0])
        return out

    def go(self, ref):
        if not ref['u']:
            return 'string' if ref['b'] == 'char' else ref['b']
        t = self.tr['typ'][ref['u'] - 1]
        return '[]' + self.go(t['of']) if t['k'] == 'vlen' else 'U'

    def enc(self, ref, v):
        """What the driver says of one element."""
        if not ref['u']:
            return {'T': self.go(ref), 'V': 's:' + v if ref['b'] == 'char' else v}
        t = self.tr['typ'][ref['u'] - 1]
        if t['k'] == 'enum':
            return {'T': 'U', 'V': {'enum': {'T': t['base'], 'V': v}}}
        if t['k'] == 'opaque':
            return {'T': 'U', 'V': v}
        if t['k'] == 'vlen':
            es = [self.enc(t['of'], x)['V'] for x in v]
            return {'T': self.go(ref), 'V': ''.join(es) if self.go(t['of']) in WIDTH else es}
        return {'T': 'U', 'V': {'compound': [[f['n'], self.array(f['t'], f['d'], x) if f['d'] else self.enc(f['t'], x)]
                                             for f, x in zip(t['fields'], v)]}}

    def array(self, ref, shape, elems):
        if not shape:
            return self.enc(ref, elems[0])
        if ref['b'] == 'char':
            return storage.nested('char', shape, elems)
        t = self.tr['typ'][ref['u'] - 1] if ref['u'] else {'k': ''}
        if t['k'] == 'enum':
            return {'T': 'U', 'V': {'enum': storage.nested(t['base'], shape, elems)}}
        es = [self.enc(ref, e)['V'] for e in elems]

        def build(sh, lo, n):
            if len(sh) == 1:
                part = es[lo:lo + sh[0]]
                return ''.join(part) if self.go(ref) in WIDTH else part
            k = n // sh[0] if sh[0] else 0
            return [build(sh[1:], lo + i * k, k) for i in range(sh[0])]
        return {'T': gotype(self.go(ref), len(shape)), 'V': build(shape, 0, len(es))}

    def elems(self, i):
        """The elements of variable i (counted from 1)."""
        v = self.tr['var'][i - 1]
        n = 1
        for s in self.tr['shapes'][i - 1]:
            n *= s
        return [self.val(v['t'], v['tok'], k) for k in range(n)]

    def var(self, i, b=None, e=None):
        v, sh, el = self.tr['var'][i - 1], self.tr['shapes'][i - 1], self.elems(i)
        if isinstance(b, list):
            idx = [0]
            for n, x, y in zip(sh, b, e):
                idx = [j * n + k for j in idx for k in range(x, y)]
            el, sh = [el[j] for j in idx], [y - x for x, y in zip(b, e)]
        elif b is not None and sh:
            k = len(el) // sh[0] if sh[0] else 0
            el, sh = el[b * k:e * k], [e - b] + sh[1:]
        if v['t']['b'] == 'char':
            return storage.nested('char', sh, el)
        return self.array(v['t'], sh, el)

    def att_elems(self, i):
        a = self.tr['att'][i - 1]
        return [self.val(a['t'], a['tok'], k) for k in range(a['len'])]

    def att(self, i):
        a, el = self.tr['att'][i - 1], self.att_elems(i)
        if a['t']['b'] == 'char':
            return {'T': 'string', 'V': 's:' + ''.join(el)}
        return self.enc(a['t'], el[0]) if len(el) == 1 else self.array(a['t'], [len(el)], el)


# --------------------------------------------------------------------------- writing

def make(job):
    path, tr, kind = job
    try:
        Maker(path, tr, kind).run()
        return None
    except nclib.NcError as e:
        return '%s' % e


class Maker:
    def __init__(self, path, tr, kind):
        self.path, self.tr, self.kind = path, tr, kind
        self.V = Values(tr)
        self.written = set()

    def gid(self, g):
        if g == 1:
            return self.w.id
        r, i = self.tr['grp'][g - 1], c_int()
        ck(self.w.l.nc_inq_ncid(self.gid(r['up']), r['n'].encode(), byref(i)), 'group ' + r['n'])
        return i.value

    def look(self, fn, g, n, what):
        i = c_int()
        ck(fn(self.gid(g), n.encode(), byref(i)), what + ' ' + n)
        return i.value

    def dimid(self, d):
        r = self.tr['dim'][d - 1]
        return self.look(self.w.l.nc_inq_dimid, r['g'], r['n'], 'dimension')

    def varid(self, v):
        r = self.tr['var'][v - 1]
        return self.look(self.w.l.nc_inq_varid, r['g'], r['n'], 'variable')

    def with_ids(self, t):
        """A type with the library's numbers."""
        if len(t) == 1:
            return t
        r = self.tr['typ'][t[1] - 1]
        i = self.look(self.w.l.nc_inq_typeid, r['g'], r['n'], 'type')
        return [t[0], i] + self.parts(t)

    def parts(self, t):
        if t[0] == 'vlen':
            return [self.with_ids(t[2])]
        if t[0] == 'compound':
            return [t[2], [[n, off, self.with_ids(ft), d] for n, off, ft, d in t[3]]]
        return t[2:]

    def flush(self):
        L = self.w.l
        if self.kind != 'hdf5':
            ck(L.nc_enddef(self.w.id), 'enddef')
        for h in self.tr['hist']:
            if h['op'] == 'reopen' and h is self.stop:
                break
            if h['op'] != 'var' or h['i'] in self.written:
                continue
            self.written.add(h['i'])
            v, sh = self.tr['var'][h['i'] - 1], self.tr['shapes'][h['i'] - 1]
            el = self.V.elems(h['i'])
            if not el:
                continue
            t = self.with_ids(self.V.struct(v['t']))
            b, keep = nclib.buffer(t, el)
            ck(L.nc_put_vara(self.gid(v['g']), self.varid(h['i']), sizes([0] * len(sh)), sizes(sh), b), 'put')

    def run(self):
        tr = self.tr
        self.w = nclib.Writer(self.path, {'hdf5': nclib.NETCDF4, 'cdf1': 0, 'cdf2': nclib.NC_64BIT, 'cdf5': nclib.NC_CDF5}[self.kind])
        L = self.w.l
        for h in tr['hist']:
            i = h['i']
            if h['op'] == 'reopen':
                self.stop = h
                self.flush()
                self.w.close()
                self.w = nclib.Writer.reopen(self.path)
                if self.kind != 'hdf5':
                    ck(L.nc_redef(self.w.id), 'redef')
            elif h['op'] == 'group':
                r = tr['grp'][i - 1]
                self.w.group(r['n'], self.gid(r['up']))
            elif h['op'] == 'dim':
                r = tr['dim'][i - 1]
                self.w.dim(r['n'], 0 if r['unlim'] else r['size'], self.gid(r['g']))
            elif h['op'] == 'type':
                r = tr['typ'][i - 1]
                t = self.V.struct({'b': '', 'u': i})
                nclib.def_type(self.w, r['n'], [t[0], 0] + self.parts(t), self.gid(r['g']))
            elif h['op'] == 'var':
                r = tr['var'][i - 1]
                t = self.with_ids(self.V.struct(r['t']))
                self.w.var(r['n'], nclib.typeid(t), [self.dimid(d) for d in r['dims']], g=self.gid(r['g']))
            elif h['op'] == 'att':
                r = tr['att'][i - 1]
                t = self.with_ids(self.V.struct(r['t']))
                b, keep = nclib.buffer(t, self.V.att_elems(i))
                ck(L.nc_put_att(self.gid(r['g']), self.varid(r['v']) if r['v'] else -1, r['n'].encode(), nclib.typeid(t),
                                nclib.c_size_t(r['len']), b), 'attribute')
            elif h['op'] == 'delatt':
                r = tr['att'][i - 1]
                ck(L.nc_del_att(self.gid(r['g']), self.varid(r['v']) if r['v'] else -1, r['n'].encode()), 'delete attribute')
        self.stop = None
        self.flush()
        self.w.close()


def forked(f, jobs, limit=30):
    """The results of f, in processes that may crash or hang (libnetcdf does): then the result is a message."""
    ctx = get_context('fork')
    res = [None] * len(jobs)

    def worker(lane):
        todo = list(range(lane, len(jobs), NCPU))
        while todo:
            r, w = ctx.Pipe(False)

            def child():
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                for i in todo:
                    signal.alarm(limit)
                    w.send((i, f(jobs[i])))
                os._exit(0)
            p = ctx.Process(target=child)
            p.start()
            w.close()
            try:
                while todo:
                    i, x = r.recv()
                    res[i] = x
                    todo.remove(i)
            except EOFError:
                p.join()
                res[todo.pop(0)] = 'stopped by signal %s' % (p.exitcode and -p.exitcode)
            p.join()
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(NCPU)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return res


def make_all(c, trs, kind):
    """[(path, behaviour)]"""
    jobs = []
    for t in trs:
        k = kind
        if kind == 'cdf':
            ty = {x['t']['b'] for x in t['var'] + t['att']}
            k = 'cdf5' if ty & {'uint8', 'uint16', 'uint32', 'int64', 'uint64'} else ['cdf1', 'cdf2', 'cdf5'][_h('kind', len(jobs)) % 3]
        jobs.append((c.path(), t, k))
    errs = forked(make, jobs)
    bad = [e for e in errs if e]
    for e in set(re.sub(r'\S+:', '', e) for e in bad):
        c.part('not written:' + e, sum(1 for x in bad if re.sub(r'\S+:', '', x) == e))
    if len(bad) > len(jobs) // 10:
        raise ToolError('libnetcdf cannot write %d of %d files: %s' % (len(bad), len(jobs), bad[:5]))
    return [j[:2] for j, e in zip(jobs, errs) if not e]


# --------------------------------------------------------------------------- reading

def plain(x):
    """Values without the names of the library's own types."""
    if isinstance(x, dict):
        return {k: re.sub(r'hdf5\.\w+', 'U', v) if k == 'T' and isinstance(v, str) else plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(y) for y in x]
    return x


def squeeze(s):
    return re.sub(r'\s+', ' ', s).strip() if isinstance(s, str) else s


class Wrong(Exception):
    def __init__(self, cat, what):
        self.cat, self.what = cat, what


def need(ok, cat, what, *a):
    if not ok:
        raise Wrong(cat, what % a if a else what)


class Judge:
    def __init__(self, tr, kind):
        self.tr, self.kind, self.V = tr, kind, Values(tr)

    def attrs(self, got, want, where):
        got = got or []
        if want and not want[0]['ord']:
            got, want = sorted(got, key=lambda g: g['name']), sorted(want, key=lambda w: w['n'].encode())
        need([g['name'] for g in got] == [w['n'] for w in want], 'attr', '%s: attributes %s, expected %s', where,
             [g['name'] for g in got], [w['n'] for w in want])
        for g, w in zip(got, want):
            a = self.tr['att'][w['i'] - 1]
            if self.kind != 'hdf5' and not a['len']:
                need(g['has'], 'attr', '%s: attribute %s is missing', where, w['n'])
                continue
            e = self.V.att(w['i'])
            need(g['has'] and plain(g['val']) == e, 'attr', '%s: attribute %s is %s, expected %s', where, w['n'], g['val'], e)
            if self.kind == 'hdf5':
                one = a['len'] == 1 or a['t']['b'] == 'char'
                need(g['type'] == w['cdl'] + ('' if one else '(*)') and g['gotype'] == ('' if one else '[]') + w['go'] or not a['len'], 'type',
                     '%s: types of attribute %s: %s and %s', where, w['n'], g['type'], g['gotype'])

    def value(self, got, i, where, b=None, e=None):
        want = self.V.var(i, b, e)
        char = self.tr['var'][i - 1]['t']['b'] == 'char'
        need(storage.same_value(got, want, 'char') if char else plain(got) == want, 'value', '%s is %s, expected %s', where, str(got)[:300], str(want)[:300])

    def info(self, r, w, where, dims='dims'):
        need((r['shape'] or []) == w['shape'] and r['len'] == (w['shape'][0] if w['shape'] else 1), 'dim', '%s: shape %s, length %s, expected %s',
             where, r['shape'], r['len'], w['shape'])
        need((r[dims] or []) == w['dims'], 'dim', '%s: dimensions %s, expected %s', where, r[dims], w['dims'])
        need(r['type'] in (w['cdl'], 'char' if self.tr['var'][w['i'] - 1]['t']['b'] == 'char' else w['cdl']) and r['gotype'] == w['go'], 'type',
             '%s: types %s and %s, expected %s and %s', where, r['type'], r['gotype'], w['cdl'], w['go'])

    def dims(self, got, want, where):
        got = got or []
        need(sorted(got) == sorted(w['n'] for w in want), 'list', '%s: dimensions %s, expected %s', where, got, [w['n'] for w in want])
        plain_ = [w['n'] for w in want if not w['coord'] or self.kind != 'hdf5']
        need([g for g in got if g in plain_] == plain_, 'list', '%s: dimensions listed as %s, created as %s', where, got, [w['n'] for w in want])

    def dimsize(self, got, d, where):
        ok = {d['size']}
        if d['unlim']:
            ok = set(range(d['size'] + 1))
        need(got in ok, 'dim', '%s: size %s, expected %s', where, got, d)

    def op(self, r, o, i):
        """One request and its answer."""
        k = r['op']
        where = '%s %s (request %d)' % (k, {x: y for x, y in r.items() if x not in ('want', 'op')}, i)
        need('panic' not in o and not died(o), 'crash', '%s: %s', where, o.get('panic') or o.get('stderr'))
        x = o['r']
        if k in ('listvars', 'listgroups', 'listtypes'):
            need((x or []) == r['want'], 'listtypes' if k == 'listtypes' else 'list', '%s: %s, expected %s', where, x, r['want'])
        elif k == 'listdims':
            self.dims(x, r['want'], where)
        elif k == 'attrs':
            self.attrs(x, r['want'], where)
        elif k == 'getdim':
            need(x[1] == r['found'], 'lookup', '%s: %s', where, x)
            if r['found']:
                self.dimsize(x[0], r['want'][0], where)
        elif k in ('gettype', 'getgotype'):
            need(x[1] == r['found'], 'lookup', '%s: %s', where, x)
            if r['found']:
                need(squeeze(x[0]) == squeeze(r['want']), 'type', '%s: %r, expected %r', where, x[0], r['want'])
        elif k in ('getvar', 'getter', 'getgroup', 'open', 'gslice', 'gslicemd'):
            found = r.get('found', True)
            need((o['err'] is None) == found, 'lookup' if k[:6] != 'gslice' else 'value', '%s: %s', where, o['err'] if found else 'succeeded')
            need(found or x is None, 'lookup', '%s: %s besides the error', where, str(x)[:200])
            if k == 'getvar' and found:
                w = r['want'][0]
                self.value(x['val'], w['i'], where)
                need((x['dims'] or []) == w['dims'], 'dim', '%s: dimensions %s, expected %s', where, x['dims'], w['dims'])
                self.attrs(x['attrs'], w['atts'], where)
            elif k[:6] == 'gslice' and found:
                self.value(x, r['want']['i'], where, r['b'], r['e'])
        elif k == 'gvalues':
            need(o['err'] is None, 'value', '%s: %s', where, o['err'])
            self.value(x, r['want']['i'], where)
        elif k == 'ginfo':
            self.info(x, r['want'], where)
            self.attrs(x['attrs'], r['want']['atts'], where)

    def tree(self, d, w, path='/'):
        """A dump of everything."""
        need([x['name'] for x in d['vars']] == [x['n'] for x in w['vars']], 'list', '%s: variables %s, expected %s', path,
             [x['name'] for x in d['vars']], [x['n'] for x in w['vars']])
        need([x['name'] for x in d['groups']] == [x['n'] for x in w['groups']], 'list', '%s: groups %s, expected %s', path,
             [x['name'] for x in d['groups']], [x['n'] for x in w['groups']])
        need([x[0] for x in d['types']] == [x['n'] for x in w['types']], 'listtypes', '%s: types %s, expected %s', path,
             [x[0] for x in d['types']], [x['n'] for x in w['types']])
        self.dims([x[0] for x in d['dims']], w['dims'], path)
        for n, sz in d['dims']:
            need(sz is not None, 'lookup', '%s: dimension %s is listed but not found', path, n)
            self.dimsize(sz, [x for x in w['dims'] if x['n'] == n][0], path + ' dimension ' + n)
        for x, y in zip(d['types'], w['types']):
            need(x[3], 'lookup', '%s: type %s is listed but not found', path, x[0])
            need(squeeze(x[1]) == squeeze(y['cdl']) and squeeze(x[2]) == squeeze(y['go']), 'type', '%s: type %s: %r and %r, expected %r and %r', path, x[0],
                 x[1], x[2], y['cdl'], y['go'])
        self.attrs(d['attrs'], w['atts'], path)
        for x, y in zip(d['vars'], w['vars']):
            where = path + y['n']
            need('err' not in x and 'gerr' not in x, 'lookup', '%s: %s', where, x.get('err') or x.get('gerr'))
            self.info(x, y, where, 'gdims')
            need((x['dims'] or []) == y['dims'], 'dim', '%s: dimensions %s, expected %s', where, x['dims'], y['dims'])
            self.value(x['val'], y['i'], where)
            self.attrs(x['attrs'], y['atts'], where)
        for x, y in zip(d['groups'], w['groups']):
            need('err' not in x, 'lookup', '%s: group %s: %s', path, y['n'], x.get('err'))
            self.tree(x, y, path + y['n'] + '/')


def script_of(tr, path):
    s = []
    for r in tr['reads']:
        o = {k: v for k, v in r.items() if k in ('op', 'name', 'b', 'e')}
        for k, p in (('h', 'h'), ('vg', 'vg')):
            if k in r:
                o['g' if k == 'h' else 'vg'] = p + str(r[k])
        if r['op'] == 'open':
            o['path'] = path
        if 'as' in r:
            o['as'] = ('vg' if r['op'] == 'getter' else 'h') + str(r['as'])
        s.append(o)
    s.append({'op': 'open', 'path': path, 'as': 'all'})
    s.append({'op': 'dump', 'g': 'all'})
    return s


def group_of(tr, r):
    return tr['handles'][r['h'] - 1]['g'] if 'h' in r else None


def key_of(tr, r):
    """Requests with the same key have the same answer."""
    if 'vg' in r:
        return (r['op'], tr['getters'][r['vg'] - 1]['v'], str(r.get('b')), str(r.get('e')))
    return (r['op'], group_of(tr, r), r.get('name'))


def same_alone(run, path, tr, s, i, o):
    """Is the answer to request i the same when it is the first?"""
    r = tr['reads'][i]
    if r['op'] == 'open':
        a = [{'op': 'open', 'path': path, 'as': 'h'}]
    else:
        g = tr['getters'][r['vg'] - 1] if 'vg' in r else None
        h = tr['handles'][(g['h'] if g else r['h']) - 1]
        a = [{'op': 'open', 'path': path, 'as': 'r'}, {'op': 'getgroup', 'g': 'r', 'name': '/' + '/'.join(tr['paths'][h['g'] - 1]), 'as': 'h'}]
        if g:
            a += [{'op': 'getter', 'g': 'h', 'name': tr['var'][g['v'] - 1]['n'], 'as': 'vg'}, dict(s[i], vg='vg')]
        else:
            a.append(dict(s[i], g='h'))
    o2 = run(a)[-1]
    return (o2['r'], o2['err'] is None, o2.get('panic')) == (o['r'], o['err'] is None, o.get('panic'))


def replay(c, files, kind, cats, history=False):
    """Replays the requests; only mismatches of the given categories count."""
    def one(run, it):
        path, tr = it
        s = script_of(tr, path)
        res = run(s)
        j = Judge(tr, kind)
        seen = {}
        at = {}
        for i, (r, o) in enumerate(zip(tr['reads'], res)):
            try:
                if died(o):
                    raise Wrong('crash', '%s: %s' % (s[i], o.get('stderr')))
                j.op(r, o, i)
            except Wrong as w:
                if w.cat == 'crash' or w.cat in cats:
                    c.violation(w.cat, w.what, trace=tr, script=s)
                    return
                if history and not same_alone(run, path, tr, s, i, o):
                    c.violation('history', 'depends on earlier requests: ' + w.what, trace=tr, script=s)
                    return
                if history:
                    c.part('answers that are wrong from the start')
            if history and r['op'] not in ('open', 'closeg'):
                k = key_of(tr, r)
                a = json.dumps([o['r'], o['err'] is None], sort_keys=True)
                if seen.setdefault(k, a) != a:
                    c.violation('history', '%s: %s, but earlier %s' % (k, a[:300], seen[k][:300]), trace=tr, script=s)
                    return
        if len(res) == len(s):
            try:
                if died(res[-1]) or 'panic' in res[-1]:
                    raise Wrong('crash', 'reading everything: %s' % (res[-1].get('panic') or res[-1].get('stderr')))
                j.tree(res[-1]['r'], tr['tree'])
            except Wrong as w:
                if w.cat == 'crash' or w.cat in cats:
                    c.violation(w.cat, w.what, trace=tr, script=s)
                    return
        c.validated()
    c.pool.map(one, files)
    for p, _ in files:
        os.remove(p)


def config(**kw):
    k = dict(Kind='hdf5', MaxDefs=25, MaxReads=40, MaxGroups=6, MaxElems=60, BaseTypes=set(WIDTH) | {'string', 'char'}, UserTypes=False, WUser=5,
             Bulk=set(), Sessions=True)
    k.update(kw)
    return k


CLASSIC = {'int8', 'int16', 'int32', 'float32', 'float64', 'char'}


def behaviours(c, num, **kw):
    return c.sim('NcFile', config(**kw), num, 400, invariants=NINV, properties=NPROP)


ALL = {'list', 'lookup', 'dim', 'value', 'type', 'listtypes', 'attr'}


def c15(c):
    cats = {'list', 'lookup', 'dim'}
    for kind, num, kw in (
            ('hdf5', c.n(800, 8000), dict()),
            ('hdf5', c.n(300, 3000), dict(UserTypes=True, MaxGroups=10, MaxDefs=40)),
            ('hdf5', c.n(60, 600), dict(Bulk={9, 20, 70, 300}, MaxDefs=60, MaxReads=20, MaxGroups=4)),
            ('cdf', c.n(300, 3000), dict(BaseTypes=CLASSIC)), ('cdf', c.n(100, 1000), dict(BaseTypes=CLASSIC | {'int64', 'uint64', 'uint8', 'uint16', 'uint32'}))):
        tr = behaviours(c, num, Kind=kind, **kw)
        c.sample({k: v for k, v in tr[0].items() if k in ('hist', 'reads')})
        replay(c, make_all(c, tr, kind), kind, cats)


def c04(c):
    for kind, num, kw in (
            ('hdf5', c.n(800, 8000), dict(MaxReads=80, UserTypes=True)),
            ('hdf5', c.n(300, 3000), dict(MaxReads=120, MaxDefs=12)),
            ('cdf', c.n(500, 5000), dict(MaxReads=80, BaseTypes=CLASSIC | {'int64'}))):
        tr = behaviours(c, num, Kind=kind, **kw)
        c.sample({k: v for k, v in tr[0].items() if k in ('hist', 'reads')})
        replay(c, make_all(c, tr, kind), kind, {'list', 'lookup', 'dim', 'value', 'type', 'listtypes', 'attr'} if os.environ.get('VERIF_STRICT') else set(), history=True)


def c07(c):
    cats = {'value', 'type', 'listtypes', 'attr', 'lookup'}
    for num, kw in ((c.n(1500, 15000), dict(WUser=9)), (c.n(500, 5000), dict(MaxGroups=3, MaxDefs=40, WUser=8))):
        tr = behaviours(c, num, UserTypes=True, **kw)
        c.sample({k: v for k, v in tr[0].items() if k in ('typ', 'hist', 'reads')})
        replay(c, make_all(c, tr, 'hdf5'), 'hdf5', cats)
