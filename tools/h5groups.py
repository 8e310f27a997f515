"""Files of the HDF5 library itself (spec/H5Groups.tla): symbol tables, heaps and trees of links and attributes."""
import os, struct, ctypes
from ctypes import c_int64, c_uint, c_uint64, c_int, c_size_t, c_char_p, byref
from multiprocessing import get_context
from vlib import *
import h5lib

GINV, GPROP = ['Consistent', 'SameListed'], ['Stays']
Z = c_int64(0)


def config(**kw):
    k = dict(Sim=True, Forms={'old', 'new', 'tracked', 'indexed'}, MaxOps=14, MaxDepth=4, Names=60, Kinds={1, 2, 3, 4, 5, 6, 7},
             AttKinds={1, 2, 3, 4, 5}, AttNames=14, Bulks={2, 9, 20, 50})
    k.update(kw)
    return k


def name(n):
    return 'n%05d' % n + 'x' * (n * 7 % 23) + ('é' if n % 5 == 0 else '')


def att_name(n):
    return 'a%02d' % n + 'y' * (n * 5 % 17)


def g(h, n):
    return c_int64(c_int64.in_dll(h, n).value)


# What a dataset or attribute of each kind holds: (type, shape, elements), where strings are Python strings
def content(kind, i):
    return {1: ('<i4', [3], [i, i + 1, -i]), 2: ('<f8', [], [i + 0.5]), 3: ('>i2', [2, 3], [i % 999 + x for x in range(6)]),
            4: ('s8', [], ['s%05d' % i]), 5: ('<i4', [7], [i * 10 + x for x in range(7)]), 6: ('str', [2], ['v' * (i % 40), 'w%d' % i]),
            7: ('<u4', [2, 2], [0, 0, 0, 0])}[kind]


def att_content(kind, n, i):
    return {1: ('<i4', [], [n * 1000 + i]), 2: ('>f4', [3], [n, i, 0.5]), 3: ('s12', [], ['%d-%d' % (n, i)]), 4: ('str', [], ['t%d-%d' % (n, i)]),
            5: ('<i2', [1500], [(n + i + x) % 3000 for x in range(1500)])}[kind]


def h5type(h, ty):
    if ty[0] == 's':
        t = c_int64(h.H5Tcopy(g(h, 'H5T_C_S1_g')))
        h.H5Tset_size(t, c_size_t(ctypes.c_size_t(-1).value if ty == 'str' else int(ty[1:])))
        return t
    c = {'i': 'I', 'u': 'U', 'f': 'F'}[ty[1]]
    return c_int64(h.H5Tcopy(g(h, 'H5T_%s_%s%d%s_g' % ('IEEE' if c == 'F' else 'STD', c, 8 * int(ty[2]), 'LE' if ty[0] == '<' else 'BE'))))


def pack(ty, elems):
    if ty == 'str':
        return (c_char_p * len(elems))(*[e.encode() for e in elems])
    if ty[0] == 's':
        return b''.join(e.encode().ljust(int(ty[1:]), b'\0') for e in elems)
    code = {'i1': 'b', 'i2': 'h', 'i4': 'i', 'u4': 'I', 'f4': 'f', 'f8': 'd'}[ty[1:]]
    return struct.pack(ty[0] + str(len(elems)) + code, *elems)


class File:
    def __init__(self, path, t):
        h = self.h = h5lib.lib()
        for f in 'H5Fcreate H5Fopen H5Gcreate2 H5Oopen H5Dcreate2 H5Screate_simple H5Screate H5Acreate2 H5Pcreate H5Tcopy'.split():
            getattr(h, f).restype = c_int64
        self.t = t
        self.p = {n: c_int64(h.H5Pcreate(g(h, 'H5P_CLS_%s_ID_g' % n))) for n in
                  ('FILE_CREATE', 'FILE_ACCESS', 'GROUP_CREATE', 'DATASET_CREATE')}
        self.chunked = c_int64(h.H5Pcreate(g(h, 'H5P_CLS_DATASET_CREATE_ID_g')))
        h.H5Pset_chunk(self.chunked, c_int(1), (c_uint64 * 1)(2))
        if t['k']:
            h.H5Pset_sym_k(self.p['FILE_CREATE'], c_uint(t['k']), c_uint(4))
        if t['form'] != 'old':
            h.H5Pset_libver_bounds(self.p['FILE_ACCESS'], c_int(1), c_int(1))
        if t['tracked']:
            fl = c_uint(1 if t['form'] == 'tracked' else 3)
            for n in ('FILE_CREATE', 'GROUP_CREATE'):
                h.H5Pset_link_creation_order(self.p[n], fl)
                h.H5Pset_attr_creation_order(self.p[n], fl)
            for p in (self.p['DATASET_CREATE'], self.chunked):
                h.H5Pset_attr_creation_order(p, fl)
        self.path = path.encode()
        self.f = c_int64(h5lib.ck(h.H5Fcreate(self.path, c_uint(2), self.p['FILE_CREATE'], self.p['FILE_ACCESS']), 'create'))

    def obj(self, path):
        return c_int64(h5lib.ck(self.h.H5Oopen(self.f, ('/' + '/'.join(name(n) for n in path)).encode(), Z), 'open %s' % path))

    def space(self, shape):
        return c_int64(self.h.H5Screate_simple(c_int(len(shape)), (c_uint64 * len(shape))(*shape), None) if shape else self.h.H5Screate(c_int(0)))

    def create(self, o, n, kind, i):
        h = self.h
        if kind == 0:
            x = h5lib.ck(h.H5Gcreate2(o, name(n).encode(), Z, self.p['GROUP_CREATE'], Z), 'group')
            h.H5Gclose(c_int64(x))
            return
        ty, shape, elems = content(kind, i)
        t, s = h5type(h, ty), self.space(shape)
        d = c_int64(h5lib.ck(h.H5Dcreate2(o, name(n).encode(), t, s, Z, self.chunked if kind == 5 else self.p['DATASET_CREATE'], Z), 'dataset'))
        if kind != 7:
            h5lib.ck(h.H5Dwrite(d, t, Z, Z, Z, pack(ty, elems)), 'write')
        h.H5Dclose(d)
        h.H5Sclose(s)
        h.H5Tclose(t)

    def step(self, op):
        h = self.h
        if op['op'] == 'reopen':
            h5lib.ck(h.H5Fclose(self.f), 'close')
            self.f = c_int64(h5lib.ck(h.H5Fopen(self.path, c_uint(1), self.p['FILE_ACCESS']), 'reopen'))
            return
        o = self.obj(op['at'])
        if op['op'] == 'create':
            self.create(o, op['name'], op['kind'], op['id'])
        elif op['op'] == 'bulk':
            for j, n in enumerate(op['names']):
                self.create(o, n, op['kind'], op['id'] + j)
        elif op['op'] == 'unlink':
            for n in op['names']:
                h5lib.ck(h.H5Ldelete(o, name(n).encode(), Z), 'unlink')
        elif op['op'] == 'att':
            for a in op['atts']:
                ty, shape, elems = att_content(a['kind'], a['name'], 0)
                t, s = h5type(h, ty), self.space(shape)
                x = c_int64(h5lib.ck(h.H5Acreate2(o, att_name(a['name']).encode(), t, s, Z, Z), 'attribute'))
                h5lib.ck(h.H5Awrite(x, t, pack(ty, elems)), 'attribute')
                h.H5Aclose(x)
                h.H5Sclose(s)
                h.H5Tclose(t)
        elif op['op'] == 'unatt':
            h5lib.ck(h.H5Adelete(o, att_name(op['name']).encode()), 'unatt')
        h.H5Oclose(o)

    def close(self):
        h5lib.ck(self.h.H5Fclose(self.f), 'close')
        for p in list(self.p.values()) + [self.chunked]:
            self.h.H5Pclose(p)


def make(job):
    path, t = job
    try:
        f = File(path, t)
        for op in t['ops']:
            f.step(op)
        f.close()
    except h5lib.H5Error as e:
        return '%s' % e
    return None


GO = {'i1': 'int8', 'i2': 'int16', 'i4': 'int32', 'u4': 'uint32', 'f4': 'float32', 'f8': 'float64'}


def value(ty, shape, elems):
    """As the driver shows it."""
    if ty[0] == 's':
        go, hx = 'string', ['s:' + e.encode().hex() for e in elems]
    else:
        go, w = GO[ty[1:]], int(ty[2])
        b = pack('>' + ty[1:], elems)
        hx = [b[i:i + w].hex() for i in range(0, len(b), w)]
    if not shape:
        return {'T': go, 'V': hx[0]}
    if go != 'string':
        hx = [''.join(hx[i:i + shape[-1]]) for i in range(0, len(hx), shape[-1])]
        if len(shape) == 1:
            hx = hx[0]
    return {'T': '[]' * len(shape) + go, 'V': hx}


def cmp_node(t, i, d, path):
    nd = t['nodes'][i]
    want = [(name(t['nodes'][x - 1]['name']), x - 1) for x in nd['list']]
    wg = [w for w in want if t['nodes'][w[1]]['kind'] == 0]
    wv = [w for w in want if t['nodes'][w[1]]['kind'] != 0]
    for what, w, got in (('groups', wg, d['groups']), ('variables', wv, d['vars'])):
        if [x[0] for x in w] != [x['name'] for x in got]:
            return '%s: the %s are %s, expected %s' % (path, what, [x['name'] for x in got][:60], [x[0] for x in w][:60])
    e = cmp_atts(t, nd, d['attrs'], path)
    if e:
        return e
    for (n, x), v in zip(wv, d['vars']):
        p = path + n
        if 'err' in v or 'gerr' in v:
            return '%s cannot be read: %s' % (p, v.get('err') or v.get('gerr'))
        ty, shape, elems = content(t['nodes'][x]['kind'], x + 1)
        if v['val'] != value(ty, shape, elems) or (v['shape'] or []) != shape:
            return '%s is %s, expected %s' % (p, str(v)[:300], str(value(ty, shape, elems))[:300])
        e = cmp_atts(t, t['nodes'][x], v['attrs'], p)
        if e:
            return e
    for (n, x), s in zip(wg, d['groups']):
        if 'err' in s:
            return '%s%s: %s' % (path, n, s['err'])
        e = cmp_node(t, x, s, path + n + '/')
        if e:
            return e


def cmp_atts(t, nd, got, path):
    want = [(att_name(a['name']), value(*att_content(a['kind'], a['name'], 0))) for a in nd['atts']]
    have = [(a['name'], a['val']) for a in got or []]
    if not t['tracked']:
        want, have = sorted(want, key=str), sorted(have, key=str)
    if want != have:
        return '%s: attributes %s, expected %s' % (path, str(have)[:400], str(want)[:400])


def behaviours(c, q, th, **kw):
    inv = dict(invariants=GINV, properties=GPROP)
    tr = c.sim('H5Groups', config(**kw), c.n(q, th), 120, **inv)
    return tr


def files(c, trs):
    jobs = [(c.path(), t) for t in trs]
    with get_context('fork').Pool(NCPU) as p:
        errs = p.map(make, jobs, chunksize=8)
    bad = [(j[1]['form'], e) for j, e in zip(jobs, errs) if e]
    if bad:
        raise ToolError('libhdf5 cannot write %d of %d files: %s' % (len(bad), len(jobs), bad[0]))
    return jobs


def check(c, trs, key='groups'):
    def one(run, it):
        path, t = it
        s = [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
        res = run(s)
        e = None
        for o, op in zip(res, s):
            if died(o) or 'panic' in o:
                e = '%s in %s' % (o.get('panic') or str(o.get('stderr'))[-300:], op['op'])
                break
        if not e:
            e = 'cannot be opened: %s' % res[0]['err'] if res[0]['err'] else cmp_node(t, 0, res[1]['r'], '/')
        c.validated()
        if e:
            c.violation(key, '%s: %s' % (t['form'], e), trace=t)
        os.remove(path)
    fs = files(c, trs)
    c.pool.map(one, fs)
    c.part('files of libhdf5', len(fs))


def large(c):
    """So many entries that trees have several levels."""
    return c.sim('H5Groups', config(Names=4000, MaxOps=4, Bulks={300, 1500, 2500}, Kinds={1, 2, 5}, MaxDepth=2, AttNames=90), c.n(24, 240), 120,
                 invariants=['Consistent'])


def small(c):
    """All short histories."""
    return c.tlc('H5Groups', config(Sim=False, MaxOps=2 if c.n(0, 1) == 0 else 3, MaxDepth=2, Names=3 if c.n(0, 1) == 0 else 2, Kinds={1}, AttKinds={1}, AttNames=2, Bulks={2}),
                 invariants=GINV, properties=GPROP).traces


def c15(c):
    check(c, small(c) + behaviours(c, 500, 20000) + large(c))


def c12(c):
    check(c, behaviours(c, 300, 5000))
