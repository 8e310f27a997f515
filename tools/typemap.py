"""Replays spec/TypeMap.tla: variables of every type and shape, and the types that are reported for them and their values."""
import os
from vlib import *
from vlib import _h
import nclib, ncfile, storage


def elem_of(t, i, k):
    return '%02x' % (0x41 + (i + k) % 26) if t == 'char' else storage.value(t, i, k)


def prod(s):
    n = 1
    for x in s:
        n *= x
    return n


def write_lib(job):
    path, m, vs = job
    try:
        w = nclib.Writer(path, {'nc3': 0, 'nc5': nclib.NC_CDF5}.get(m, nclib.NETCDF4))
        L, dims = w.l, {}

        def dim(size, unlim, n=''):
            k = (0 if unlim else size, size, unlim)
            if k not in dims:
                dims[k] = w.dim(('u' if unlim else 'd') + str(size) + n, 0 if unlim else size)
            return dims[k]
        ids = []
        for i, v in enumerate(vs):
            classic = m in ('nc3', 'nc5')
            ds = [dim(s, (v['rec'] and j == 0) or (s == 0 and not classic)) for j, s in enumerate(v['shape'])]
            kw = {}
            if m == 'nc4chunked':
                kw = dict(storage='chunked', chunks=[1 + _h('ch', i, j) % 2 * (s != 1) for j, s in enumerate(v['shape'])], deflate=0 if v['t'] == 'string' else i % 2, endian=0)
            ids.append(w.var('v%d' % i, v['t'], ds, **kw))
        if m in ('nc3', 'nc5'):
            nclib.ck(L.nc_enddef(w.id), 'enddef')
        for i, v in enumerate(vs):
            n = prod(v['shape'])
            if n:
                b, keep = nclib.buffer([v['t']], [elem_of(v['t'], i, k) for k in range(n)])
                nclib.ck(L.nc_put_vara(w.id, ids[i], nclib.sizes([0] * len(v['shape'])), nclib.sizes(v['shape']), b), 'put')
        w.close()
        return None
    except nclib.NcError as e:
        return str(e)


def value(v, i):
    n = prod(v['shape'])
    return storage.nested(v['t'], v['shape'], [elem_of(v['t'], i, k) for k in range(n)])


def write_own(path, m, vs):
    ops = [{'op': 'openw', 'w': 'w', 'path': path, 'kind': 'cdf' if m == 'wcdf' else 'hdf5'}]
    for i, v in enumerate(vs):
        ops.append({'op': 'addvar', 'w': 'w', 'name': 'v%d' % i, 'val': value(v, i), 'dims': ['d%d' % s for s in v['shape']], 'attrs': None})
    return ops + [{'op': 'closew', 'w': 'w'}]


def shape_ok(t, shape, x):
    """Has the value the lengths of the shape?"""
    if t == 'char':
        if not shape:
            return isinstance(x, str) and len(x) == 4
        if len(shape) == 1:
            return isinstance(x, str) and x.startswith('s:') and len(x) == 2 + 2 * shape[0]
    elif not shape:
        return isinstance(x, str)
    elif len(shape) == 1:
        return len(x) == (shape[0] if t == 'string' else 2 * WIDTH[t] * shape[0])
    return isinstance(x, list) and len(x) == shape[0] and all(shape_ok(t, shape[1:], y) for y in x)


def judge(v, where, r):
    if r['err'] is not None:
        return '%s: %s' % (where, r['err'])
    return None


def one_file(c, run, path, vs):
    ops, tags = [{'op': 'open', 'path': path, 'as': 'g'}], [None]
    for i, v in enumerate(vs):
        n = 'v%d' % i
        ops += [{'op': 'getter', 'g': 'g', 'name': n, 'as': n}, {'op': 'ginfo', 'vg': n, 'noattrs': 1}, {'op': 'getvar', 'g': 'g', 'name': n, 'noattrs': 1},
                {'op': 'gvalues', 'vg': n}]
        tags += [(v, None, None), (v, 'info', None), (v, 'getvar', v['shape']), (v, 'values', v['shape'])]
        for r in v['reqs']:
            if r['op'] == 'slice':
                ops.append({'op': 'gslice', 'vg': n, 'b': r['b'][0], 'e': r['e'][0]})
            else:
                ops.append({'op': 'gslicemd', 'vg': n, 'b': r['b'], 'e': r['e']})
            tags.append((v, 'part', r['shape']))
    res = run(ops)
    for o, op, t in zip(res, ops, tags):
        where = '%s of a %s of shape %s%s in a file of %s' % (op, t[0]['t'], t[0]['shape'], ' (unlimited)' if t[0]['rec'] else '', t[0]['m']) if t else 'open'
        e = None
        if died(o) or 'panic' in o:
            e = o.get('panic') or o.get('stderr')
        elif o['err'] is not None:
            e = o['err']
        elif t and t[1] == 'info':
            r = o['r']
            if r['type'] not in t[0]['cdl'] or r['gotype'] != t[0]['go']:
                e = 'types %s and %s, expected %s and %s' % (r['type'], r['gotype'], t[0]['cdl'], t[0]['go'])
            elif (r['shape'] or []) != t[0]['shape'] or r['len'] != (t[0]['shape'] or [1])[0]:
                e = 'shape %s, length %s' % (r['shape'], r['len'])
        elif t and t[2] is not None:
            x = o['r']['val'] if t[1] == 'getvar' else o['r']
            if x is None or x['T'] != t[0]['dyn']:
                e = 'a value of type %s, expected %s' % (x and x['T'], t[0]['dyn'])
            elif not shape_ok(t[0]['t'], t[2], x['V']):
                e = 'a value %s, expected one of shape %s' % (str(x['V'])[:200], t[2])
        if e:
            c.violation('types', '%s: %s' % (where, e), script=ops, file=open(path, 'rb').read().hex())
            return
    c.validated(len(vs))


def c18(c):
    inv = dict(invariants=['PartsAlike', 'OneName'])
    makers = {'nc3', 'nc5', 'nc4', 'nc4chunked', 'wcdf', 'wh5'}
    big = dict(Makers=makers, Lens={0, 1, 2, 3}, MaxRank=3, BoxRank=2) if not c.thorough else dict(Makers=makers, Lens={0, 1, 2, 3}, MaxRank=4, BoxRank=3)
    tr = c.tlc('TypeMap', big, workers=8, **inv).traces
    tr += c.tlc('TypeMap', dict(Makers=makers, Lens={0, 1, 2}, MaxRank=4, BoxRank=2), workers=8, **inv).traces
    tr += c.tlc('TypeMap', dict(Makers=makers, Lens={1} if not c.thorough else {1, 2}, MaxRank=7, BoxRank=1), workers=8, **inv).traces
    groups = {}
    for t in tr:
        recs = t['shape'][0] if t['rec'] else None
        k = (t['m'], recs if t['m'] in ('nc3', 'nc5') else None)
        groups.setdefault(k, []).append(t)
    jobs = []
    for k in sorted(groups, key=str):
        g = groups[k]
        g.sort(key=lambda t: _h('mix', json.dumps([t['m'], t['t'], t['shape'], t['rec']])))
        for i in range(0, len(g), 40):
            jobs.append((c.path(), k[0], g[i:i + 40]))
    lib = [j for j in jobs if j[1].startswith('nc')]
    errs = ncfile.forked(write_lib, lib)
    if any(errs):
        raise ToolError('libnetcdf cannot write: %s' % [e for e in errs if e][:3])

    def one(run, j):
        path, m, vs = j
        if not m.startswith('nc'):
            ops = write_own(path, m, vs)
            for o, op in zip(run(ops), ops):
                if died(o) or 'panic' in o or o['err'] is not None:
                    c.violation('write', '%s: %s' % (str(op)[:300], o.get('panic') or o.get('stderr') or o['err']), script=ops)
                    return
        one_file(c, run, path, vs)
        os.remove(path)
    c.pool.map(one, jobs)
    c.sample(tr[0])
    c.sample(tr[-1])
