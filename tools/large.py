"""Variables of several GiB (spec/Large.tla), in sparse files."""
import os, struct
from multiprocessing import get_context
from vlib import *
import nclib, cdffmt

UNIT = 1 << 28
LINV, LPROP = ['Inside', 'Disjoint', 'Representable'], ['OnlyReads']
HEADER = 4096
MODE = {'cdf1': 0, 'cdf2': nclib.NC_64BIT, 'cdf5': nclib.NC_CDF5, 'hdf5': nclib.NETCDF4}
OLD = {1: ['int8'], 2: ['int16'], 4: ['int32', 'float32'], 8: ['float64']}
NEW = {1: ['int8', 'uint8'], 2: ['int16', 'uint16'], 4: ['int32', 'float32', 'uint32'], 8: ['float64', 'int64', 'uint64']}
FILL = {'int8': '81', 'uint8': 'ff', 'int16': '8001', 'uint16': 'ffff', 'int32': '80000001', 'uint32': 'ffffffff', 'float32': '7cf00000',
        'float64': '479e000000000000', 'int64': '8000000000000002', 'uint64': 'fffffffffffffffe'}


def config(**kw):
    k = dict(Sim=True, Formats={'cdf1', 'cdf2', 'cdf5'}, MaxVars=4, MaxPuts=8, MaxReads=12, Bigs={1, 3, 7, 9, 15, 17}, MaxUnits=100, Header=HEADER)
    k.update(kw)
    return k


def num(p):
    return p[0] * UNIT + p[1]


def type_of(t, i):
    v = t['vars'][i]
    l = (NEW if t['format'] in ('cdf5', 'hdf5') else OLD)[v['size']]
    return l[(i + v['n'] + v['big']) % len(l)]


def elem(ty, tok):
    """The bytes of an element: big-endian, as hex."""
    if ty.startswith('float'):
        return struct.pack('>f' if ty == 'float32' else '>d', tok + 0.25).hex()
    return '%0*x' % (2 * nclib.SIZE[nclib.TYPES[ty]], tok)


def never(t, i):
    ty = type_of(t, i)
    return FILL[ty] if t['vars'][i]['chunked'] else '0' * len(FILL[ty])


def dims_of(t, i):
    v = t['vars'][i]
    return ([('t', t['nrec'])] if v['rec'] else []) + ([('x%d' % v['big'], v['big'] * UNIT)] if v['big'] else []) + \
        ([('n%d' % v['n'], v['n'])] if v['n'] else [])


def all_dims(t):
    return sorted({d for i in range(len(t['vars'])) for d in dims_of(t, i)})


def start_of(v, c):
    return ([c['rec']] if v['rec'] else []) + ([num(c['pos'])] if v['big'] else []) + ([c['k']] if v['n'] else [])


def by_library(path, t):
    w = nclib.Writer(path, MODE[t['format']])
    classic = t['format'] != 'hdf5'
    if classic:
        nclib.ck(w.l.nc_set_fill(w.id, 0x100, None), 'nofill')
    ids = {n: w.dim(n, 0 if n == 't' else l) for n, l in all_dims(t)}
    vs = []
    for i, v in enumerate(t['vars']):
        d = dims_of(t, i)
        if classic or not d:
            kw = {}
        elif v['chunked']:
            kw = dict(storage='chunked', chunks=[{'t': 1, 'x': 1000 - i, 'n': 2}[n[0]] for n, _ in d])
            kw['chunks'] = [min(c, max(1, l)) for c, (n, l) in zip(kw['chunks'], d)]
        else:
            kw = dict(storage='contiguous')
        vs.append(w.var('v%d' % i, type_of(t, i), [ids[n] for n, _ in d], **kw))
        if not classic and not v['chunked']:
            nclib.ck(w.l.nc_def_var_fill(w.id, vs[-1], 1, None), 'nofill')
    nclib.ck(w.l.nc_enddef(w.id), 'enddef')
    for c in t['cells']:
        i = c['var'] - 1
        s = start_of(t['vars'][i], c)
        w.put(vs[i], type_of(t, i), s, [1] * len(s), elem(type_of(t, i), c['value']))
    w.close()


def size_of(t):
    end = [num(v['begin']) + (0 if v['rec'] else v['big'] * UNIT * max(1, v['n']) * v['size'] if v['big'] else max(1, v['n']) * v['size'])
           for v in t['vars']]
    rec = [num(v['begin']) for v in t['vars'] if v['rec']]
    if rec:
        end.append(min(rec) + t['nrec'] * num(t['recsize']))
    return max(end)


def by_hand(path, t):
    """Puts everything where the specification says."""
    five = t['format'] == 'cdf5'

    def n(x):
        return struct.pack('>Q' if five else '>I', x)

    def name(s):
        b = s.encode()
        return n(len(b)) + b + bytes(-len(b) % 4)
    ds = all_dims(t)
    h = b'CDF' + bytes([{'cdf1': 1, 'cdf2': 2, 'cdf5': 5}[t['format']]]) + n(t['nrec'])
    h += (struct.pack('>I', 10) + n(len(ds)) if ds else struct.pack('>I', 0) + n(0)) + b''.join(name(d) + n(0 if d == 't' else l) for d, l in ds)
    h += struct.pack('>I', 0) + n(0) + struct.pack('>I', 11) + n(len(t['vars']))
    for i, v in enumerate(t['vars']):
        d = dims_of(t, i)
        h += name('v%d' % i) + n(len(d)) + b''.join(n(ds.index(x)) for x in d) + struct.pack('>I', 0) + n(0)
        h += struct.pack('>I', nclib.TYPES[type_of(t, i)]) + n(num(v['vsize']))
        h += struct.pack('>I' if t['format'] == 'cdf1' else '>Q', num(v['begin']))
    assert len(h) <= HEADER
    with open(path, 'wb') as f:
        f.write(h)
        for c in t['cells']:
            f.seek(num(c['at']))
            f.write(bytes.fromhex(elem(type_of(t, c['var'] - 1), c['value'])))
        f.truncate(size_of(t))


def library_reads(path, t):
    """The reference library on a file made by hand: None, or how it disagrees with the specification."""
    l = nclib.lib()
    i = nclib.c_int()
    nclib.ck(l.nc_open(path.encode(), 0, nclib.byref(i)), 'open')
    want = {}
    for c in t['cells']:
        want[c['var'], tuple(start_of(t['vars'][c['var'] - 1], c))] = c['value']
    try:
        for (v, s), tok in want.items():
            ty = type_of(t, v - 1)
            w = t['vars'][v - 1]['size']
            b = nclib.create_string_buffer(w)
            nclib.ck(l.nc_get_vara(i, v - 1, nclib.sizes(s), nclib.sizes([1] * len(s)), b), 'get')
            if nclib.unswap(b.raw[:w], w) != elem(ty, tok):
                return 'libnetcdf reads %s at %s of v%d, the specification says %s' % (nclib.unswap(b.raw[:w], w), s, v - 1, elem(ty, tok))
    finally:
        l.nc_close(i)
    return None


def make(job):
    path, t, hand = job
    try:
        if hand:
            by_hand(path, t)
            return library_reads(path, t)
        by_library(path, t)
        if t['format'] != 'hdf5' and os.path.getsize(path) < size_of(t):
            os.truncate(path, size_of(t))
    except nclib.NcError as e:
        return str(e)
    return None


def script(path, t):
    s = [{'op': 'open', 'path': path, 'as': 'g'}]
    want = [None]

    def add(op, w):
        s.append(op)
        want.append(w)
    for n, l in all_dims(t):
        add({'op': 'getdim', 'g': 'g', 'name': n}, ('dim', 0 if n == 't' else l))
    for i, v in enumerate(t['vars']):
        add({'op': 'getter', 'g': 'g', 'name': 'v%d' % i, 'as': 'v%d' % i}, None)
        add({'op': 'ginfo', 'vg': 'v%d' % i}, ('info', [l for _, l in dims_of(t, i)], [n for n, _ in dims_of(t, i)]))
    for r in t['reads']:
        i = r['var'] - 1
        v, ty = t['vars'][i], type_of(t, i)
        code = nclib.TYPES[ty]
        rows = [[bytes.fromhex(elem(ty, x) if x else never(t, i)) for x in row] for row in r['rows']]
        inner = [v['n']] if v['n'] else []
        if v['big'] == 0:
            shape = ([len(rows)] if v['rec'] else []) + inner
            val = cdffmt.nest(code, shape, [x for row in rows for x in row])
            add({'op': 'getvar', 'g': 'g', 'name': 'v%d' % i}, ('var', val))
            add({'op': 'gvalues', 'vg': 'v%d' % i}, ('val', val))
            continue
        b = num(r['from'])
        e = b + len(rows)
        val = cdffmt.nest(code, [len(rows)] + inner, [x for row in rows for x in row])
        add({'op': 'gslice', 'vg': 'v%d' % i, 'b': b, 'e': e}, ('val', val))
        add({'op': 'gslicemd', 'vg': 'v%d' % i, 'b': [b] + [0] * len(inner), 'e': [e] + inner}, ('val', val))
        if inner and v['n'] > 1:
            add({'op': 'gslicemd', 'vg': 'v%d' % i, 'b': [b, 1], 'e': [e, v['n']]},
                ('val', cdffmt.nest(code, [len(rows), v['n'] - 1], [x for row in rows for x in row[1:]])))
    add({'op': 'closeg', 'g': 'g'}, None)
    return s, want


def judge(t, s, want, res):
    for op, w, o in zip(s, want, res):
        if died(o) or 'panic' in o:
            return '%s in %s' % (o.get('panic') or str(o.get('stderr'))[-300:], op)
        if o.get('err') is not None:
            return '%s: %s' % (op, o['err'])
        if w is None:
            continue
        r = o['r']
        if w[0] == 'dim':
            ok = r == w[1] or isinstance(r, (list, tuple)) and r[0] == w[1] and r[1] is True
        elif w[0] == 'info':
            ok = (r['shape'] or []) == w[1] and (r['dims'] or []) == w[2] and r['len'] == (w[1][0] if w[1] else 1)
        elif w[0] == 'var':
            ok = r['val'] == w[1]
        else:
            ok = r == w[1]
        if not ok:
            return '%s: %s, expected %s' % (op, str(r)[:300], str(w[1:])[:300])
    return None


def by_writer(path, t):
    """The calls that write the file."""
    s = [{'op': 'openw', 'w': 'w', 'path': path, 'kind': 'cdf'}]
    for i, v in enumerate(t['vars']):
        d = dims_of(t, i)
        ty = type_of(t, i)
        cells = [[start_of(v, c), elem(ty, c['value'])] for c in t['cells'] if c['var'] == i + 1]
        s.append({'op': 'addvar', 'w': 'w', 'name': 'v%d' % i, 'val': {'T': '[]' * len(d) + ty, 'shape': [l for _, l in d], 'cells': cells},
                  'dims': [n for n, _ in d], 'attrs': None})
    return s + [{'op': 'closew', 'w': 'w'}, {'op': 'forgetw', 'w': 'w'}]


def written(c, num_, key='large'):
    """Large variables in files that the code writes, read by itself and by the reference library."""
    trs = c.sim('Large', config(Formats={'written'}, MaxVars=3, MaxPuts=6, Bigs={1, 3, 9}, MaxUnits=25), max(num_, 8) * 4, 80, invariants=LINV, properties=LPROP)
    trs = [t for t in trs if any(v['big'] for v in t['vars'])]
    # prefer those where the lengths or sizes are beyond what the older formats can say
    def weight(t):
        size = sum(v['big'] * max(1, v['n']) * v['size'] for v in t['vars'])
        return -(any(v['big'] >= 8 for v in t['vars']) * 2 + any(v['big'] * max(1, v['n']) * v['size'] >= 16 for v in t['vars'][:-1])), size
    trs = sorted(trs, key=weight)
    trs = trs[:num_ // 2] + trs[len(trs) // 2:len(trs) // 2 + num_ - num_ // 2]

    def one(run, t):
        path = c.path()
        a = by_writer(path, t)
        b, want = script(path, t)
        e = judge(t, a + b, [None] * len(a) + want, run(a + b))
        c.validated()
        if not e:
            with get_context('fork').Pool(1) as p:
                e = p.apply(library_reads, (path, t))
        if e:
            c.violation(key, e, trace=t, script=a + b)
        if os.path.exists(path):
            os.remove(path)
    pool = Pool(c.exe, n=2, timeout=300, gib=24)    # each needs some GiB of memory
    try:
        pool.map(one, trs)
    finally:
        pool.close()
    c.part('large files written', len(trs))


def check(c, formats, num_, key='large'):
    """Large variables in files made by hand, placed as the specification says, and by libnetcdf."""
    trs = c.sim('Large', config(Formats=formats), num_, 80, invariants=LINV, properties=LPROP)
    jobs = []
    for t in trs:
        if t['format'] == 'hdf5':
            jobs.append((c.path(), t, False))
        else:
            jobs += [(c.path(), t, True), (c.path(), t, False)]
    with get_context('fork').Pool(NCPU) as p:
        errs = p.map(make, jobs, chunksize=4)
    bad = [(j, e) for j, e in zip(jobs, errs) if e]
    if bad:
        raise ToolError('%d of %d large files: %s' % (len(bad), len(jobs), bad[0]))

    def one(run, job):
        path, t, hand = job
        s, want = script(path, t)
        e = judge(t, s, want, run(s))
        c.validated()
        if e:
            c.violation(key, e, trace=t, script=s)
        os.remove(path)
    c.pool.map(one, jobs)
    c.part('large files', len(jobs))
