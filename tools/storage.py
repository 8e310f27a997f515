"""Files written by the reference library from behaviours of spec/H5Storage.tla, and read by the code under test."""
import os
from vlib import *
from vlib import _h
import h5lib, nclib
from multiprocessing import get_context

SINV = ['Inside', 'UnstoredIsFill', 'WithinDims', 'Masked']
SPROP = ['Kept', 'OnlyWrites']
NUMERIC = set(WIDTH)
DEFAULT_FILL = {'int8': '81', 'int16': '8001', 'int32': '80000001', 'int64': '8000000000000002', 'uint8': 'ff', 'uint16': 'ffff',
                'uint32': 'ffffffff', 'uint64': 'fffffffffffffffe', 'float32': '7cf00000', 'float64': '479e000000000000',
                'char': '00', 'string': 's:'}


def value(ty, tok, k):
    if ty == 'char':
        return '%02x' % (0x21 + _h('ch', tok, k) % 90)
    if ty == 'string':
        return 's:' + text(tok, k, _h('sl', tok, k) % 12).hex()
    if _h('ff', tok) % 5 == 0:
        return 'ff' * WIDTH[ty] if k % 3 else '00' * WIDTH[ty]
    return elem(ty, tok, k)


def fill_of(v):
    if v['fill'] == 'default':
        return DEFAULT_FILL[v['ty']]
    if v['ty'] == 'string':
        return 's:' + text(v['ftok'], 77, 4).hex()
    return value(v['ty'], v['ftok'] + 1000, 7)


def elems_of(v):
    """The elements of a variable of a behaviour: list of hex (or 's:...')"""
    f = fill_of(v)
    return [f if t < 0 else value(v['ty'], t, k) for t, k in v['elems']]


def nested(ty, shape, elems):
    """{'T','V'} of an array.  Characters: the last dimension is the string."""
    if ty == 'char':
        if not shape:
            return {'T': 'string', 'V': 's:' + elems[0]}
        n = shape[-1]
        up = shape[:-1]
        cnt = 1
        for s in up:
            cnt *= s
        leaves = ['s:' + ''.join(elems[i * n:(i + 1) * n]) for i in range(cnt)]
        shape, elems, go = up, leaves, 'string'
    else:
        go = ty
    if not shape:
        return {'T': go, 'V': elems[0]}

    def build(sh, lo, n):
        if len(sh) == 1:
            part = elems[lo:lo + sh[0]]
            return part if go == 'string' else ''.join(part)
        k = n // sh[0] if sh[0] else 0
        return [build(sh[1:], lo + i * k, k) for i in range(sh[0])]
    return {'T': gotype(go, len(shape)), 'V': build(shape, 0, len(elems))}


def strip_nul(v):
    """Characters end at a NUL, and what follows it is nobody's business."""
    if isinstance(v, list):
        return [strip_nul(x) for x in v]
    if isinstance(v, str) and v.startswith('s:'):
        b = bytes.fromhex(v[2:])
        i = b.find(b'\0')
        return 's:' + (b if i < 0 else b[:i]).hex()
    return v


def var_value(v):
    return nested(v['ty'], v['shape'], elems_of(v))


def same_value(got, want, ty):
    if got is None or got['T'] != want['T']:
        return False
    if ty == 'char':
        return strip_nul(got['V']) == strip_nul(want['V'])
    return got['V'] == want['V']


# What h5repack does to a complete file: other versions of the file's structures (superblock 0, object headers of
# version 1, indexed links and attributes), and other layouts and filters.
FORMS = [[], ['--low=0', '--high=0'], ['--low=1'], ['--low=1', '--high=1'], ['-L'], ['-n'], ['-c', '2', '-d', '1'], ['-c', '0', '-d', '0'],
         ['-t', '1', '-a', '64'], ['-M', '100'], ['-l', 'CHUNK=2'], ['-l', 'CONTI'], ['-l', 'COMPA'], ['-f', 'GZIP=5'], ['-f', 'SHUF'],
         ['-f', 'FLET'], ['-f', 'NONE'], ['-L', '-c', '0', '-d', '0']]


def make(job):
    """Writes the file of a behaviour; runs in a process of its own."""
    path, tr = job
    try:
        w = nclib.Writer(path)
        gids = [w.id]
        names = [0]
        for v in tr['vars']:
            while len(gids) < v['group']:
                gids.append(w.group('g%d' % len(gids)))
        dids = [w.dim('d%d' % i, 0 if d['unlim'] else d['size']) for i, d in enumerate(tr['dims'])]
        ids = []
        for i, v in enumerate(tr['vars']):
            g = gids[v['group'] - 1]
            ids.append(w.var('v%d' % i, v['ty'], [dids[d - 1] for d in v['dimids']], g=g,
                             storage=None if not v['dimids'] and v['storage'] != 'compact' else v['storage'],
                             chunks=v['chunks'] or None, shuffle=v['shuffle'], deflate=v['deflate'], fletcher=v['fletcher'],
                             endian=v['endian'], fill=fill_of(v) if v['fill'] == 'own' else None))
        for h in tr['hist']:
            if h['op'] == 'sync':
                w.sync()
            elif h['op'] == 'reopen':
                # libnetcdf forgets that a variable is big-endian when it opens a file
                if any(v['endian'] == 2 for v in tr['vars']):
                    w.sync()
                    continue
                w.close()
                w = nclib.Writer.reopen(path)
            elif h['op'] == 'write':
                v = tr['vars'][h['v'] - 1]
                n = 1
                for k in h['count']:
                    n *= k
                el = [value(v['ty'], h['tok'], k + 1) for k in range(n)]
                # identifiers of groups survive reopening
                w.put(ids[h['v'] - 1], v['ty'], h['start'], h['count'], el if v['ty'] == 'string' else ''.join(el),
                      g=w.id + gids[v['group'] - 1] - gids[0])
        w.close()
        for h in tr['hist']:
            if h['op'] == 'rechunk':
                v = tr['vars'][h['v'] - 1]
                name = ('/g%d' % (v['group'] - 1) if v['group'] > 1 else '') + '/v%d' % (h['v'] - 1)
                n = len(h5lib.rewrite_chunk(path, name, h['origin'], {k - 1 for k in h['skip']}))
                if n != v['shuffle'] + (v['deflate'] > 0) + v['fletcher']:
                    return '%d filters: %s' % (n, v)
        if tr['form'] and not h5lib.repack(path, FORMS[tr['form'] - 1]):
            return '+'
        return None
    except (nclib.NcError, h5lib.H5Error) as e:
        return '%s' % e


def make_all(c, trs):
    """Files of all behaviours: [(path, behaviour)]"""
    jobs = [(c.path(), t) for t in trs]
    with get_context('fork').Pool(NCPU) as p:
        errs = p.map(make, jobs, chunksize=16)
    c.part('files that h5repack could not write in the form drawn', sum(e == '+' for e in errs))
    errs = [e if e != '+' else None for e in errs]
    bad = [e for e in errs if e]
    if len(bad) > len(jobs) // 20:
        raise ToolError('libnetcdf cannot write %d of %d files: %s' % (len(bad), len(jobs), bad[:3]))
    if bad:
        c.part('not written: ' + bad[0], len(bad))
    return [j for j, e in zip(jobs, errs) if not e]


def config(**kw):
    k = dict(Sim=True, Types=NUMERIC | {'char', 'string'}, MaxDims=4, Sizes={1, 2, 3, 4, 5, 7}, MaxVars=4, MaxRank=4, MaxWrites=5, MaxElems=150,
             Storages={'contiguous', 'compact', 'chunked'}, Groups=2, Unlimited=True, Filters=True, MaxChunk=4,
             Endians={0, 1, 2}, Fills={'default', 'own'}, Masks=True, Forms=len(FORMS))
    k.update(kw)
    return k


def locate(d, v, i):
    g = d
    if v['group'] > 1:
        gs = {x['name']: x for x in d['groups']}
        g = gs.get('g%d' % (v['group'] - 1))
        if g is None or 'err' in g:
            return None
    return {x['name']: x for x in g['vars']}.get('v%d' % i)


def cmp_storage(tr, dump):
    for i, v in enumerate(tr['vars']):
        g = locate(dump, v, i)
        if g is None:
            return 'v%d is not listed' % i
        where = 'v%d (%s)' % (i, {k: v[k] for k in ('ty', 'shape', 'storage', 'chunks', 'deflate', 'shuffle', 'fletcher', 'endian', 'fill')})
        if 'err' in g or 'gerr' in g:
            return '%s: cannot be read: %s' % (where, g.get('err') or g.get('gerr'))
        want = var_value(v)
        if not same_value(g['val'], want, v['ty']):
            return '%s: value %s, expected %s' % (where, str(g['val'])[:300], str(want)[:300])
        dn = ['d%d' % (d - 1) for d in v['dimids']]
        if (g['shape'] or []) != v['shape'] or g['len'] != (v['shape'][0] if v['shape'] else 1):
            return '%s: shape %s length %s' % (where, g['shape'], g['len'])
        if (g['dims'] or []) != dn or (g['gdims'] or []) != dn:
            return '%s: dimensions %s, expected %s' % (where, g['dims'], dn)
        go = 'string' if v['ty'] == 'char' else v['ty']
        if g['gotype'] != go or g['type'] not in (CDL[v['ty']], 'string' if v['ty'] == 'char' else CDL[v['ty']]):
            return '%s: types %s %s' % (where, g['type'], g['gotype'])
        at = [(a['name'], a['val']) for a in g['attrs'] or []]
        if v['fill'] == 'own':
            if [a for a, _ in at] != ['_FillValue'] or not same_value(at[0][1], nested(v['ty'], [], [fill_of(v)]), v['ty']):
                return '%s: attributes %s' % (where, at)
        elif at:
            return '%s: unexpected attributes %s' % (where, at)
    return None


def read_all(c, files):
    def one(run, it):
        path, tr = it
        s = [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
        res = run(s)
        e = None
        for o, op in zip(res, s):
            if died(o) or 'panic' in o:
                e = '%s in %s' % (o.get('panic') or o.get('stderr'), op['op'])
                break
        if not e:
            e = 'cannot be opened: %s' % res[0]['err'] if res[0]['err'] else cmp_storage(tr, res[1]['r'])
        c.validated()
        if e:
            c.violation('storage', e, trace=tr)
        os.remove(path)
    c.pool.map(one, files)


def c06(c):
    inv = dict(invariants=SINV, properties=SPROP)
    tr = c.sim('H5Storage', config(), c.n(1500, 20000), 60, **inv)
    tr += c.sim('H5Storage', config(Storages={'chunked'}, MaxWrites=8, Types=NUMERIC, MaxVars=3), c.n(1500, 20000), 60, **inv)
    # many chunks, so that the index of chunks has several levels
    tr += c.sim('H5Storage', config(Storages={'chunked'}, MaxWrites=3, Sizes={2, 5, 8, 20}, MaxElems=800, MaxChunk=2, MaxVars=1,
                                    Types={'int16', 'float64', 'string', 'char'}), c.n(200, 3000), 60, **inv)
    # every shape, every chunk shape and every way of writing one part, of up to two dimensions
    one = config(Sim=False, MaxDims=2, MaxRank=2, MaxVars=1, MaxWrites=1, Types={'int16'}, Groups=1, Filters=False, Endians={0}, Fills={'own'},
                 Sizes={1, 2, 3}, MaxChunk=3, Masks=False, Forms=0)
    tr += c.tlc('H5Storage', dict(one, Sizes={2, 3}, Storages={'chunked'}, MaxChunk=2) if not c.thorough else one, workers=8, **inv).traces
    # every combination of filters and byte order
    tr += c.tlc('H5Storage', dict(one, MaxDims=1, MaxRank=1, Filters=True, Sizes={3}, MaxChunk=2, Endians={0, 2}, Unlimited=False,
                                  Types=NUMERIC if c.thorough else {'int8', 'float32', 'uint64'}), workers=8, **inv).traces
    # every set of filters left out of a chunk, and every form of the complete file
    tr += c.tlc('H5Storage', dict(one, MaxDims=1, MaxRank=1, Filters=True, Sizes={3}, MaxChunk=2, Unlimited=c.thorough, Masks=True, Fills={'default'},
                                  Storages={'chunked'}), workers=8, **inv).traces
    tr += c.tlc('H5Storage', dict(one, MaxDims=1, MaxRank=1, Sizes={3}, MaxChunk=2, Forms=len(FORMS), Types={'float32', 'string', 'char'}), workers=8, **inv).traces
    read_all(c, make_all(c, tr))
    c.sample(tr[0])


def c17(c):
    """Files of which little was ever written."""
    import cdffmt
    cdffmt.c17_classic(c)
    inv = dict(invariants=SINV, properties=SPROP)
    tr = c.sim('H5Storage', config(MaxWrites=0, MaxDims=3, MaxElems=80), c.n(600, 8000), 60, **inv)
    tr += c.sim('H5Storage', config(MaxWrites=2, MaxElems=120, Fills={'own'}), c.n(600, 8000), 60, **inv)
    tr += c.sim('H5Storage', config(MaxWrites=2, MaxElems=120, Storages={'chunked'}, MaxChunk=3, Sizes={3, 4, 5, 7}), c.n(600, 8000), 60, **inv)
    # every type in every storage, never written
    tr += c.tlc('H5Storage', config(Sim=False, MaxDims=1, MaxRank=1, MaxVars=1, MaxWrites=0, Groups=1, Sizes={3}, MaxChunk=2, Filters=False,
                                    Unlimited=False, Masks=False, Forms=0), workers=8, **inv).traces
    read_all(c, make_all(c, tr))
    c.sample(tr[0])


def c10(c):
    """Files cut short: an error, or what the complete file holds."""
    import cdffmt
    cdffmt.c10_classic(c)
    inv = dict(invariants=SINV, properties=SPROP)
    tr = c.sim('H5Storage', config(MaxElems=60, MaxVars=3), c.n(120, 600), 60, **inv)
    tr += c.sim('H5Storage', config(MaxElems=60, MaxVars=2, Storages={'chunked'}, Sizes={2, 3, 5}), c.n(60, 300), 60, **inv)
    cuts_hdf5(c, make_all(c, tr), 'libnetcdf')
    # and files of the writer under test
    import writer
    wr = c.sim('Writer', writer.config('hdf5', OnlyValid=True, LateCalls=False, MaxOps=6, MaxRank=3, Lens={0, 1, 2, 3}), c.n(120, 600), 80,
               invariants=writer.INV, properties=writer.PROPS)
    files = []
    for t in wr:
        if not t['ok']:
            continue
        p = c.path()
        res = c.pool._one(writer.script_of(t, p, False))
        if all(o.get('err') is None and 'panic' not in o for o in res):
            files.append((p, t))
    cuts_hdf5(c, files, 'writer')


def parts_of(d, path=''):
    """What a dump says, piece by piece: each must be as in the complete file, or an error."""
    yield path, 'attrs', d.get('attrs')
    yield path, 'dims', d.get('dims')
    yield path, 'types', d.get('types')
    yield path, 'listing', ([v['name'] for v in d.get('vars', [])], [g['name'] for g in d.get('groups', [])])
    for v in d.get('vars', []):
        yield path, 'var ' + v['name'], v
    for g in d.get('groups', []):
        if 'err' not in g:
            yield from parts_of(g, path + '/' + g['name'])


def cmp_damaged(got, whole):
    """Compares a dump of a damaged file with that of the complete one."""
    want = {(p, w): x for p, w, x in parts_of(whole)}
    for p, w, x in parts_of(got):
        if (p, w) not in want:
            return '%s %s is not in the complete file' % (p, w)
        y = want[(p, w)]
        if w.startswith('var '):
            if 'err' in x or 'gerr' in x:
                if 'err' not in x and any(x[k] != y.get(k) for k in ('val', 'dims', 'attrs')):
                    return '%s %s is %s, but %s in the complete file' % (p, w, str(x)[:300], str(y)[:300])
                if 'gerr' not in x and any(x[k] != y.get(k) for k in ('shape', 'len', 'type', 'gotype', 'gdims')):
                    return '%s %s is %s, but %s in the complete file' % (p, w, str(x)[:300], str(y)[:300])
                continue
        if x != y:
            return '%s %s is %s, but %s in the complete file' % (p, w, str(x)[:300], str(y)[:300])
    return None


def cuts_hdf5(c, files, what):
    jobs = []
    for path, tr in files:
        n = os.path.getsize(path)
        if n > 60000:
            os.remove(path)
            continue
        # every length in thorough (of files that are not large), in quick some everywhere and all near the end
        step = c.n(max(1, n // 120), max(1, n // 4000))
        cuts = sorted(set(range(_h('cut', path) % step, n, step)) | set(range(max(0, n - 40), n)))
        jobs += [(path, n, cuts[i:i + 60]) for i in range(0, len(cuts), 60)]

    def one(run, it):
        path, n, cuts = it
        s = read_dump(path)
        ops = list(s)
        for k in cuts:
            ops += [{'op': 'file', 'as': 'f', 'path': path, 'cut': k}, {'op': 'new', 'f': 'f', 'as': 'h'},
                    {'op': 'dump', 'g': 'h'}, {'op': 'closeg', 'g': 'h'}]
        res = run(ops)
        for o, op in zip(res, ops):
            if died(o) or 'panic' in o:
                i = max(0, (len(res) - 1 - len(s)) // 4) if died(o) else None
                c.violation('crash', '%s in %s of a %s file of %d bytes cut to %s' % (
                    o.get('panic') or o.get('stderr'), op['op'], what, n, cuts[i] if i is not None else 'one of %s' % cuts), file=open(path, 'rb').read().hex())
                return
        if res[0]['err'] is not None:
            c.violation('open', 'complete file: %s' % res[0]['err'])
            return
        whole = res[1]['r']
        for j, k in enumerate(cuts):
            r = res[len(s) + 4 * j:len(s) + 4 * j + 4]
            c.validated()
            if r[1]['err'] is None:
                e = cmp_damaged(r[2]['r'], whole)
                if e:
                    c.violation('cut', 'a %s file of %d bytes cut to %d: %s' % (what, n, k, e), file=open(path, 'rb').read().hex(), cut=k)
                    return
                c.part('cut files that still open')
    c.pool.map(one, jobs)
    for path, _ in files:
        if os.path.exists(path):
            os.remove(path)


def read_dump(path):
    return [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
