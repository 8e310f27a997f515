"""Classic files: spec/CdfFormat.tla against the reader and the writer."""
import os
from vlib import *
from vlib import _h

NCTYPES = [None, 'int8', 'string', 'int16', 'int32', 'float32', 'float64', 'uint8', 'uint16', 'uint32', 'int64', 'uint64']
CDLT = [None, 'byte', 'char', 'short', 'int', 'float', 'double', 'ubyte', 'ushort', 'uint', 'int64', 'uint64']
FINV = ['RoundTrip', 'NoOverlap', 'CutMeaning']


def name_of(b):
    return bytes(b).decode('utf8')


def nest(ty, shape, elems):
    """The Go value of an array: {'T','V'}.  elems: each the list of its bytes."""
    hx = [bytes(e).hex() for e in elems]
    go = NCTYPES[ty]
    if ty == 2:
        if not shape:
            return {'T': 'string', 'V': 's:' + hx[0]}
        row, shape = shape[-1], shape[:-1]
        leaves = []
        n = 1
        for s in shape:
            n *= s
        leaves = ['s:' + ''.join(hx[i * row:(i + 1) * row]) for i in range(n)]
        if not shape:
            return {'T': 'string', 'V': leaves[0]}
    else:
        if not shape:
            return {'T': go, 'V': hx[0]}
        row, up = shape[-1], shape[:-1]
        n = 1
        for s in up:
            n *= s
        leaves = [''.join(hx[i * row:(i + 1) * row]) for i in range(n)]
        if not up:
            return {'T': '[]' + go, 'V': leaves[0] if leaves else ''}
    depth = len(shape)
    up = shape if ty == 2 else shape[:-1]

    def build(sh, lo, n):
        if len(sh) == 1:
            return leaves[lo:lo + sh[0]]
        k = n // sh[0] if sh[0] else 0
        return [build(sh[1:], lo + i * k, k) for i in range(sh[0])]
    return {'T': gotype(go, depth), 'V': build(up, 0, n)}


def att_val(a):
    ty, el = a['ty'], a['elems']
    if ty == 2:
        return {'T': 'string', 'V': 's:' + bytes(x[0] for x in el).hex()}
    if len(el) == 1:
        return nest(ty, [], el)
    return nest(ty, [len(el)], el)


def cmp_atts(got, want, where):
    got = got or []
    if [g['name'] for g in got] != [name_of(w['name']) for w in want]:
        return '%s: attributes %s, expected %s' % (where, [g['name'] for g in got], [name_of(w['name']) for w in want])
    for g, w in zip(got, want):
        if not g['has'] or g['val'] != att_val(w):
            return '%s: attribute %s is %s, expected %s' % (where, g['name'], g['val'], att_val(w))
    return None


def cmp_file(f, dump, elems=None, soft=False):
    """What is wrong with a dump of the file, or None.  elems: the elements expected, if other
    than those of f.  soft: an error instead of the values of a variable is fine too."""
    e = cmp_atts(dump['attrs'], f['atts'], 'global')
    if e:
        return e
    dims = [(name_of(d['name']), d['len']) for d in f['dims']]
    if [tuple(d) for d in dump['dims'] or []] != dims:
        return 'dimensions %s, expected %s' % (dump['dims'], dims)
    if [v['name'] for v in dump['vars']] != [name_of(v['name']) for v in f['vars']]:
        return 'variables %s' % [v['name'] for v in dump['vars']]
    for i, (g, w) in enumerate(zip(dump['vars'], f['vars'])):
        where = g['name']
        if 'gerr' in g:
            return '%s: cannot be read: %s' % (where, g['gerr'])
        dn = [dims[d][0] for d in w['dimids']]
        if (g['gdims'] or []) != dn or (g['shape'] or []) != w['shape']:
            return '%s: dimensions %s shape %s, expected %s %s' % (where, g['gdims'], g['shape'], dn, w['shape'])
        if g['len'] != (w['shape'][0] if w['shape'] else 1):
            return '%s: length %s for shape %s' % (where, g['len'], w['shape'])
        if g['type'] != CDLT[w['ty']] or g['gotype'] != NCTYPES[w['ty']]:
            return '%s: type %s %s, expected %s' % (where, g['type'], g['gotype'], CDLT[w['ty']])
        el = elems[i] if elems else w['elems']
        if 'err' in g:
            if soft:
                continue
            return '%s: cannot be read: %s' % (where, g['err'])
        if (g['dims'] or []) != dn:
            return '%s: dimensions %s, expected %s' % (where, g['dims'], dn)
        x = nest(w['ty'], w['shape'], el)
        if g['val'] != x:
            return '%s: value %s, expected %s' % (where, str(g['val'])[:300], str(x)[:300])
        e = cmp_atts(g['attrs'], w['atts'], where)
        if e:
            return e
    return None


def stopped(res, script):
    for o, s in zip(res, script):
        if died(o):
            return 'the process %s in %s: %s' % ('hung' if o.get('hang') else 'died', s['op'], o['stderr'][:500])
        if 'panic' in o:
            return 'panic %r in %s' % (o['panic'], s['op'])
    return None


def read_script(data, cut=None, path=None):
    if path:
        o = [{'op': 'open', 'as': 'g', 'path': path}]
    else:
        o = [{'op': 'file', 'as': 'f', 'data': data}, {'op': 'new', 'f': 'f', 'as': 'g'}]
        if cut is not None:
            o[0]['cut'] = cut
    return o + [{'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]


def config(**kw):
    k = dict(Sim=True, MaxDims=4, MaxVars=4, MaxAtts=3, MaxRank=4, Lens={1, 2, 3, 5}, RecCounts={0, 1, 2, 3, 5}, AttLens={0, 1, 2, 3, 5},
             Versions={1, 2, 5}, MaxElems=60, OddFill=False)
    k.update(kw)
    return k


def cut_elems(tr, n):
    return [[e if end <= n else fill for e, end in zip(v['elems'], ends)]
            for v, ends, fill in zip(tr['file']['vars'], tr['ends'], tr['fills'])]


def c05(c):
    tr = c.sim('CdfFormat', config(OddFill=True), c.n(1200, 16000), 60, invariants=FINV)
    # many record variables of small types
    tr += c.sim('CdfFormat', config(MaxVars=6, MaxAtts=1, Lens={1, 2, 3, 5, 7}, MaxDims=3, MaxRank=3), c.n(800, 12000), 60, invariants=FINV)
    # all files with one or two small variables of any type, and three small ones
    few = 'FewTypes(v) == {1, 3, 4}\nNoAtts(b) == {<<>>}'
    tr += c.tlc('CdfFormat', config(Sim=False, MaxDims=1, MaxVars=2, MaxAtts=0, MaxRank=1, Lens={3}, RecCounts={0, 1, 3}, AttLens={1},
                                    Versions={2, 5}), workers=8, invariants=FINV,
                extra_defs=few, overrides={'SomeAtts': 'NoAtts'}).traces
    tr += c.tlc('CdfFormat', config(Sim=False, MaxDims=2, MaxVars=3 if c.thorough else 2, MaxAtts=0, MaxRank=2, Lens={1, 3}, RecCounts={0, 2}, AttLens={1},
                                    Versions={1}), workers=8, invariants=FINV,
                extra_defs=few, overrides={'SomeAtts': 'NoAtts', 'TypesOf': 'FewTypes'}).traces

    def one(run, it):
        i, t = it
        data = bytes(t['file']['bytes'])
        path = None
        if i % 3 == 0:
            path = c.path()
            open(path, 'wb').write(data)
        s = read_script(data.hex(), path=path)
        res = run(s)
        if path:
            os.remove(path)
        e = stopped(res, s)
        if not e:
            e = 'cannot be opened: %s' % res[-3]['err'] if res[-3]['err'] else cmp_file(t['file'], res[-2]['r'])
        c.validated()
        if e:
            c.violation('file', e, file=t['file'], hex=data.hex())
    c.pool.map(one, list(enumerate(tr)))
    c.sample({k: v for k, v in tr[0]['file'].items()})


def cut_checks(c, tr, pick, exact):
    """Opens each file ending at each of pick(file) lengths.  exact: what is missing must be the fill value."""
    def one(run, t):
        f = t['file']
        data = bytes(f['bytes']).hex()
        ns = list(pick(t))
        for lo in range(0, len(ns), 50):
            part = ns[lo:lo + 50]
            s = []
            for n in part:
                s += read_script(data, n)
            res = run(s)
            for i, n in enumerate(part):
                r = res[4 * i:4 * i + 4]
                e = stopped(r, s[4 * i:])
                if not e and len(r) == 4:
                    if r[1]['err'] is None:
                        elems = cut_elems(t, n)
                        e = cmp_file(f, r[2]['r'], elems, soft=not exact or n < f['hlen'])
                    elif exact and n >= f['hlen']:
                        e = 'cannot be opened although the header is complete: %s' % r[1]['err']
                if e:
                    c.violation('cut', 'cut at %d (header %d, all %d): %s' % (n, f['hlen'], len(f['bytes']), e),
                                file=f, hex=data, cut=n)
            c.validated(len(res) // 4)
    c.pool.map(one, tr)


def c10_classic(c):
    tr = c.sim('CdfFormat', config(MaxElems=20), c.n(160, 2400), 60, invariants=FINV)
    # every prefix; the header has less to tell, so in quick only a part of it
    cut_checks(c, tr, lambda t: [n for n in range(len(t['file']['bytes'])) if c.thorough or n >= t['file']['hlen'] or n % 5 == c.seed % 5],
               False)


def c17_classic(c):
    tr = c.sim('CdfFormat', config(MaxElems=40, MaxAtts=1), c.n(400, 6000), 60, invariants=FINV)
    tr += c.sim('CdfFormat', config(MaxElems=40, MaxAtts=2, MaxVars=5, Lens={1, 2, 3, 4}), c.n(400, 6000), 60, invariants=FINV)

    def pick(t):
        n, h = len(t['file']['bytes']), t['file']['hlen']
        return sorted({h + _h('cut', n, h, i) % (n - h + 1) for i in range(c.n(12, 40))} | {h, n})
    cut_checks(c, tr, pick, True)
    c.sample(tr[0])
