"""Replays behaviours of spec/Writer.tla on the real writers, and compares what is read back."""
import os
from vlib import *

CDF_TYPES = {'int8', 'int16', 'int32', 'float32', 'float64', 'string'}
V5_TYPES = {'uint8', 'uint16', 'uint32', 'uint64', 'int64'}
ALL_TYPES = CDF_TYPES | V5_TYPES
INV = ['UniqueNames', 'UniqueDims', 'DimsAgree', 'NoVarIsGroup', 'ParentsExist']
PROPS = ['NoTrace', 'FinalAfterClose']


def script_of(tr, path, nul):
    """The calls of a behaviour; writer handles are w1 (root), w2, ..."""
    ops = [{'op': 'openw', 'w': 'w1', 'path': path, 'kind': tr['kind']}]
    for h in tr['hist']:
        w = 'w%d' % h.get('g', 1)
        at = lambda: [[k, mkval(v, nul)] for k, v in h['attrs']]
        if h['op'] == 'addvar':
            ops.append({'op': 'addvar', 'w': w, 'name': h['name'], 'val': mkval(h['val'], nul), 'dims': h['dims'],
                        'attrs': at() if h['attrs'] or h['val']['tok'] % 2 else None})
        elif h['op'] == 'addattrs':
            ops.append({'op': 'addattrs', 'w': w, 'attrs': at()})
        elif h['op'] == 'creategroup':
            ops.append({'op': 'creategroup', 'w': w, 'name': h['name'], 'as': 'w%d' % h['as']})
        elif h['op'] == 'closegroup':
            ops.append({'op': 'closew', 'w': w})
        elif h['op'] == 'close':
            ops.append({'op': 'closew', 'w': 'w1'})
    return ops


def read_val(kind, v, shape, nul):
    """What reading a written value must return: {'T','V'}."""
    w = mkval(v, nul)
    if kind == 'cdf' and v['ty'] == 'string':
        n = len(shape)
        return {'T': gotype('string', max(0, n - 1)), 'V': pad_strings(w['V'], shape[-1]) if n else w['V']}
    return w


def read_attr(a, nul):
    v = a['val']
    w = mkval(v, nul)
    # a one-element array comes back as a scalar: gs was shortened by the specification
    return w


def norm_empty(v):
    return v


def same_val(got, want):
    return got == want


def expect_group(tr, gi, nul):
    g = tr['groups'][gi]
    return {'path': g['path'], 'vars': g['vars'], 'attrs': g['attrs']}


def attr_want(a, nul):
    v = dict(a['val'])
    # the written value had one more level if the array had one element; its bits are the same
    return a['name'], mkval(v, nul)


def cmp_attrs(got, want, nul, where):
    if got is None:
        got = []
    gn = [a['name'] for a in got]
    wn = [a['name'] for a in want]
    if gn != wn:
        return '%s: attributes %s, expected %s' % (where, gn, wn)
    for g, w in zip(got, want):
        _, x = attr_want(w, nul)
        if not g['has'] or g['val'] != x:
            return '%s: attribute %s is %s, expected %s' % (where, w['name'], g['val'], x)
    return None


def cmp_var(kind, got, w, nul, where):
    if 'err' in got or 'gerr' in got:
        return '%s: cannot be read: %s' % (where, got.get('err') or got.get('gerr'))
    x = read_val(kind, w['val'], w['shape'], nul)
    if got['val'] != x:
        return '%s: value %s, expected %s' % (where, str(got['val'])[:300], str(x)[:300])
    dims = got['dims'] or []
    for d in (dims, got['gdims'] or []):
        if kind == 'cdf':
            bad = len(d) != len(w['dims']) or any(a != b and b != '' for a, b in zip(d, w['dims']))
        elif '' in w['dims']:
            bad = False     # names are read back only when all dimensions are named
        else:
            bad = d != w['dims']
        if bad:
            return '%s: dimensions %s, expected %s' % (where, d, w['dims'])
    if (got['shape'] or []) != w['shape']:
        return '%s: shape %s, expected %s' % (where, got['shape'], w['shape'])
    if got['len'] != (w['shape'][0] if w['shape'] else 1):
        return '%s: length %s for shape %s' % (where, got['len'], w['shape'])
    ty = w['val']['ty']
    if len(w['val']['gs']) == len(w['shape']) or kind == 'cdf':
        if got['gotype'] != ty or got['type'] not in ((CDL[ty],) if ty != 'string' else ('char', 'string')):
            return '%s: types %s %s for %s' % (where, got['type'], got['gotype'], ty)
    return cmp_attrs(got['attrs'], w['attrs'], nul, where)


def cmp_tree(tr, dump, nul):
    """The first difference between what is in the file and what the specification says, or None."""
    kind = tr['kind']
    paths = {tuple(g['path']): g for g in tr['groups']}

    def walk(path, d):
        where = '/' + '/'.join(path)
        if 'err' in d:
            return '%s: cannot be opened: %s' % (where, d['err'])
        g = paths[path]
        e = cmp_attrs(d['attrs'], g['attrs'], nul, where)
        if e:
            return e
        gn = [v['name'] for v in d['vars']]
        wn = [v['name'] for v in g['vars']]
        if (gn != wn) if kind == 'cdf' else (sorted(gn) != sorted(wn)):
            return '%s: variables %s, expected %s' % (where, gn, wn)
        by = {v['name']: v for v in d['vars']}
        for w in g['vars']:
            e = cmp_var(kind, by[w['name']], w, nul, where + ':' + w['name'])
            if e:
                return e
        if d['types']:
            return '%s: unexpected types %s' % (where, d['types'])
        sub = [p for p in paths if len(p) == len(path) + 1 and p[:-1] == path]
        if sorted(s['name'] for s in d['groups']) != sorted(p[-1] for p in sub):
            return '%s: subgroups %s, expected %s' % (where, [s['name'] for s in d['groups']], [p[-1] for p in sub])
        want = [[x['name'], x['size']] for x in tr['dims']] if not path else []
        got = d['dims']
        if kind == 'cdf':
            if len(got) != len(want) or any((a[0] != b[0] and b[0] != '') or a[1] != b[1] for a, b in zip(got, want)) \
                    or len({a[0] for a in got}) != len(got):
                return '%s: dimensions %s, expected %s' % (where, got, want)
        elif sorted(map(str, got)) != sorted(map(str, want)):
            return '%s: dimensions %s, expected %s' % (where, got, want)
        for s in d['groups']:
            e = walk(path + (s['name'],), s)
            if e:
                return e
        return None

    return walk((), dump)


def judge(c, tr, script, res, nul, exact=True):
    """Compares the results of a script made by full_script; returns a description of a failure or None."""
    hist = tr['hist']
    for i, o in enumerate(res):
        if died(o):
            return 'crash', 'the process %s in %s: %s' % ('hung' if o.get('hang') else 'died', str(script[i])[:300], o['stderr'][:600])
        if 'panic' in o:
            return 'panic', 'panic %r in %s' % (o['panic'], str(script[i])[:300])
    if res[0]['err']:
        raise ToolError('cannot create a file: %s' % res[0]['err'])
    closed = None
    for h, o, s in zip(hist, res[1:], script[1:]):
        if o.get('nohandle'):
            return 'handle', 'no handle for %s' % s
        ok = o['err'] is None
        if h['op'] == 'close':
            if closed is None:
                closed = ok
                if ok != h['ok']:
                    return 'close', 'Close returned %r; expected %s' % (o['err'], 'no error' if h['ok'] else 'an error')
        elif ok != h['ok']:
            return 'accept', '%s returned %r; expected it to be %s' % (
                str(s)[:400], o['err'], 'accepted' if h['ok'] else 'refused')
    if closed:
        rest = res[1 + len(hist):]
        if rest[0]['err'] is not None:
            return 'open', 'the written file cannot be opened: %s' % rest[0]['err']
        e = cmp_tree(tr, rest[1]['r'], nul)
        if e:
            return 'content', e
    return None


def replay(c, traces, pname):
    def one(run, it):
        i, tr = it
        nul = tr['kind'] == 'cdf' and i % 3 == 0
        path = os.path.join(c.work, '%s-%d.nc' % (pname, i))
        script = script_of(tr, path, nul)
        full = script + [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
        res = run(full)
        try:
            v = judge(c, tr, full, res, nul)
        finally:
            if os.path.exists(path):
                os.remove(path)
        c.validated()
        if v:
            c.violation(v[0], v[1], trace=tr, script=full, results=res)
        return v
    c.pool.map(one, list(enumerate(traces)))
    for tr in traces[:2]:
        c.sample(tr)


def config(kind, **kw):
    k = dict(Kind=kind, Sim=True, MaxOps=8, VarNames={'a', 'b', 'c', 'x', 'lat', 'v 1', 'Été'}, BadNames={'bad/name'},
             GroupNames={'g', 'h', 'a', 'x'}, DimNames={'', 'x', 'y', 'z', 'lat', 'a', 'c', 't1', 't2', 't3', '_u'},
             BadDimNames={'bad/dim'}, AttrNames={'p', 'q', 'units', 'x', 'a b'}, Types=set(ALL_TYPES),
             BadTypes={'bool', 'int', 'complex128', 'nil', 'struct', 'map', 'any', '*int32', 'uint'},
             BadAttrTypes={'bool', 'int', 'nil', 'struct', 'any'},
             Lens={0, 1, 2, 3, 5}, MaxRank=4, StrLens={0, 1, 2, 3, 7}, MaxAttrs=2, OnlyValid=False, LateCalls=True)
    k.update(kw)
    return k


def small(c, kind, **kw):
    """All behaviours of a small configuration."""
    k = dict(Sim=False, MaxOps=2, VarNames={'a', 'x'}, DimNames={'', 'x'}, BadDimNames=set(), BadNames=set(), GroupNames={'x'},
             AttrNames=set(), MaxAttrs=0, Types={'int16'}, BadTypes=set(), BadAttrTypes=set(), Lens={0, 1, 2}, MaxRank=1,
             StrLens={0, 2}, LateCalls=False)
    k.update(kw)
    return c.tlc('Writer', config(kind, **k), workers=8, invariants=INV, properties=PROPS).traces


def exhaustive(c, kind, valid):
    """The small configurations explored completely; they overlap little."""
    str_ = lambda **kw: small(c, kind, Types={'string'}, VarNames={'a', 'x'}, GroupNames=set(), OnlyValid=valid, **kw)
    tr = small(c, kind, OnlyValid=valid)                                                    # two calls, sharing names
    tr += str_(Lens={0, 1}, StrLens={0, 1, 2} if c.thorough else {0, 1})
    # one variable of any type and shape
    tr += small(c, kind, MaxOps=1, VarNames={'a'}, GroupNames=set(), OnlyValid=valid, Types=set(ALL_TYPES),
                DimNames={'', 'x'} if c.thorough else {'x', 'y'}, MaxRank=3, Lens={0, 1, 2} if c.thorough else {0, 2},
                StrLens={0, 1, 2} if c.thorough else {1, 2})
    # one attribute of any type and shape
    tr += small(c, kind, MaxOps=1, VarNames=set(), GroupNames=set(), AttrNames={'p'}, MaxAttrs=1, OnlyValid=valid, Types=set(ALL_TYPES),
                BadAttrTypes=set() if valid else {'bool', 'int', 'nil', 'struct'}, MaxRank=3, Lens={0, 1, 2, 3}, StrLens={0, 1, 5})
    if not valid:
        # names that are refused, and calls after Close
        tr += small(c, kind, BadNames={'b/d'}, BadDimNames={'_/'}, DimNames={'x'}, LateCalls=True, Lens={2}, VarNames={'x'})
    if c.thorough:
        tr += small(c, kind, MaxOps=3, Lens={0, 1} if kind == 'cdf' else {1, 2}, DimNames={'', 'x'}, OnlyValid=valid, StrLens={1})
        tr += small(c, kind, MaxOps=2, MaxRank=2, Lens={1, 2}, DimNames={'x', 'y'}, GroupNames=set(), OnlyValid=valid)
    return tr


def c01(c):
    q = c.n(4000, 60000)
    tr = c.sim('Writer', config('cdf', OnlyValid=True, LateCalls=False, MaxOps=7, Lens={0, 1, 2, 3, 4}), q, 60, invariants=INV, properties=PROPS)
    tr += c.sim('Writer', config('cdf', OnlyValid=True, LateCalls=False, MaxOps=5, Types=set(CDF_TYPES), Lens={1, 2, 3}), q // 4, 60,
                invariants=INV, properties=PROPS)
    replay(c, tr, 'sim')
    replay(c, exhaustive(c, 'cdf', True), 'all')
    import large
    large.written(c, c.n(4, 24))


def c02(c):
    q = c.n(5000, 60000)
    tr = c.sim('Writer', config('hdf5', OnlyValid=True, LateCalls=False, MaxOps=9), q, 80, invariants=INV, properties=PROPS)
    # few variables: attributes and empty groups weigh more
    tr += c.sim('Writer', config('hdf5', OnlyValid=True, LateCalls=False, MaxOps=6, VarNames={'a'}, MaxRank=2, Types={'string', 'float32', 'int8'},
                                 GroupNames={'g', 'h', 'i'}), q // 4, 80, invariants=INV, properties=PROPS)
    replay(c, tr, 'sim')
    replay(c, exhaustive(c, 'hdf5', True), 'all')


def c08(c):
    q = c.n(2000, 30000)
    for k in ('cdf', 'hdf5'):
        tr = c.sim('Writer', config(k, MaxOps=8), q, 80, invariants=INV, properties=PROPS)
        tr += c.sim('Writer', config(k, MaxOps=8, VarNames={'a', 'x', 'b', 'c'}, DimNames={'', 'x', 'y'}, GroupNames={'a', 'x'},
                                     Types={'int16', 'string'}, Lens={0, 1, 2}, MaxRank=3, AttrNames={'p', 'q'}),
                    q, 80, invariants=INV, properties=PROPS)
        replay(c, tr, k)
        replay(c, exhaustive(c, k, False), k + '-all')
