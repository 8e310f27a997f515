"""Files that the code writes, read by two independent readers: the specification (spec/CdfBytes.tla and spec/H5Nc.tla,
evaluated by TLC) and the reference C library."""
import os
from vlib import *
import writer as W

TYCODE = {'int8': 1, 'char': 2, 'int16': 3, 'int32': 4, 'float32': 5, 'float64': 6, 'uint8': 7, 'uint16': 8, 'uint32': 9, 'int64': 10, 'uint64': 11}
BASIC = {'cdf': 'CdfCheck', 'hdf5': 'H5Check'}


# --------------------------------------------------------------------------- decoding by the specification

def spec_decode(c, module, files, constants=None):
    """{id: what the specification says, or {'malformed': why}} for files: list of (id, bytes)."""
    files = sorted(files, key=lambda f: -len(f[1]))
    n = min(NCPU, max(1, len(files)))
    batches = [files[i::n] for i in range(n)]

    def one(batch):
        out = {}
        while batch:
            p = tempfile.mktemp(dir=c.work, suffix='.json')
            with open(p, 'w') as f:
                json.dump([{'id': i, 'bytes': list(b)} for i, b in batch], f)
            try:
                r = run_tlc(module, constants or {}, c.work, env={'VERIF_FILES': p})
                c.count_tlc(module, r)
                for t in r.traces:
                    out[t['id']] = t
                if len(r.traces) != len(batch):
                    raise ToolError('%s decoded %d files of %d' % (module, len(r.traces), len(batch)))
                return out
            except ToolError as e:
                r = getattr(e, 'result', None)
                if r is None or 'MALFORMED' not in r.out and 'unexpected tag' not in r.out and 'Attempted to' not in r.out:
                    raise
                for t in r.traces:      # TLC evaluates the steps again to show them, so some are there twice
                    out[t['id']] = t
                k = next(k for k, (x, _) in enumerate(batch) if x not in out)
                bad = batch[k]
                i = max(r.out.find('MALFORMED'), r.out.find('unexpected tag'))
                i = i if i >= 0 else r.out.find('Attempted to')
                out[bad[0]] = {'malformed': ' '.join(r.out[max(0, i - 10):i + 200].split())}
                batch = batch[k + 1:]
            finally:
                os.remove(p)
        return out
    res = {}
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for o in ex.map(one, batches):
            res.update(o)
    return res


# --------------------------------------------------------------------------- decoding by the reference library

def lib_decode(c, paths):
    """[{'file':…} or {'err':…} or {'crash':…}] for each path."""
    n = min(NCPU, max(1, len(paths)))

    def one(batch):
        out = []
        while len(out) < len(batch):
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'ncread.py')], input=json.dumps(batch[len(out):]),
                               capture_output=True, text=True, timeout=600)
            for line in r.stdout.splitlines():
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
            if len(out) < len(batch):
                if r.returncode >= 0:
                    raise ToolError('the reference reader failed: ' + r.stderr[-2000:])
                out.append({'crash': 'signal %d' % -r.returncode})
        return out
    batches = [paths[i::n] for i in range(n)]
    res = [None] * len(paths)
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for i, o in enumerate(ex.map(one, batches)):
            res[i::n] = o
    return res


# --------------------------------------------------------------------------- what was written

def flat(x, ty):
    """The elements of a value, in order: hex strings, or text as hex."""
    if isinstance(x, list):
        return [y for e in x for y in flat(e, ty)]
    if ty == 'string':
        return [x[2:]]
    w = WIDTH[ty] * 2
    return [x[i:i + w] for i in range(0, len(x), w)]


def until_nul(h):
    b = bytes.fromhex(h)
    i = b.find(b'\0')
    return b[:i].hex() if i >= 0 else h


def rows(x, depth, below, ty):
    """The elements of a value below depth levels: each has some levels of its own."""
    if depth:
        return [r for e in x for r in rows(e, depth - 1, below, ty)]
    if not below:
        raise ValueError
    if below == 1:
        return [[until_nul(e) for e in flat(x, ty)] if ty == 'string' else flat(x, ty)]
    return [[r for e in x for r in rows(e, 0, below - 1, ty)]]


def hexs(b):
    return bytes(b).hex()


def uname(n):
    return n.encode().hex()


class Bad(Exception):
    pass


def need(cond, what):
    if not cond:
        raise Bad(what)


# --------------------------------------------------------------------------- classic files

def cdf_elems(v, shape, nul):
    """Type and elements of a written value in a classic file."""
    w = mkval(v, nul)['V']
    ty = v['ty']
    if ty != 'string':
        return ty, flat(w, ty)
    n = shape[-1] if shape else 1
    out = []
    for s in flat(w, ty):
        b = bytes.fromhex(s)
        out += ['%02x' % x for x in b + b'\0' * (n - len(b))]
    return 'char', out


def cdf_att(a, nul):
    v = a['val']
    w = mkval(v, nul)['V']
    if v['ty'] == 'string':
        b = bytes.fromhex(w[2:])
        return 'char', ['%02x' % x for x in b]
    return v['ty'], flat(w, v['ty'])


def cmp_cdf_atts(where, got, want, nul):
    need([a['name'] for a in got] == [uname(a['name']) for a in want], '%s: attributes %s, written %s' % (
        where, [bytes.fromhex(a['name']).decode('utf8', 'replace') for a in got], [a['name'] for a in want]))
    for g, w in zip(got, want):
        ty, el = cdf_att(w, nul)
        need(g['ty'] == ty and g['elems'] == el, '%s: attribute %s is %s %s, written %s %s' % (where, w['name'], g['ty'], g['elems'], ty, el))


def cmp_cdf(tr, f, nul):
    """f: {dims: [[name, len]], attrs, vars} with hex names, by either reader."""
    g = tr['groups'][0]
    cmp_cdf_atts('file', f['attrs'], g['attrs'], nul)
    want = [(uname(d['name']), d['size']) for d in tr['dims']]
    need(len(f['dims']) == len(want) and all((a[0] == b[0] or b[0] == '') and a[1] == b[1] for a, b in zip(f['dims'], want)),
         'dimensions %s, written %s' % (f['dims'], tr['dims']))
    need([v['name'] for v in f['vars']] == [uname(v['name']) for v in g['vars']], 'variables %s, written %s' % (
        [v['name'] for v in f['vars']], [v['name'] for v in g['vars']]))
    for r, w in zip(f['vars'], g['vars']):
        ty, el = cdf_elems(w['val'], w['shape'], nul)
        where = 'variable ' + w['name']
        need(r['ty'] == ty, '%s: type %s, written %s' % (where, r['ty'], ty))
        need(r['shape'] == w['shape'], '%s: shape %s, written %s' % (where, r['shape'], w['shape']))
        need(all(a == uname(b) or b == '' for a, b in zip(r['dims'], w['dims'])), '%s: dimensions %s, written %s' % (where, r['dims'], w['dims']))
        need(r['elems'] == el, '%s: elements %s, written %s' % (where, r['elems'], el))
        cmp_cdf_atts(where, r['attrs'], w['attrs'], nul)


CODE_TY = {v: k for k, v in TYCODE.items()}


def spec_cdf(x):
    """The result of CdfCheck in the common form."""
    f = x['file']
    att = lambda a: {'name': hexs(a['name']), 'ty': CODE_TY[a['ty']], 'elems': [hexs(e) for e in a['elems']]}
    return {'attrs': [att(a) for a in f['atts']], 'dims': [[hexs(d['name']), d['len']] for d in f['dims']],
            'vars': [{'name': hexs(v['name']), 'ty': CODE_TY[v['ty']], 'shape': v['shape'],
                      'dims': [hexs(f['dims'][d]['name']) for d in v['dimids']], 'attrs': [att(a) for a in v['atts']],
                      'elems': [hexs(e) for e in v['elems']]} for v in f['vars']]}


def lib_cdf(f):
    att = lambda a: {'name': a['name'], 'ty': a['ty'][0], 'elems': a['elems']}
    return {'attrs': [att(a) for a in f['attrs']], 'dims': [[d[0], d[1]] for d in f['dims']],
            'vars': [{'name': v['name'], 'ty': v['ty'][0], 'shape': v['shape'], 'dims': v['dims'], 'attrs': [att(a) for a in v['attrs']],
                      'elems': v['elems']} for v in f['vars']]}


# --------------------------------------------------------------------------- HDF5 files

def h5_want(v, depth, nul):
    """Kind and elements of a value that has depth dimensions."""
    w = mkval(v, nul)['V']
    ty = v['ty']
    below = len(v['gs']) - depth
    if below:
        t = [ty]
        for _ in range(below):
            t = ['vlen', t]
        return t, rows(w, depth, below, ty)
    el = flat(w, ty)
    return [ty], [until_nul(e) for e in el] if ty == 'string' else el


def visible(gs):
    """Below an empty slice there is nothing to see."""
    i = gs.index(0) if 0 in gs else len(gs)
    return gs[:i] + [0] * (len(gs) - i)


def ragged_attr(v):
    return v['rag'] != 'no'


def attr_depth(v):
    """How many levels of an attribute are its dimensions."""
    return len(v['gs']) - {'no': 0, 'last': 1, 'mid': 2}[v['rag']]


def h5_att_want(a, nul):
    v = a['val']
    return h5_want(v, attr_depth(v), nul)


def h5_ty(t):
    k = t['k']
    return ['string'] if k in ('str', 'string') else ['vlen', h5_ty(t['base'])] if k == 'vlen' else [k]


def h5_elems(el, ty):
    return [h5_elems(e, ty[1]) if ty[0] == 'vlen' else hexs(e) for e in el]


def spec_h5(g):
    att = lambda a: {'name': hexs(a['name']), 'ty': h5_ty(a['ty']), 'shape': a['shape'], 'elems': h5_elems(a['elems'], h5_ty(a['ty']))}
    return {'attrs': [att(a) for a in g['attrs']], 'dims': [[hexs(d['name']), d['size']] for d in g['dims']],
            'vars': [{'name': hexs(v['name']), 'ty': h5_ty(v['ty']), 'shape': v['shape'], 'dims': [hexs(d) for d in v['dims']],
                      'attrs': [att(a) for a in v['attrs']], 'elems': h5_elems(v['elems'], h5_ty(v['ty']))} for v in g['vars']],
            'types': g['types'], 'groups': [dict(spec_h5(s['group']), name=hexs(s['name'])) for s in g['groups']]}


def lib_text(el):
    """Characters of a fixed-length string, the terminating NUL included, as one text."""
    return [until_nul(''.join(el))]


def lib_h5(g):
    def val(t, el, shape):
        if t[0] == 'char':
            return ['string'], lib_text(el)
        if t[0] == 'vlen':
            return ['vlen', t[2]], el
        if t[0] == 'string':
            return ['string'], [e[2:] for e in el]
        return t, el

    def att(a):
        t, el = val(a['ty'], a['elems'], None)
        return {'name': a['name'], 'ty': t, 'shape': None, 'elems': el}

    def var(v):
        t, el = val(v['ty'], v['elems'], v['shape'])
        return {'name': v['name'], 'ty': t, 'shape': v['shape'], 'dims': v['dims'], 'attrs': [att(a) for a in v['attrs']], 'elems': el}
    return {'attrs': [att(a) for a in g['attrs']], 'dims': [d[:2] for d in g['dims']], 'vars': [var(v) for v in g['vars']],
            'types': g['types'], 'groups': [dict(lib_h5(s), name=s['name']) for s in g['groups']]}


def cmp_h5_atts(where, got, want, nul):
    need(sorted(a['name'] for a in got) == sorted(uname(a['name']) for a in want), '%s: attributes %s, written %s' % (
        where, [bytes.fromhex(a['name']).decode('utf8', 'replace') for a in got], [a['name'] for a in want]))
    by = {a['name']: a for a in got}
    for w in want:
        g = by[uname(w['name'])]
        ty, el = h5_att_want(w, nul)
        need(g['ty'] == ty and g['elems'] == el, '%s: attribute %s is %s %s, written %s %s' % (where, w['name'], g['ty'], g['elems'], ty, el))
        gs = visible(w['val']['gs'][:attr_depth(w['val'])])
        need(g['shape'] is None or g['shape'] in (gs, [1] if gs == [] else gs), '%s: attribute %s has shape %s, written %s' % (where, w['name'], g['shape'], gs))


def cmp_h5(tr, f, nul, lib):
    """lib: the reference library's view, without what it cannot show; returns what it does not show."""
    paths = {tuple(g['path']): g for g in tr['groups']}
    hidden = []

    def atts(where, got, want):
        if lib:
            hidden.extend(where + '@' + a['name'] for a in want if ragged_attr(a['val']))
            want = [a for a in want if not ragged_attr(a['val'])]
        cmp_h5_atts(where, got, want, nul)

    def walk(path, d):
        where = '/' + '/'.join(path)
        g = paths[path]
        atts(where, d['attrs'], g['attrs'])
        ws = g['vars']
        if lib:
            hidden.extend(where + ':' + v['name'] for v in ws if len(v['val']['gs']) > len(v['dims']))
            ws = [v for v in ws if len(v['val']['gs']) == len(v['dims'])]
        need(sorted(v['name'] for v in d['vars']) == sorted(uname(v['name']) for v in ws), '%s: variables %s, written %s' % (
            where, [v['name'] for v in d['vars']], [v['name'] for v in ws]))
        by = {v['name']: v for v in d['vars']}
        for w in ws:
            r = by[uname(w['name'])]
            at = where + ':' + w['name']
            ty, el = h5_want(w['val'], len(w['dims']), nul)
            need(r['ty'] == ty, '%s: type %s, written %s' % (at, r['ty'], ty))
            need(r['shape'] == w['shape'], '%s: shape %s, written %s' % (at, r['shape'], w['shape']))
            need('' in w['dims'] or r['dims'] == [uname(x) for x in w['dims']], '%s: dimensions %s, written %s' % (at, r['dims'], w['dims']))
            need(r['elems'] == el, '%s: elements %s, written %s' % (at, r['elems'], el))
            atts(at, r['attrs'], w['attrs'])
        want = sorted([uname(x['name']), x['size']] for x in tr['dims']) if not path else []
        got = sorted(x for x in d['dims'])
        if lib:     # it invents dimensions for those without a name
            got = [x for x in got if x in want or not bytes.fromhex(x[0]).startswith(b'phony_dim_')]
        need(got == want, '%s: dimensions %s, written %s' % (where, got, tr['dims'] if not path else []))
        need(d['types'] == [], '%s: types %s' % (where, d['types']))
        sub = [p for p in paths if len(p) == len(path) + 1 and p[:-1] == path]
        need(sorted(s['name'] for s in d['groups']) == sorted(uname(p[-1]) for p in sub), '%s: subgroups %s' % (where, [s['name'] for s in d['groups']]))
        for s in d['groups']:
            walk(path + (bytes.fromhex(s['name']).decode(),), s)
    walk((), f)
    return hidden


def deep_attr(tr):
    """The attributes of two or more dimensions that are not text."""
    out = []
    for g in tr['groups']:
        for where, as_ in [('', g['attrs'])] + [(v['name'], v['attrs']) for v in g['vars']]:
            out += ['/%s:%s@%s' % ('/'.join(g['path']), where, a['name']) for a in as_
                    if len(a['val']['gs']) > 1 and not ragged_attr(a['val']) and a['val']['ty'] != 'string']
    return out


# --------------------------------------------------------------------------- C09

def write_all(c, traces, kind):
    """Writes each behaviour; returns (behaviour, nul, path, script) of those that were written."""
    def one(run, it):
        i, tr = it
        nul = kind == 'cdf' and i % 3 == 0
        path = c.path()
        script = W.script_of(tr, path, nul)
        res = run(script)
        if any(died(o) or 'panic' in o or o.get('nohandle') for o in res) or len(res) != len(script):
            return None         # C08 is about that
        for h, o in zip(tr['hist'], res[1:]):
            if (o['err'] is None) != h['ok']:
                return None
        return (tr, nul, path, script) if os.path.exists(path) else None
    return [x for x in c.pool.map(one, [(i, t) for i, t in enumerate(traces) if t['ok']]) if x]


def check_files(c, kind, written):
    data = [open(w[2], 'rb').read() for w in written]
    spec = spec_decode(c, BASIC[kind], list(enumerate(data)), {'WithData': True, 'WithParts': False} if kind == 'hdf5' else None)
    lib = lib_decode(c, [w[2] for w in written])
    for i, (tr, nul, path, script) in enumerate(written):
        c.validated()
        d = dict(trace=tr, script=script, bytes=data[i].hex() if len(data[i]) < 40000 else None)
        x = spec[i]
        if 'malformed' in x:
            c.violation('malformed', 'the specification does not accept the file: ' + x['malformed'], **d)
            continue
        try:
            if kind == 'cdf':
                need(x['conforms'], 'the file does not conform to the format')
                cmp_cdf(tr, spec_cdf(x), nul)
            else:
                need(x['eof'] == x['len'], 'the file has %d bytes, its superblock says %d' % (x['len'], x['eof']))
                need(x['disjoint'], 'parts of the file overlap')
                cmp_h5(tr, spec_h5(x['file']), nul, False)
        except Bad as e:
            c.violation('spec', 'read by the specification: %s' % e, **d)
            continue
        y = lib[i]
        md = deep_attr(tr) if kind == 'hdf5' else []
        if 'file' not in y:
            if md and "Can't open HDF5 attribute" in y.get('err', ''):
                c.violation('md-attributes', 'the reference library cannot read the attributes %s' % md, **d)
            else:
                c.violation('reference', 'the reference library cannot read the file: %s' % y, **d)
            continue
        try:
            if kind == 'cdf':
                cmp_cdf(tr, lib_cdf(y['file']), nul)
            else:
                hidden = cmp_h5(tr, lib_h5(y['file']), nul, True)
                if hidden:
                    c.violation('vlen-native', 'the reference library does not show %s' % hidden, **d)
        except Bad as e:
            c.violation('reference', 'read by the reference library: %s' % e, **d)


def c09(c):
    q = c.n(400, 8000)
    for kind in ('cdf', 'hdf5'):
        tr = c.sim('Writer', W.config(kind, OnlyValid=True, LateCalls=False, MaxOps=7, Lens={0, 1, 2, 3, 4}), q, 80, invariants=W.INV, properties=W.PROPS)
        if kind == 'hdf5':
            tr += c.sim('Writer', W.config(kind, OnlyValid=True, LateCalls=False, MaxOps=6, VarNames={'a', 'x'}, MaxRank=2, Lens={1, 2, 3},
                                           Types={'string', 'float32', 'int8', 'uint64'}, GroupNames={'g', 'h', 'i'}), q // 2, 80, invariants=W.INV, properties=W.PROPS)
        # larger files: several heaps, long headers
        tr += c.sim('Writer', W.config(kind, OnlyValid=True, LateCalls=False, MaxOps=16, Lens={1, 2, 3, 9}, MaxRank=3, StrLens={1, 40, 900},
                                       VarNames={'v%d' % i for i in range(20)}, GroupNames={'g', 'h'}, DimNames={'', 'x', 'y', 'lon' * 30}),
                    c.n(24, 400), 200, invariants=W.INV, properties=W.PROPS)
        tr += c.sim('Writer', W.config(kind, MaxOps=8), q // 2, 80, invariants=W.INV, properties=W.PROPS)
        tr += W.small(c, kind, MaxOps=1, VarNames={'a'}, GroupNames=set(), OnlyValid=True, Types=set(W.ALL_TYPES), DimNames={'x'}, MaxRank=2,
                      Lens={0, 1, 2}, StrLens={0, 1, 2})
        tr += W.small(c, kind, MaxOps=1, VarNames=set(), GroupNames=set(), AttrNames={'p'}, MaxAttrs=1, OnlyValid=True, Types=set(W.ALL_TYPES),
                      MaxRank=2, Lens={0, 1, 2}, StrLens={0, 1, 5})
        for i in range(0, len(tr), 4000):
            written = write_all(c, tr[i:i + 4000], kind)
            check_files(c, kind, written)
            for w in written:
                os.remove(w[2])
        c.sample(tr[0])
