"""Replays behaviours of spec/Copy.tla: what is read from a dataset is written to a new file, which must say the same."""
from ncfile import *
import written

CINV = ['OneSize', 'FitsStill', 'NamesApart']
CPROP = ['NoTrace']


def script_of(tr, path, out):
    s = [{'op': 'open', 'path': path, 'as': 'src'}, {'op': 'openw', 'path': out, 'kind': 'hdf5', 'w': 'w1'}]
    at = []
    have = set()

    def src(g):
        if g not in have:
            have.add(g)
            s.append({'op': 'getgroup', 'g': 'src', 'name': '/' + '/'.join(tr['paths'][g - 1]), 'as': 'g%d' % g})
        return 'g%d' % g
    for i, c in enumerate(tr['calls']):
        if c['op'] == 'none':
            continue
        if c['op'] == 'group':
            r = tr['grp'][c['g'] - 1]
            o = {'op': 'creategroup', 'w': 'w%d' % r['up'], 'name': r['n'], 'as': 'w%d' % c['g']}
        elif c['op'] == 'var':
            r = tr['var'][c['v'] - 1]
            s.append({'op': 'getvar', 'g': src(c['g']), 'name': r['n'], 'stash': 's%d' % i})
            o = {'op': 'addvar', 'w': 'w%d' % c['g'], 'name': r['n'], 'val': {'ref': 's%d' % i},
                 'dims': [tr['dim'][d - 1]['n'] for d in r['dims']], 'attrs': {'ref': 's%d' % i} if c['atts'] else []}
        else:
            s.append({'op': 'stashattrs', 'g': src(c['g']), 'stash': 's%d' % i})
            o = {'op': 'addattrs', 'w': 'w%d' % c['g'], 'attrs': {'ref': 's%d' % i}}
        at.append((len(s), c))
        s.append(o)
    s += [{'op': 'closew', 'w': 'w1'}, {'op': 'open', 'path': out, 'as': 'all'}, {'op': 'dump', 'g': 'all'}]
    return s, at


def collapse(v):
    """An attribute with one dimension and one element reads as the element."""
    t = v['T']
    if not t.startswith('[]') or t.startswith('[][]'):
        return v
    b, w = t[2:], v['V']
    n = len(w) // 2 // WIDTH[b] if b in WIDTH else len(w)
    return {'T': b, 'V': w if b in WIDTH else w[0]} if n == 1 else v


def merged(v):
    """Slices of enumerated values, as an enumeration of slices."""
    if not re.fullmatch(r'(\[\])+U', v['T']):
        return v
    base = []

    def down(x):
        if isinstance(x, dict):
            base.append(x['enum']['T'])
            return x['enum']['V']
        r = [down(y) for y in x]
        return r if r and isinstance(r[0], list) else ''.join(r)
    if not enums(v['V']):
        return v
    w = down(v['V'])
    return {'T': 'U', 'V': {'enum': {'T': v['T'][:-1] + base[0], 'V': w}}} if base else v


def enums(x):
    return all(enums(y) for y in x) if isinstance(x, list) else isinstance(x, dict) and 'enum' in x


class Copied(Judge):
    """Compares a dump of the copy."""
    def __init__(self, tr):
        super().__init__(tr, 'hdf5')
        self.lost = []

    def text(self, got, text, lost, where):
        if squeeze(got) == squeeze(text):
            return
        need(squeeze(got) == squeeze(lost), 'type', '%s: type %s, expected %s or %s', where, got, text, lost)
        self.lost.append(where)

    def attrs(self, got, want, where):
        got = got or []
        need([g['name'] for g in got] == [w['n'] for w in want] or sorted(g['name'] for g in got) == sorted(w['n'] for w in want) and
             not all(w['ord'] for w in want), 'attr', '%s: attributes %s, expected %s', where, [g['name'] for g in got], [w['n'] for w in want])
        by = {g['name']: g for g in got}
        for w in want:
            g, a = by[w['n']], self.tr['att'][w['i'] - 1]
            full = self.V.att(w['i'])
            e = collapse(full) if a['t']['b'] != 'char' else full
            at = '%s: attribute %s' % (where, w['n'])
            need(g['has'] and merged(plain(g['val'])) == merged(e), 'attr', '%s is %s, expected %s', at, g['val'], e)
            text, lost = w['text'], w['lost']
            if a['len'] != 1 and a['t']['b'] != 'char':
                text, lost = text + '(*)', lost + '(*)'
            if e is not full and a['len'] == 1:
                text, lost = text[:-3], lost[:-3]
            self.text(g['type'], text, lost, at)

    def copy(self, d, w, path='/'):
        vs = {x['name']: x for x in d['vars']}
        gs = {x['name']: x for x in d['groups']}
        for what, have, want in (('variables', d['vars'], w['vars']), ('groups', d['groups'], w['groups'])):
            need(sorted(x['name'] for x in have) == sorted(x['n'] for x in want), 'list', '%s: %s %s, expected %s', path, what,
                 [x['name'] for x in have], [x['n'] for x in want])
        need(sorted(map(list, d['dims'] or [])) == sorted([x['n'], x['size']] for x in w['dims']), 'dim', '%s: dimensions %s, expected %s', path, d['dims'], w['dims'])
        need(not d['types'], 'listtypes', '%s: types %s', path, d['types'])
        self.attrs(d['attrs'], w['atts'], path)
        for y in w['vars']:
            x, where = vs[y['n']], path + y['n']
            need('err' not in x and 'gerr' not in x, 'lookup', '%s: %s', where, x.get('err') or x.get('gerr'))
            need((x['shape'] or []) == y['shape'] and (x['dims'] or []) == y['dims'] and (x['gdims'] or []) == y['dims'], 'dim',
                 '%s: shape %s, dimensions %s, expected %s %s', where, x['shape'], x['dims'], y['shape'], y['dims'])
            self.value(x['val'], y['i'], where)
            self.text(x['type'], y['text'], y['lost'], where)
            self.attrs(x['attrs'], y['atts'], where)
        for y in w['groups']:
            need('err' not in gs[y['n']], 'lookup', '%s: group %s: %s', path, y['n'], gs[y['n']].get('err'))
            self.copy(gs[y['n']], y, path + y['n'] + '/')


# --------------------------------------------------------------------------- copies decoded by H5Bytes.tla

def nest(dims, elems):
    if not dims:
        return elems[0]
    k = len(elems) // dims[0] if dims[0] else 0
    return [nest(dims[1:], elems[i * k:(i + 1) * k]) for i in range(dims[0])]


def agree(dt, dv, t, v, where):
    """Does what is in the file (type and value of H5Bytes) hold this value (type and value of Values)?"""
    k = t[0]
    if k == 'array':
        dims, of = t[1], t[2]
        if of == ['char']:      # texts
            dims, of, v = dims[:-1], ['string'], ['s:' + ''.join(v[i:i + dims[-1]]) for i in range(0, len(v), dims[-1])]
        v = nest(dims, v)
        for j, d in enumerate(dims):
            if dt['k'] == 'array':
                need(dt['dims'] == dims[j:], 'file', '%s: array of %s, expected %s', where, dt['dims'], dims[j:])
                dv, dt = nest(dt['dims'], dv), dt['base']
                break
            need(dt['k'] == 'vlen' and of[0] != 'enum', 'file', '%s: %s, expected an array', where, dt['k'])
            dt = dt['base']

        def down(n, x, y):
            if not n:
                return agree(dt, x, of, y, where)
            need(len(x) == len(y), 'file', '%s: %d elements, expected %d', where, len(x), len(y))
            for a, b in zip(x, y):
                down(n - 1, a, b)
        return down(len(dims), dv, v)
    if k in ('string', 'char'):
        need(dt['k'] in ('str', 'string'), 'file', '%s: %s, expected a text', where, dt['k'])
        w = written.until_nul(v[2:] if k == 'string' else v)
        need(written.hexs(dv) == w, 'file', '%s: %s, expected %s', where, written.hexs(dv), w)
    elif k == 'vlen':
        need(dt['k'] == 'vlen' and len(dv) == len(v), 'file', '%s: %s of %d, expected a sequence of %d', where, dt['k'], len(dv), len(v))
        for a, b in zip(dv, v):
            agree(dt['base'], a, t[2], b, where)
    elif k == 'compound':
        need(dt['k'] == 'compound' and [bytes(f['name']).decode() for f in dt['fields']] == [f[0] for f in t[3]], 'file', '%s: %s, expected a compound %s', where, dt, t)
        for f, a, (n, _, ft, d), b in zip(dt['fields'], dv, t[3], v):
            agree(f['ty'], a, ['array', d, ft] if d else ft, b, where + '.' + n)
    else:
        if k == 'enum':
            w = 2 * WIDTH[t[2]]
            need(dt['k'] == 'enum' and dt['base']['k'] == t[2] and [[bytes(m['name']).decode(), written.hexs(m['val'])] for m in dt['members']] ==
                 [[n, x[-w:]] for n, x in t[3]], 'file', '%s: %s, expected %s', where, dt, t)
        else:
            need(dt['k'] == k and (k != 'opaque' or dt['size'] == t[2]), 'file', '%s: type %s, expected %s', where, dt, t)
        need(written.hexs(dv) == v, 'file', '%s: %s, expected %s', where, written.hexs(dv), v)


def in_file(tr, d, w, path='/'):
    """The dataset that H5Nc.tla finds in the file is the expected one."""
    V = Values(tr)
    name = lambda x: bytes(x['name']).decode()

    def atts(got, want, where):
        need(sorted(map(name, got)) == sorted(x['n'] for x in want), 'file', '%s: attributes %s', where, list(map(name, got)))
        by = {name(x): x for x in got}
        for x in want:
            g, a, at = by[x['n']], tr['att'][x['i'] - 1], where + '@' + x['n']
            t, v = V.struct(a['t']), V.att_elems(x['i'])
            if a['t']['b'] == 'char':
                t, v = ['string'], ['s:' + ''.join(v)]
            # the dimensions of the attribute are levels of its value
            dt, dv = g['ty'], nest(g['shape'], g['elems'])
            for _ in g['shape']:
                dt = {'k': 'vlen', 'base': dt}
            if len(v) == 1:
                v = v[0]
            else:
                t = ['vlen', 0, t]
            if t[0] == 'vlen' and len(v) == 1 and dt['k'] != 'vlen':
                t, v = t[2], v[0]
            agree(dt, dv, t, v, at)
    atts(d['attrs'], w['atts'], path)
    need(sorted(map(name, d['vars'])) == sorted(x['n'] for x in w['vars']) and sorted(map(name, d['groups'])) == sorted(x['n'] for x in w['groups']), 'file',
         '%s: variables %s, groups %s', path, list(map(name, d['vars'])), list(map(name, d['groups'])))
    vs, gs = {name(x): x for x in d['vars']}, {name(x): x['group'] for x in d['groups']}
    for y in w['vars']:
        x, where = vs[y['n']], path + y['n']
        need(x['shape'] == y['shape'] and [bytes(n).decode() for n in x['dims']] == y['dims'], 'file', '%s: shape %s, dimensions %s', where, x['shape'], x['dims'])
        el = V.elems(y['i'])
        need(len(x['elems']) == len(el), 'file', '%s: %d elements, expected %d', where, len(x['elems']), len(el))
        for a, b in zip(x['elems'], el):
            agree(x['ty'], a, V.struct(tr['var'][y['i'] - 1]['t']), b, where)
        atts(x['attrs'], y['atts'], where)
    for y in w['groups']:
        in_file(tr, gs[y['n']], y, path + y['n'] + '/')


def decoded(c, kept):
    dec = written.spec_decode(c, 'H5Check', [(i, b) for i, (_, b) in enumerate(kept)], dict(WithData=True, WithParts=False))
    for i, (tr, b) in enumerate(kept):
        try:
            need('malformed' not in dec[i], 'file', 'not an HDF5 file: %s', dec[i].get('malformed'))
            need(dec[i]['disjoint'] and dec[i]['eof'] == dec[i]['len'], 'file', 'parts overlap, or the end of the file is wrong')
            in_file(tr, dec[i]['file'], tr['copy'])
            c.part('copies decoded by H5Bytes.tla')
        except Wrong as w:
            c.violation(w.cat, w.what, trace=tr)


def copies(c, files, limit):
    kept = []

    def one(run, it):
        path, tr = it
        out = path + '.copy'
        s, at = script_of(tr, path, out)
        res = run(s)
        data = None
        if os.path.exists(out):
            with open(out, 'rb') as f:
                data = f.read()
            os.remove(out)
        os.remove(path)
        j = Copied(tr)
        try:
            for o, r in zip(s, res):
                need(not died(r) and 'panic' not in r, 'crash', '%s: %s', o, r.get('panic') or r.get('stderr'))
            for i, x in at:
                need((res[i]['err'] is None) == x['ok'], 'copy', 'call %d, %s: %s', i, s[i], res[i]['err'] if x['ok'] else 'succeeded')
            added = {i for i, _ in at}
            for i, (o, r) in enumerate(zip(s, res)):
                need(i in added or not r.get('err'), 'copy', 'call %d, %s: %s', i, o, r.get('err'))
            j.copy(res[-1]['r'], tr['copy'])
        except Wrong as w:
            c.violation(w.cat, w.what, trace=tr, script=s)
            return
        if j.lost:
            c.part('copies in which array members are variable-length')
        if len(data) < 20000 and len(kept) < limit:
            kept.append((tr, data))
        c.validated()
    c.pool.map(one, files)
    decoded(c, kept)


def c07(c):
    for num, kw in ((c.n(600, 6000), dict(WUser=9)), (c.n(200, 2000), dict(WUser=5, MaxGroups=6, MaxDefs=40)), (c.n(100, 1000), dict(WUser=9, MaxGroups=2, MaxDefs=60))):
        tr = c.sim('Copy', config(UserTypes=True, MaxReads=0, MaxCalls=30, **kw), num, 400, spec='CSpec', invariants=NINV + CINV, properties=NPROP + CPROP)
        c.sample({k: v for k, v in tr[0].items() if k in ('typ', 'hist', 'calls')})
        copies(c, make_all(c, tr, 'hdf5'), c.n(80, 800))
