"""Replays behaviours of spec/Names.tla on both writers."""
import os, unicodedata
from vlib import *
from vlib import _h

CHAR = {
    'letter': ['q', 'Z', 'm', 'A'],
    'uletter': ['é', '中', 'ß', 'Ж', 'ʰ', 'ª', '\U00010400', 'ǅ', '가'],
    'digit': ['0', '7', '9'],
    'unumber': ['٣', '²', '½', 'Ⅷ', '①', '\U0001d7d8', '〇'],
    'under': ['_'],
    'space': [' '],
    'uspace': ['\u00a0', '\u3000', '\u2028', '\u2029', '\u2003'],
    'punct': ['-', '.', '"', '\\', '@', '(', '«', '%', ':', '—', '#'],
    'symbol': ['+', '$', '^', '☃', '😀', '©', '=', '~', '|', '`', '\ufffd'],
    'mark': ['\u0301', '\u0903', '\u20dd'],
    'control': ['\x01', '\t', '\n', '\x7f', '\x85', '\x1f', '\x00', '\r'],
    'format': ['\u200b', '\ufeff', '\u00ad', '\u202e'],
    'private': ['\ue000', '\U000f0000', '\uf8ff'],
    'unassigned': ['\ufffe', '\ufdd0', '\U0001ffff', '\U0010ffff'],
    'slash': ['/'],
    'invalid': [b'\xff', b'\xed\xa0\x80', b'\xc0\xaf', b'\xe4\xb8', b'\xf5\x80\x80\x80'],
}
CAT = {'letter': 'L', 'uletter': 'L', 'digit': 'N', 'unumber': 'N', 'uspace': 'Z', 'punct': 'P', 'symbol': 'S', 'mark': 'M', 'control': 'Cc',
       'format': 'Cf', 'private': 'Co', 'unassigned': 'Cn'}
for _c, _p in CAT.items():
    for _x in CHAR[_c]:
        assert unicodedata.category(_x).startswith(_p), (_c, _x)

KINDS = ('cdf', 'hdf5')
WORDS = {'CLASS', 'NAME', 'DIMENSION_LIST', 'REFERENCE_LIST', '_NCProperties', '_FillValue', '_nc3_strict', 'FillValue', 'units'}


def concrete(n, salt, stretch=0):
    """The bytes of a name."""
    if n['word']:
        return n['word'].encode()
    out = []
    for i, cl in enumerate(n['chars']):
        x = CHAR[cl][_h('char', salt, i) % len(CHAR[cl])]
        out.append(x if isinstance(x, bytes) else x.encode())
    if stretch and len(out) > 1 and n['chars'][1] not in ('invalid',):
        out[1:2] = [out[1]] * stretch     # a long name: repeat the second character
    return b''.join(out)


def enc_name(b):
    try:
        s = b.decode('utf8')
        return s
    except UnicodeDecodeError:
        return '\0hex:' + b.hex()


def build(kind, tr, salt, stretch, path):
    """The script, and for each call the index of its result and the name used."""
    s = [{'op': 'openw', 'w': 'w', 'path': path, 'kind': kind}]
    calls = []
    one = {'T': 'int32', 'V': '0000002a'}
    two = {'T': '[]int32', 'V': '0000002a0000002b'}
    if kind == 'hdf5':
        s.append({'op': 'creategroup', 'w': 'w', 'name': 'gv', 'as': 'wv'})
        s.append({'op': 'creategroup', 'w': 'w', 'name': 'gg', 'as': 'wg'})
    used = set()
    for k, h in enumerate(tr['hist']):
        b = concrete(h['name'], (salt, k), stretch)
        if b in used:
            continue
        used.add(b)
        n, ctx = enc_name(b), h['ctx']
        if ctx == 'var':
            s.append({'op': 'addvar', 'w': 'w' if kind == 'cdf' else 'wv', 'name_hex': b.hex(), 'val': one, 'dims': [], 'attrs': None})
        elif ctx == 'varattr':
            s.append({'op': 'addvar', 'w': 'w', 'name': 'v%d' % k, 'val': one, 'dims': [], 'attrs': [['k1', one], [n, one]]})
        elif ctx == 'dim':
            s.append({'op': 'addvar', 'w': 'w', 'name': 'v%d' % k, 'val': two, 'dims': [n], 'attrs': None})
        elif ctx == 'attr':
            s.append({'op': 'addattrs', 'w': 'w', 'attrs': [[n, one], ['k2', one]]})
        elif ctx == 'group':
            s.append({'op': 'creategroup', 'w': 'w' if kind == 'cdf' else 'wg', 'name_hex': b.hex(), 'as': 'wx'})
        calls.append((len(s) - 1, h, b, 'v%d' % k))
    s.append({'op': 'closew', 'w': 'w'})
    s += [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
    return s, calls


def judge(kind, s, res, calls):
    for o, op in zip(res, s):
        if died(o) or 'panic' in o:
            return 'crash', '%s in %s' % (o.get('panic') or o.get('stderr'), op)
    for i, h, b, v in calls:
        ok = res[i]['err'] is None
        want = h['ok'] and not (kind == 'cdf' and h['ctx'] == 'group')
        if ok != want:
            return 'accept', '%s name %r (%s) was %s in %s: %s' % (
                h['ctx'], b, ' '.join(h['name']['chars']) or h['name']['word'], 'accepted' if ok else 'refused', kind, res[i]['err'])
    for i in (-4, -3):
        if res[i]['err'] is not None:
            return 'file', '%s failed: %s after %s' % (s[i]['op'], res[i]['err'], [c[2] for c in calls])
    d = res[-2]['r']
    # what the file must hold
    want_attrs = []
    vars_, varattrs, vardims, groups, dims = [], {}, {}, [], []
    for i, h, b, v in calls:
        if not h['ok']:
            continue
        n = enc_name(b)
        if h['ctx'] == 'var':
            vars_.append(n)
        elif h['ctx'] == 'varattr':
            varattrs[v] = ['k1', n]
        elif h['ctx'] == 'dim':
            vardims[v] = [n]
            dims.append(n)
        elif h['ctx'] == 'attr':
            want_attrs = [n, 'k2']
        elif kind == 'hdf5':
            groups.append(n)
    gs = {g['name']: g for g in d['groups']}
    if kind == 'hdf5':
        if sorted(gs) != ['gg', 'gv'] or 'err' in gs['gg'] or 'err' in gs['gv']:
            return 'groups', 'groups %s' % d['groups']
        holder, got_groups = gs['gv']['vars'], gs['gg']['groups']
        bad = [g for g in got_groups if 'err' in g]
        if bad:
            return 'groups', 'a group cannot be opened: %s' % bad
        if sorted(g['name'] for g in got_groups) != sorted(groups):
            return 'groups', 'groups %s, expected %s' % ([g['name'] for g in got_groups], groups)
    else:
        holder = [v for v in d['vars'] if v['name'] not in varattrs and v['name'] not in vardims]
    if sorted(v['name'] for v in holder) != sorted(vars_):
        return 'vars', 'variables %s, expected %s' % ([v['name'] for v in holder], vars_)
    for v in holder:
        if v.get('val') != {'T': 'int32', 'V': '0000002a'}:
            return 'vars', 'variable %s: %s' % (v['name'], v)
    rest = {v['name']: v for v in d['vars'] if kind == 'hdf5' or v['name'] in varattrs or v['name'] in vardims}
    if sorted(rest) != sorted(list(varattrs) + list(vardims)):
        return 'vars', 'variables %s, expected %s' % (sorted(rest), sorted(list(varattrs) + list(vardims)))
    for v, w in varattrs.items():
        got = [a['name'] for a in rest[v].get('attrs') or []]
        if got != w:
            return 'attrs', 'attributes %s, expected %s' % (got, w)
    for v, w in vardims.items():
        if 'err' in rest[v] or rest[v]['dims'] != w or rest[v]['gdims'] != w:
            return 'dims', 'dimensions %s, expected %s' % (rest[v].get('dims'), w)
    if sorted(x[0] for x in d['dims']) != sorted(dims):
        return 'dims', 'dimensions listed %s, expected %s' % (d['dims'], dims)
    if [a['name'] for a in d['attrs'] or []] != want_attrs:
        return 'attrs', 'global attributes %s, expected %s' % (d['attrs'], want_attrs)
    return None


def c16(c):
    classes = set(CHAR)
    ctx = ['var', 'varattr', 'attr', 'dim', 'group']
    k = dict(Sim=False, MaxLen=2, MaxCalls=1, Contexts=set(ctx), Classes=classes, Words=WORDS)
    inv = ['Monotone', 'NoLoss']
    jobs = []
    for kind in KINDS:
        # every name of up to two (three) characters in every position
        r = c.tlc('Names', dict(k, Kind=kind, MaxLen=c.n(2, 3)), workers=8, invariants=inv)
        t = c.sim('Names', dict(k, Kind=kind, Sim=True, MaxLen=8, MaxCalls=9), c.n(2500, 30000), 60, invariants=inv)
        jobs += [(kind, x, (i, j), 0) for i, x in enumerate(r.traces) for j in range(c.n(3, 2))] + [(kind, x, i, 0) for i, x in enumerate(t)]
        # the same lengthened, as formats store the lengths of names in fields of several sizes
        jobs += [(kind, x, i, [40, 90, 130, 260][i % 4]) for i, x in enumerate(t[:len(t) // 6])]

    def one(run, it):
        kind, tr, salt, stretch = it
        path = c.path()
        s, calls = build(kind, tr, (c.seed, salt), stretch, path)
        res = run(s)
        if os.path.exists(path):
            os.remove(path)
        c.validated()
        v = judge(kind, s, res, calls)
        if v:
            c.violation(v[0], v[1], trace=tr, script=s, results=res)
    c.pool.map(one, jobs)
    c.sample(jobs[0][1])
    c.sample(jobs[-1][1])
