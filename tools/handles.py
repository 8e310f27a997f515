"""Replays behaviours of spec/Handles.tla: handles, sources and when they are closed."""
import os
from vlib import *
import nclib, writer

GROUPS = {'hdf5': [(), ('a',), ('a', 'b'), ('c',), ('a', 'b', 'a')], 'cdf': [()]}
INV, PROP = ['ClosedOnce'], ['Final']


def make(path, kind):
    """The file of the specification: a variable v in every group."""
    w = nclib.Writer(path, nclib.NETCDF4 if kind == 'hdf5' else 0)
    ids = {}
    for i, p in enumerate(GROUPS[kind]):
        g = ids[p] = w.group(p[-1], ids[p[:-1]]) if p else w.id
        d = w.dim('d', 3, g=g)
        w.var('v', 'int32', [d], g=g)
    if kind != 'hdf5':
        nclib.ck(w.l.nc_enddef(w.id), 'enddef')
    for i, p in enumerate(GROUPS[kind]):
        t = ['int32']
        b, keep = nclib.buffer(t, value(i + 1))
        nclib.ck(w.l.nc_put_vara(ids[p], 0, nclib.sizes([0]), nclib.sizes([3]), b), 'put')
    w.close()


def value(g):
    return ['%08x' % (g * 100 + k) for k in range(3)]


def script_of(tr, path, bad):
    """The operations, and for each what it is: (what, request)."""
    ops, tags = [], []

    def do(tag, **o):
        ops.append(o)
        tags.append(tag)
    names = {}
    for r in tr['hist']:
        k = r['op']
        if k == 'open':
            what = r.get('what', 'good')
            s = 's%d' % r['s']
            p = path if what in ('good', 'fault') else bad[what]
            if r['by'] == 'path':
                names[r['s']] = p
                do(('call', r), op='open', path=p, **{'as': 'h%d' % r['as']})
            else:
                plan = {'armed': True, 'fail_at': r['at'] if what == 'fault' else 0, 'fail_to': -1}
                do(('file', r), op='file', path=p, plan=plan, **{'as': s})
                do(('call', r), op='new', f=s, **{'as': 'h%d' % r['as']})
        elif k == 'again':
            do(('file', r), op='plan', f='s%d' % r['s'], rewind=True, plan={})
            do(('call', r), op='new', f='s%d' % r['s'], **{'as': 'h%d' % r['as']})
        elif k == 'getgroup':
            do(('call', r), op='getgroup', g='h%d' % r['h'], name=r['name'], **{'as': 'h%d' % r['as']})
        elif k == 'close':
            do(('call', r), op='closeg', g='h%d' % r['h'])
        elif k == 'late':
            o = {'close': {'op': 'closeg'}, 'getvar': {'op': 'getvar', 'name': 'v'}, 'getgroup': {'op': 'getgroup', 'name': '/', 'as': 'late'},
                 'getter': {'op': 'getter', 'name': 'v', 'as': 'late'}}[r['what']]
            do(('late', r), g='h%d' % r['h'], **o)
        elif k == 'getter':
            do(('call', r), op='getter', g='h%d' % r['h'], name='v', **{'as': 'g%d' % r['as']})
        elif k == 'gvalues':
            do(('getter', r), op='gvalues', vg='g%d' % r['vg'])
        for a in range(len(r['acc'])):
            if r['acc'][a]['by'] == 'path':
                do(('fds', r, [x for x in range(len(r['acc'])) if names.get(x + 1) == names[a + 1]]), op='fds', path=names[a + 1])
            else:
                do(('fstat', r, a), op='fstat', f='s%d' % (a + 1))
        for u in r['use']:
            do(('use', r, u), op='getvar', g='h%d' % u['h'], name='v')
    # nothing stays open for the next behaviour
    for i, h in enumerate(tr['hnd']):
        if h['open']:
            do(('end', {}), op='closeg', g='h%d' % (i + 1))
    for s, n in sorted(names.items()):
        do(('end', {}), op='fds', path=n)
    return ops, tags


def judge(tags, res):
    """The first difference between what happened and the specification."""
    for i, (t, o) in enumerate(zip(tags, res)):
        where = 'after %s' % {k: v for k, v in t[1].items() if k not in ('acc', 'use')}
        if died(o) or 'panic' in o:
            return 'crash', '%s (%s): %s' % (where, t[0], o.get('panic') or o.get('stderr'))
        if t[0] == 'call':
            if (o['err'] is None) != t[1]['ok']:
                return 'call', '%s: %s' % (where, o['err'] if t[1]['ok'] else 'succeeded')
            if o['err'] is not None and o['r'] is not None:
                return 'call', '%s: %s' % (where, o['r'])
        elif t[0] == 'getter':
            want = {'T': '[]int32', 'V': ''.join(value(t[1]['g']))}
            if o['err'] is None and o['r'] != want or o['err'] is not None and t[1]['ok']:
                return 'use', '%s: %s, expected %s' % (where, o['err'] or o['r'], want)
        elif t[0] == 'end':
            if o['r']:
                return 'close', '%s descriptors of the file are open when all handles are closed' % o['r']
        elif t[0] == 'fds':
            want = sum(t[1]['acc'][x]['fds'] for x in t[2])
            if o['r'] != want:
                return 'close', '%s: %s descriptors of the file are open, expected %d' % (where, o['r'], want)
        elif t[0] == 'fstat':
            want = t[1]['acc'][t[2]]['closes']
            if o['r']['closes'] != want:
                return 'close', '%s: the file %d of the caller was closed %d times, expected %d' % (where, t[2] + 1, o['r']['closes'], want)
        elif t[0] == 'use':
            want = {'T': '[]int32', 'V': ''.join(value(t[2]['g']))}
            if o['err'] is not None or o['r']['val'] != want:
                return 'use', '%s: v in group %d of handle %d is %s, expected %s' % (where, t[2]['g'], t[2]['h'], o['err'] or o['r'], want)
    return None


def replay(c, trs, kind, path, bad):
    def one(run, tr):
        ops, tags = script_of(tr, path, bad)
        v = judge(tags, run(ops))
        c.validated()
        if v:
            c.violation(v[0], v[1], trace=tr, script=ops)
    c.pool.map(one, trs)


def bad_files(c, kind, path):
    data = open(path, 'rb').read()
    bad = {'missing': os.path.join(c.work, 'missing'), 'directory': c.work}
    cut = data[:len(data) // 2] if kind == 'hdf5' else data[:40]
    for k, d in (('empty', b''), ('unknown', b'ZIP' + data[3:]), ('stub', data[:6]), ('damaged', cut)):
        bad[k] = c.path()
        with open(bad[k], 'wb') as f:
            f.write(d)
    return bad


def c11(c):
    for kind in ('hdf5', 'cdf'):
        path = c.path()
        make(path, kind)
        bad = bad_files(c, kind, path)
        k = dict(Kind=kind, Sim=True, MaxOps=14, MaxSources=4, Errors=True, Getters=True)
        inv = dict(invariants=INV, properties=PROP)
        tr = c.sim('Handles', k, c.n(2500, 30000), 80, **inv)
        tr += c.sim('Handles', dict(k, MaxOps=30, MaxSources=6), c.n(500, 5000), 150, **inv)
        # every way of opening, passing on and closing handles
        tr += c.tlc('Handles', dict(k, Sim=False, MaxOps=(4 if kind == 'hdf5' else 5) + c.thorough, MaxSources=1 if kind == 'hdf5' else 2, Errors=False, Getters=False), workers=8, **inv).traces
        tr += c.tlc('Handles', dict(k, Sim=False, MaxOps=2, MaxSources=2, Getters=False), workers=8, **inv).traces
        replay(c, tr, kind, path, bad)
        c.sample(tr[0])
        writers(c, kind)


def writers(c, kind):
    """Closing a writer again, and calls after that, leave the file as it was."""
    tr = c.sim('Writer', writer.config(kind, OnlyValid=False, LateCalls=True, MaxOps=5, MaxRank=2, Lens={0, 1, 2}), c.n(500, 5000), 80,
               invariants=writer.INV, properties=writer.PROPS)

    def one(run, tr):
        path = c.path()
        s = writer.script_of(tr, path, False)
        n = [i for i, o in enumerate(s) if o['op'] == 'closew' and o['w'] == 'w1'][0] + 1
        s = s[:n] + [{'op': 'sum', 'path': path}, {'op': 'fds', 'path': path}] + s[n:] + [{'op': 'closew', 'w': 'w1'}, {'op': 'sum', 'path': path}, {'op': 'fds', 'path': path}]
        res = run(s)
        c.validated()
        if died(res[-1]) or any('panic' in o for o in res):
            c.violation('crash', '%s' % [o for o in res if died(o) or 'panic' in o][0], trace=tr, script=s)
        elif res[n - 1]['err'] is None and res[n]['r'] != res[-2]['r']:
            c.violation('writer', 'the file changed after it was closed', trace=tr, script=s)
        elif res[n + 1]['r'] or res[-1]['r']:
            c.violation('writer', 'the file stays open after Close: %s, %s descriptors' % (res[n + 1]['r'], res[-1]['r']), trace=tr, script=s)
        os.remove(path)
    c.pool.map(one, tr)
