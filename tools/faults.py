"""Replays behaviours of spec/Faults.tla: files of the caller that fail, or return less than was asked for."""
import os
from vlib import *
from vlib import _h
import ncfile, storage, writer, cdffmt
from ncfile import Judge, Wrong

PLAN = {'once': {}, 'always': {'fail_to': -1}, 'partial': {'partial': True}, 'eof': {'err': 'eof'}, 'seek': {'only_seek': True}, 'read': {'only_read': True},
        'rest': {'only_read': True, 'fail_to': -1, 'partial': True}}
MODES = {'hdf5': set(PLAN), 'cdf': set(PLAN) - {'eof'}}     # a classic file that ends early reads as fill values
SHORTS = [[], [1], [3], [7, 1], [64], [1, 1, 500], [5, 4096]]


def plan_of(mode, k):
    return dict(PLAN[mode], armed=True, fail_at=k)


def script_of(tr, path):
    ops, tags = [], []

    def do(*tag, **o):
        ops.append(o)
        tags.append(tag)
    for i, (r, b) in enumerate(zip(tr['reads'], tr['before'])):
        o = {k: v for k, v in r.items() if k in ('op', 'name', 'b', 'e')}
        f = b['fault']
        s = tr['hs'][r['as'] - 1] if r['op'] == 'open' else tr['hs'][(r['h'] if 'h' in r else tr['getters'][r['vg'] - 1]['h']) - 1]
        short = tr['src'][s - 1]['short']
        if r['op'] == 'open':
            o = {'op': 'new', 'f': 's%d' % s}
        elif 'h' in r:
            o['g'] = 'h%d' % r['h']
        else:
            o['vg'] = 'v%d' % r['vg']
        new = 'h' if r['op'] in ('open', 'getgroup') else 'v' if r['op'] == 'getter' else None
        if f['mode'] != 'none' and (f['fresh'] or r['op'] == 'open') and r['op'] != 'closeg':
            # on a handle of its own
            if r['op'] == 'open':
                setup, inner = [], {'op': 'new', 'f': 'try', 'as': 'ti'}
            else:
                g = tr['getters'][r['vg'] - 1] if 'vg' in r else None
                h = tr['handles'][(g['h'] if g else r['h']) - 1]
                setup = [{'op': 'new', 'f': 'try', 'as': 'th'}, {'op': 'getgroup', 'g': 'th', 'name': '/' + '/'.join(tr['paths'][h['g'] - 1]), 'as': 'tg'}]
                inner = dict(o, g='tg')
                if g:
                    setup.append({'op': 'getter', 'g': 'tg', 'name': tr['var'][g['v'] - 1]['n'], 'as': 'tv'})
                    inner = dict(o, vg='tv')
                if new:
                    inner['as'] = 'ti' if new == 'h' else 'tv'
            do('try', i, op='try', path=path, short=short, setup=setup, inner=inner, plan=plan_of(f['mode'], 0), at=f['at'])
        elif f['mode'] != 'none' and r['op'] != 'closeg':
            do('plan', i, op='plan', f='s%d' % s, plan=dict(plan_of(f['mode'], 1 + f['at'] % 3), short=short))
            do('attempt', i, **(dict(o, **{'as': 'tmp'}) if new else o))
            if new == 'h':
                do('drop', i, op='closeg', g='tmp')
                do('drop', i, op='forgetg', g='tmp')
            do('stat', i, op='fstat', f='s%d' % s)
            do('plan', i, op='plan', f='s%d' % s, plan={'short': short})
        if r['op'] == 'open':
            do('plan', i, op='file', path=path, plan={'short': short, 'eof_with_data': i % 2 == 1}, **{'as': 's%d' % s})
        do('request', i, **(dict(o, **{'as': new + str(r['as'])}) if new else o))
        for k in range(len(b['closes'])):
            do('closes', i, b['closes'][k], op='fstat', f='s%d' % (k + 1))
    last = len(tr['src'])
    if last:
        do('plan', 0, op='file', path=path, plan={'short': tr['src'][0]['short']}, **{'as': 'all'})
        do('plan', 0, op='new', f='all', **{'as': 'all'})
        do('dump', 0, op='dump', g='all')
    return ops, tags


def attempt(j, r, o, i, where):
    """An attempt under failure: an error, or the right answer."""
    if died(o) or 'panic' in o:
        raise Wrong('crash', '%s: %s' % (where, o.get('panic') or o.get('stderr')))
    if o['err'] is not None:
        if o['r'] is not None:
            raise Wrong('partial', '%s: %s besides the error' % (where, str(o['r'])[:200]))
        return
    if not r.get('found', True) and r['op'] in ('getvar', 'getter', 'getgroup', 'gslice'):
        raise Wrong('fault', '%s: succeeded' % where)
    try:
        j.op(r, o, i)
    except Wrong as w:
        raise Wrong('fault', '%s: no error, but %s' % (where, w.what))


def replay(c, files, kind):
    def one(run, it):
        path, tr = it
        ops, tags = script_of(tr, path)
        res = run(ops)
        j = Judge(tr, kind)
        try:
            for n, (t, s, o) in enumerate(zip(tags, ops, res)):
                i = t[1]
                r, f = tr['reads'][i], tr['before'][i]['fault']
                where = 'request %d (%s) while the file fails (%s, %s)' % (i, {k: v for k, v in r.items() if k not in ('want',)}, f['mode'], f['at'])
                if died(o):
                    raise Wrong('crash', '%s: %s' % (where, o.get('stderr')))
                if t[0] == 'attempt':
                    attempt(j, r, o, i, where)
                elif t[0] == 'try':
                    x = o['r']
                    if 'panic' in o:
                        raise Wrong('crash', '%s: %s' % (where, o['panic']))
                    if not x['n']:
                        continue
                    c.part('failures in %s' % r['op'], 1 if x['fails'] else 0)
                    where += ' in operation %d of %d' % (x['k'], x['n'])
                    if r['op'] == 'open' and x['first']['err'] is not None and x['closes']:
                        raise Wrong('close', '%s: the file of the caller was closed' % where)
                    attempt(j, r, x['first'], i, where)
                    if 'second' in x:
                        try:
                            j.op(r, x['second'], i)
                        except Wrong as w:
                            raise Wrong('retry', 'after an attempt, %s: %s' % (where, w.what))
                    if x['end'] != 1:
                        raise Wrong('close', '%s: the file was closed %d times' % (where, x['end']))
                elif t[0] == 'request':
                    if 'panic' in o:
                        raise Wrong('crash', 'request %d: %s' % (i, o['panic']))
                    try:
                        j.op(r, o, i)
                    except Wrong as w:
                        raise Wrong('after', w.what)
                elif t[0] == 'closes' and o['r']['closes'] != t[2]:
                    raise Wrong('close', 'after request %d the file was closed %d times, expected %d' % (i, o['r']['closes'], t[2]))
                elif t[0] == 'dump':
                    if 'panic' in o:
                        raise Wrong('crash', 'reading everything: %s' % o['panic'])
                    j.tree(o['r'], tr['tree'])
        except Wrong as w:
            c.violation(w.cat, w.what, trace=tr, script=ops)
        c.validated()
    c.pool.map(one, files)
    for p, _ in files:
        os.remove(p)


def behaviours(c, num, kind, **kw):
    k = ncfile.config(Kind=kind, Modes=MODES[kind], Shorts=set(map(tuple, SHORTS)), Rate=6)
    k.update(kw)
    return c.sim('Faults', k, num, 400, invariants=ncfile.NINV + ['Paired'], properties=ncfile.NPROP + ['ClosedOnce'], spec='FSpec')


def everywhere(c, kind, files):
    """Failures at every point of reading every variable of files: [(path, how to compare a dump)]"""
    def one(run, it):
        n, (path, cmp) = it
        ops = []
        for k, s in enumerate(SHORTS[n % 2::2]):
            ops += [{'op': 'file', 'path': path, 'as': 'f', 'plan': {'short': s, 'eof_with_data': k % 2 == 0}}, {'op': 'new', 'f': 'f', 'as': 'g'}, {'op': 'dump', 'g': 'g'},
                    {'op': 'closeg', 'g': 'g'}]
        res = run(ops)
        for i, o in enumerate(res):
            e = None
            if died(o) or 'panic' in o:
                e = o.get('panic') or o.get('stderr')
            elif i % 4 == 1 and o['err'] is not None:
                e = 'cannot be opened: %s' % o['err']
            elif i % 4 == 2:
                e = cmp(o['r'])
            if e:
                c.violation('short', 'reads of %s bytes at a time: %s' % (ops[i // 4 * 4]['plan']['short'], e), script=ops, file=open(path, 'rb').read().hex())
                return
        inners = [('tg', v, n, g) for g, d in groups_of(res[2]['r']) for n, v in enumerate(d['vars'])]
        ops = []
        modes = sorted(MODES[kind])
        for _, v, k, g in inners[:6]:
            ms = [PLAN[modes[(n + k + x) % len(modes)]] for x in (0, 2)]
            setup = [{'op': 'new', 'f': 'try', 'as': 'th'}, {'op': 'getgroup', 'g': 'th', 'name': g, 'as': 'tg'}, {'op': 'getter', 'g': 'tg', 'name': v['name'], 'as': 'tv'}]
            ls = [{'op': 'getvar', 'g': 'tg', 'name': v['name']}] if k % 2 else [{'op': 'gvalues', 'vg': 'tv'}]
            if v['shape'] and v['shape'][0] > 1:
                ls.append({'op': 'gslice', 'vg': 'tv', 'b': 1, 'e': v['shape'][0]})
            ops.append({'op': 'tryall', 'path': path, 'setup': setup, 'inners': ls, 'modes': ms, 'limit': c.n(25, 400), 'short': SHORTS[(n + k) % len(SHORTS)] if n % 3 == 0 else None})
        ops.append({'op': 'tryall', 'path': path, 'setup': [], 'inners': [{'op': 'new', 'f': 'try', 'as': 'ti'}], 'modes': [PLAN[modes[n % len(modes)]]], 'limit': c.n(25, 400), 'short': None})
        for op, o in zip(ops, run(ops)):
            if died(o) or 'panic' in o:
                c.violation('crash', '%s: %s' % (op, o.get('panic') or o.get('stderr')), script=ops, file=open(path, 'rb').read().hex())
                return
            c.part('failing attempts that ended with an error', o['r']['errors'])
            c.part('failing attempts that did not need what failed', o['r']['rights'])
            for b in o['r']['bad']:
                c.violation('everywhere', '%s: %s' % (b['what'], str(b)[:600]), script=ops, file=open(path, 'rb').read().hex())
                return
        c.validated()
    c.pool.map(one, list(enumerate(files)))
    for p, _ in files:
        os.remove(p)


def groups_of(d, path='/'):
    yield path, d
    for g in d['groups']:
        yield from groups_of(g, path + g['name'] + '/')


def stored_files(c):
    inv = dict(invariants=storage.SINV, properties=storage.SPROP)
    tr = c.sim('H5Storage', storage.config(), c.n(150, 2000), 60, **inv)
    tr += c.sim('H5Storage', storage.config(Storages={'chunked'}, MaxWrites=8, Types=storage.NUMERIC, MaxVars=3), c.n(150, 2000), 60, **inv)
    return [(p, lambda d, t=t: storage.cmp_storage(t, d)) for p, t in storage.make_all(c, tr)]


def classic_files(c):
    out = []
    for t in c.sim('CdfFormat', cdffmt.config(), c.n(300, 4000), 60, invariants=cdffmt.FINV):
        p = c.path()
        open(p, 'wb').write(bytes(t['file']['bytes']))
        out.append((p, lambda d, t=t: cdffmt.cmp_file(t['file'], d)))
    return out


def written_files(c, kind):
    out = []
    for t in c.sim('Writer', writer.config(kind, OnlyValid=True, LateCalls=False, MaxOps=6, MaxRank=3), c.n(100, 1500), 80, invariants=writer.INV, properties=writer.PROPS):
        p = c.path()
        if t['ok'] and all(o.get('err') is None and 'panic' not in o for o in c.pool._one(writer.script_of(t, p, False))):
            out.append((p, lambda d, t=t: writer.cmp_tree(t, d, False)))
    return out


def unwritable(c, kind):
    """Files that cannot become as long as they must be: Close fails, and the same calls succeed where there is room."""
    tr = c.sim('Writer', writer.config(kind, OnlyValid=True, LateCalls=False, MaxOps=5, MaxRank=3), c.n(100, 1500), 80, invariants=writer.INV, properties=writer.PROPS)

    def one(run, it):
        n, t = it
        path = c.path()
        s = writer.script_of(t, path, False)
        res = run(s + [{'op': 'fds', 'path': path}])
        if died(res[-1]) or any('panic' in o for o in res):
            c.violation('crash', '%s' % res[-1], trace=t, script=s)
            return
        if not t['ok'] or any(o['err'] is not None for o in res[:-1]):
            return
        size = os.path.getsize(path)
        cuts = sorted(set(_h('fsize', n, i) % size for i in range(c.n(12, 100))) | {0, 1, size - 1, size // 2, max(0, size - 4096)})
        ops, at = [], []
        for k in cuts:
            ops += [{'op': 'fsize', 'n': k}] + s + [{'op': 'fds', 'path': path}]
            at.append(len(ops) - 2)
        ops.append({'op': 'fsize', 'n': -1})
        full = writer.script_of(t, '/dev/full', False)
        ops += full
        at.append(len(ops) - 1)
        ops += [{'op': 'fds', 'path': '/dev/full'}] + s + [{'op': 'open', 'path': path, 'as': 'g'}, {'op': 'dump', 'g': 'g'}, {'op': 'closeg', 'g': 'g'}]
        res = run(ops)
        for o, op in zip(res, ops):
            if died(o) or 'panic' in o:
                c.violation('crash', '%s: %s' % (op, o.get('panic') or o.get('stderr')), trace=t, script=ops)
                return
            if op['op'] == 'fds' and o['r']:
                c.violation('unwritable', 'the file stays open after Close', trace=t, script=ops)
                return
        for i, k in zip(at, cuts + ['/dev/full']):
            # the failure may also show when the writer is opened, or in a call
            if all(o['err'] is None for o in res[i - len(s) + 1:i + 1]):
                c.violation('unwritable', 'a file of %d bytes that could only get %s was closed without an error' % (size, k), trace=t, script=ops)
                return
        e = writer.cmp_tree(t, res[-2]['r'], False) if res[-3]['err'] is None else res[-3]['err']
        if e:
            c.violation('unwritable', 'after failures elsewhere: %s' % e, trace=t, script=ops)
        os.remove(path)
        c.part('failing writes', len(at))
        c.validated()
    c.pool.map(one, list(enumerate(tr)))


def c13(c):
    everywhere(c, 'hdf5', stored_files(c))
    everywhere(c, 'cdf', classic_files(c))
    for kind in ('cdf', 'hdf5'):
        everywhere(c, kind, written_files(c, kind))
        unwritable(c, kind)
    for kind, num, kw in (
            ('hdf5', c.n(600, 8000), dict(UserTypes=True)),
            ('hdf5', c.n(300, 4000), dict(MaxDefs=15, MaxReads=60)),
            ('cdf', c.n(400, 5000), dict(BaseTypes=ncfile.CLASSIC | {'int64'}))):
        tr = behaviours(c, num, kind, **kw)
        c.sample({k: v for k, v in tr[0].items() if k in ('hist', 'reads', 'before', 'src')})
        replay(c, ncfile.make_all(c, tr, kind), kind)
