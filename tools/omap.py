"""Replays behaviours of spec/OrderedMap.tla on attribute maps."""
import os
from vlib import *

OINV = ['KeysOnce', 'ListedOnce']
OPROP = ['GetSurvives', 'OrderKept']
UNIVERSE = ['a', 'b', 'c', '', 'Z', '_NCProperties', 'units', 'nosuch']


def observe(script, plan, h, ref, src):
    """Adds the queries after a step, and what each must return."""
    o = h['obs']
    plan.append((len(script), 'keys', o['keys'], h))
    script.append({'op': 'am_keys', 'am': ref})
    by = {k: i for i, k in enumerate(o['has'])}
    ks = UNIVERSE if src == 'user' else [k for k in UNIVERSE if k not in ('', '_NCProperties')]     # written into every file
    for k in ks:
        if k in by:
            i = by[k]
            want = [mkval(o['vals'][i]), True], [o['cdl'][i], True], [o['go'][i], True]
        else:
            want = None
        for op, w in zip(('am_get', 'am_type', 'am_gotype'), want or (None,) * 3):
            plan.append((len(script), op + ' ' + repr(k), w, h))
            script.append({'op': op, 'am': ref, 'key': k})


def build(c, tr, path):
    script, plan = [], []
    ref, src = 'om:m', 'user'
    for h in tr:
        if h['op'] == 'new':
            plan.append((len(script), 'new', h['ok'], h))
            script.append({'op': 'om_new', 'as': 'm', 'keys': h['keys'],
                           'vals': [[k, mkval(v)] for k, v in h['entries']]})
            if not h['ok']:
                continue
        elif h['op'] == 'add':
            script.append({'op': 'om_add', 'om': 'm', 'key': h['key'], 'val': mkval(h['val'])})
        elif h['op'] == 'hide':
            script.append({'op': 'om_hide', 'om': 'm', 'key': h['key']})
        else:
            m = {'om': 'm'}
            script.append({'op': 'openw', 'w': 'w', 'path': path, 'kind': h['kind']})
            plan.append((len(script), 'accept', None, h))
            if h['onvar']:
                script.append({'op': 'addvar', 'w': 'w', 'name': 'v', 'val': {'T': 'int32', 'V': '00000001'}, 'dims': [], 'attrs': m})
            else:
                script.append({'op': 'addattrs', 'w': 'w', 'attrs': m})
            plan.append((len(script), 'accept', None, h))
            script.append({'op': 'closew', 'w': 'w'})
            plan.append((len(script), 'accept', None, h))
            script.append({'op': 'open', 'path': path, 'as': 'g'})
            script.append({'op': 'getvar', 'g': 'g', 'name': 'v', 'stash': 'x', 'noattrs': 1} if h['onvar'] else
                          {'op': 'stashattrs', 'g': 'g', 'stash': 'x'})
            ref, src = 'x', h['kind']
        observe(script, plan, h, ref, src)
    if src != 'user':
        script.append({'op': 'closeg', 'g': 'g'})
    return script, plan


def c12(c):
    k = dict(Sim=True, KeyNames={'a', 'b', 'c', '', 'Z', '_NCProperties', 'units'},
             Types={'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64', 'string'},
             Lens={0, 1, 2, 3}, MaxRank=3, MaxKeys=4, MaxSteps=10, Kinds={'cdf', 'hdf5'})
    inv = dict(invariants=OINV, properties=OPROP)
    tr = c.sim('OrderedMap', k, c.n(2500, 40000), 60, **inv)
    # few dimensions, so that classic files can hold the map
    tr += c.sim('OrderedMap', dict(k, MaxRank=1, KeyNames={'a', 'b', 'c', 'units', 'Z'}, MaxSteps=6), c.n(2500, 30000), 60, **inv)
    small = dict(k, Sim=False, KeyNames={'a', 'b', 'c'}, Types={'int32'}, MaxKeys=2, MaxRank=0)
    tr += c.tlc('OrderedMap', dict(small, KeyNames={'a', 'b'}, MaxSteps=c.n(4, 5)), workers=8, **inv).traces
    # every type and shape
    tr += c.tlc('OrderedMap', dict(k, Sim=False, KeyNames={'a'}, MaxKeys=1, MaxSteps=2, MaxRank=c.n(1, 2), Lens={0, 1, 2}), workers=8, **inv).traces

    def one(run, it):
        i, t = it
        path = c.path()
        script, plan = build(c, t, path)
        res = run(script)
        if os.path.exists(path):
            os.remove(path)
        c.validated()
        for o, s in zip(res, script):
            if died(o) or 'panic' in o:
                c.violation('crash', 'panic in %s: %s' % (s, o.get('panic') or o.get('stderr')), behaviour=t, results=res)
                return
        for j, what, want, h in plan:
            o = res[j]
            if what == 'new':
                if (o['err'] is None) != want:
                    c.violation('new', 'NewOrderedMap(%s, %s) returned %r' % (h['keys'], [e[0] for e in h['entries']], o['err']), behaviour=t)
                    return
            elif what == 'accept':
                if o['err'] is not None:
                    c.violation('store', '%s of a valid map failed: %s' % (script[j]['op'], o['err']), behaviour=t)
                    return
            elif o.get('nohandle'):
                raise ToolError(o['nohandle'])
            elif what == 'keys':
                if (o['r'] or []) != want:
                    c.violation('keys', 'Keys() is %s, expected %s after %s' % (o['r'], want, [x['op'] for x in t]), behaviour=t, script=script)
                    return
            elif want is None:
                if o['r'][1] or o['r'][0] not in (None, ''):
                    c.violation('absent', '%s is %s although there is no such key' % (what, o['r']), behaviour=t, script=script)
                    return
            elif o['r'] != want:
                c.violation('lookup', '%s is %s, expected %s after %s' % (what, o['r'], want, [x['op'] for x in t]), behaviour=t, script=script)
                return
    c.pool.map(one, list(enumerate(tr)))
    c.sample(tr[0])
