"""Replays requests of spec/Slicing.tla on variables of classic and HDF5 files."""
import os
from vlib import *
from vlib import _h
import cdffmt, storage

BIG = 2000000000


def num(x):
    return {BIG: (1 << 63) - 1, -BIG: -(1 << 63)}.get(x, x)


class Var:
    """A variable in a file: how to reach it, and its elements as they must be read."""
    def __init__(self, name, group, shape, ty, elems, nest, strip):
        self.name, self.group, self.shape, self.ty, self.elems, self.nest, self.strip = name, group, shape, ty, elems, nest, strip


def classic_vars(t):
    out = []
    for v in t['file']['vars']:
        out.append(Var(cdffmt.name_of(v['name']), None, v['shape'], v['ty'], v['elems'], cdffmt.nest, False))
    return out


def h5_vars(t):
    out = []
    for i, v in enumerate(t['vars']):
        if v['ty'] == 'char' and v['fill'] == 'default' and any(k < 0 for k, _ in v['elems']):
            continue    # a NUL ends a string
        out.append(Var('v%d' % i, 'g%d' % (v['group'] - 1) if v['group'] > 1 else None, v['shape'], v['ty'], storage.elems_of(v),
                       storage.nested, True))
    return out


def check_file(c, run, opening, vs, reqs, what, per, removal):
    """vs: [Var]; reqs: shape -> behaviours"""
    s, plan = list(opening), []
    for k, v in enumerate(vs):
        rs = reqs.get(tuple(v.shape), [])
        if not rs:
            continue
        g = 'g'
        if v.group:
            g = 'sub%d' % k
            s.append({'op': 'getgroup', 'g': 'g', 'name': v.group, 'as': g})
        s.append({'op': 'getter', 'g': g, 'name': v.name, 'as': 'vg%d' % k})
        s.append({'op': 'ginfo', 'vg': 'vg%d' % k, 'noattrs': 1})
        plan.append((len(s) - 1, v, None))
        for j in range(per):
            tr = rs[_h('pick', what, k, j) % len(rs)]
            for r in tr['reqs']:
                if r['op'] == 'all':
                    s.append({'op': 'gvalues', 'vg': 'vg%d' % k})
                elif r['op'] == 'slice':
                    s.append({'op': 'gslice', 'vg': 'vg%d' % k, 'b': num(r['b'][0]), 'e': num(r['e'][0])})
                else:
                    s.append({'op': 'gslicemd', 'vg': 'vg%d' % k, 'b': [num(x) for x in r['b']], 'e': [num(x) for x in r['e']]})
                plan.append((len(s) - 1, v, r))
    res = run(s)
    for o, op in zip(res, s):
        if died(o) or 'panic' in o:
            c.violation('crash', '%s in %s (%s)' % (o.get('panic') or o.get('stderr'), op, what), script=s)
            return
        if op['op'] in ('open', 'new', 'getgroup', 'getter') and o['err'] is not None:
            c.violation('open', '%s: %s' % (op, o['err']), script=s)
            return
    for i, v, r in plan:
        o, where = res[i], '%s of %s %s in %s' % (s[i], v.ty, v.shape, what)
        if r is None:
            if (o['r']['shape'] or []) != v.shape or o['r']['len'] != (v.shape[0] if v.shape else 1):
                c.violation('shape', 'Shape %s and Len %s of %s' % (o['r']['shape'], o['r']['len'], where), script=s)
                return
            continue
        c.part('requests in range' if r['ok'] else 'requests out of range')
        if not r['ok']:
            if o['err'] is None:
                c.violation('range', 'no error but %s for %s' % (str(o['r'])[:200], where), script=s)
                return
            if o['r'] is not None:
                c.violation('range', 'data besides the error for %s' % where, script=s)
                return
            continue
        if o['err'] is not None:
            c.violation('slice', 'error %s for %s' % (o['err'], where), script=s)
            return
        want = v.nest(v.ty, r['shape'], [v.elems[p] for p in r['sel']])
        got = o['r']
        same = storage.same_value(got, want, v.ty) if v.strip else got == want
        if not same:
            c.violation('slice', '%s is %s, expected %s' % (where, str(got)[:300], str(want)[:300]), script=s)
            return
    c.validated()


def c03(c):
    cl = c.sim('CdfFormat', cdffmt.config(MaxElems=60, MaxAtts=1, Lens={1, 2, 3, 5}), c.n(700, 8000), 60, invariants=cdffmt.FINV)
    h5 = c.sim('H5Storage', storage.config(MaxElems=200, Sizes={1, 2, 3, 5, 7}), c.n(500, 8000), 60, invariants=storage.SINV, properties=storage.SPROP)
    h5 += c.sim('H5Storage', storage.config(MaxElems=300, Sizes={3, 4, 5, 6}, Storages={'chunked'}, MaxVars=2, MaxWrites=3),
                c.n(500, 8000), 60, invariants=storage.SINV, properties=storage.SPROP)
    files = storage.make_all(c, h5)
    jobs = [('classic %d' % i, None, classic_vars(t), t) for i, t in enumerate(cl)] + \
           [('hdf5 %d' % i, p, h5_vars(t), t) for i, (p, t) in enumerate(files)]
    shapes = sorted({tuple(v.shape) for j in jobs for v in j[2]})
    # requests for all of these shapes
    want = set(shapes)
    trs = c.sim('Slicing', dict(Sim=True, Shapes=SetOfSeqs(want), MaxReqs=8), max(c.n(4000, 60000), 6 * len(want)), 40, invariants=['SelectsMembers'])
    small = {(), (0,), (1,), (3,), (2, 2), (3, 1), (1, 3), (0, 2)} | ({(2, 3), (2, 1, 2)} if c.thorough else set())
    trs += c.tlc('Slicing', dict(Sim=False, Shapes=SetOfSeqs(small), MaxReqs=1), workers=8, invariants=['SelectsMembers']).traces
    reqs = {}
    for t in trs:
        reqs.setdefault(tuple(t['shape']), []).append(t)
    c.part('shapes', len(want))

    def one(run, it):
        what, path, vs, t = it
        if path:
            opening = [{'op': 'open', 'path': path, 'as': 'g'}]
        else:
            opening = [{'op': 'file', 'as': 'f', 'data': bytes(t['file']['bytes']).hex()}, {'op': 'new', 'f': 'f', 'as': 'g'}]
        check_file(c, run, opening, vs, reqs, what, c.n(3, 6), None)
        if path:
            os.remove(path)
    c.pool.map(one, jobs)
    c.sample(trs[0])
