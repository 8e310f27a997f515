"""Files in which one byte under a checksum is changed.  Which bytes those are, the specification says (spec/H5Bytes.tla)."""
import os
from vlib import *
from vlib import _h
import storage, written, writer, nclib

KINDS = ('meta', 'chunk')


def dense(job):
    """A file with so many attributes, variables or groups that they are stored in heaps and trees."""
    path, k = job
    try:
        w = nclib.Writer(path)
        g = w.group('g')
        d = w.dim('x', 3)
        at = [(w.id, -1), (g, -1), (w.id, 0), (g, 0)][k % 4]
        for i in range(2 if k % 3 else 10 + k % 3):
            w.var('v%02d' % i, 'int16', [d])
            w.var('u%02d' % i, 'int32', [d], g=g)
        for i in range(11 if k % 5 == 0 else 1):
            w.group('s%d' % i, g)
        n = (12, 0, 40, 9)[k % 4]
        for i in range(n):
            if k // 4 % 2:      # all of one size, so that each could be taken for another
                t = text(k, i, 40 + k)
                w.att(at[1], 'a%02d' % i, 'char', len(t), t, g=at[0])
            elif i & 1:
                w.att(at[1], 'a%d' % i, 'int32', 2, '%08x%08x' % (i * k, i), g=at[0])
            else:
                t = text(k, i, 5 + i * (1 + k % 3))
                w.att(at[1], 'a%d' % i, 'char', len(t), t, g=at[0])
        w.close()
    except nclib.NcError as e:
        return str(e)


def files_of(c):
    inv = dict(invariants=storage.SINV, properties=storage.SPROP)
    tr = c.sim('H5Storage', storage.config(MaxElems=40, MaxVars=3), c.n(24, 300), 60, **inv)
    tr += [t for t in c.sim('H5Storage', storage.config(MaxElems=60, MaxVars=2, Storages={'chunked'}, Sizes={2, 3, 5}, Types=storage.NUMERIC), c.n(100, 800), 60, **inv)
           if any(v['fletcher'] for v in t['vars'])]
    out = [(p, 'libnetcdf') for p, _ in storage.make_all(c, tr)]
    wr = c.sim('Writer', writer.config('hdf5', OnlyValid=True, LateCalls=False, MaxOps=6, MaxRank=3, Lens={0, 1, 2, 3}), c.n(32, 300), 80,
               invariants=writer.INV, properties=writer.PROPS)
    for t in wr:
        p = c.path()
        if t['ok'] and all(o.get('err') is None and 'panic' not in o for o in c.pool._one(writer.script_of(t, p, False))):
            out.append((p, 'writer'))
    dn = [(c.path(), c.seed + k) for k in range(c.n(20, 80))]
    for p, k in dn:
        e = dense((p, k))
        if e:
            raise ToolError('libnetcdf cannot write the file: ' + e)
        out.append((p, 'libnetcdf'))
    return out


def slices(whole):
    """Operations that read parts of the variables on a handle h."""
    out = []
    for g, d in [('h', whole)] + [('hs', x) for x in whole['groups'][:1]]:
        if g == 'hs':
            out.append({'op': 'getgroup', 'g': 'h', 'name': d['name'], 'as': 'hs'})
        for v in d.get('vars', []):
            if v.get('shape') and v['shape'][0] > 0:
                n = v['shape'][0]
                out.append({'op': 'getter', 'g': g, 'name': v['name'], 'as': 'vg'})
                out += [{'op': 'gslice', 'vg': 'vg', 'b': x, 'e': x + 1} for x in sorted({0, n // 2, n - 1})]
    return out


def redirected(b, parts):
    """Changes of one byte of an address in a part with a checksum, after which it is the address of another part
    of the same kind."""
    starts = sorted({p['from'] for p in parts} - {0})
    by = {x.to_bytes(8, 'little'): x for x in starts}
    out = []
    for p in parts:
        if p['kind'] != 'meta':
            continue
        for k in range(p['from'], p['to'] - 7):
            if b[k:k + 8] in by:
                for y in starts:
                    w = y.to_bytes(8, 'little')
                    d = [j for j in range(8) if w[j] != b[k + j]]
                    x = by[b[k:k + 8]]
                    if len(d) == 1 and b[x:x + 4] == b[y:y + 4]:
                        out.append((k + d[0], w[d[0]], 'meta'))
    return sorted(set(out))


def c14(c):
    files = files_of(c)
    data = [open(p, 'rb').read() for p, _ in files]
    dec = written.spec_decode(c, 'H5Check', list(enumerate(data)), dict(WithData=False, WithParts=True))
    jobs = []
    for i, (path, what) in enumerate(files):
        t = dec[i]
        if 'malformed' in t:
            c.part('not decoded: %s: %s' % (what, t['malformed'][:60]))
            continue
        pos = sorted({(k, p['kind']) for p in t['parts'] if p['kind'] in KINDS for k in range(p['from'], p['to'])})
        if len(pos) > c.n(1500, 30000):
            step = len(pos) // c.n(1500, 30000) + 1
            pos = pos[_h('dmg', c.seed, i) % step::step]
        flips = []
        heads = {p['from'] + k for p in t['parts'] if p['kind'] == 'meta' for k in range(c.n(6, 14))} if i % c.n(6, 1) == 0 else set()
        for k, kind in pos:
            c.part('positions ' + kind)
            old = data[i][k]
            news = set()
            for j in range(c.n(1, 4)):
                r = _h('flip', c.seed, i, k, j)
                news.add((old ^ (1 << (r >> 8) % 8), (r >> 8) & 255, 0, 255)[r % 4])
            if k in heads:      # signatures, versions and flags
                news |= {0, 1, 2, 3, 4, 255} | {old ^ 1 << b for b in range(8)}
            flips += [(k, new, kind) for new in sorted(news - {old})]
            flips += [(k, old ^ 1, kind)] if news == {old} else []
        aimed = redirected(data[i], t['parts'])
        if len(aimed) > c.n(60, 1000):
            step = len(aimed) // c.n(60, 1000) + 1
            aimed = aimed[_h('aim', c.seed, i) % step::step]
        c.part('addresses changed to those of other parts', len(aimed))
        flips += aimed
        jobs += [(path, what, data[i], flips[a:a + 100]) for a in range(0, len(flips), 100)]

    def one(run, it):
        path, what, b, flips = it
        s = storage.read_dump(path)
        res = run(s)
        if res[0]['err'] is not None or 'panic' in res[1]:
            c.violation('open', 'undamaged file: %s' % (res[0]['err'] or res[1]['panic']), file=b.hex())
            return
        whole = res[1]['r']
        parts = slices(whole)
        good = run([s[0]] + [dict(o, **({'g': 'g'} if o.get('g') == 'h' else {})) for o in parts] + [s[2]])[1:-1]
        ops, where = [], []
        for k, new, kind in flips:
            where.append(len(ops))
            ops += [{'op': 'file', 'as': 'f', 'path': path, 'patch': [[k, new]]}, {'op': 'new', 'f': 'f', 'as': 'h'},
                    {'op': 'dump', 'g': 'h'}] + (parts if kind == 'chunk' else []) + [{'op': 'closeg', 'g': 'h'}]
        where.append(len(ops))
        res = run(ops)
        for j, (k, new, kind) in enumerate(flips):
            r = res[where[j]:where[j + 1]]
            at = 'a %s file of %d bytes, byte %d (%s) changed from %d to %d' % (what, len(b), k, kind, b[k], new)
            bad = [o for o in r if died(o) or 'panic' in o]
            if bad:
                c.violation('crash', '%s: %s' % (at, bad[0].get('panic') or bad[0].get('stderr')), file=b.hex(), pos=k, new=new)
                return
            c.validated()
            if r[1]['err'] is None:
                c.part('damaged files that still open')
                e = storage.cmp_damaged(r[2]['r'], whole)
                for o, g, p in zip(r[3:-1], good, parts) if not e else ():
                    if o['err'] is None and o['r'] != g['r']:
                        e = '%s is %s, but %s in the undamaged file' % (p, o['r'], g['r'])
                if e:
                    c.violation(kind, '%s: %s' % (at, e), file=b.hex(), pos=k, new=new)
    c.pool.map(one, jobs)
    c.sample({'file': files[0][1], 'parts': dec[0].get('parts')})
