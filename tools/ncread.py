#!/usr/bin/env python3
"""Reads files with the reference C library.  In: a JSON list of paths; out: one line of JSON per file.
It runs in a process of its own, since the library may crash."""
import ctypes, json, os, sys
from ctypes import byref, c_int, c_size_t, c_void_p, create_string_buffer
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nclib import lib, ck, NAMES, SIZE, VLEN, OPAQUE, ENUM, COMPOUND, NOWRITE

L = lib()


def name_of(fn, *a):
    b = create_string_buffer(1025)
    ck(fn(*a, b), 'name')
    return b.value.hex()


class File:
    def __init__(self, path):
        i = c_int()
        ck(L.nc_open(path.encode(), NOWRITE, byref(i)), 'open')
        self.id = i.value
        self.types = {}

    def close(self):
        L.nc_close(self.id)

    def ty(self, t, g=None):
        """What a type is: [kind, ...]"""
        if t in NAMES:
            return [NAMES[t]]
        if t in self.types:
            return self.types[t]
        nb, size, base, nf, cls = create_string_buffer(1025), c_size_t(), c_int(), c_size_t(), c_int()
        ck(L.nc_inq_user_type(g or self.id, t, nb, byref(size), byref(base), byref(nf), byref(cls)), 'user type')
        r = None
        if cls.value == VLEN:
            r = ['vlen', nb.value.hex(), self.ty(base.value, g)]
        elif cls.value == OPAQUE:
            r = ['opaque', nb.value.hex(), size.value]
        elif cls.value == ENUM:
            ms = []
            w = SIZE[base.value]
            for k in range(nf.value):
                n, v = create_string_buffer(1025), create_string_buffer(8)
                ck(L.nc_inq_enum_member(g or self.id, t, k, n, v), 'member')
                ms.append([n.value.hex(), v.raw[:w][::-1].hex()])
            r = ['enum', nb.value.hex(), NAMES[base.value], ms]
        elif cls.value == COMPOUND:
            fs = []
            for k in range(nf.value):
                n, off, ft, nd = create_string_buffer(1025), c_size_t(), c_int(), c_int()
                dims = (c_int * 64)()
                ck(L.nc_inq_compound_field(g or self.id, t, k, n, byref(off), byref(ft), byref(nd), dims), 'field')
                fs.append([n.value.hex(), off.value, self.ty(ft.value, g), list(dims[:nd.value])])
            r = ['compound', nb.value.hex(), size.value, fs]
        self.types[t] = r
        return r

    def size(self, t):
        k = t[0]
        if k == 'string':
            return 8
        if k == 'vlen':
            return 16
        if k in ('opaque', 'compound'):
            return t[2]
        if k == 'enum':
            return self.size([t[2]])
        return {'char': 1, 'int8': 1, 'uint8': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'float32': 4}.get(k, 8)

    def val(self, t, p):
        """The element at address p."""
        k = t[0]
        if k == 'string':
            q = ctypes.cast(p, ctypes.POINTER(c_void_p))[0]
            return 's:' + (ctypes.string_at(q).hex() if q else '')
        if k == 'vlen':
            n = ctypes.cast(p, ctypes.POINTER(c_size_t))[0]
            q = ctypes.cast(p + 8, ctypes.POINTER(c_void_p))[0]
            w = self.size(t[2])
            return [self.val(t[2], q + i * w) for i in range(n)]
        if k == 'opaque':
            return ctypes.string_at(p, t[2]).hex()
        if k == 'enum':
            return self.val([t[2]], p)
        if k == 'compound':
            out = []
            for _, off, ft, dims in t[3]:
                w, n = self.size(ft), 1
                for d in dims:
                    n *= d
                vs = [self.val(ft, p + off + i * w) for i in range(n)]
                out.append(vs if dims else vs[0])
            return out
        return ctypes.string_at(p, self.size(t))[::-1].hex()

    def vals(self, t, n, get):
        w = self.size(t)
        buf = create_string_buffer(max(1, n * w))
        if n:
            ck(get(buf), 'get')
        a = ctypes.addressof(buf)
        return [self.val(t, a + i * w) for i in range(n)]

    def atts(self, g, v, n):
        out = []
        for k in range(n):
            nb = create_string_buffer(1025)
            ck(L.nc_inq_attname(g, v, k, nb), 'attribute name')
            t, ln = c_int(), c_size_t()
            ck(L.nc_inq_att(g, v, nb, byref(t), byref(ln)), 'attribute')
            ty = self.ty(t.value, g)
            out.append({'name': nb.value.hex(), 'ty': ty, 'len': ln.value,
                        'elems': self.vals(ty, ln.value, lambda b: L.nc_get_att(g, v, nb, b))})
        return out

    def group(self, g):
        na = c_int()
        ck(L.nc_inq_natts(g, byref(na)), 'natts')
        out = {'attrs': self.atts(g, -1, na.value)}
        n = c_int()
        ck(L.nc_inq_dimids(g, byref(n), None, 0), 'dimids')
        ids = (c_int * max(1, n.value))()
        ck(L.nc_inq_dimids(g, byref(n), ids, 0), 'dimids')
        nu = c_int()
        un = (c_int * 1100)()
        ck(L.nc_inq_unlimdims(g, byref(nu), un), 'unlimdims')
        out['dims'] = []
        for i in ids[:n.value]:
            ln = c_size_t()
            ck(L.nc_inq_dimlen(g, i, byref(ln)), 'dim')
            out['dims'].append([name_of(L.nc_inq_dimname, g, i), ln.value, i in un[:nu.value]])
        ck(L.nc_inq_varids(g, byref(n), None), 'varids')
        ids = (c_int * max(1, n.value))()
        ck(L.nc_inq_varids(g, byref(n), ids), 'varids')
        out['vars'] = []
        for v in ids[:n.value]:
            t, nd, na = c_int(), c_int(), c_int()
            dims = (c_int * 1024)()
            nb = create_string_buffer(1025)
            ck(L.nc_inq_var(g, v, nb, byref(t), byref(nd), dims, byref(na)), 'var')
            ty = self.ty(t.value, g)
            shape, dn, cnt = [], [], 1
            for d in dims[:nd.value]:
                ln = c_size_t()
                ck(L.nc_inq_dimlen(g, d, byref(ln)), 'dim')
                shape.append(ln.value)
                dn.append(name_of(L.nc_inq_dimname, g, d))
                cnt *= ln.value
            out['vars'].append({'name': nb.value.hex(), 'ty': ty, 'shape': shape, 'dims': dn, 'attrs': self.atts(g, v, na.value),
                                'elems': self.vals(ty, cnt, lambda b: L.nc_get_var(g, v, b))})
        ck(L.nc_inq_typeids(g, byref(n), None), 'typeids')
        ids = (c_int * max(1, n.value))()
        ck(L.nc_inq_typeids(g, byref(n), ids), 'typeids')
        out['types'] = [self.ty(t, g) for t in ids[:n.value]]
        ck(L.nc_inq_grps(g, byref(n), None), 'grps')
        ids = (c_int * max(1, n.value))()
        ck(L.nc_inq_grps(g, byref(n), ids), 'grps')
        out['groups'] = []
        for s in ids[:n.value]:
            d = self.group(s)
            d['name'] = name_of(L.nc_inq_grpname, s)
            out['groups'].append(d)
        return out


def read(path):
    f = File(path)
    try:
        fmt = c_int()
        ck(L.nc_inq_format(f.id, byref(fmt)), 'format')
        r = f.group(f.id)
        r['format'] = fmt.value
        return r
    finally:
        f.close()


if __name__ == '__main__':
    for p in json.load(sys.stdin):
        try:
            r = {'file': read(p)}
        except Exception as e:
            r = {'err': str(e)}
        print(json.dumps(r))
        sys.stdout.flush()
