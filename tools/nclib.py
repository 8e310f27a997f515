"""The reference C library (libnetcdf), used to write files and, as an independent reader, to read them."""
import ctypes, os
from ctypes import byref, c_char_p, c_int, c_size_t, c_void_p, c_ubyte, c_char, POINTER, create_string_buffer

TYPES = {'int8': 1, 'char': 2, 'int16': 3, 'int32': 4, 'float32': 5, 'float64': 6, 'uint8': 7, 'uint16': 8, 'uint32': 9, 'int64': 10,
         'uint64': 11, 'string': 12}
NAMES = {v: k for k, v in TYPES.items()}
SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8, 7: 1, 8: 2, 9: 4, 10: 8, 11: 8}
GLOBAL = -1
CLOBBER, NETCDF4, NOWRITE, WRITE = 0, 0x1000, 0, 1
NC_64BIT, NC_CDF5 = 0x0200, 0x0020
VLEN, OPAQUE, ENUM, COMPOUND = 13, 14, 15, 16


class NcError(Exception):
    pass


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL('libnetcdf.so.19')
        _lib.nc_strerror.restype = c_char_p
        _lib.nc_inq_libvers.restype = c_char_p
    return _lib


def ck(rc, what=''):
    if rc:
        raise NcError('%s: %s' % (what, lib().nc_strerror(rc).decode()))


def swap(hexs, w):
    """Big-endian hex of elements of w bytes as the bytes of this (little-endian) machine."""
    b = bytes.fromhex(hexs)
    return b''.join(b[i:i + w][::-1] for i in range(0, len(b), w))


def unswap(b, w):
    return b''.join(b[i:i + w][::-1] for i in range(0, len(b), w)).hex()


def sizes(l):
    return (c_size_t * max(1, len(l)))(*l)


class Writer:
    def __init__(self, path, mode=NETCDF4):
        self.l = lib()
        self.id = c_int()
        ck(self.l.nc_create(path.encode(), mode, byref(self.id)), 'create')
        self.id = self.id.value

    @classmethod
    def reopen(cls, path):
        w = cls.__new__(cls)
        w.l, w.id = lib(), c_int()
        ck(w.l.nc_open(path.encode(), WRITE, byref(w.id)), 'open')
        w.id = w.id.value
        return w

    def group(self, name, g=None):
        i = c_int()
        ck(self.l.nc_def_grp(g or self.id, name.encode(), byref(i)), 'group')
        return i.value

    def dim(self, name, size, g=None):
        i = c_int()
        ck(self.l.nc_def_dim(g or self.id, name.encode(), c_size_t(size), byref(i)), 'dim')
        return i.value

    def var(self, name, ty, dims, g=None, storage=None, chunks=None, shuffle=0, deflate=0, fletcher=0, endian=0, fill=None):
        g = g or self.id
        i = c_int()
        t = TYPES.get(ty, ty)
        ck(self.l.nc_def_var(g, name.encode(), t, len(dims), (c_int * max(1, len(dims)))(*dims), byref(i)), 'var')
        v = i.value
        if storage is not None:
            ck(self.l.nc_def_var_chunking(g, v, {'chunked': 0, 'contiguous': 1, 'compact': 2}[storage],
                                          sizes(chunks) if chunks else None), 'chunking')
        if shuffle or deflate:
            ck(self.l.nc_def_var_deflate(g, v, int(shuffle), int(deflate > 0), deflate), 'deflate')
        if fletcher:
            ck(self.l.nc_def_var_fletcher32(g, v, 1), 'fletcher')
        if endian:
            ck(self.l.nc_def_var_endian(g, v, endian), 'endian')
        if fill is not None:
            if t == 12:
                p = (c_char_p * 1)(bytes.fromhex(fill[2:]))
                ck(self.l.nc_def_var_fill(g, v, 0, p), 'fill')
            else:
                ck(self.l.nc_def_var_fill(g, v, 0, swap(fill, SIZE[t])), 'fill')
        return v

    def put(self, v, ty, start, count, data, g=None):
        """data: hex of the elements, or for strings a list of 's:'+hex."""
        if ty == 'string':
            buf = (c_char_p * max(1, len(data)))(*[bytes.fromhex(x[2:]) for x in data])
        else:
            w = SIZE[TYPES[ty]]
            buf = swap(data, w)
        ck(self.l.nc_put_vara(g or self.id, v, sizes(start), sizes(count), buf), 'put')

    def att(self, v, name, ty, n, data, g=None):
        if ty == 'string':
            buf = (c_char_p * max(1, len(data)))(*[bytes.fromhex(x[2:]) for x in data])
        elif ty == 'char':
            buf = data
        else:
            buf = swap(data, SIZE[TYPES[ty]])
        ck(self.l.nc_put_att(g or self.id, v, name.encode(), TYPES[ty], c_size_t(n), buf), 'att')

    def sync(self):
        ck(self.l.nc_sync(self.id), 'sync')

    def close(self):
        ck(self.l.nc_close(self.id), 'close')


# --------------------------------------------------------------------------- user-defined types
#
# A type here is ['int32'] (a built-in one) or, as ncread.py gives them, ['enum', id, base, members], ['opaque', id, size],
# ['vlen', id, type], ['compound', id, size, [[name, offset, type, dims]]], where id is the library's number of the type.
# Values: hex of one element, 's:…' for a string, hex for opaque, a list for vlen, a list of field values for compound (and a
# list of elements for a field with dimensions).

def tsize(t):
    k = t[0]
    if k == 'vlen':
        return 16
    if k in ('opaque', 'compound'):
        return t[2]
    if k == 'enum':
        return SIZE[TYPES[t[2]]]
    return 8 if k == 'string' else SIZE.get(TYPES[k], 1)


def pack(t, v, keep):
    """The bytes of one element; what they point to is kept alive in keep."""
    k = t[0]
    if k == 'string':
        b = create_string_buffer(bytes.fromhex(v[2:]))
        keep.append(b)
        return ctypes.addressof(b).to_bytes(8, 'little')
    if k == 'vlen':
        data = b''.join(pack(t[2], x, keep) for x in v)
        b = create_string_buffer(data, max(1, len(data)))
        keep.append(b)
        return len(v).to_bytes(8, 'little') + (ctypes.addressof(b) if v else 0).to_bytes(8, 'little')
    if k == 'opaque':
        return bytes.fromhex(v)
    if k == 'compound':
        out = bytearray(b'\xa5' * t[2])
        for (_, off, ft, dims), x in zip(t[3], v):
            data = b''.join(pack(ft, y, keep) for y in (x if dims else [x]))
            out[off:off + len(data)] = data
        return bytes(out)
    return bytes.fromhex(v)[::-1]


def align(t):
    k = t[0]
    if k in ('string', 'vlen'):
        return 8
    if k == 'opaque':
        return 1
    if k == 'compound':
        return max([1] + [align(f[2]) for f in t[3]])
    return tsize(t)


def typeid(t):
    return TYPES[t[0]] if len(t) == 1 else t[1]


def def_type(w, name, t, g=None):
    """Defines a type (whose id is not known yet) and gives it back with its id."""
    g, i = g or w.id, c_int()
    k, L = t[0], w.l
    nb = name.encode()
    if k == 'enum':
        ck(L.nc_def_enum(g, TYPES[t[2]], nb, byref(i)), 'enum')
        for m, v in t[3]:
            ck(L.nc_insert_enum(g, i, m.encode(), bytes.fromhex(v)[::-1]), 'member')
    elif k == 'opaque':
        ck(L.nc_def_opaque(g, c_size_t(t[2]), nb, byref(i)), 'opaque')
    elif k == 'vlen':
        ck(L.nc_def_vlen(g, nb, typeid(t[2]), byref(i)), 'vlen')
    else:
        ck(L.nc_def_compound(g, c_size_t(t[2]), nb, byref(i)), 'compound')
        for fn, off, ft, dims in t[3]:
            if dims:
                ck(L.nc_insert_array_compound(g, i, fn.encode(), c_size_t(off), typeid(ft), len(dims), (c_int * len(dims))(*dims)), 'array field')
            else:
                ck(L.nc_insert_compound(g, i, fn.encode(), c_size_t(off), typeid(ft)), 'field')
    return [k, i.value] + t[2:]


def buffer(t, elems):
    keep = []
    b = b''.join(pack(t, e, keep) for e in elems)
    return create_string_buffer(b, max(1, len(b))), keep
