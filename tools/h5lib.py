"""The HDF5 library itself (libhdf5), for what libnetcdf does not do: chunks with filters left out, other forms of a file."""
import ctypes, os, subprocess, zlib
from ctypes import byref, c_int, c_int64, c_uint, c_uint32, c_uint64, c_size_t, c_void_p

FLETCHER, DEFLATE, SHUFFLE = 3, 1, 2
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL('libhdf5_serial.so.103')
        for f in 'H5Fopen H5Dopen2 H5Dget_create_plist H5Dget_type'.split():
            getattr(_lib, f).restype = c_int64
        _lib.H5Tget_size.restype = c_size_t
        _lib.H5open()
        _lib.H5Eset_auto2(c_int64(0), None, None)
    return _lib


class H5Error(Exception):
    pass


def ck(r, what):
    if r < 0:
        raise H5Error(what)
    return r


def fletcher32(b):
    """As the HDF5 library sums: big-endian words, ones' complement."""
    if len(b) % 2:
        b = b + b'\0'
    s1 = s2 = 0
    for i in range(0, len(b), 2):
        s1 += b[i] << 8 | b[i + 1]
        s1 = (s1 & 0xffff) + (s1 >> 16)
        s2 += s1
        s2 = (s2 & 0xffff) + (s2 >> 16)
    return s2 << 16 | s1


def shuffled(b, w, back):
    n = len(b) // w
    t = b''.join(b[i:n * w:n] for i in range(n)) if back else b''.join(b[j:n * w:w] for j in range(w))
    return t + b[n * w:]


def undo(f, b, w):
    if f == FLETCHER:
        return b[:-4]
    return zlib.decompress(b) if f == DEFLATE else shuffled(b, w, True)


def apply(f, b, w):
    if f == FLETCHER:
        return b + fletcher32(b).to_bytes(4, 'little')
    return zlib.compress(b, 5) if f == DEFLATE else shuffled(b, w, False)


def rewrite_chunk(path, dataset, origin, skip):
    """Stores one chunk again, leaving out the filters whose position is in skip.  Returns the filters of the dataset."""
    h = lib()
    f = ck(h.H5Fopen(path.encode(), 1, c_int64(0)), 'open ' + path)
    try:
        d = ck(h.H5Dopen2(c_int64(f), dataset.encode(), c_int64(0)), 'dataset ' + dataset)
        t = h.H5Dget_type(c_int64(d))
        w = h.H5Tget_size(c_int64(t))
        h.H5Tclose(c_int64(t))
        p = h.H5Dget_create_plist(c_int64(d))
        filters = []
        for i in range(h.H5Pget_nfilters(c_int64(p))):
            n = c_size_t(0)
            filters.append(h.H5Pget_filter2(c_int64(p), c_uint(i), byref(c_uint()), byref(n), None, c_size_t(0), None, None))
        h.H5Pclose(c_int64(p))
        off = (c_uint64 * len(origin))(*origin)
        size, mask = c_uint64(0), c_uint32(0)
        ck(h.H5Dget_chunk_storage_size(c_int64(d), off, byref(size)), 'chunk size')
        if size.value == 0:
            raise H5Error('no such chunk: %s %s' % (dataset, origin))
        buf = ctypes.create_string_buffer(size.value)
        ck(h.H5Dread_chunk(c_int64(d), c_int64(0), off, byref(mask), buf), 'read chunk')
        b = buf.raw
        for i in range(len(filters) - 1, -1, -1):
            if not mask.value >> i & 1:
                b = undo(filters[i], b, w)
        for i, fl in enumerate(filters):
            if i not in skip:
                b = apply(fl, b, w)
        m = sum(1 << i for i in range(len(filters)) if i in skip)
        for x in (b + bytes(8), b):     # the library notes the mask only if the size changes
            ck(h.H5Dwrite_chunk(c_int64(d), c_int64(0), c_uint32(m), off, c_size_t(len(x)), x), 'write chunk')
        h.H5Dclose(c_int64(d))
        return filters
    finally:
        h.H5Fclose(c_int64(f))


def repack(path, options):
    """Writes the file again with h5repack, in another form.  False if it could not."""
    out = path + '.re'
    try:
        r = subprocess.run(['h5repack'] + options + [path, out], capture_output=True, timeout=60)
        if r.returncode or not os.path.exists(out):
            return False
        os.replace(out, path)
        return True
    finally:
        if os.path.exists(out):
            os.remove(out)
