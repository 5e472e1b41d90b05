"""Minimal HDF5 access through ctypes (there is no h5py here)."""
import ctypes as C, os
import numpy as np
_lib = None
def lib():
    global _lib
    if _lib is None:
        _lib = C.CDLL('/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so')
        for n in ('H5Fopen', 'H5Fcreate', 'H5Dopen2', 'H5Dcreate2', 'H5Dget_space', 'H5Screate_simple', 'H5Screate', 'H5Gopen2', 'H5Aopen_name',
                  'H5Aget_space', 'H5Aget_type', 'H5Dget_type', 'H5Aopen_idx', 'H5Acreate2', 'H5Tcopy', 'H5Oopen'):
            getattr(_lib, n).restype = C.c_int64
        _lib.H5Tget_size.restype = C.c_size_t
        _lib.H5Aget_name.restype = C.c_ssize_t
        _lib.H5Lget_name_by_idx.restype = C.c_ssize_t
        _lib.H5open()
        _lib.H5Eset_auto2(C.c_int64(0), None, None)
    return _lib
def _g(name): return C.c_int64.in_dll(lib(), name)
def _dims(sp):
    L = lib(); n = L.H5Sget_simple_extent_ndims(C.c_int64(sp))
    d = (C.c_uint64 * max(n, 1))()
    L.H5Sget_simple_extent_dims(C.c_int64(sp), d, None)
    return tuple(int(d[i]) for i in range(n))
def _attr(aid):
    L = lib()
    t = L.H5Aget_type(C.c_int64(aid)); sp = L.H5Aget_space(C.c_int64(aid)); dims = _dims(sp)
    cls = L.H5Tget_class(C.c_int64(t))
    if cls == 3:
        n = L.H5Tget_size(C.c_int64(t)); b = C.create_string_buffer(n + 1)
        L.H5Aread(C.c_int64(aid), C.c_int64(t), b); v = b.value.decode('utf8', 'replace')
    else:
        v = np.zeros(dims or (1,)); L.H5Aread(C.c_int64(aid), _g('H5T_NATIVE_DOUBLE_g'), v.ctypes.data_as(C.c_void_p))
        if not dims: v = float(v[0])
    L.H5Tclose(C.c_int64(t)); L.H5Sclose(C.c_int64(sp))
    return v
def _attrs(oid):
    L = lib(); out = {}
    for i in range(200):
        a = L.H5Aopen_idx(C.c_int64(oid), C.c_uint(i))
        if a < 0: break
        b = C.create_string_buffer(200); L.H5Aget_name(C.c_int64(a), C.c_size_t(199), b)
        out[b.value.decode()] = _attr(a)
        L.H5Aclose(C.c_int64(a))
    return out
def read(path):
    """{'data': {name: array}, 'attrs': {name: value}, 'dattrs': {dataset: {..}}}"""
    L = lib()
    if not os.path.exists(path): return None
    f = L.H5Fopen(path.encode(), C.c_uint(0), C.c_int64(0))
    if f < 0: return None
    out = {'data': {}, 'attrs': {}, 'dattrs': {}, 'tsize': {}}
    g = L.H5Gopen2(C.c_int64(f), b'/', C.c_int64(0))
    out['attrs'] = _attrs(g)
    i = 0
    while True:
        b = C.create_string_buffer(6000)
        n = L.H5Lget_name_by_idx(C.c_int64(f), b'/', C.c_int(0), C.c_int(0), C.c_uint64(i), b, C.c_size_t(5999), C.c_int64(0))
        if n < 0: break
        i += 1
        nm = b.value
        ds = L.H5Dopen2(C.c_int64(f), nm, C.c_int64(0))
        if ds < 0: continue
        sp = L.H5Dget_space(C.c_int64(ds)); dims = _dims(sp)
        a = np.zeros(dims)
        t = L.H5Dget_type(C.c_int64(ds))
        cls = L.H5Tget_class(C.c_int64(t)); out['tsize'][nm.decode()] = (cls, int(L.H5Tget_size(C.c_int64(t))))
        if cls == 3:
            sz = L.H5Tget_size(C.c_int64(t)); bb = C.create_string_buffer(sz + 1)
            L.H5Dread(C.c_int64(ds), C.c_int64(t), C.c_int64(0), C.c_int64(0), C.c_int64(0), bb)
            out['data'][nm.decode()] = bb.value.decode('utf8', 'replace')
        else:
            L.H5Dread(C.c_int64(ds), _g('H5T_NATIVE_DOUBLE_g'), C.c_int64(0), C.c_int64(0), C.c_int64(0), a.ctypes.data_as(C.c_void_p))
            out['data'][nm.decode()] = a
        out['dattrs'][nm.decode()] = _attrs(ds)
        L.H5Tclose(C.c_int64(t)); L.H5Sclose(C.c_int64(sp)); L.H5Dclose(C.c_int64(ds))
    L.H5Gclose(C.c_int64(g)); L.H5Fclose(C.c_int64(f))
    return out
def _put_attr(oid, name, v):
    L = lib()
    if isinstance(v, str):
        t = L.H5Tcopy(_g('H5T_C_S1_g')); L.H5Tset_size(C.c_int64(t), C.c_size_t(len(v) + 1))
        sp = L.H5Screate(C.c_int(0))
        a = L.H5Acreate2(C.c_int64(oid), name.encode(), C.c_int64(t), C.c_int64(sp), C.c_int64(0), C.c_int64(0))
        L.H5Awrite(C.c_int64(a), C.c_int64(t), C.create_string_buffer(v.encode()))
        L.H5Aclose(C.c_int64(a))
    else:
        v = np.ascontiguousarray(v, dtype=float); d = (C.c_uint64 * max(v.ndim, 1))(*v.shape)
        sp = L.H5Screate_simple(C.c_int(v.ndim), d, None)
        a = L.H5Acreate2(C.c_int64(oid), name.encode(), _g('H5T_NATIVE_DOUBLE_g'), C.c_int64(sp), C.c_int64(0), C.c_int64(0))
        L.H5Awrite(C.c_int64(a), _g('H5T_NATIVE_DOUBLE_g'), v.ctypes.data_as(C.c_void_p))
        L.H5Aclose(C.c_int64(a)); L.H5Sclose(C.c_int64(sp))
def write(path, data, attrs={}, dattrs={}):
    L = lib()
    f = L.H5Fcreate(path.encode(), C.c_uint(2), C.c_int64(0), C.c_int64(0))
    assert f >= 0, path
    for n, a in data.items():
        a = np.ascontiguousarray(a, dtype=float); d = (C.c_uint64 * max(a.ndim, 1))(*a.shape)
        sp = L.H5Screate_simple(C.c_int(a.ndim), d, None)
        ds = L.H5Dcreate2(C.c_int64(f), n.encode(), _g('H5T_NATIVE_DOUBLE_g'), C.c_int64(sp), C.c_int64(0), C.c_int64(0), C.c_int64(0))
        L.H5Dwrite(C.c_int64(ds), _g('H5T_NATIVE_DOUBLE_g'), C.c_int64(0), C.c_int64(0), C.c_int64(0), a.ctypes.data_as(C.c_void_p))
        for k, v in dattrs.get(n, {}).items(): _put_attr(ds, k, v)
        L.H5Sclose(C.c_int64(sp)); L.H5Dclose(C.c_int64(ds))
    g = L.H5Gopen2(C.c_int64(f), b'/', C.c_int64(0))
    for k, v in attrs.items(): _put_attr(g, k, v)
    L.H5Gclose(C.c_int64(g)); L.H5Fclose(C.c_int64(f))
