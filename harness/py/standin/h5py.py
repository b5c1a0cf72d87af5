"""Stand-in for h5py (not installed): the part the configuration scripts use, writing and reading real HDF5 files through the C library."""
import ctypes as C, os, numpy as np
_h = C.CDLL(os.environ.get("VF_HDF5", "/usr/lib/x86_64-linux-gnu/libhdf5_serial.so.103"))
_I = C.c_int64
for _n in ("H5Fcreate H5Fopen H5Gcreate2 H5Gopen2 H5Acreate2 H5Aopen H5Dcreate2 H5Dopen2 H5Screate H5Screate_simple H5Tcopy H5Aget_type H5Dget_type H5Aget_space H5Dget_space".split()): getattr(_h, _n).restype = _I
_h.H5open()
def _g(n): return _I(C.c_int64.in_dll(_h, n).value)
_T = {"i8": "H5T_STD_I64LE_g", "i4": "H5T_STD_I32LE_g", "f8": "H5T_IEEE_F64LE_g", "f4": "H5T_IEEE_F32LE_g", "u1": "H5T_STD_U8LE_g", "u8": "H5T_STD_U64LE_g"}
def _ok(x, what):
    x = x.value if isinstance(x, _I) else x
    if x < 0: raise OSError("HDF5: " + what)
    return _I(x)
def _type(d):
    k = d.kind + str(d.itemsize)
    if k not in _T: raise TypeError("no HDF5 type for %s" % d)
    return _g(_T[k])
def _space(shape):
    if shape == (): return _ok(_h.H5Screate(0), "scalar space")
    a = (C.c_uint64 * len(shape))(*shape); return _ok(_h.H5Screate_simple(C.c_int(len(shape)), a, None), "space")
def _dims(s):
    n = _h.H5Sget_simple_extent_ndims(s); a = (C.c_uint64 * max(n, 1))(); _h.H5Sget_simple_extent_dims(s, a, None); return tuple(a[:n])
class _Attrs:
    def __init__(self, o): self.o = o
    def __setitem__(self, k, v):
        b = k.encode()
        if _h.H5Aexists(self.o, b) > 0: _h.H5Adelete(self.o, b)
        if isinstance(v, str):
            t = _ok(_h.H5Tcopy(_g("H5T_C_S1_g")), "type"); _h.H5Tset_size(t, C.c_size_t(-1)); _h.H5Tset_cset(t, 1); s = _space(()); p = (C.c_char_p * 1)(v.encode())
            a = _ok(_h.H5Acreate2(self.o, b, t, s, _I(0), _I(0)), "attribute " + k); _ok(_h.H5Awrite(a, t, p), k); _h.H5Tclose(t)
        else:
            v = np.asarray(v, order="C"); t = _type(v.dtype); s = _space(v.shape); a = _ok(_h.H5Acreate2(self.o, b, t, s, _I(0), _I(0)), "attribute " + k); _ok(_h.H5Awrite(a, t, C.c_void_p(v.ctypes.data)), k)
        _h.H5Aclose(a); _h.H5Sclose(s)
    def __getitem__(self, k):
        if _h.H5Aexists(self.o, k.encode()) <= 0: raise KeyError("can't open attribute: " + k)
        a = _ok(_h.H5Aopen(self.o, k.encode(), _I(0)), k); t = _ok(_h.H5Aget_type(a), k); s = _ok(_h.H5Aget_space(a), k); cl = _h.H5Tget_class(t)
        if cl == 3: p = (C.c_char_p * 1)(); _h.H5Aread(a, t, p); r = p[0].decode()
        else:
            r = np.zeros(_dims(s), np.int64 if cl == 0 else np.float64); _ok(_h.H5Aread(a, _type(r.dtype), C.c_void_p(r.ctypes.data)), k); r = r[()] if r.shape == () else r
        _h.H5Tclose(t); _h.H5Sclose(s); _h.H5Aclose(a); return r
class Dataset:
    def __init__(self, o, name):
        if _h.H5Lexists(o, name.encode(), _I(0)) <= 0: raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        d = _ok(_h.H5Dopen2(o, name.encode(), _I(0)), name); t = _ok(_h.H5Dget_type(d), name); s = _ok(_h.H5Dget_space(d), name)
        self.a = np.zeros(_dims(s), np.int64 if _h.H5Tget_class(t) == 0 else np.float64); self.shape = self.a.shape
        _ok(_h.H5Dread(d, _type(self.a.dtype), _I(0), _I(0), _I(0), C.c_void_p(self.a.ctypes.data)), name); _h.H5Tclose(t); _h.H5Sclose(s); _h.H5Dclose(d)
    def __getitem__(self, k): return self.a[k]
class Group:
    def __init__(self, o): self.o = o; self.kids = []; self.attrs = _Attrs(o)
    def create_group(self, name): g = Group(_ok(_h.H5Gcreate2(self.o, name.encode(), _I(0), _I(0), _I(0)), "group %s exists" % name)); self.kids.append(g); return g
    def create_dataset(self, name, shape=None, data=None, dtype=None):
        v = np.asarray(data, order="C", dtype=dtype); shape = v.shape if shape is None else tuple(int(k) for k in shape)
        if int(np.prod(shape)) != int(np.prod(v.shape)): raise ValueError("Shape tuple is incompatible with data")
        v = np.ascontiguousarray(v.reshape(shape)); s = _space(shape); d = _ok(_h.H5Dcreate2(self.o, name.encode(), _type(v.dtype), s, _I(0), _I(0), _I(0)), "dataset %s exists" % name)
        if v.size: _ok(_h.H5Dwrite(d, _type(v.dtype), _I(0), _I(0), _I(0), C.c_void_p(v.ctypes.data)), name)
        _h.H5Dclose(d); _h.H5Sclose(s)
    def __getitem__(self, k): return Dataset(self.o, k)
    def close(self):
        for g in self.kids: g.close()
        _h.H5Gclose(self.o)
class File(Group):
    def __init__(self, name, mode="r"):
        b = os.fsencode(name)
        if mode == "w": o = _ok(_h.H5Fcreate(b, C.c_uint(2), _I(0), _I(0)), "create " + str(name))
        elif mode == "r":
            if not os.path.exists(name): raise FileNotFoundError(name)
            o = _ok(_h.H5Fopen(b, C.c_uint(0), _I(0)), "open " + str(name))
        else: raise ValueError(mode)
        Group.__init__(self, o)
    def close(self):
        for g in self.kids: g.close()
        _h.H5Fclose(self.o)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
