"""numpy stand-in: object arrays of proxies that remember a logical dtype."""
import math

import numpy as _np

from symx import binio, core
from symx.core import SymBool, SymInt, SymReal, Unsupported, is_sym

_CODES = {_np.dtype(_np.int8): "b", _np.dtype(_np.uint8): "B", _np.dtype(_np.int16): "h", _np.dtype(_np.uint16): "H", _np.dtype(_np.int32): "i",
          _np.dtype(_np.uint32): "I", _np.dtype(_np.int64): "q", _np.dtype(_np.uint64): "Q", _np.dtype(_np.float16): "e", _np.dtype(_np.float32): "f",
          _np.dtype(_np.float64): "d", _np.dtype(bool): "?"}


def norm_dtype(dt):
    if dt is None:
        return None
    if dt is IntShim or dt is int:
        return _np.dtype(_np.int64)
    if dt is FloatShim or dt is float:
        return _np.dtype(_np.float64)
    if isinstance(dt, binio.CType):
        return _np.dtype(dt.real)
    if isinstance(dt, _np.dtype):
        return dt
    if isinstance(dt, (DTypeArg, _ScalarMeta)):
        return dt.dtype
    return _np.dtype(dt)


def cast(v, dt):
    """Convert a scalar to a logical dtype the way numpy would (values in range)."""
    if dt is None or dt == object:
        return v
    if type(v) is binio.ByteOf:
        if dt.itemsize == 1:
            return v
        raise Unsupported("cast of a byte of a symbolic field")
    if isinstance(v, str):
        t = core.resolve_token(v)
        if t is not None:
            v = t
        elif dt.kind in "iu":
            v = int(v)
        elif dt.kind == "f":
            v = float(v)
    if not is_sym(v):
        if dt.kind in "SU":
            return v
        if dt.kind in "iuf" and isinstance(v, (int, _np.integer)) and not isinstance(v, (bool, _np.bool_)):
            v = int(v)
            if dt.kind in "iu":
                info = _np.iinfo(dt)
                if info.min <= v <= info.max:
                    return v
                return int(_np.array(v).astype(dt).item())
        return _np.asarray(v).astype(dt).item()
    if dt.kind in "iu":
        if type(v) is SymReal:
            return v.__trunc__()
        if type(v) is SymBool:
            return core.B2I(v)
        return binio.c_convert(v, _CODES[dt])
    if dt.kind == "f":
        return v if type(v) is SymReal else core.to_float(v, {2: 11, 4: 24}.get(dt.itemsize, 53))
    if dt.kind == "b":
        return v if type(v) is SymBool else core.wrap_bool(core.zbool(v) if type(v) is SymInt else v.z != 0)
    return v


def cast_arr(a, dt):
    out = _np.empty_like(a, dtype=object, order="K", subok=False)
    f, src = out.flat, a.reshape(-1)
    for i in range(src.shape[0]):
        f[i] = cast(src[i], dt)
    return out


def infer(vals):
    """Logical dtype of a collection of scalars."""
    kinds = set()
    for v in vals:
        t = type(v)
        if t is SymReal or t is float or isinstance(v, _np.floating):
            kinds.add("f")
        elif t is SymBool or t in (bool, _np.bool_):
            kinds.add("b")
        elif t is SymInt or isinstance(v, (int, _np.integer)):
            kinds.add("i")
        else:
            return None
    if "f" in kinds:
        return _np.dtype(_np.float64)
    if "i" in kinds:
        return _np.dtype(_np.int64)
    if "b" in kinds:
        return _np.dtype(bool)
    return _np.dtype(_np.float64)


def plain(a):
    """Base-class object view."""
    return _np.ndarray.view(a, _np.ndarray)


def conv_index(key):
    if isinstance(key, tuple):
        return tuple(conv_index(k) for k in key)
    if isinstance(key, slice):
        return slice(*(x.__index__() if is_sym(x) else x for x in (key.start, key.stop, key.step)))
    if type(key) is SymInt:
        return key.__index__()
    if type(key) is SymBool:
        return bool(key)
    if isinstance(key, _np.ndarray) and _np.ndarray.dtype.__get__(key) == object:
        return conv_index_arr(key)
    if isinstance(key, list):
        return conv_index_arr(_np.array(key, dtype=object)) if any(is_sym(k) for k in key) else key
    return key


def conv_index_arr(a):
    flat = list(plain(a).reshape(-1)) if isinstance(a, SymArray) else list(a.reshape(-1))
    if flat and all(type(x) in (SymBool, bool, _np.bool_) for x in flat):
        return _np.array([bool(x) for x in flat], dtype=bool).reshape(a.shape)
    return _np.array([x.__index__() if is_sym(x) else int(x) for x in flat], dtype=_np.int64).reshape(a.shape)


class _CData:
    """arr.ctypes of a SymArray."""

    def __init__(self, arr):
        self.arr = arr

    def data_as(self, t):
        return binio_ptr(self.arr, t)

    @property
    def data(self):
        return binio_ptr(self.arr, None)


def memory(arr):
    """Elements in memory from the first one of the array on, whatever its strides."""
    a = plain(arr)
    if a.flags["C_CONTIGUOUS"]:
        return a.reshape(-1)
    root = a
    while isinstance(root.base, _np.ndarray):
        root = root.base
    root = plain(root)
    flat = root.ravel(order="K")
    if not _np.shares_memory(flat, root):
        raise Unsupported("pointer into scattered memory")
    return flat[(a.__array_interface__["data"][0] - root.__array_interface__["data"][0]) // _np.ndarray.itemsize.__get__(a):]


class Ptr:
    """Pointer to the elements of an array / ctypes stand-in."""

    def __init__(self, target, type_=None):
        self.target, self.type, self.mem = target, type_, None
        if isinstance(target, SymArray):
            self.mem = memory(target)

    def get(self, i=0):
        if isinstance(self.target, SymArray):
            if i >= len(self.mem):
                raise Unsupported("read beyond an array")
            return self.mem[i]
        return self.target.cget(i)

    def set(self, i, v):
        if isinstance(self.target, SymArray):
            if i >= len(self.mem):
                raise Unsupported("write beyond an array")
            self.mem[i] = cast(v, self.target.ldtype)
        else:
            self.target.cset(i, v)

    def size(self):
        return self.target.size if isinstance(self.target, SymArray) else self.target.clen()

    @property
    def contents(self):
        return self.target

    def __getitem__(self, i):
        return self.get(i)


def binio_ptr(arr, t):
    return Ptr(arr, t)


class SymArray(_np.ndarray):
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        self.ldtype = getattr(obj, "ldtype", None)

    @property
    def dtype(self):
        d = _np.ndarray.dtype.__get__(self)
        if d == object and self.ldtype is not None:
            return self.ldtype
        return d

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    @property
    def ctypes(self):
        return _CData(self)

    @property
    def data(self):
        return self

    def __getitem__(self, key):
        r = plain(self)[conv_index(key)]
        return self._wrap(r)

    def _wrap(self, r):
        if isinstance(r, _np.ndarray) and r.dtype == object:
            r = r.view(SymArray) if not isinstance(r, SymArray) else r
            r.ldtype = self.ldtype
        return r

    def __setitem__(self, key, value):
        key = conv_index(key)
        p = plain(self)
        if isinstance(value, SymArray):
            value = plain(value)
        if self.ldtype is not None:
            if isinstance(value, _np.ndarray):
                value = cast_arr(value, self.ldtype)
            elif isinstance(value, (list, tuple)) and not is_sym(value):
                value = cast_arr(_np.array(value, dtype=object), self.ldtype)
            else:
                value = cast(value, self.ldtype)
        p[key] = value

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def item(self, *a):
        p = plain(self)
        if not a:
            if p.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return p.reshape(-1)[0]
        return p.item(*a)

    def __bool__(self):
        if self.size == 1:
            return bool(self.item())
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def tolist(self):
        return plain(self).tolist()

    def astype(self, dtype, *a, **k):
        dt = dtype
        dt = norm_dtype(dt)
        return mk(cast_arr(plain(self), dt), dt)

    def view(self, dt=None, *a, **k):
        dt = k.get("dtype", dt)
        if dt is None:
            return plain(self).view(SymArray)._with(self.ldtype)
        if isinstance(dt, type) and issubclass(dt, _np.ndarray):
            return _np.ndarray.view(self, dt)
        dt = norm_dtype(dt)
        if dt == self.ldtype:
            return plain(self).view(SymArray)._with(self.ldtype)
        if self.ldtype is not None and self.ldtype.itemsize == 1 and dt.itemsize > 1:
            return FieldView(self, dt)
        if dt.itemsize == 1:
            return mk(_obj(self.symx_cells()), dt)
        if dt.itemsize == self.ldtype.itemsize and dt.kind in "iu" and self.ldtype.kind in "iu":
            return self.astype(dt)
        raise Unsupported("view of a symbolic array")

    def _with(self, dt):
        self.ldtype = dt
        return self

    def symx_cells(self):
        out = []
        code = _CODES[self.dtype] if self.dtype in _CODES else None
        for v in plain(self).reshape(-1):
            if type(v) is binio.ByteOf:
                out.append(v)
                continue
            if code is None:
                raise Unsupported("bytes of an array without dtype")
            if code == "?":
                v, c = core.B2I(v), "B"
            else:
                c = code
            out += binio.cells_of(cast(v, self.dtype) if not is_sym(v) else v, c)
        return out

    def tobytes(self, order="C"):
        return binio.SymBytes(self.symx_cells())

    def tofile(self, f):
        f.write(self.tobytes())

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [plain(x) if isinstance(x, SymArray) else x for x in inputs]
        if "dtype" in kw:
            kw["dtype"] = object
        if ufunc in (_np.logical_not,) and method == "__call__":
            return self._wrap_bool(_np.frompyfunc(lambda x: core.Not(x), 1, 1)(ins[0]))
        if ufunc in _MATH and method == "__call__":
            r = _np.frompyfunc(_MATH[ufunc], 1, 1)(ins[0])
            return mk(r, _np.dtype(_np.float64)) if isinstance(r, _np.ndarray) else r
        if ufunc is _np.isnan or ufunc is _np.isinf:
            return _np.zeros(ins[0].shape, dtype=bool)
        kwo = {}
        if out is not None:
            kwo["out"] = tuple(plain(o) if isinstance(o, SymArray) else o for o in out)
        ins = [_np.asarray(x, dtype=object) if is_sym(x) else x for x in ins]
        r = getattr(ufunc, method)(*ins, **kwo, **kw)
        if out is not None:
            return out[0]
        if isinstance(r, _np.ndarray) and r.dtype == object:
            r = r.view(SymArray)
            r.ldtype = self._res_dtype(ufunc, inputs)
        return r

    @staticmethod
    def _wrap_bool(r):
        return mk(r, _np.dtype(bool)) if isinstance(r, _np.ndarray) else r

    @staticmethod
    def _res_dtype(ufunc, inputs):
        ds = []
        for x in inputs:
            if isinstance(x, SymArray):
                ds.append(x.ldtype)
            elif isinstance(x, _np.ndarray):
                ds.append(x.dtype)
            elif type(x) is SymReal or isinstance(x, float):
                ds.append(_np.dtype(_np.float64) if not any(isinstance(y, _np.ndarray) and y.dtype.kind == "f" for y in inputs) else None)
        ds = [d for d in ds if d is not None and d != object]
        if not ds:
            return None
        d = _np.result_type(*ds)
        if ufunc is _np.true_divide and d.kind in "iub":
            return _np.dtype(_np.float64)
        return d

    # methods whose C implementation would not cope with proxies
    def sum(self, axis=None, dtype=None, **k):
        if axis is None:
            r = core.Sum(list(plain(self).reshape(-1)))
            if is_sym(r):
                return r
            return _np.float64(r) if self.dtype.kind == "f" else _np.int64(r)
        return _np.add.reduce(self, axis=axis)

    def any(self, *a, **k):
        return core.Or([x if is_sym(x) else bool(x) for x in plain(self).reshape(-1)]) if not a and not k else plain(self).any(*a, **k)

    def all(self, *a, **k):
        return core.And([x if is_sym(x) else bool(x) for x in plain(self).reshape(-1)]) if not a and not k else plain(self).all(*a, **k)

    def mean(self, axis=None, **k):
        s = self.sum(axis)
        return s / (self.size if axis is None else self.shape[axis])

    def nonzero(self):
        return _np.array([bool(x) for x in plain(self).reshape(-1)]).reshape(self.shape).nonzero()

    def copy(self, order="C"):
        return mk(plain(self).copy(order=order), self.ldtype)

    def argsort(self, axis=-1, kind=None, **k):
        if self.ndim != 1:
            raise Unsupported("argsort of a matrix")
        v = list(plain(self))
        return _np.array(sorted(range(len(v)), key=lambda i: _Key(v[i])), dtype=_np.int64)

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side, sorter)


class _Row:
    """Row of a matrix, ordered lexicographically."""

    def __init__(self, cells):
        self.cells = list(cells)

    def __lt__(self, o):
        for x, y in zip(self.cells, o.cells):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False

    def __eq__(self, o):
        return all(bool(x == y) for x, y in zip(self.cells, o.cells))


class _Key:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def _round_like(f):
    def g(x):
        r = f(x)
        return core.wrap_real(core.zreal(r)) if is_sym(r) else float(r)

    return g


_MATH = {_np.floor: _round_like(math.floor), _np.ceil: _round_like(math.ceil), _np.trunc: _round_like(math.trunc), _np.rint: _round_like(round)}


class FieldView:
    """Wide view over a byte array: writes go through to the byte cells."""

    def __init__(self, base, dt):
        self.base, self.dtype = base, dt
        if base.ndim != 1 or base.size % dt.itemsize:
            raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
        self.code = _CODES[dt]

    def __len__(self):
        return self.base.size // self.dtype.itemsize

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    def _i(self, i):
        i = i.__index__()
        n = len(self)
        if not -n <= i < n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
        return i % n if n else 0

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            idx = list(range(*i.indices(len(self))))
            vals = list(v) if hasattr(v, "__len__") else [v] * len(idx)
            if len(vals) != len(idx):
                raise ValueError("could not broadcast input array")
            for k, x in zip(idx, vals):
                self[k] = x
            return
        i = self._i(i)
        w = self.dtype.itemsize
        cells = binio.cells_of(cast(v, self.dtype), self.code)
        p = plain(self.base)
        for k, c in enumerate(cells):
            p[i * w + k] = c

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(_obj([self[k] for k in range(*i.indices(len(self)))]), self.dtype)
        i = self._i(i)
        w = self.dtype.itemsize
        return binio.value_of([c if type(c) is binio.ByteOf else int(c) % 256 for c in plain(self.base)[i * w : (i + 1) * w]], self.code)

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    @property
    def itemsize(self):
        return self.dtype.itemsize

    def __getattr__(self, name):
        # anything else is read from a copy
        if name.startswith("_") or name in ("base", "dtype", "code", "fill", "sort", "resize", "put", "ctypes", "flat", "data", "setflags"):
            raise AttributeError(name)
        return getattr(self[:], name)


def to_real(x):
    """Arrays without symbolic cells become ordinary numpy arrays (for functions without a stand-in)."""
    if isinstance(x, SymArray):
        if x.ldtype is not None and not any(is_sym(v) or type(v) is binio.ByteOf for v in plain(x).reshape(-1)):
            return plain(x).astype(x.ldtype)
        return x
    if isinstance(x, (list, tuple)) and not is_sym(x):
        return type(x)(to_real(y) for y in x) if type(x) in (list, tuple) else x
    if isinstance(x, (_ScalarMeta, DTypeArg)):
        return x.dtype
    return x


def from_real(r):
    if isinstance(r, _np.ndarray) and not isinstance(r, SymArray) and r.dtype in _CODES:
        return mk(cast_arr(r, r.dtype), r.dtype)
    if type(r) in (list, tuple):
        return type(r)(from_real(x) for x in r)
    return r


def _obj(cells):
    a = _np.empty(len(cells), dtype=object)
    for i, c in enumerate(cells):
        a[i] = c
    return a


def mk(a, dt):
    r = a.view(SymArray)
    r.ldtype = dt
    return r


def searchsorted(a, v, side="left", sorter=None):
    vals = list(plain(a)) if isinstance(a, SymArray) else list(a)
    if sorter is not None:
        vals = [vals[int(i)] for i in sorter]
    scalar = not isinstance(v, (_np.ndarray, list, tuple))
    qs = [v] if scalar else list(plain(v).reshape(-1) if isinstance(v, SymArray) else _np.asarray(v, dtype=object).reshape(-1))
    out = []
    for q in qs:
        lo, hi = 0, len(vals)
        while lo < hi:
            mid = (lo + hi) // 2
            if (vals[mid] < q) if side == "left" else (vals[mid] <= q):
                lo = mid + 1
            else:
                hi = mid
        out.append(lo)
    if scalar:
        return out[0]
    return _np.array(out, dtype=_np.int64).reshape(_np.shape(v))


def shape_of(shape):
    if isinstance(shape, (list, tuple)) and not is_sym(shape):
        return tuple(int(s.__index__()) for s in shape)
    if isinstance(shape, _np.ndarray):
        return tuple(int(s) for s in shape)
    return (int(shape.__index__()),)


def deep_sym(x, depth=0):
    if is_sym(x) or isinstance(x, (SymArray, FieldView)) or type(x) is binio.ByteOf:
        return True
    if isinstance(x, str):
        return "⟦" in x
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(deep_sym(y, depth + 1) for y in x)
    return False


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=_IntMeta):
    """Stand-in for int in module globals: keeps proxies and tokens symbolic."""

    from_bytes = int.from_bytes

    def __new__(cls, x=0, *a):
        if is_sym(x):
            if type(x) is SymReal:
                return x.__trunc__()
            if type(x) is SymBool:
                return core.B2I(x)
            return x
        if isinstance(x, str) and not a:
            t = core.resolve_token(x)
            if t is not None:
                if type(t) is SymReal:
                    raise ValueError("invalid literal for int() with base 10")
                return t
        if isinstance(x, SymArray):
            return IntShim(x.item())
        if hasattr(x, "symx_int"):
            return x.symx_int()
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    """Stand-in for float in module globals."""

    def __new__(cls, x=0.0):
        if is_sym(x):
            return x if type(x) is SymReal else core.to_float(x)
        if isinstance(x, str):
            t = core.resolve_token(x)
            if t is not None:
                return FloatShim(t)
        if isinstance(x, SymArray):
            return FloatShim(x.item())
        return float(x)


class _ScalarMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real)

    def __subclasscheck__(cls, o):
        return issubclass(getattr(o, "real", o) if isinstance(o, _ScalarMeta) else o, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


def _scalar_type(name):
    """np.int64 & co: constructor works on proxies, still usable as a dtype."""
    real = getattr(_np, name)

    def new(cls, *a):
        if a and (is_sym(a[0]) or (isinstance(a[0], str) and core.resolve_token(a[0]) is not None)):
            return cast(a[0], cls.dtype)
        return real(*a)

    return _ScalarMeta(name, (), {"real": real, "dtype": _np.dtype(real), "__new__": new})


class Random:
    def __init__(self, np):
        self.np = np

    def permutation(self, x):
        c = core.cur()
        if isinstance(x, (int, _np.integer)):
            n = x.__index__()
            return self.np.array(c.permutation("perm", n), dtype=_np.int64)
        p = c.permutation("perm", len(x))
        return x[_np.array(p, dtype=_np.int64)] if isinstance(x, _np.ndarray) else self.np.array([x[i] for i in p])

    def shuffle(self, x):
        p = core.cur().permutation("perm", len(x))
        vals = [x[i] for i in p]
        for i, v in enumerate(vals):
            x[i] = v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("np.random." + n)


class NpShim:
    """Stand-in for the numpy module in the globals of the code under test."""

    ndarray = _np.ndarray
    newaxis = None

    def __init__(self, fs=None):
        self.fs = fs
        self.random = Random(self)
        self.ctypeslib = _CtypesLib()

    def __getattr__(self, n):
        r = SCALARS.get(n)
        if r is not None:
            return r
        f = getattr(_np, n)
        if callable(f) and not isinstance(f, (type, _np.ufunc)):
            return lambda *a, **k: from_real(f(*[to_real(x) for x in a], **{x: to_real(y) for x, y in k.items()}))
        return f

    # ---- constructors
    def array(self, x, dtype=None, copy=True, ndmin=0, **k):
        dt = norm_dtype(dtype)
        if isinstance(x, FieldView):
            x = list(x)
        if isinstance(x, SymArray):
            a = plain(x).copy(order="K") if copy else plain(x)
            if dt is not None and dt != x.ldtype:
                a = cast_arr(a, dt)
            return mk(a, dt or x.ldtype)
        if isinstance(x, _np.ndarray):
            if dt is None:
                dt = x.dtype
            if dt.kind in "OSU":
                return _np.array(x, dtype=dtype, ndmin=ndmin)
            return mk(cast_arr(x, dt), dt)
        if dt is not None and dt.kind in "OSU":
            return _np.array(x, dtype=dtype, ndmin=ndmin)
        if not deep_sym(x):
            r = _np.array(x, dtype=dt, ndmin=ndmin)
            if r.dtype.kind in "OSU":
                return r
            return mk(cast_arr(r, r.dtype), r.dtype)
        if is_sym(x):
            a = _np.empty((), dtype=object)
            a[()] = x
        else:
            a = _np.array(_unwrap(x), dtype=object, ndmin=ndmin)
        if dt is None:
            src = [y.ldtype for y in x if isinstance(y, SymArray)] if isinstance(x, (list, tuple)) else []
            src = [d for d in src if d is not None]
            dt = _np.result_type(*src) if src else infer(a.reshape(-1))
        if dt is not None:
            a = cast_arr(a, dt)
        return mk(a, dt)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SymArray) and (dtype is None or norm_dtype(dtype) == x.ldtype):
            return x
        return self.array(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None, **k):
        a = self.asarray(x, dtype)
        return a if not isinstance(a, SymArray) or a.flags["C_CONTIGUOUS"] else mk(plain(a).copy(order="C"), a.ldtype)

    asanyarray = asarray

    def require(self, x, dtype=None, requirements=None, **k):
        return self.ascontiguousarray(x, dtype) if requirements and any(str(r)[:1].upper() == "C" for r in requirements) else self.asarray(x, dtype)

    def full(self, shape, value, dtype=None, **k):
        dt = norm_dtype(dtype)
        a = _np.empty(shape_of(shape), dtype=object)
        if isinstance(value, (list, tuple, _np.ndarray)) and not is_sym(value):
            v = plain(value) if isinstance(value, SymArray) else _np.array(value, dtype=object)
            a[...] = v
            if dt is None:
                dt = value.dtype if isinstance(value, _np.ndarray) else infer(v.reshape(-1))
        else:
            a.fill(value)
            if dt is None:
                dt = infer([value])
        return mk(cast_arr(a, dt), dt)

    def zeros(self, shape, dtype=_np.float64, **k):
        dt = norm_dtype(dtype)
        if dt.kind in "OSU":
            return _np.zeros(shape_of(shape), dtype=dt)
        return self.full(shape, 0, dt)

    def ones(self, shape, dtype=_np.float64, **k):
        return self.full(shape, 1, dtype)

    def empty(self, shape, dtype=_np.float64, **k):
        dt = norm_dtype(dtype)
        if dt.kind in "OSU":
            return _np.empty(shape_of(shape), dtype=dt)
        a = _np.empty(shape_of(shape), dtype=object)
        c = core._ctx
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = uninit(dt)
        return mk(a, dt)

    def empty_like(self, x, dtype=None, **k):
        return self.empty(x.shape, dtype or x.dtype)

    def zeros_like(self, x, dtype=None, **k):
        return self.zeros(_np.shape(x), dtype or getattr(x, "dtype", _np.float64))

    def ones_like(self, x, dtype=None, **k):
        return self.ones(_np.shape(x), dtype or getattr(x, "dtype", _np.float64))

    def full_like(self, x, value, dtype=None, **k):
        return self.full(_np.shape(x), value, dtype or x.dtype)

    def arange(self, start, stop=None, step=1, dtype=None, **k):
        if stop is None:
            start, stop = 0, start
        if not any(is_sym(x) for x in (start, stop, step)):
            r = _np.arange(start, stop, step, dtype=norm_dtype(dtype))
            return mk(cast_arr(r, r.dtype), r.dtype)
        n = -((start - stop) // step)
        n = n.__index__() if is_sym(n) else n
        n = max(0, n)
        dt = norm_dtype(dtype) or _np.dtype(_np.int64)
        return mk(_obj([start + i * step for i in range(n)]), dt)

    def linspace(self, *a, **k):
        return _np.linspace(*a, **k)

    def fromiter(self, it, dtype, count=-1, **k):
        dt = norm_dtype(dtype)
        out = []
        it = iter(it)
        count = count.__index__()
        while count < 0 or len(out) < count:
            try:
                v = next(it)
            except StopIteration:
                if count > 0:
                    raise ValueError("iterator too short: Expected %d but iterator had only %d items." % (count, len(out)))
                break
            out.append(cast(v, dt))
        return mk(_obj(out), dt)

    def fromfile(self, f, dtype=_np.float64, count=-1, sep="", offset=0):
        dt = norm_dtype(dtype)
        if isinstance(f, (str, bytes)) or not hasattr(f, "read"):
            f = self.fs.open(f, "rb" if not sep else "r")
        if sep:
            t = f._text
            parts = t.split() if sep.strip() == "" else t.split(sep)
            return mk(_obj([cast(p, dt) for p in parts if p.strip()]), dt)
        f.seek(f.tell() + offset)
        cells = f._cells[f.pos :]
        w = dt.itemsize
        n = len(cells) // w
        if count >= 0:
            n = min(n, count)
        out = [binio.value_of(cells[i * w : (i + 1) * w], _CODES[dt]) for i in range(n)]
        f.seek(f.pos + n * w)
        return mk(_obj(out), dt)

    def frombuffer(self, buf, dtype=_np.float64, count=-1, offset=0):
        if not isinstance(buf, binio.SymBytes) and not hasattr(buf, "symx_cells"):
            return _np.frombuffer(buf, dtype=norm_dtype(dtype), count=count, offset=offset)
        dt = norm_dtype(dtype)
        cells = binio.to_cells(buf)[offset:]
        w = dt.itemsize
        n = len(cells) // w if count < 0 else count
        return mk(_obj([binio.value_of(cells[i * w : (i + 1) * w], _CODES[dt]) for i in range(n)]), dt)

    def fromstring(self, s, dtype=float, sep=""):
        dt = norm_dtype(dtype)
        return mk(_obj([cast(p, dt) for p in s.split(sep.strip() or None) if p.strip()]), dt)

    def loadtxt(self, *a, **k):
        raise Unsupported("np.loadtxt")

    genfromtxt = loadtxt

    def eye(self, n, *a, **k):
        r = _np.eye(conv_index(n), *[conv_index(x) for x in a], dtype=norm_dtype(k.get("dtype", _np.float64)))
        return mk(cast_arr(r, r.dtype), r.dtype)

    identity = eye

    def nditer(self, ops, *a, **k):
        if isinstance(ops, _np.ndarray):
            ops = [ops]
            single = True
        else:
            single = False
        arrs = [_np.ndarray.reshape(plain(self.asarray(o)), -1) for o in ops]
        n = max(x.shape[0] for x in arrs)
        for x in arrs:
            if x.shape[0] not in (1, n):
                raise ValueError("operands could not be broadcast together")
        for i in range(n):
            t = tuple(x[i if x.shape[0] > 1 else 0] for x in arrs)
            yield t[0] if single else t

    def block(self, arrays):
        if not isinstance(arrays, list) or not arrays:
            raise Unsupported("np.block")
        if isinstance(arrays[0], list):
            return self.concatenate([self.block(r) for r in arrays], axis=-2)
        return self.concatenate(arrays, axis=-1)

    # ---- combination
    def _objs(self, seq):
        seq = list(seq)
        return [plain(x) if isinstance(x, SymArray) else _np.array(_unwrap(x), dtype=object) for x in seq]

    def _rdt(self, seq):
        ds = []
        for x in seq:
            d = getattr(x, "dtype", None)
            if d is None:
                d = infer(_np.array(_unwrap(x), dtype=object).reshape(-1)) if _np.size(x) else None
            if d is not None:
                ds.append(d)
        return _np.result_type(*ds) if ds else None

    def _combine(self, f, seq, axis=None, **k):
        seq = list(seq)
        r = f(self._objs(seq), **({} if axis is None else {"axis": axis}))
        dt = self._rdt(seq)
        return mk(cast_arr(r, dt) if dt is not None else r, dt)

    def concatenate(self, seq, axis=0, **k):
        return self._combine(_np.concatenate, seq, axis)

    def stack(self, seq, axis=0, **k):
        return self._combine(_np.stack, seq, axis)

    def hstack(self, seq, **k):
        return self._combine(_np.hstack, seq)

    def vstack(self, seq, **k):
        return self._combine(_np.vstack, seq)

    def column_stack(self, seq, **k):
        return self._combine(_np.column_stack, seq)

    def append(self, a, b, axis=None):
        if axis is None:
            return self.concatenate([self.asarray(a).reshape(-1), self.asarray(b).reshape(-1)])
        return self.concatenate([a, b], axis)

    def repeat(self, x, repeats, axis=None):
        a = self.asarray(x)
        r = conv_index(repeats)
        if isinstance(r, list):
            r = [int(v) for v in r]
        return mk(_np.repeat(plain(a), r, axis=axis), a.ldtype)

    def tile(self, x, reps):
        a = self.asarray(x)
        return mk(_np.tile(plain(a), conv_index(reps)), a.ldtype)

    def where(self, cond, *xy):
        c = conv_index(self.asarray(cond)) if deep_sym(cond) else _np.asarray(cond)
        if not xy:
            return _np.where(c)
        x, y = [plain(v) if isinstance(v, SymArray) else _np.array(_unwrap(v), dtype=object) for v in xy]
        r = _np.where(c, x, y)
        return mk(r, infer(r.reshape(-1)) if r.size else None)

    # ---- order
    def unique(self, x, return_index=False, return_inverse=False, return_counts=False, **k):
        a = self.asarray(x)
        axis = k.get("axis")
        if axis is None:
            vals = list(plain(a).reshape(-1))
        elif axis == 0 and a.ndim == 2:
            vals = [_Row(r) for r in plain(a)]
        else:
            raise Unsupported("np.unique along an axis")
        order = sorted(range(len(vals)), key=lambda i: _Key(vals[i]))
        uniq, first, inv, cnt = [], [], [0] * len(vals), []
        for i in order:
            if uniq and bool(vals[i] == uniq[-1]):
                cnt[-1] += 1
            else:
                uniq.append(vals[i])
                first.append(i)
                cnt.append(1)
            inv[i] = len(uniq) - 1
        if axis == 0:
            m = _np.empty((len(uniq), a.shape[1]), dtype=object)
            for i, r in enumerate(uniq):
                m[i] = r.cells
            out = [mk(m, a.ldtype)]
        else:
            out = [mk(_obj(uniq), a.ldtype)]
        if return_index:
            out.append(_np.array(first, dtype=_np.int64))
        if return_inverse:
            out.append(mk(_obj(inv), _np.dtype(_np.int64)))
        if return_counts:
            out.append(_np.array(cnt, dtype=_np.int64))
        return out[0] if len(out) == 1 else tuple(out)

    def sort(self, x, axis=-1, **k):
        a = self.asarray(x)
        if a.ndim != 1:
            raise Unsupported("sort of a matrix")
        vals = list(plain(a))
        return mk(_obj([vals[i] for i in sorted(range(len(vals)), key=lambda i: _Key(vals[i]))]), a.ldtype)

    def argsort(self, x, *a, **k):
        return self.asarray(x).argsort()

    def lexsort(self, keys, *a, **k):
        cols = [list(self.asarray(c)) for c in reversed(list(keys))]
        idx = list(range(len(cols[0])))
        for c in reversed(cols):
            idx = sorted(idx, key=lambda i: _Key(c[i]))
        return _np.array(idx, dtype=_np.int64)

    def searchsorted(self, a, v, side="left", sorter=None):
        return searchsorted(self.asarray(a), v, side, sorter)

    def isin(self, x, y, **k):
        ys = list(plain(self.asarray(y)).reshape(-1))
        a = self.asarray(x)
        out = _np.array([any(bool(v == w) for w in ys) for v in plain(a).reshape(-1)], dtype=bool).reshape(a.shape)
        return ~out if k.get("invert") else out

    in1d = isin

    def intersect1d(self, x, y, **k):
        a = self.unique(x)
        return a[self.isin(a, y)]

    def setdiff1d(self, x, y, **k):
        a = self.unique(x)
        return a[~self.isin(a, y)]

    def union1d(self, x, y):
        return self.unique(self.concatenate([self.asarray(x).reshape(-1), self.asarray(y).reshape(-1)]))

    def array_equal(self, a, b, **k):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return bool(core.Eq(plain(a).reshape(-1), plain(b).reshape(-1)))

    # ---- reductions
    def sum(self, x, axis=None, **k):
        return self.asarray(x).sum(axis)

    def mean(self, x, axis=None, **k):
        return self.asarray(x).mean(axis)

    def cumsum(self, x, axis=None, dtype=None, **k):
        a = self.asarray(x, dtype)
        r = _np.add.accumulate(plain(a).reshape(-1) if axis is None else plain(a), axis=axis or 0)
        return mk(r, a.ldtype)

    def max(self, x, axis=None, **k):
        a = self.asarray(x)
        if axis is None:
            return max(plain(a).reshape(-1))
        raise Unsupported("np.max with axis")

    amax = max

    def min(self, x, axis=None, **k):
        a = self.asarray(x)
        if axis is None:
            return min(plain(a).reshape(-1))
        raise Unsupported("np.min with axis")

    amin = min

    def argmax(self, x, *a, **k):
        v = list(plain(self.asarray(x)).reshape(-1))
        b = 0
        for i in range(1, len(v)):
            if v[i] > v[b]:
                b = i
        return b

    def prod(self, x, axis=None, **k):
        if deep_sym(x):
            r = 1
            for v in plain(self.asarray(x)).reshape(-1):
                r = r * v
            return r
        return _np.prod(x, axis=axis, **k)

    def any(self, x, *a, **k):
        return self.asarray(x).any(*a, **k)

    def all(self, x, *a, **k):
        return self.asarray(x).all(*a, **k)

    def nonzero(self, x):
        return self.asarray(x).nonzero()

    def flatnonzero(self, x):
        return self.asarray(x).reshape(-1).nonzero()[0]

    def abs(self, x):
        return abs(x)

    def copy(self, x, order="K", **k):
        return self.array(x) if order == "K" else self.array(x).copy(order)

    def delete(self, x, obj, axis=None):
        a = self.asarray(x)
        return mk(_np.delete(plain(a), conv_index(obj), axis=axis), a.ldtype)

    def insert(self, x, obj, values, axis=None):
        a = self.asarray(x)
        return mk(_np.insert(plain(a), conv_index(obj), values, axis=axis), a.ldtype)

    def pad(self, x, width, mode="constant", constant_values=0, **k):
        a = self.asarray(x)
        return mk(_np.pad(plain(a), width, mode=mode, constant_values=constant_values), a.ldtype)

    def split(self, x, idx, axis=0):
        a = self.asarray(x)
        return [mk(p, a.ldtype) for p in _np.split(plain(a), conv_index(idx), axis=axis)]

    array_split = split

    def floor(self, x):
        if is_sym(x):
            return _round_like(math.floor)(x)
        return _np.floor(x)

    def ceil(self, x):
        if is_sym(x):
            return _round_like(math.ceil)(x)
        return _np.ceil(x)

    def dtype(self, x):
        return norm_dtype(x)

    def issubdtype(self, a, b):
        return _np.issubdtype(norm_dtype(a), b)

    def isscalar(self, x):
        return is_sym(x) or _np.isscalar(x)


class _CtypesLib:
    @staticmethod
    def as_ctypes_type(dt):
        return binio.BY_CODE[_CODES[norm_dtype(dt)]]

    def __getattr__(self, n):
        return getattr(_np.ctypeslib, n)


def uninit(dt):
    """Content of uninitialised memory: an arbitrary value."""
    c = core._ctx
    if c is None or not c.symbolic or dt.kind not in "iuf":
        return 0
    core_z = core.z3
    name = c.fresh("uninit")
    if dt.kind == "f":
        return SymReal(core_z.Real(name))
    return SymInt(core_z.Int(name))


def _unwrap(x):
    if isinstance(x, SymArray):
        return plain(x)
    if isinstance(x, (list, tuple)) and not is_sym(x):
        return [_unwrap(y) for y in x]
    return x


SCALARS = {n: _scalar_type(n) for n in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "byte")}


class _TokFloat:
    """float() as seen through type(dtype(0).item())."""

    def __new__(cls, x=0.0):
        return FloatShim(x)


class _TokInt:
    def __new__(cls, x=0):
        return IntShim(x)


class DTypeArg:
    """A numpy scalar type handed to the code as an argument (symbolic mode)."""

    def __init__(self, real):
        self.real = real
        self.dtype = _np.dtype(real)
        self.__name__ = real.__name__

    def __call__(self, v=0):
        if is_sym(v) or isinstance(v, str):
            return cast(v, self.dtype)
        return _Scalar0(self, v)

    def __eq__(self, o):
        return o is self or o == self.real

    def __hash__(self):
        return hash(self.real)


class _Scalar0:
    def __init__(self, dt, v):
        self.dt, self.v = dt, v
        self.dtype = dt.dtype

    def item(self):
        o = object.__new__(_TokFloat if self.dt.dtype.kind == "f" else _TokInt)
        return o
