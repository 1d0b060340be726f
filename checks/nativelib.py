"""A scripted stand-in for the native graph library.

Calls are judged against the C declarations in src/cc/lib/py_graph.h (argument count,
scalar widths, element types of buffers, buffer sizes) and answered by handlers written
in terms of the parameter names of the header, so the same handler serves symbolic runs
(stand-in pointers) and replays (real ctypes objects, real numpy buffers).
"""
import ctypes as _ctypes
import json
import os
import re
import struct
import sys
import traceback

import numpy as _np
from fsspec.implementations.local import LocalFileSystem

from deepgnn.graph_engine.snark import _downloader, _lib, client, distributed, local, meta, server  # noqa: F401

from symx import binio, npshim
from symx.core import PropertyFailure, is_sym
from symx.env import Env

REAL_GET_LIB = _lib._get_c_lib
_CFUNC = _ctypes._CFuncPtr
_REAL_CODES = {getattr(_ctypes, n): c for n, c in binio._CCODES.items()}
_ALIASES = {"NodeID": "int64_t", "Timestamp": "int64_t", "Type": "int32_t", "Feature": "int32_t", "PyPartitionStorageType": "int32_t"}
_CODES = {"int64_t": "q", "int32_t": "i", "uint64_t": "Q", "uint32_t": "I", "uint8_t": "B", "size_t": "Q", "bool": "?", "float": "f"}
_NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "native_names.json")))
_cache = {}


def header():
    """name -> [(parameter, kind, element code)] from the C header."""
    if _cache:
        return _cache
    root = os.path.dirname(_lib.__file__)
    while root != "/" and not os.path.exists(os.path.join(root, "src/cc/lib/py_graph.h")):
        root = os.path.dirname(root)
    text = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(root, "src/cc/lib/py_graph.h")).read(), flags=re.S)
    for name, params in re.findall(r"extern\s+int32_t\s+(\w+)\s*\(([^;]*?)\)\s*;", text, flags=re.S):
        out = []
        for p in params.split(","):
            p = re.sub(r"\bconst\b", " ", p)
            stars = p.count("*")
            t, n = p.replace("*", " ").split()
            t = _ALIASES.get(t, t)
            if t in ("PyGraph", "PySampler", "PyServer"):
                out.append((n, "handle", None))
            elif t == "char":
                out.append((n, "text" if stars == 1 else "texts", None))
            elif "Callback" in t:
                out.append((n, "callback", None))
            else:
                out.append((n, "pointer" if stars else "scalar", _CODES[t]))
        names = _NAMES.get(name)
        if names is not None and len(names) == len(out):
            out = [(n, *o[1:]) for n, o in zip(names, out)]  # handlers keep their names when parameters are renamed
        _cache[name] = out
    return _cache


# ------------------------------------------------------------------ ctypes stand-ins
class PtrType:
    """POINTER(x) as seen by the code."""

    def __init__(self, elem):
        self.elem = elem
        self.__name__ = "LP_" + getattr(elem, "__name__", "x")

    def __call__(self, x=None):
        return npshim.Ptr(x, self)


class CallbackType:
    """A CFUNCTYPE(...) type."""

    def __init__(self, restype=None, *argtypes):
        self.argtypes = argtypes

    def __call__(self, fn):
        return Callback(fn, self)


class Callback:
    def __init__(self, fn, type_):
        self.fn, self.type = fn, type_

    def __call__(self, *a):
        if len(a) != len(self.type.argtypes):
            return  # real callbacks cannot raise into the library
        try:
            self.fn(*a)
        except PropertyFailure:
            raise
        except Exception as e:
            self.error = e
            if os.environ.get("SYMX_DEBUG"):
                traceback.print_exc()


def code_of(t):
    """struct code of a ctypes scalar type, real or stand-in."""
    if isinstance(t, binio.CType) and getattr(t, "code", None):
        return t.code
    return _REAL_CODES.get(t)


class Buf:
    """A buffer argument: reads and writes of elements of the declared type."""

    def __init__(self, lib, ptr, code, what):
        self.lib, self.ptr, self.code, self.what = lib, ptr, code, what
        self.null = ptr is None
        self.kept = []
        if self.null:
            return
        arr = None
        if isinstance(ptr, npshim.Ptr):
            arr = ptr.target
        elif hasattr(ptr, "_arr"):
            arr = ptr._arr
        elif isinstance(ptr, (binio.CArray, _ctypes.Array)):
            arr = ptr
        self.arr = arr
        if isinstance(arr, _np.ndarray):
            self.item = arr.dtype.itemsize
            self.bytes = arr.nbytes
            kind = {"f": "f", "u": "u", "i": "i", "b": "u"}.get(arr.dtype.kind, arr.dtype.kind)
            want = "f" if code in "f" else ("u" if code in "QIB" else "i")
            if code != "B" and (self.item != struct.calcsize(code) or (kind == "f") != (want == "f")):
                lib.ctx.fail(f"{what} has the element type the engine declares: {arr.dtype} given, '{code}' declared")
        elif isinstance(arr, (binio.CArray, _ctypes.Array)):
            c = arr.elem.code if isinstance(arr, binio.CArray) else _REAL_CODES.get(arr._type_)
            if c != code:
                lib.ctx.fail(f"{what} has the element type the engine declares: '{c}' given, '{code}' declared")
            self.bytes = len(arr) * struct.calcsize(code)
        else:
            self.bytes = None

    def need(self, n, code=None):
        if self.null:
            self.lib.ctx.fail(f"{self.what} is not missing")
        if self.bytes is not None:
            self.lib.ctx.check(self.bytes >= n * struct.calcsize(code or self.code), f"{self.what} is as large as the engine is told", lambda: f"{self.bytes} bytes for {n} elements")

    def read(self, n):
        self.need(n)
        if isinstance(self.ptr, npshim.Ptr):
            return [self.ptr.get(i) for i in range(n)]
        if isinstance(self.ptr, binio.CArray):
            return [self.ptr.cget(i) for i in range(n)]
        return [self.ptr[i] for i in range(n)]

    def write(self, vals, code=None, at=0):
        """Write values of the declared type, or of another type into a byte buffer."""
        code = code or self.code
        w = struct.calcsize(code)
        self.need(at + len(vals), code)
        for i, v in enumerate(vals):
            i += at
            if isinstance(self.ptr, npshim.Ptr):
                if isinstance(self.arr, _np.ndarray) and self.arr.dtype.itemsize != w:
                    self.lib.ctx.fail(f"{self.what} has elements of {w} bytes")
                self.ptr.set(i, v)
            elif code == self.code:
                self.ptr[i] = v
            else:
                for k, b in enumerate(struct.pack("=" + code, v)):
                    self.ptr[i * w + k] = b


class Func:
    def __init__(self, lib, name):
        self.lib, self.name, self.__name__ = lib, name, name
        self.argtypes = self.restype = self.errcheck = None

    def __call__(self, *args):
        lib, ctx = self.lib, self.lib.ctx
        if lib.closed:  # finalizers of an earlier path
            return 0
        sig = header().get(self.name)
        if sig is None:
            raise AttributeError(f"undefined symbol: {self.name}")
        ctx.check(len(args) == len(sig), f"{self.name} gets as many arguments as it declares", lambda: f"{len(args)} of {len(sig)}")
        if self.argtypes is not None:
            ctx.check(len(self.argtypes) == len(sig), f"declared argument types of {self.name}", lambda: f"{len(self.argtypes)} of {len(sig)}")
        a = {}
        for i, ((pn, kind, code), x) in enumerate(zip(sig, args)):
            t = self.argtypes[i] if self.argtypes is not None else None
            a[pn] = self._arg(f"{self.name}({pn})", kind, code, t, x)
        lib.calls.append((self.name, a))
        h = getattr(lib.engine, self.name, None) or (lambda **k: 0)
        r = h(**a)
        r = 0 if r is None else r
        if self.errcheck is not None:
            return self.errcheck(r, self, args)
        return r

    def _arg(self, what, kind, code, t, x):
        ctx = self.lib.ctx
        real = not ctx.symbolic
        if real and t is not None and not isinstance(x, _CFUNC):
            t.from_param(x)  # what the real call would do; raises on a mismatch
        if kind == "handle":
            x = getattr(x, "_obj", x)
            ctx.check(isinstance(x, _ctypes.Structure), f"{what} is an engine object")
            return x
        if kind == "text":
            x = x.value if isinstance(x, _ctypes.c_char_p) else x
            return x if x is None else x.decode()
        if kind == "texts":
            return [v.decode() for v in x]
        if kind == "callback":
            ctx.check(callable(x), f"{what} is callable")
            self.lib.keep.append(x)
            return x
        if kind == "scalar":
            if isinstance(x, (binio.CScalar, _ctypes._SimpleCData)):
                c = code_of(type(x))
                if t is None or code_of(t) is not None:
                    same = struct.calcsize(c if c != "?" else "B") == struct.calcsize(code if code != "?" else "B") and (c == "f") == (code == "f")
                    ctx.check(same, f"{what} has the width the engine declares", lambda: f"'{c}' given, '{code}' declared")
                    if t is not None:
                        ctx.check(code_of(t) == c or (real and isinstance(x, t)), f"{what} matches its declared type")
                v = x.value
            else:
                if t is None and code in "qQ":
                    ctx.fail(f"{what} is a 64-bit argument without declared type")
                v = binio.c_convert(x, code_of(t) if t is not None else ("i" if code != "f" else "f"))
                if t is not None:
                    tc = code_of(t)
                    ctx.check(tc is not None and (tc == "f") == (code == "f") and (tc == code or struct.calcsize(tc) == struct.calcsize(code)), f"{what} has the width the engine declares", lambda: f"'{tc}' for '{code}'")
            if code in "qQiI" and not is_sym(v):
                lo, hi = binio.int_range(code)
                v = (int(v) - lo) % (hi - lo + 1) + lo
            return v
        if t is not None:
            elem = getattr(t, "elem", None) if ctx.symbolic else getattr(t, "_type_", None)
            ctx.check(elem is not None and code_of(elem) is not None and struct.calcsize(code_of(elem)) == struct.calcsize(code), f"{what}: declared pointer type")
        if isinstance(x, npshim.Ptr) and isinstance(x.type, PtrType) and t is not None:
            ctx.check(code_of(x.type.elem) == code_of(t.elem), f"{what}: pointer type matches the declared one")
        return Buf(self.lib, x, code, what)


class Lib:
    """What the library loader returns."""

    def __init__(self, ctx, engine):
        self.__dict__.update(ctx=ctx, engine=engine, calls=[], keep=[], funcs={}, closed=False)
        ctx.on_exit(lambda: self.__dict__.update(closed=True))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = Func(self, name)
        return f

    def named(self, *names):
        return [a for n, a in self.calls if n in names]


class _CtypesLib:
    @staticmethod
    def as_array(ptr, shape=None):
        n = int(shape[0])
        a = ptr.target
        if a.size < n:
            raise ValueError("as_array beyond the buffer")
        return a.reshape(-1)[:n]

    def __getattr__(self, n):
        return getattr(npshim._CtypesLib(), n)


def setup(ctx, engine, extra=None, sched=None):
    """Environment with the stand-in library; returns (env, lib)."""
    lib = Lib(ctx, engine)
    engine.ctx, engine.lib = ctx, lib
    table = {_ctypes.POINTER: PtrType, _ctypes.CFUNCTYPE: CallbackType, LocalFileSystem: binio.SymFS}
    table.update(extra or {})
    env = Env(ctx, extra=table if ctx.symbolic else None)
    engine.env = env
    get = lambda *a, **k: lib  # noqa: E731
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "deepgnn" or name.startswith("deepgnn.")):
            continue
        for k, v in list(vars(m).items()):
            if v is REAL_GET_LIB:
                ctx.patch(m, k, get)
            elif ctx.symbolic and isinstance(v, type) and issubclass(v, _CFUNC):
                ctx.patch(m, k, CallbackType(None, *v._argtypes_))
    if ctx.symbolic:
        env.np.ctypeslib = _CtypesLib()
    return env, lib


def write_meta(env, name="meta.json", partitions=1, node_types=(1,), edge_types=(1,), features=(0, 0), watermark=-1, node_weight=None, edge_weight=None, ids=None):
    m = {
        "binary_data_version": "v2", "node_count": 1, "edge_count": 1,
        "node_type_count": len(node_types), "edge_type_count": len(edge_types),
        "node_feature_count": features[0], "edge_feature_count": features[1],
        "partitions": {str(i): {"node_weight": [1.0] * len(node_types), "edge_weight": [1.0] * len(edge_types)} for i in (ids or range(partitions))},
        "node_count_per_type": list(node_types), "edge_count_per_type": list(edge_types), "watermark": watermark,
    }
    env.write_text(name, env.json.dumps(m))
    return m


def pointer(ctx, env, vals, code):
    """A buffer owned by the engine, as a C pointer."""
    dt = _np.dtype(code)
    if ctx.symbolic:
        a = npshim.mk(npshim._obj(list(vals)), dt) if len(vals) else env.np.zeros(0, dt)
        return npshim.Ptr(a, None)
    t = {c: t for t, c in _REAL_CODES.items() if t is not _ctypes.c_bool}
    real = {"q": _ctypes.c_int64, "Q": _ctypes.c_uint64, "i": _ctypes.c_int32, "f": _ctypes.c_float, "B": _ctypes.c_uint8}[code]
    arr = (real * max(len(vals), 1))(*vals)
    p = _ctypes.cast(arr, _ctypes.POINTER(real))
    p._keep = arr
    return p


def pointers(ctx, ptrs):
    """An array of pointers."""
    if ctx.symbolic:
        return list(ptrs)
    arr = (type(ptrs[0]) * len(ptrs))(*ptrs)
    r = _ctypes.cast(arr, _ctypes.POINTER(type(ptrs[0])))
    r._keep = (arr, ptrs)
    return r


def same(ctx, got, want, what):
    """Values of an array equal the nested list `want` (shape and content)."""
    from symx.env import aslist

    g = aslist(got) if not isinstance(got, npshim.FieldView) else list(got)
    ctx.check_eq(g, want, what)
