"""Environment of a path: stand-ins installed in the modules under test, scratch files.

In symbolic mode every loaded deepgnn module gets stand-ins for the library objects it
refers to (found by identity, so moved helpers and renamed imports are covered).  In
concrete mode nothing is replaced and files live in a scratch directory.
"""
import builtins
import ctypes as _ctypes
import glob as _glob
import io as _io
import json as _json
import os as _os
import shutil
import struct as _struct
import sys
import tempfile as _tempfile
import types

import numpy as _np

from symx import binio, core, npshim

_CNAMES = {id(getattr(_ctypes, n)): n for n in sorted(binio.CTYPES, reverse=True)}
_STRUCT_FUNCS = {id(getattr(_struct, n)): n for n in ("pack", "unpack", "unpack_from", "calcsize", "pack_into", "Struct")}
_OS_FUNCS = {id(_os.remove): "remove", id(_os.makedirs): "makedirs"}
_GLOB_FUNCS = {id(_glob.glob): "glob"}


class JsonShim:
    """json on structures that contain symbolic numbers."""

    JSONDecodeError = _json.JSONDecodeError
    JSONEncoder = _json.JSONEncoder
    JSONDecoder = _json.JSONDecoder

    def __init__(self, ctx):
        self.ctx = ctx

    def _enc(self, o):
        if core.is_sym(o):
            if type(o) is core.SymBool:
                return bool(o)
            return {"⟦sym⟧": self.ctx.token(o)}
        if isinstance(o, dict):
            return {(str(k) if core.is_sym(k) else k): self._enc(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self._enc(v) for v in o]
        if isinstance(o, _np.ndarray) or isinstance(o, _np.generic):
            raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)
        return o

    def _dec(self, o):
        if isinstance(o, dict):
            if len(o) == 1 and "⟦sym⟧" in o:
                return core.resolve_token(o["⟦sym⟧"])
            return {k: self._dec(v) for k, v in o.items()}
        if isinstance(o, list):
            return [self._dec(v) for v in o]
        return o

    def dumps(self, o, *a, **k):
        if not core.has_sym(o) and not self._dict_keys_sym(o):
            return _json.dumps(o, *a, **k)
        k.pop("default", None)
        return _json.dumps(self._enc(o), *a, ensure_ascii=False, **k)

    def _dict_keys_sym(self, o):
        return False

    def loads(self, s, *a, **k):
        if hasattr(s, "decode") and not isinstance(s, str):
            s = s.decode()
        return self._dec(_json.loads(s, *a, **k))

    def dump(self, o, f, *a, **k):
        f.write(self.dumps(o, *a, **k))

    def load(self, f, *a, **k):
        return self.loads(f.read(), *a, **k)


class Env:
    """Shims plus files for one path, in both modes."""

    def __init__(self, ctx, shims=("np", "struct", "ctypes", "json", "num", "bytes", "files"), list_order=None, extra=None, modules=None):
        self.ctx = ctx
        self.np = _np
        self.extra = extra or {}
        if ctx.symbolic:
            self.root = "/symfs"
            self.fs = binio.SymFS(list_order)
            self.fs.dirs.add(self.root)
            self.np = npshim.NpShim(self.fs)
            self.json = JsonShim(ctx)
            self._install(set(shims), modules)
        else:
            self.root = _tempfile.mkdtemp(prefix="symx-")
            self.fs = None
            self.json = _json
            ctx.on_exit(lambda: shutil.rmtree(self.root, ignore_errors=True))

    # ------------------------------------------------------------ installation
    def _table(self, shims):
        t = {}
        if "np" in shims:
            t[id(_np)] = self.np
            for n in ("array", "asarray", "zeros", "ones", "empty", "full", "concatenate", "arange", "unique"):
                t[id(getattr(_np, n))] = getattr(self.np, n)
        if "struct" in shims:
            t[id(_struct)] = binio.StructShim
            for i, n in _STRUCT_FUNCS.items():
                t[i] = getattr(binio.StructShim, n)
        if "ctypes" in shims:
            t[id(_ctypes)] = binio.CtypesShim()
            for i, n in _CNAMES.items():
                t[i] = binio.CTYPES[n]
            t[id(_ctypes.sizeof)] = binio.sizeof
        if "json" in shims:
            t[id(_json)] = self.json
            for n in ("loads", "dumps", "load", "dump"):
                t[id(getattr(_json, n))] = getattr(self.json, n)
        if "files" in shims:
            o = binio.os_shim(self.fs)
            t[id(_os)] = o
            t[id(_os.path)] = o.path
            t[id(_glob)] = binio.ModShim(_glob, glob=self.glob)
            t[id(_glob.glob)] = self.glob
            t[id(_tempfile)] = binio.ModShim(_tempfile, TemporaryDirectory=binio.TempDirShim)
            t[id(_tempfile.TemporaryDirectory)] = binio.TempDirShim
            t[id(_io.open)] = self.fs.open
            try:
                from deepgnn.graph_engine import _base

                if hasattr(_base, "get_fs"):
                    t[id(_base.get_fs)] = lambda path: (self.fs, {})
            except ImportError:
                pass
        for k, v in self.extra.items():
            t[k if isinstance(k, int) else id(k)] = v
        return t

    def glob(self, pattern, *a, **k):
        return self.fs.glob(pattern)

    def _install(self, shims, modules):
        t = self._table(shims)
        inject = {}
        if "num" in shims:
            inject["int"] = npshim.IntShim
            inject["float"] = npshim.FloatShim
        if "bytes" in shims:
            inject["bytes"] = binio.BytesShim
        if "files" in shims:
            inject["open"] = self.fs.open
        for name, m in list(sys.modules.items()):
            if m is None or not (name == "deepgnn" or name.startswith("deepgnn.")):
                continue
            if modules is not None and not any(name == x or name.startswith(x) for x in modules):
                continue
            g = vars(m)
            for k in list(g):
                if k.startswith("__"):
                    continue
                v = g[k]
                r = t.get(id(v))
                if r is not None and not isinstance(v, (int, str, float)):
                    self.ctx.patch(m, k, r)
            for k, v in inject.items():
                if k not in g:
                    self.ctx.patch(m, k, v)

    # ------------------------------------------------------------ files
    def path(self, name=""):
        return _os.path.join(self.root, name) if name else self.root

    def write_text(self, name, text):
        p = self.path(name)
        if self.ctx.symbolic:
            self.fs.files[self.fs.norm(p)] = [text]
        else:
            _os.makedirs(_os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        return p

    def write_bytes(self, name, data):
        p = self.path(name)
        if self.ctx.symbolic:
            self.fs.files[self.fs.norm(p)] = list(binio.to_cells(data))
        else:
            _os.makedirs(_os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        return p

    def read_bytes(self, name):
        if self.ctx.symbolic:
            return self.fs.read_cells(self.path(name))
        with open(self.path(name), "rb") as f:
            return f.read()

    def read_text(self, name):
        if self.ctx.symbolic:
            with self.fs.open(self.path(name)) as f:
                return f.read()
        with open(self.path(name)) as f:
            return f.read()

    def read_json(self, name):
        return self.json.loads(self.read_text(name))

    def exists(self, name):
        return self.fs.exists(self.path(name)) if self.ctx.symbolic else _os.path.exists(self.path(name))

    def listdir(self):
        if self.ctx.symbolic:
            return sorted(_os.path.basename(f) for f in self.fs.ls(self.root))
        return sorted(_os.listdir(self.root))

    def mkdir(self, name):
        p = self.path(name)
        if self.ctx.symbolic:
            self.fs.dirs.add(self.fs.norm(p))
        else:
            _os.makedirs(p, exist_ok=True)
        return p


def fields(data, fmt):
    """Records of a binary file (both modes)."""
    if type(data) is binio.SymBytes:
        n = _struct.calcsize(fmt)
        if len(data) % n:
            return None
        return [binio.StructShim.unpack(fmt, data[i : i + n]) for i in range(0, len(data), n)]
    n = _struct.calcsize(fmt)
    if len(data) % n:
        return None
    return list(_struct.iter_unpack(fmt, data))


def pack(ctx, fmt, *vals):
    return binio.StructShim.pack(fmt, *vals) if ctx.symbolic else _struct.pack(fmt, *vals)


def aslist(x):
    """Nested plain lists of an array or sequence."""
    if hasattr(x, "tolist"):
        return x.tolist()
    return list(x)
