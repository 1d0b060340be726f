"""Text-reader harness pieces: symbolic files, faults, deterministic scheduling."""
import io
import os
import random
import sys

from deepgnn.graph_engine import _adl_reader, _base

from symx import text
from symx.binio import ModShim
from symx.core import Eq, is_sym
from symx.env import Env
from symx.sched import Sched

TOKENS = ["a\n", "é", " \n", "\x85", "𝄞"]


class FaultError(OSError):
    pass


class FS:
    """The file system handed to the reader, in both modes."""

    def __init__(self, ctx, env, order=None, sched=None):
        self.ctx, self.env, self.order, self.sched = ctx, env, order, sched
        self.mem = {}
        self.fail_at = None
        self.reads = 0
        self.raised = 0
        if not ctx.symbolic:
            self.real = REAL_GET_FS(env.root)[0]

    def put(self, name, cells):
        p = self.env.path(name)
        if self.ctx.symbolic:
            self.mem[p] = cells
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(bytes(cells))
        return p

    def isfile(self, p):
        return p in self.mem if self.ctx.symbolic else self.real.isfile(p)

    def exists(self, p):
        return self.isfile(p) or self.isdir(p)

    def isdir(self, p):
        return any(os.path.dirname(x) == p for x in self.mem) if self.ctx.symbolic else self.real.isdir(p)

    def ls(self, p, detail=False, **k):
        if self.ctx.symbolic:
            names = [x for x in self.mem if os.path.dirname(x) == p]
        else:
            names = self.real.ls(p)
        names = sorted(names)
        if self.order:
            names = [names[i] for i in self.order]
        return [self.info(n) for n in names] if detail else names

    def info(self, p):
        return {"name": p, "size": self.size(p), "type": "file"}

    def size(self, p):
        return len(self.mem[p]) if self.ctx.symbolic else os.path.getsize(p)

    def glob(self, p, **k):
        if any(c in p for c in "*?["):
            import fnmatch

            return [x for x in self.ls(os.path.dirname(p)) if fnmatch.fnmatchcase(x, p)]
        return [p] if self.isfile(p) else []

    def open(self, p, mode="rb", **k):
        if "w" in mode:
            return Out(self, p) if self.ctx.symbolic else self.real.open(p, mode)
        if self.ctx.symbolic and isinstance(self.mem[p], str):
            return io.StringIO(self.mem[p])
        return File(self, p, None if self.ctx.symbolic else self.real.open(p, mode))

    def touch_read(self):
        n = self.reads
        self.reads += 1
        if self.fail_at is not None and n == self.fail_at:
            self.raised += 1
            raise FaultError("injected read failure")


class Out(io.StringIO):
    def __init__(self, fs, path):
        super().__init__()
        self.fs, self.path = fs, path

    def close(self):
        if not self.closed:
            self.fs.mem[self.path] = self.getvalue()
        super().close()


class File:
    def __init__(self, fs, path, f):
        self.fs, self.path, self.f, self.pos = fs, path, f, 0

    def seek(self, pos, whence=0):
        if self.f is not None:
            return self.f.seek(pos, whence)
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.fs.mem[self.path]) + pos)
        return self.pos

    def tell(self):
        return self.pos if self.f is None else self.f.tell()

    def read(self, n=-1):
        self.fs.touch_read()
        if self.f is not None:
            return self.f.read(n)
        c = self.fs.mem[self.path]
        n = len(c) if n is None or n < 0 else n
        out = text.SBytes(c[self.pos : self.pos + n])
        self.pos += len(out)
        return out

    def close(self):
        if self.f is not None:
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


REAL_GET_FS = _base.get_fs


def setup(ctx, switches=0, order=None, max_steps=4000, extra=None):
    s = Sched(ctx, budget=switches, max_steps=max_steps)
    env = Env(ctx, shims=("num", "files"))
    fs = FS(ctx, env, order, s)
    rnd = ModShim(random, shuffle=lambda x: _shuffle(ctx, x))
    import glob as _glob

    s.install({REAL_GET_FS: lambda path: (fs, {}), random: rnd, _glob: ModShim(_glob, glob=fs.glob), **(extra or {})})
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if n.startswith("deepgnn."):
            if "get_fs" in vars(m) and m is not _base:
                ctx.patch(m, "get_fs", lambda path: (fs, {}))
            if ctx.symbolic and "bytearray" not in vars(m):
                ctx.patch(m, "bytearray", text.BytearrayShim)
            if vars(m).get("glob") is not None and hasattr(vars(m)["glob"], "glob"):
                ctx.patch(m, "glob", ModShim(_glob, glob=fs.glob))
    return s, env, fs


def _shuffle(ctx, x):
    p = ctx.permutation("shuffle", len(x))
    x[:] = [x[i] for i in p]


def content(ctx, name, n, tokens=False):
    """File content as cells: arbitrary ASCII bytes, or tokens with multi-byte characters."""
    if tokens:
        out = []
        for i in range(n):
            out += list(ctx.choice(f"{name}.tok{i}", TOKENS).encode())
        return out
    return [ctx.int(f"{name}.b{i}", 0, 127) for i in range(n)]


def lines_of(cells, keep_blank=False):
    """Reference: split at newline bytes, drop one carriage return before the newline."""
    out, cur = [], []
    for c in cells:
        if bool(c == 10):
            out.append(cur)
            cur = []
        else:
            cur.append(c)
    out.append(cur)
    res = []
    for ln in out:
        if ln and bool(ln[-1] == 13):
            ln = ln[:-1]
        if ln:
            res.append(ln)
    return res, any(not x or (len(x) == 1 and bool(x[0] == 13)) for x in out[:-1])


def as_cells(line):
    """Delivered line as UTF-8 cells."""
    if isinstance(line, text.SText):
        return line.encode().cells
    return list(line.encode())


def same_line(line, cells):
    return Eq(as_cells(line), cells)
