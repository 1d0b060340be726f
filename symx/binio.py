"""Symbolic bytes, in-memory files, and stand-ins for struct / ctypes / open / fsspec.

Bytes are lists of cells.  A cell is a plain int (0..255) or a ByteOf: byte k of the
little-endian encoding of a symbolic field.  Reading a field back returns its value
when the cells form that field; any other reinterpretation of symbolic cells has no
encoding (Unsupported), which the runner resolves by replaying a witness concretely.
"""
import ctypes as _ctypes
import fnmatch
import io
import os as _os
import posixpath
import struct as _struct

from symx import core
from symx.core import And, Eq, Ite, Unsupported, is_sym

SIZES = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8}
SIGNED = {"b", "h", "i", "l", "q"}
FLOATS = {"e", "f", "d"}


class ByteOf:
    __slots__ = ("v", "code", "k")

    def __init__(self, v, code, k):
        self.v, self.code, self.k = v, code, k

    def __repr__(self):
        return "ByteOf(%s,%d)" % (self.code, self.k)


def int_range(code):
    n = SIZES[code] * 8
    if code in SIGNED:
        return -(2 ** (n - 1)), 2 ** (n - 1) - 1
    return 0, 2**n - 1


def cells_of(v, code):
    """Cells of value v encoded with a struct code (v must be in range)."""
    if not is_sym(v):
        if code in FLOATS:
            return list(_struct.pack("<" + code, float(v)))
        v = int(v)
        lo, hi = int_range(code)
        if not lo <= v <= hi:
            v = (v - lo) % (hi - lo + 1) + lo
        return list(_struct.pack("<" + code, v))
    return [ByteOf(v, code, k) for k in range(SIZES[code])]


def value_of(cells, code):
    """Inverse of cells_of."""
    if all(type(c) is int for c in cells):
        return _struct.unpack("<" + code, bytes(cells))[0]
    c0 = cells[0]
    if (
        type(c0) is ByteOf
        and SIZES[c0.code] == len(cells)
        and all(type(c) is ByteOf and c.v is c0.v and c.code == c0.code and c.k == i for i, c in enumerate(cells))
    ):
        v = c0.v
        if (c0.code in FLOATS) != (code in FLOATS):
            raise Unsupported("float/int reinterpretation of symbolic bytes")
        if code in FLOATS or c0.code == code:
            return v
        lo, hi = int_range(code)
        m = hi - lo + 1
        lo0, hi0 = int_range(c0.code)
        if lo0 < lo:
            v = Ite(v < lo, v + m, v)
        if hi0 > hi:
            v = Ite(v > hi, v - m, v)
        return v
    raise Unsupported("misaligned read of symbolic bytes")


class SymBytes:
    """Immutable byte string made of cells."""

    __slots__ = ("cells",)

    def __init__(self, cells=()):
        self.cells = list(cells)

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        for i in range(len(self.cells)):
            yield self[i]

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.cells[i])
        c = self.cells[i]
        if type(c) is int:
            return c
        if SIZES[c.code] == 1:
            return value_of([c], "B")
        raise Unsupported("single byte of a symbolic field")

    def __add__(self, o):
        return SymBytes(self.cells + to_cells(o))

    def __radd__(self, o):
        return SymBytes(to_cells(o) + self.cells)

    def __mul__(self, n):
        return SymBytes(self.cells * int(n))

    def __eq__(self, o):
        try:
            oc = to_cells(o)
        except Unsupported:
            return False
        return cells_eq(self.cells, oc)

    def __ne__(self, o):
        return core.Not(self.__eq__(o))

    def __hash__(self):
        return 0x5EED

    def __bool__(self):
        return len(self.cells) > 0

    def tobytes(self):
        return self

    def fields(self, code):
        n = SIZES[code]
        assert len(self.cells) % n == 0, "partial field"
        return [value_of(self.cells[i : i + n], code) for i in range(0, len(self.cells), n)]

    def concrete(self):
        if all(type(c) is int for c in self.cells):
            return bytes(self.cells)
        raise Unsupported("concrete value of symbolic bytes")

    def decode(self, *a):
        return self.concrete().decode(*a)

    def __repr__(self):
        return "SymBytes(%d)" % len(self.cells)


def cells_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    i = 0
    while i < len(a):
        x, y = a[i], b[i]
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            i += 1
            continue
        z = x if type(x) is ByteOf else y
        n = SIZES[z.code]
        try:
            va, vb = value_of(a[i : i + n], z.code), value_of(b[i : i + n], z.code)
        except (Unsupported, _struct.error):
            raise Unsupported("comparison of differently aligned symbolic bytes")
        out.append(Eq(va, vb))
        i += n
    return And(out)


def bytes_eq(a, b):
    return cells_eq(to_cells(a), to_cells(b))


def to_cells(o):
    t = type(o)
    if t is SymBytes:
        return o.cells
    if t in (bytes, bytearray):
        return list(o)
    if t is memoryview:
        return list(bytes(o))
    if hasattr(o, "symx_cells"):
        return o.symx_cells()
    if isinstance(o, (_ctypes._SimpleCData, _ctypes.Array)):
        return list(bytes(o))
    if t.__module__ == "numpy":
        return list(o.tobytes())
    raise Unsupported("bytes of %s" % t.__name__)


# ------------------------------------------------------------------ struct
def _parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    native = True
    if fmt[:1] in "=<>!@":
        if fmt[0] in ">!":
            raise Unsupported("big endian struct")
        native = fmt[0] == "@"
        fmt = fmt[1:]
    out = []
    n = ""
    for c in fmt:
        if c.isdigit():
            n += c
            continue
        if c == " ":
            continue
        k = int(n) if n else 1
        n = ""
        if c == "x":
            out.append(("x", k))
            continue
        if c not in SIZES:
            raise Unsupported("struct code " + c)
        if native and c in "lL":
            c = "q" if c == "l" else "Q"
        for _ in range(k):
            if native:
                pos = sum(SIZES.get(a, b) if a != "x" else b for a, b in out)
                pad = -pos % SIZES[c]
                if pad:
                    out.append(("x", pad))
            out.append((c, 1))
    return out


class StructShim:
    """Stand-in for the struct module on symbolic values."""

    error = _struct.error

    @staticmethod
    def pack(fmt, *vals):
        vals = list(vals)
        cells = []
        items = _parse_fmt(fmt)
        if sum(1 for c, _ in items if c != "x") != len(vals):
            raise _struct.error("pack expected %d items for packing (got %d)" % (sum(1 for c, _ in items if c != "x"), len(vals)))
        for c, k in items:
            if c == "x":
                cells += [0] * k
                continue
            v = vals.pop(0)
            if c in FLOATS:
                if is_sym(v) and type(v) is not core.SymReal:
                    v = core.wrap_real(core.zreal(v))
                cells += cells_of(v, c)
                continue
            if c == "?":
                cells += cells_of(core.B2I(v), "B")
                continue
            if core.is_realish(v):
                raise _struct.error("required argument is not an integer")
            lo, hi = int_range(c)
            if not (v >= lo and v <= hi):
                raise _struct.error("argument out of range")
            cells += cells_of(v, c)
        return SymBytes(cells)

    @staticmethod
    def calcsize(fmt):
        return _struct.calcsize(fmt)

    @staticmethod
    def unpack(fmt, buf):
        return StructShim.unpack_from(fmt, buf, 0)

    @staticmethod
    def unpack_from(fmt, buf, offset=0):
        cells = to_cells(buf)[offset:]
        out = []
        pos = 0
        for c, k in _parse_fmt(fmt):
            if c == "x":
                pos += k
                continue
            n = SIZES[c]
            part = cells[pos : pos + n]
            if len(part) < n:
                raise _struct.error("unpack requires a larger buffer")
            out.append(value_of(part, c))
            pos += n
        return tuple(out)

    @staticmethod
    def pack_into(fmt, buf, offset, *vals):
        raise Unsupported("struct.pack_into")

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *v):
            return StructShim.pack(self.format, *v)

        def unpack(self, b):
            return StructShim.unpack(self.format, b)

        def unpack_from(self, b, offset=0):
            return StructShim.unpack_from(self.format, b, offset)


# ------------------------------------------------------------------ ctypes
_CCODES = {
    "c_uint64": "Q", "c_int64": "q", "c_uint32": "I", "c_int32": "i", "c_uint16": "H", "c_int16": "h", "c_uint8": "B", "c_int8": "b",
    "c_float": "f", "c_double": "d", "c_size_t": "Q", "c_ssize_t": "q", "c_longlong": "q", "c_ulonglong": "Q", "c_long": "q", "c_ulong": "Q",
    "c_int": "i", "c_uint": "I", "c_bool": "?", "c_byte": "b", "c_ubyte": "B", "c_short": "h", "c_ushort": "H",
}


def c_convert(v, code):
    if code in FLOATS:
        if is_sym(v):
            return v if type(v) is core.SymReal else core.to_float(v, {"e": 11, "f": 24}.get(code, 53))
        if code == "f":
            return _ctypes.c_float(v).value
        return float(v)
    if code == "?":
        return core.B2I(v)
    if core.is_realish(v):
        raise TypeError("an integer is required (got type float)")
    if not is_sym(v):
        if not isinstance(v, int) and not hasattr(v, "__index__"):
            raise TypeError("an integer is required (got type %s)" % type(v).__name__)
        v = int(v)
    lo, hi = int_range(code)
    m = hi - lo + 1
    if not is_sym(v):
        return (v - lo) % m + lo
    if v >= lo and v <= hi:
        return v
    return (v - lo) % m + lo


class CType(type):
    """Class of ctypes stand-in types: supports `ctype * n`."""

    def __mul__(cls, n):
        n = int(n)
        return CType("%s_Array_%d" % (cls.__name__, n), (CArray,), {"elem": cls, "n": n, "real": cls.real * n})

    __rmul__ = __mul__

    def __instancecheck__(cls, o):
        return type.__instancecheck__(cls, o) or (cls.real is not None and isinstance(o, cls.real))


class CScalar(metaclass=CType):
    code = None
    real = None

    def __init__(self, value=0):
        self.value = c_convert(value, self.code)

    def symx_cells(self):
        return cells_of(self.value, "B" if self.code == "?" else self.code)

    def __bool__(self):
        return bool(self.value != 0)

    # pointer target protocol
    def cget(self, i):
        assert i == 0
        return self.value

    def cset(self, i, v):
        assert i == 0
        self.value = c_convert(v, self.code)

    def clen(self):
        return 1


def _elem(v, elem):
    """A value stored in an array of `elem`."""
    if isinstance(v, CScalar):
        if type(v) is not elem:
            raise TypeError("incompatible types")
        return v.value
    return c_convert(v, elem.code)


class CArray(metaclass=CType):
    elem = None
    n = 0
    real = None

    def __init__(self, *vals):
        if len(vals) > self.n:
            raise IndexError("invalid index")
        self.items = [_elem(v, self.elem) for v in vals] + [0] * (self.n - len(vals))

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.items[i]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            idx = list(range(*i.indices(self.n)))
            v = list(v)
            if len(v) != len(idx):
                raise ValueError("Can only assign sequence of same size")
            for k, x in zip(idx, v):
                self.items[k] = _elem(x, self.elem)
            return
        self.items[i] = _elem(v, self.elem)

    def __iter__(self):
        return iter(list(self.items))

    def symx_cells(self):
        out = []
        for v in self.items:
            out += cells_of(v, self.elem.code)
        return out

    def cget(self, i):
        return self.items[i]

    def cset(self, i, v):
        self.items[i] = _elem(v, self.elem)

    def clen(self):
        return self.n

    def __add__(self, o):
        return SymBytes(self.symx_cells() + to_cells(o))

    def __radd__(self, o):
        return SymBytes(to_cells(o) + self.symx_cells())


def _mk(name, code):
    return CType(name, (CScalar,), {"code": code, "real": getattr(_ctypes, name)})


CTYPES = {n: _mk(n, c) for n, c in _CCODES.items()}
BY_CODE = {}
for _n, _t in CTYPES.items():
    BY_CODE.setdefault(_t.code, _t)


class CtypesShim:
    """Stand-in for the ctypes module: scalar types hold symbolic values."""

    def __getattr__(self, name):
        if name in CTYPES:
            return CTYPES[name]
        if name == "sizeof":
            return sizeof
        return getattr(_ctypes, name)


def sizeof(t):
    if isinstance(t, CType) and getattr(t, "elem", None):
        return t.n * SIZES[t.elem.code]
    if isinstance(t, CType):
        return SIZES[t.code] if t.code != "?" else 1
    if isinstance(t, CArray):
        return t.n * SIZES[t.elem.code]
    if isinstance(t, CScalar):
        return SIZES[t.code]
    return _ctypes.sizeof(t)


class _BytesMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, bytes)


class BytesShim(metaclass=_BytesMeta):
    """Stand-in for the bytes type in module globals."""

    fromhex = bytes.fromhex

    def __new__(cls, *a, **k):
        if a and (type(a[0]) in (SymBytes,) or hasattr(a[0], "symx_cells")):
            return SymBytes(to_cells(a[0]))
        if a and isinstance(a[0], str) and "⟦" in a[0]:
            return TextBytes(a[0])
        return bytes(*a, **k)


class TextBytes:
    """Encoded text that contains symbolic number tokens."""

    def __init__(self, text):
        self.text = text

    @property
    def __class__(self):
        return bytes

    def decode(self, *a):
        return self.text

    def __len__(self):
        raise Unsupported("length of text with symbolic numbers")

    def symx_cells(self):
        raise Unsupported("bytes of text with symbolic numbers")


# ------------------------------------------------------------------ files
class SymFile:
    """An open file of the in-memory file system."""

    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        self.name = path
        self.binary = "b" in mode
        if "w" in mode:
            fs.files[path] = [] if self.binary else [""]
        elif "a" in mode:
            fs.files.setdefault(path, [] if self.binary else [""])
        elif path not in fs.files:
            raise FileNotFoundError(2, "No such file or directory", path)
        self.pos = 0 if "a" not in mode else len(fs.files[path])
        self.closed = False

    # text content is stored as a one element list holding a str
    @property
    def _text(self):
        c = self.fs.files[self.path]
        if len(c) == 1 and isinstance(c[0], str):
            return c[0]
        return SymBytes(c).concrete().decode()

    @property
    def _cells(self):
        c = self.fs.files[self.path]
        if len(c) == 1 and isinstance(c[0], str):
            return list(c[0].encode())
        return c

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def write(self, data):
        self._chk()
        if not any(m in self.mode for m in "wa+"):
            raise io.UnsupportedOperation("not writable")
        if self.binary:
            cells = to_cells(data)
            f = self.fs.files[self.path]
            if self.pos > len(f):
                f.extend([0] * (self.pos - len(f)))
            f[self.pos : self.pos + len(cells)] = cells
            self.pos += len(cells)
            return len(cells)
        if not isinstance(data, str):
            raise TypeError("write() argument must be str")
        self.fs.files[self.path][0] += data
        self.pos += len(data)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        self._chk()
        if self.binary:
            c = self._cells
            n = len(c) if n is None or n < 0 else int(n)
            out = SymBytes(c[self.pos : self.pos + n])
            self.pos += len(out)
            return bytes(out.cells) if all(type(x) is int for x in out.cells) else out
        t = self._text
        n = len(t) if n is None or n < 0 else int(n)
        out = t[self.pos : self.pos + n]
        self.pos += len(out)
        return out

    def readline(self):
        t = self._text if not self.binary else bytes(self._cells)
        nl = "\n" if not self.binary else b"\n"
        e = t.find(nl, self.pos)
        e = len(t) if e < 0 else e + 1
        out = t[self.pos : e]
        self.pos = e
        return out

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            x = self.readline()
            if not x:
                return
            yield x

    def __next__(self):
        x = self.readline()
        if not x:
            raise StopIteration
        return x

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = int(off)
        elif whence == 1:
            self.pos += int(off)
        else:
            self.pos = (len(self._cells) if self.binary else len(self._text)) + int(off)
        return self.pos

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SymFS:
    """In-memory file system with the parts of fsspec/os/glob the code uses."""

    sep = "/"
    protocol = "file"

    def __init__(self, list_order=None):
        self.files = {}
        self.dirs = set()
        self.list_order = list_order or sorted

    @staticmethod
    def norm(p):
        p = _os.fspath(p)
        if p.startswith("file://"):
            p = p[7:]
        return posixpath.normpath(p)

    def open(self, path, mode="r", *a, **k):
        return SymFile(self, self.norm(path), mode)

    def exists(self, path):
        p = self.norm(path)
        return p in self.files or self.isdir(p)

    def isfile(self, path):
        return self.norm(path) in self.files

    def isdir(self, path):
        p = self.norm(path)
        return p in self.dirs or any(f.startswith(p + "/") for f in self.files)

    def _match(self, pattern):
        pattern = self.norm(pattern)
        d, base = posixpath.split(pattern)
        return [f for f in self.files if posixpath.dirname(f) == d and fnmatch.fnmatchcase(posixpath.basename(f), base)]

    def glob(self, pattern, **k):
        return list(self.list_order(self._match(pattern)))

    def ls(self, path, detail=False, **k):
        p = self.norm(path)
        if p in self.files:
            out = [p]
        else:
            out = [f for f in self.files if posixpath.dirname(f) == p]
        out = list(self.list_order(out))
        if detail:
            return [self.info(f) for f in out]
        return out

    def size(self, path):
        c = self.files[self.norm(path)]
        return len(SymFile(self, self.norm(path), "rb")._cells)

    def info(self, path):
        p = self.norm(path)
        return {"name": p, "size": self.size(p), "type": "file"}

    def rm(self, path, recursive=False):
        p = self.norm(path)
        if p in self.files:
            del self.files[p]
        for f in list(self.files):
            if recursive and f.startswith(p + "/"):
                del self.files[f]

    remove = rm

    def makedirs(self, path, exist_ok=False, **k):
        self.dirs.add(self.norm(path))

    mkdirs = makedirs
    mkdir = makedirs

    def read_cells(self, path):
        return SymBytes(SymFile(self, self.norm(path), "rb")._cells)


class TempDirShim:
    """tempfile.TemporaryDirectory inside the in-memory file system."""

    n = 0

    def __init__(self, *a, **k):
        TempDirShim.n += 1
        self.name = "/symtmp/%d" % TempDirShim.n

    def cleanup(self):
        pass

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        pass


class ModShim:
    """A module with some attributes replaced."""

    def __init__(self, real, **over):
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def os_shim(fs):
    def stat(p):
        class S:
            st_size = fs.size(p)

        return S

    path = ModShim(_os.path, exists=fs.exists, isfile=fs.isfile, isdir=fs.isdir, getsize=fs.size)
    return ModShim(_os, path=path, remove=fs.rm, unlink=fs.rm, makedirs=fs.makedirs, mkdir=fs.makedirs, stat=stat,
                   listdir=lambda p: [posixpath.basename(x) for x in fs.ls(p)])
