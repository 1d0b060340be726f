"""Byte strings and text whose characters may be symbolic.

A symbolic character is a SymInt known to be below 128 (one byte, one code point), so
decoding keeps it; concrete bytes are decoded for real.
"""
from symx import core
from symx.core import Eq, Or, is_sym

_BREAKS = set(map(ord, "\n\r\v\f\x1c\x1d\x1e\x85  "))
_SPACES = {c for c in range(0x3001) if chr(c).isspace()}


def _cells(x):
    if isinstance(x, _Seq):
        return x.cells
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    raise core.Unsupported("symbolic text mixed with %s" % type(x).__name__)


def member(c, codes):
    """c is one of the codes (forks once)."""
    if not is_sym(c):
        return c in codes
    return bool(Or([c == k for k in sorted(codes) if k < 128]))


class _Seq:
    __hash__ = None

    def __init__(self, cells=()):
        self.cells = list(cells)

    def _new(self, cells):
        return type(self)(cells)

    def __len__(self):
        return len(self.cells)

    def __iter__(self):
        return iter([self._item(c) for c in self.cells])

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*(x.__index__() if is_sym(x) else x for x in (k.start, k.stop, k.step)))
            return self._new(self.cells[k])
        return self._item(self.cells[k.__index__()])

    def __add__(self, o):
        return self._new(self.cells + _cells(o))

    def __radd__(self, o):
        return self._new(_cells(o) + self.cells)

    def __eq__(self, o):
        if not isinstance(o, (_Seq, str, bytes, bytearray)):
            return NotImplemented
        return Eq(self.cells, _cells(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def _at(self, i, sub):
        return i >= 0 and i + len(sub) <= len(self.cells) and bool(Eq(self.cells[i : i + len(sub)], sub))

    def _range(self, start, end):
        n = len(self.cells)
        start = 0 if start is None else start
        end = n if end is None else end
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        sub = _cells(sub) if not isinstance(sub, int) else [sub]
        a, b = self._range(start, end)
        for i in range(a, b - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = _cells(sub) if not isinstance(sub, int) else [sub]
        a, b = self._range(start, end)
        for i in range(b - len(sub), a - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        sub = _cells(sub)
        n = i = 0
        while i <= len(self.cells) - len(sub):
            if self._at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self._at(0, _cells(p))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = _cells(p)
        return self._at(len(self.cells) - len(p), p)

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if sep is None:
            for c in self.cells:
                if member(c, _SPACES):
                    if cur:
                        out.append(self._new(cur))
                    cur = []
                else:
                    cur.append(c)
            return out + ([self._new(cur)] if cur else [])
        sep = _cells(sep)
        while i < len(self.cells):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, sep):
                out.append(self._new(cur))
                cur = []
                i += len(sep)
            else:
                cur.append(self.cells[i])
                i += 1
        return out + [self._new(cur)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self._new(self.cells), self._new([]), self._new([])
        n = len(_cells(sep))
        return self[:i], self[i : i + n], self[i + n :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self._new([]), self._new([]), self._new(self.cells)
        n = len(_cells(sep))
        return self[:i], self[i : i + n], self[i + n :]

    def splitlines(self, keepends=False):
        breaks = self.breaks
        out, cur, i = [], [], 0
        while i < len(self.cells):
            c = self.cells[i]
            if member(c, breaks):
                end = [c]
                if i + 1 < len(self.cells) and member(c, {13}) and member(self.cells[i + 1], {10}):
                    end.append(self.cells[i + 1])
                out.append(self._new(cur + (end if keepends else [])))
                cur = []
                i += len(end)
            else:
                cur.append(c)
                i += 1
        if cur:
            out.append(self._new(cur))
        return out

    def lstrip(self, chars=None):
        s = _SPACES if chars is None else set(_cells(chars))
        i = 0
        while i < len(self.cells) and member(self.cells[i], s):
            i += 1
        return self._new(self.cells[i:])

    def rstrip(self, chars=None):
        s = _SPACES if chars is None else set(_cells(chars))
        i = len(self.cells)
        while i > 0 and member(self.cells[i - 1], s):
            i -= 1
        return self._new(self.cells[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self[:]

    def removeprefix(self, p):
        return self[len(p) :] if len(p) and self.startswith(p) else self[:]

    def replace(self, a, b, *_):
        return self._new(_cells(b)).join(self.split(a))

    def join(self, parts):
        out = []
        for i, p in enumerate(parts):
            if i:
                out += self.cells
            out += _cells(p)
        return self._new(out)

    def __copy__(self):
        return self._new(self.cells)

    copy = __copy__

    def __deepcopy__(self, m):
        return self._new(self.cells)

    def __repr__(self):
        return "".join(chr(c) if not is_sym(c) else "?" for c in self.cells)


class SBytes(_Seq):
    """bytes / bytearray."""

    breaks = {10, 13}

    def _item(self, c):
        return c

    def __iadd__(self, o):
        self.cells.extend(_cells(o))
        return self

    def extend(self, o):
        self.cells.extend(_cells(o) if not isinstance(o, list) else o)

    def append(self, c):
        self.cells.append(c)

    def clear(self):
        self.cells.clear()

    def tobytes(self):
        return SBytes(self.cells)

    def decode(self, enc="utf-8", errors="strict"):
        out, run = [], []

        def flush():
            if run:
                out.extend(ord(c) for c in bytes(run).decode(enc, errors))
                run.clear()

        for c in self.cells:
            if is_sym(c):
                flush()
                out.append(c)
            else:
                run.append(c)
        flush()
        return SText(out)


class SText(_Seq):
    """str."""

    breaks = _BREAKS

    def _item(self, c):
        return SText([c])

    def encode(self, enc="utf-8"):
        out = []
        for c in self.cells:
            out += [c] if is_sym(c) else list(chr(c).encode(enc))
        return SBytes(out)

    def __str__(self):
        return self

    def isspace(self):
        return len(self) > 0 and all(member(c, _SPACES) for c in self.cells)


class BytearrayShim:
    def __new__(cls, x=b"", *a):
        if isinstance(x, int) and not is_sym(x):
            return SBytes([0] * x)
        return SBytes(_cells(x) if not isinstance(x, list) else x)
