"""Core of the symbolic executor: proxies, path exploration state, contexts.

A harness is executed many times.  Every execution ("path") follows a list of
forced decisions and, beyond it, asks the solver which outcomes of a branch are
feasible; alternatives are put on the worklist of the exploration loop.
"""
import ctypes
import fractions
import math
import os
import sys
import time

Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
# Calls into z3 must not release the interpreter lock: a finished thread dropping its last
# terms would otherwise free them while another one is inside the (single threaded) solver.
_CDLL, ctypes.CDLL = ctypes.CDLL, ctypes.PyDLL
try:
    try:
        import z3
    except ImportError:  # z3 lives in the tools environment, not in the project's one
        sys.path.append(Z3_PATH)
        import z3
finally:
    ctypes.CDLL = _CDLL

z3.set_param("smt.random_seed", 0)


class PathEnd(BaseException):
    """Stop the current path (infeasible, or finished early)."""


class Unsupported(BaseException):
    """The code did something with a symbolic value that has no encoding."""


class Verdict(Exception):
    """Something the run itself found out, never to be taken for an error of the code under test."""


class PropertyFailure(Verdict):
    """An assertion of a harness failed (concrete mode)."""


class Deadlock(Verdict):
    """No thread can make progress."""


class Hang(Verdict):
    """The run does not come to an end."""


_ctx = None


def cur():
    if _ctx is None:
        raise Unsupported("symbolic value used outside of a path")
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


# --------------------------------------------------------------------- proxies
def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()


def _to_frac(z):
    return fractions.Fraction(z.numerator_as_long(), z.denominator_as_long())


def wrap_int(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


def wrap_real(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        f = _to_frac(z)
        d = f.denominator
        if d & (d - 1) == 0 and d.bit_length() < 50 and abs(f.numerator) < 2**53:
            return float(f)
    return SymReal(z)


def wrap_bool(z):
    if isinstance(z, bool):
        return z
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zint(x):
    """z3 Int term of a python/proxy value, or None."""
    t = type(x)
    if t is SymInt:
        return x.z
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if t.__module__ == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        v = x.item()
        if isinstance(v, int):
            return z3.IntVal(int(v))
    return None


def zreal(x):
    t = type(x)
    if t is SymReal:
        return x.z
    zi = zint(x)
    if zi is not None:
        return z3.ToReal(zi)
    if t.__module__ == "numpy" and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        x = x.item()
        t = type(x)
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return None
        f = fractions.Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if t is fractions.Fraction:
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    return None


def to_float(v, bits=53):
    """The floating point number an integer is converted to: exact up to 2^bits, rounded to nearest even above."""
    if type(v) is not SymInt:
        return wrap_real(zreal(v))
    lim = 2**bits
    if -lim <= v and v <= lim:
        return wrap_real(z3.ToReal(v.z))
    a = z3.If(v.z < 0, -v.z, v.z)
    r = a
    for k in range(70 - bits, 0, -1):
        step = 2**k
        q, m = a / step, a % step
        near = z3.If(z3.Or(2 * m > step, z3.And(2 * m == step, q % 2 == 1)), q + 1, q) * step
        r = near if k == 70 - bits else z3.If(a < lim * step, near, r)
    return wrap_real(z3.ToReal(z3.If(v.z < 0, -r, r)))


def is_realish(x):
    t = type(x)
    if t is SymReal or t is float or t is fractions.Fraction:
        return True
    return t.__module__ == "numpy" and getattr(x, "dtype", None) is not None and getattr(x, "ndim", 1) == 0 and x.dtype.kind == "f"


def _is_array(o):
    return type(o).__module__ in ("numpy", "symx.npshim") and getattr(o, "ndim", 0) > 0


def _floordiv(a, b):
    """Python floor division on z3 ints."""
    if z3.is_int_value(b):
        v = b.as_long()
        if v > 0:
            return a / b
        if v < 0:
            return (-a) / z3.IntVal(-v)
    return z3.If(b > 0, a / b, (-a) / (-b))


class SymBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.z)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_bool(z3.And(self.z, zbool(o)))
        return wrap_int(zint(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap_bool(z3.Or(self.z, zbool(o)))
        return wrap_int(zint(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        return wrap_bool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap_bool(z3.Not(self.z))

    def logical_not(self):
        return wrap_bool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) and type(o) in (bool, SymBool):
            return wrap_bool(self.z == zbool(o))
        z = zint(o)
        if z is None:
            return NotImplemented
        return wrap_bool(zint(self) == z)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return wrap_bool(z3.Not(zbool(r)))

    def _i(self):
        return SymInt(zint(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return str(bool(self))

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


def zbool(x):
    t = type(x)
    if t is SymBool:
        return x.z
    if t is SymInt:
        return x.z != 0
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SymNum(Sym):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()


def _num_z(o):
    """(z, is_real) of an operand or (None, None)."""
    z = zint(o)
    if z is not None:
        return z, False
    z = zreal(o)
    if z is not None:
        return z, True
    return None, None


class SymInt(SymNum):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    # --- arithmetic
    def _bin(self, o, fi, fr, swap=False):
        if _is_array(o):
            return NotImplemented
        z, real = _num_z(o)
        if z is None:
            return NotImplemented
        if real:
            a, b = z3.ToReal(self.z), z
            if swap:
                a, b = b, a
            return wrap_real(fr(a, b))
        a, b = self.z, z
        if swap:
            a, b = b, a
        return wrap_int(fi(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def _divcheck(self, o, swap):
        d = self if swap else o
        if d == 0:
            raise ZeroDivisionError("division by zero")

    def __floordiv__(self, o):
        if _is_array(o):
            return NotImplemented
        self._divcheck(o, False)
        return self._bin(o, _floordiv, lambda a, b: z3.ToReal(z3.ToInt(a / b)))

    def __rfloordiv__(self, o):
        if _is_array(o):
            return NotImplemented
        self._divcheck(o, True)
        return self._bin(o, _floordiv, lambda a, b: z3.ToReal(z3.ToInt(a / b)), True)

    def __mod__(self, o):
        if _is_array(o):
            return NotImplemented
        self._divcheck(o, False)
        return self._bin(o, lambda a, b: a - b * _floordiv(a, b), lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        self._divcheck(o, True)
        return self._bin(o, lambda a, b: a - b * _floordiv(a, b), lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)), True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if _is_array(o):
            return NotImplemented
        self._divcheck(o, False)
        z = zreal(o)
        if z is None:
            return NotImplemented
        return wrap_real(z3.ToReal(self.z) / z)

    def __rtruediv__(self, o):
        if _is_array(o):
            return NotImplemented
        self._divcheck(o, True)
        z = zreal(o)
        if z is None:
            return NotImplemented
        return wrap_real(z / z3.ToReal(self.z))

    def __pow__(self, o, m=None):
        if is_sym(o):
            o = o.__index__()
        if isinstance(o, int) and 0 <= o <= 8 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return wrap_int(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_int(z3.If(self.z < 0, -self.z, self.z))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # --- comparison
    def _cmp(self, o, f, none=NotImplemented):
        if _is_array(o):
            return NotImplemented
        z, real = _num_z(o)
        if z is None:
            if type(o) is float:  # inf / nan
                return f(0.0, o)
            return none
        return wrap_bool(f(z3.ToReal(self.z) if real else self.z, z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self is o:
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self is o:
            return False
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return cur().branch(self.z != 0)

    # --- conversions
    def __hash__(self):
        return cur().sym_hash(self)

    def __index__(self):
        return cur().concretize(self.z)

    def __int__(self):
        return cur().concretize(self.z)

    def __float__(self):
        return float(cur().concretize(self.z))

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, *a, **k):
        return self.__index__().to_bytes(*a, **k)

    def __str__(self):
        return cur().sym_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return str(self)
        return format(self.__index__(), spec)


class SymReal(SymNum):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return float

    def _bin(self, o, f, swap=False):
        if _is_array(o):
            return NotImplemented
        z = zreal(o)
        if z is None:
            return NotImplemented
        a, b = (z, self.z) if swap else (self.z, z)
        return wrap_real(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_array(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if _is_array(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b, True)

    def __floordiv__(self, o):
        if _is_array(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float floor division by zero")
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)), True)

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)), True)

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 8:
            r = 1.0
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power of a symbolic real")

    def __neg__(self):
        return wrap_real(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_real(z3.If(self.z < 0, -self.z, self.z))

    def _cmp(self, o, f):
        if _is_array(o):
            return NotImplemented
        z = zreal(o)
        if z is None:
            if type(o) is float:
                return f(0.0, o)
            return NotImplemented
        return wrap_bool(f(self.z, z))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self is o:
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self is o:
            return False
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return cur().branch(self.z != 0)

    def __hash__(self):
        return cur().sym_hash(self)

    def __float__(self):
        return float(cur().concretize_real(self.z))

    def __int__(self):
        return int(self.__trunc__())

    def __floor__(self):
        return wrap_int(z3.ToInt(self.z))

    def __ceil__(self):
        return wrap_int(-z3.ToInt(-self.z))

    def __trunc__(self):
        return wrap_int(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))

    def __round__(self, n=None):
        if n is None:
            f = z3.ToInt(self.z)
            d = self.z - z3.ToReal(f)
            half = z3.RealVal("1/2")
            return wrap_int(
                z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
            )
        return round(float(self), n)

    def is_integer(self):
        return wrap_bool(z3.IsInt(self.z))

    def __str__(self):
        return cur().sym_str(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec == "":
            return str(self)
        return format(float(self), spec)


class NumText(str):
    """The decimal text of a symbolic integer: a token that compares like the text would."""

    def __new__(cls, token, v):
        self = super().__new__(cls, token)
        self.v = v
        return self

    @staticmethod
    def _other(o):
        """Integer whose text o is, else None."""
        if type(o) is NumText:
            return o.v
        if type(o) is str:
            v = resolve_token(o)
            if type(v) is SymInt:
                return v
            try:
                return int(o) if str(int(o)) == o else None
            except ValueError:
                return None
        return None

    def _real(self):
        return str(cur().concretize(self.v.z))

    def _less(self, o, equal):
        b = self._other(o)
        if b is None or self.v < 0 or b < 0 or self.v >= 10**24 or b >= 10**24:
            x, y = self._real(), o._real() if type(o) is NumText else str.__str__(o)
            return x < y or (equal and x == y)
        za, zb = zint(self.v), zint(b)

        def pad(z):
            r, n = z, z3.IntVal(24)
            for k in range(23, 0, -1):
                small = z < 10**k
                r, n = z3.If(small, z * 10 ** (24 - k), r), z3.If(small, k, n)
            return r, n

        (ra, na), (rb, nb) = pad(za), pad(zb)
        return bool(wrap_bool(z3.Or(ra < rb, z3.And(ra == rb, (na <= nb) if equal else (na < nb)))))

    def __lt__(self, o):
        return self._less(o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._less(o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return not self._less(o, True) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return not self._less(o, False) if isinstance(o, str) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        b = self._other(o)
        return False if b is None else bool(self.v == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 0x5EED


# --------------------------------------------------------------------- logic helpers
# usable in harnesses for both plain and symbolic values, never fork
def And(*xs):
    xs = _flat(xs)
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return wrap_bool(z3.And([zbool(x) for x in xs]))


def Or(*xs):
    xs = _flat(xs)
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return wrap_bool(z3.Or([zbool(x) for x in xs]))


def Not(x):
    if is_sym(x):
        return wrap_bool(z3.Not(zbool(x)))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if is_realish(a) or is_realish(b):
        return wrap_real(z3.If(zbool(c), zreal(a), zreal(b)))
    return wrap_int(z3.If(zbool(c), zint(a), zint(b)))


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def B2I(x):
    """0/1 value of a condition, without forking."""
    if is_sym(x):
        return wrap_int(z3.If(zbool(x), z3.IntVal(1), z3.IntVal(0)))
    return int(bool(x))


def Eq(a, b):
    """Deep equality without forking; plain False on a shape mismatch."""
    if a is None or b is None:
        return a is b
    if _seq(a) or _seq(b):
        if not (_seq(a) and _seq(b)):
            return False
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        return And([Eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return And([Eq(a[k], b[k]) for k in a])
    r = a == b
    if r is NotImplemented:
        return False
    return r if is_sym(r) else bool(r)


def _seq(x):
    if isinstance(x, (list, tuple, range)) and not is_sym(x):
        return True
    return _is_array(x)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) and not is_sym(x):
            out.extend(_flat(x))
        else:
            out.append(x)
    return out


def count_eq(x, seq):
    """Number of elements of seq equal to x, as a term."""
    return Sum([B2I(Eq(x, y)) for y in seq])


def same_multiset(a, b):
    """a and b hold the same elements with the same multiplicities (never forks)."""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    if not any(_has_sym(x) for x in a + b):
        used = [False] * len(b)
        for x in a:
            for i, y in enumerate(b):
                if not used[i] and Eq(x, y):
                    used[i] = True
                    break
            else:
                return False
        return True
    return And([count_eq(x, a) == count_eq(x, b) for x in a])


def _has_sym(x):
    if is_sym(x):
        return True
    if _seq(x):
        return any(_has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_has_sym(y) for y in x.values())
    return False


has_sym = _has_sym


# --------------------------------------------------------------------- contexts
class BaseCtx:
    symbolic = False

    def __init__(self):
        self._undo = []
        self.labels = set()
        self.cleanups = []
        self.tokens = {}
        self._tok_n = 0
        self._names = {}

    # -- patching of module globals, undone when the path ends
    def patch(self, obj, name, value):
        had = name in vars(obj) if hasattr(obj, "__dict__") else hasattr(obj, name)
        old = getattr(obj, name, None) if had else None
        self._undo.append((obj, name, had, old))
        setattr(obj, name, value)

    def finish(self):
        for f in reversed(self.cleanups):
            try:
                f()
            except Exception:
                pass
        self.cleanups = []
        for obj, name, had, old in reversed(self._undo):
            if had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self._undo = []

    def on_exit(self, f):
        self.cleanups.append(f)

    def cover(self, label):
        self.labels.add(label)

    def fresh(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.pick(name, 0, 1))

    def permutation(self, name, n):
        """An arbitrary permutation of range(n) as concrete (forked) ints."""
        rest = list(range(n))
        out = []
        for i in range(n):
            out.append(rest.pop(self.pick(f"{name}.{i}", 0, len(rest) - 1)))
        return out

    def ints(self, name, n, lo, hi):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def check_eq(self, a, b, msg):
        self.check(Eq(a, b), msg, lambda: f"{short(a)} != {short(b)}")

    def fail(self, msg):
        self.check(False, msg)


def short(x, n=300):
    try:
        s = repr(x)
    except BaseException as e:  # symbolic values must never fork in messages
        s = f"<{type(e).__name__}>"
    return s if len(s) < n else s[:n] + "..."


class ConcreteCtx(BaseCtx):
    """Runs a harness on plain values: used to replay counterexamples."""

    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.checks = 0

    def _get(self, name, default):
        name = self.fresh(name)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        return min(max(int(v), lo), hi)

    def pick(self, name, lo, hi):
        return self.int(name, lo, hi)

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo, hi, den=4):
        """A multiple of 1/den in [lo, hi]."""
        v = fractions.Fraction(self._get(name, lo))
        return float(min(max(v, lo), hi))

    def assume(self, cond):
        if not cond:
            raise PathEnd("assumption does not hold for this input")

    def check(self, cond, msg, detail=None):
        self.checks += 1
        if not cond:
            d = ""
            if detail is not None:
                try:
                    d = ": " + detail()
                except Exception:
                    pass
            raise PropertyFailure(msg + d)

    def token(self, v, kind="num"):
        return str(v)

    def value(self, x):
        return x


class Config:
    def __init__(self, max_concretize=400, solver_timeout_ms=20000):
        self.max_concretize = max_concretize
        self.solver_timeout_ms = solver_timeout_ms


class Stats:
    FIELDS = ("paths", "queries", "solver_s", "branches", "decisions", "checks", "asserted_paths", "unknown", "infeasible", "unsupported", "pruned")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + (o[f] if isinstance(o, dict) else getattr(o, f)))

    def asdict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix, stats, cfg):
        super().__init__()
        self.prefix = prefix
        self.trace = []
        self.pending = []  # alternatives discovered on this path
        self.stats = stats
        self.cfg = cfg
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", cfg.solver_timeout_ms)
        self.vars = {}  # name -> (z3 term, kind)
        self.model = None
        self.nchecks = 0
        self.todo = []  # pending assertions
        self.failures = []
        self.ranges = {}
        self.hash_sensitive = False
        self.pc_len = 0
        self._decided = {}

    # -- solver
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _add(self, z):
        self.solver.add(z)
        self.pc_len += 1
        if self.model is not None and not z3.is_true(self.model.eval(z, model_completion=True)):
            self.model = None

    def _get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise PathEnd("infeasible")
            else:
                raise Unsupported("solver gave no answer")
        return self.model

    def feasible(self, z):
        m = self.model
        if m is not None and z3.is_true(m.eval(z, model_completion=True)):
            return True
        r = self._check(z)
        if r == z3.sat:
            self._last = self.solver.model()
            return True
        return r == z3.unknown

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        neg = z3.is_not(z)
        if neg:
            z = z.arg(0)
        k = self._decided.get(z.get_id())
        if k is not None:
            return k[1] != neg
        v = self._branch(z)
        self._decided[z.get_id()] = (z, v)  # holding z keeps its id unique
        return v != neg

    def _branch(self, z):
        i = len(self.trace)
        self.stats.decisions += 1
        if i < len(self.prefix):
            v, forced = self.prefix[i]
            self.trace.append((v, forced))
            if not forced:
                self._add(z if v else z3.Not(z))
            return v
        self._get_model()
        nz = z3.Not(z)
        mv = z3.is_true(self.model.eval(z, model_completion=True))
        if mv:
            other = self.feasible(nz)
        else:
            other = self.feasible(z)
        if not other:
            self.trace.append((mv, True))
            return mv
        self.stats.branches += 1
        self.pending.append(self.trace + [(not mv, False)])
        self.trace.append((mv, False))
        self._add(z if mv else nz)
        return mv

    def concretize(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return self._concretize(z, lambda v: v.as_long(), z3.IntVal)

    def concretize_real(self, z):
        z = z3.simplify(z)
        if z3.is_rational_value(z):
            return _to_frac(z)
        return self._concretize(z, _to_frac, lambda f: z3.RealVal(f"{f.numerator}/{f.denominator}"))

    def _concretize(self, z, get, mk):
        i = len(self.trace)
        self.stats.decisions += 1
        excluded = []
        if i < len(self.prefix):
            e = self.prefix[i]
            if e[0] == "val":
                self.trace.append(e)
                if not e[2]:
                    self._add(z == mk(e[1]))
                return e[1]
            excluded = list(e[1])  # ("neq", [...])
            for x in excluded:
                self._add(z != mk(x))
        m = self._get_model()
        v = get(m.eval(z, model_completion=True))
        if self.feasible(z != mk(v)):
            if len(excluded) + 1 >= self.cfg.max_concretize:
                raise Unsupported("too many values for a symbolic index")
            self.stats.branches += 1
            self.pending.append(self.trace + [("neq", excluded + [v])])
            self.trace.append(("val", v, False))
        else:
            self.trace.append(("val", v, not excluded))
        self._add(z == mk(v))
        return v

    # -- inputs
    def _var(self, name, z):
        self.vars[name] = z
        return z

    def int(self, name, lo, hi):
        name = self.fresh(name)
        if lo == hi:
            self.vars[name] = z3.IntVal(lo)
            return lo
        z = self._var(name, z3.Int(name))
        self.ranges[z.get_id()] = (lo, hi)
        self._add(z3.And(z >= lo, z <= hi))
        return SymInt(z)

    def pick(self, name, lo, hi):
        v = self.int(name, lo, hi)
        return v if type(v) is int else self.concretize(v.z)

    def bool(self, name):
        name = self.fresh(name)
        return SymBool(self._var(name, z3.Bool(name)))

    def real(self, name, lo, hi, den=4):
        name = self.fresh(name)
        k = z3.Int(name + "/k")
        z = z3.ToReal(k) / den
        self._var(name, z)
        self._add(z3.And(k >= int(lo * den), k <= int(hi * den)))
        return SymReal(z)

    def assume(self, cond):
        if not is_sym(cond):
            if not cond:
                self.stats.pruned += 1
                raise PathEnd("assume false")
            return
        self._add(zbool(cond))
        if len(self.trace) >= len(self.prefix):
            self._get_model()  # raises PathEnd when infeasible

    # -- assertions are collected and discharged in one query per path
    def check(self, cond, msg, detail=None):
        self.nchecks += 1
        self.stats.checks += 1
        if not is_sym(cond):
            if cond:
                return
            self.flush()
            self.failures.append((msg, self.model_inputs()))
            raise PathEnd("assertion fails on the whole path")
        self.todo.append((zbool(cond), msg))

    def flush(self):
        todo, self.todo = self.todo, []
        while todo:
            bad = z3.Or([z3.Not(z) for z, _ in todo]) if len(todo) > 1 else z3.Not(todo[0][0])
            r = self._check(bad)
            if r == z3.unsat:
                for z, _ in todo:
                    pass
                return
            if r == z3.unknown:
                return
            m = self.solver.model()
            for i, (z, msg) in enumerate(todo):
                if not z3.is_true(m.eval(z, model_completion=True)):
                    self.failures.append((msg, self._inputs_of(m)))
                    todo = todo[i + 1 :]
                    break
            else:
                return
            if len(self.failures) >= 3:
                return

    def _inputs_of(self, m):
        out = {}
        for name, z in self.vars.items():
            v = m.eval(z, model_completion=True)
            if z3.is_bool(v):
                out[name] = bool(z3.is_true(v))
            elif z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_rational_value(v):
                f = _to_frac(v)
                out[name] = f"{f.numerator}/{f.denominator}"
        return out

    def model_inputs(self):
        return self._inputs_of(self._get_model())

    # -- symbolic numbers in text: unique tokens, parsed back by the int/float shims
    def token(self, v, kind="num"):
        if not is_sym(v):
            return str(v)
        self._tok_n += 1
        t = "⟦%s%d⟧" % ("" if kind == "num" else kind, self._tok_n)
        self.tokens[t] = v
        return t

    def sym_str(self, v):
        z = v.z
        r = self.ranges.get(z.get_id())
        if isinstance(v, SymInt) and r is not None and r[1] - r[0] <= 64:
            return str(self.concretize(z))
        t = self.token(v)
        return NumText(t, v) if type(v) is SymInt and type(t) is str else t

    def sym_hash(self, v):
        """Small domains are concretised; others hash to a constant (== forks)."""
        z = v.z
        if type(v) is SymInt:
            r = self.ranges.get(z.get_id())
            if r is not None and r[1] - r[0] <= 64:
                return hash(self.concretize(z))
            return 0x5EED
        return 0x5EED

    def value(self, x):
        """Concrete value of x on this path (forks)."""
        if type(x) is SymInt:
            return self.concretize(x.z)
        if type(x) is SymBool:
            return bool(x)
        if type(x) is SymReal:
            return float(x)
        return x


def resolve_token(s):
    """Symbolic value behind a token string, or None."""
    c = _ctx
    if c is None or not c.tokens:
        return None
    s = s.strip()
    return c.tokens.get(s)
