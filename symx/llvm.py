"""Symbolic execution of LLVM IR.

The text that clang emits for a translation unit is turned, function by function and on first
call, into Python functions.  Integers are Python ints (kept unsigned) or symbolic integers
(kept signed), floating point numbers are Python floats or exact symbolic reals, and memory is a
set of objects made of cells, so that every access can be checked against the bounds and the life
time of the object it belongs to.
"""
import math
import re
import struct

from .core import (B2I, Hang, Or, PathEnd, Sym, SymBool, SymInt, SymReal, Unsupported, cur, to_float, wrap_bool,
                   wrap_int, wrap_real, z3, zint, zreal)


class NativeFault(Exception):
    """The code did something undefined: a bad access, an impossible branch."""


class NativeException(Exception):
    """A C++ exception or a fatal error left the code under test."""


# ------------------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "sub", "size", "align", "offs")

    def __init__(self, k, n=0, sub=(), packed=False):
        self.k, self.n, self.sub, self.offs = k, n, sub, ()
        if k == "i":
            self.size = 1
            while self.size * 8 < n:
                self.size *= 2
            self.align = min(self.size, 16)
        elif k == "f":
            self.size = self.align = n // 8
        elif k == "p":
            self.size = self.align = 8
        elif k == "a":
            self.size, self.align = n * sub[0].size, sub[0].align
        elif k == "s":
            off, al, offs = 0, 1, []
            for t in sub:
                if not packed:
                    off = -(-off // t.align) * t.align
                    al = max(al, t.align)
                offs.append(off)
                off += t.size
            self.offs = offs
            self.size, self.align = -(-off // al) * al, al
        else:
            self.size, self.align = 0, 1


VOID, PTR, F32, F64 = Ty("v"), Ty("p"), Ty("f", 32), Ty("f", 64)
_INTS = {}


def ity(n):
    if n not in _INTS:
        _INTS[n] = Ty("i", n)
    return _INTS[n]


_TOK = re.compile(
    r'\s*(?:(?P<name>[%@](?:"[^"]*"|[-\w.$]+))|(?P<str>c"(?:[^"]*)")|(?P<num>-?\d+\.\d+e[+-]\d+|0x[0-9A-FKLMHR]+|-?\d+)|(?P<word>[\w.]+)|(?P<meta>![-\w.]*)|(?P<attr>#\d+)|(?P<p>\.\.\.|[^\s]))'
)


class Parser:
    """Reads the pieces of one line of IR."""

    def __init__(self, module, text):
        self.m = module
        self.toks = []
        pos = 0
        n = len(text)
        while pos < n:
            mt = _TOK.match(text, pos)
            if mt is None:
                break
            self.toks.append((mt.lastgroup, mt.group(mt.lastgroup)))
            pos = mt.end()
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k][1] if self.i + k < len(self.toks) else ""

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else ""

    def next(self):
        t = self.toks[self.i][1]
        self.i += 1
        return t

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported(f"IR: expected {s!r}, found {self.peek()!r} in {' '.join(t for _, t in self.toks)[:200]}")

    def type(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            return ity(int(t[1:]))
        if t == "ptr":
            return PTR
        if t == "float":
            return F32
        if t == "double":
            return F64
        if t in ("void", "metadata", "label", "token"):
            return VOID
        if t == "[":
            n = int(self.next())
            self.expect("x")
            s = self.type()
            self.expect("]")
            return Ty("a", n, (s,))
        if t == "{":
            return self._struct("}", False)
        if t == "<" and self.peek() == "{":
            self.next()
            r = self._struct("}", True)
            self.expect(">")
            return r
        if t[0] == "%":
            return self.m.named(t)
        raise Unsupported(f"IR type {t}")

    def _struct(self, end, packed):
        sub = []
        while not self.eat(end):
            sub.append(self.type())
            self.eat(",")
        return Ty("s", 0, tuple(sub), packed)

    ATTRS = {
        "noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly",
        "returned", "inreg", "immarg", "dead_on_unwind", "writable", "nofree", "noreturn", "swiftself", "nest",
        "dead_on_return", "allocptr",
    }

    def attrs(self):
        """Skips parameter attributes; returns the type of a by-value copy if there is one."""
        byval = None
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.i += 1
            elif t in ("align",):
                self.i += 1
                if self.eat("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif t in ("dereferenceable", "dereferenceable_or_null", "allocsize", "memory", "range", "captures"):
                self.i += 1
                self._parens()
            elif t in ("sret", "byval", "elementtype", "preallocated", "byref"):
                self.i += 1
                self.expect("(")
                ty = self.type()
                self.expect(")")
                if t == "byval":
                    byval = ty
            else:
                return byval

    def _parens(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            d += (t == "(") - (t == ")")

    def const(self, ty):
        """A constant as a Python expression text, or a structure ('agg', [...]) for aggregates."""
        t = self.peek()
        k = self.kind()
        if t in ("zeroinitializer",):
            self.i += 1
            return self.m.zero(ty)
        if t in ("undef", "poison"):
            self.i += 1
            return "UNDEF" if ty.k not in "sa" else ("agg", ["UNDEF"] * (len(ty.sub) if ty.k == "s" else ty.n))
        if t == "null":
            self.i += 1
            return "0"
        if t in ("true", "false"):
            self.i += 1
            return "1" if t == "true" else "0"
        if t == "none":
            self.i += 1
            return "None"
        if k == "num":
            self.i += 1
            if ty.k == "f":
                if t.startswith("0x"):
                    if t[2] in "KLMHR":
                        raise Unsupported("IR: wide float")
                    v = struct.unpack("<d", struct.pack("<Q", int(t, 16)))[0]
                else:
                    v = float(t)
                return repr(v) if math.isfinite(v) else f"float('{v}')"
            return str(int(t) & ((1 << ty.n) - 1))
        if k == "name" and t[0] == "@":
            self.i += 1
            return str(self.m.addr(t))
        if k == "str":
            self.i += 1
            return ("bytes", _cstr(t[2:-1]))
        if t in ("[", "{", "<"):
            packed = t == "<" and self.peek(1) == "{"
            self.i += 1
            if packed:
                self.i += 1
            end = "]" if t == "[" else "}"
            items = []
            while not self.eat(end):
                st = self.type()
                items.append(self.const(st))
                self.eat(",")
            if packed:
                self.expect(">")
            return ("agg", items)
        if t == "getelementptr":
            self.i += 1
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if self.next() == "inrange" and self.peek() == "(":
                    self._parens()
            self.expect("(")
            base_ty = self.type()
            self.expect(",")
            pt = self.type()
            base = self.const(pt)
            off = 0
            first = True
            cty = base_ty
            while self.eat(","):
                while self.peek() in ("inrange",):
                    self.i += 1
                it = self.type()
                v = int(self.const(it))
                if v >= 1 << (it.n - 1):
                    v -= 1 << it.n
                if first:
                    off += v * cty.size
                    first = False
                elif cty.k == "s":
                    off += cty.offs[v]
                    cty = cty.sub[v]
                else:
                    cty = cty.sub[0]
                    off += v * cty.size
            self.expect(")")
            return str(int(base) + off)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            self.i += 1
            self.expect("(")
            st = self.type()
            v = self.const(st)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if t == "sub":
            self.i += 1
            while self.peek() in ("nuw", "nsw"):
                self.i += 1
            self.expect("(")
            st = self.type()
            a = int(self.const(st))
            self.expect(",")
            st = self.type()
            b = int(self.const(st))
            self.expect(")")
            return str((a - b) & ((1 << st.n) - 1))
        raise Unsupported(f"IR constant {t}")


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ------------------------------------------------------------------------------------- module
class Module:
    """The functions and globals of a linked module; object ids below `first_free` belong to it."""

    def __init__(self, text):
        self.types, self.type_text = {}, {}
        self.ids = {}
        self.names = {}
        self.globals = {}  # id -> (size, line) or None for externals
        self.funcs = {}  # name -> (line of define, body lines)
        self.declared = set()
        self.py = {}
        self.alias = {}
        self.templates = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("%"):
                name, _, rest = ln.partition(" = type ")
                self.type_text[name] = rest
            elif ln.startswith("@"):
                name, _, rest = ln.partition(" = ")
                mt = re.search(r'\balias [^@]*, ptr (@(?:"[^"]*"|[-\w.$]+))', rest)
                if mt:
                    self.alias[name] = mt.group(1)
                else:
                    self.globals[name] = rest
            elif ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                name = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln).group(0)[:-1]
                self.funcs[name] = (ln, lines[i + 1 : j])
                i = j
            elif ln.startswith("declare "):
                name = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln).group(0)[:-1]
                self.declared.add(name)
            i += 1
        nid = 1
        for name in list(self.globals) + list(self.funcs) + sorted(self.declared):
            if name not in self.ids:
                self.ids[name] = nid
                self.names[nid] = name
                nid += 1
        self.first_free = nid
        for name, target in self.alias.items():
            self.ids[name] = self.ids[target]
        self.initialisers = re.findall(r'i32 \d+, ptr (@(?:"[^"]*"|[-\w.$]+))', self.globals.get("@llvm.global_ctors", ""))

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            text = self.type_text[name]
            if text == "opaque":
                t = Ty("s")
            else:
                t = Parser(self, text).type()
            self.types[name] = t
        return t

    def addr(self, name):
        return self.ids[name] << 32

    def zero(self, ty):
        if ty.k == "f":
            return "0.0"
        if ty.k == "s":
            return ("agg", [self.zero(t) for t in ty.sub])
        if ty.k == "a":
            if ty.sub[0].k == "i" and ty.sub[0].n == 8:
                return ("bytes", bytes(ty.n))
            return ("agg", [self.zero(ty.sub[0]) for _ in range(ty.n)])
        return "0"

    def template(self, oid):
        """(size, cells) a global starts with."""
        t = self.templates.get(oid)
        if t is None:
            name = self.names[oid]
            text = self.globals[name]
            if re.search(r"\bexternal\b", text.split(" global ")[0].split(" constant ")[0]):
                cells = {k: (1, 0) for k in range(64)}
                if name == "@__libc_single_threaded":
                    cells[0] = (1, 1)
                t = (64, cells)
            else:
                m = re.search(r"\b(?:global|constant) ", text)
                p = Parser(self, text[m.end() :])
                ty = p.type()
                c = p.const(ty)
                cells = {}
                _spread(cells, 0, ty, c)
                t = (ty.size, cells)
            self.templates[oid] = t
        return t

    def arg_types(self, name):
        head = self.funcs[name][0]
        p = Parser(self, head)
        while p.peek() != name:
            p.next()
        p.next()
        p.expect("(")
        out = []
        while not p.eat(")"):
            out.append(p.type())
            p.attrs()
            if p.kind() == "name":
                p.next()
            p.eat(",")
        return out

    # -------------------------------------------------------------------------- translation
    def function(self, name):
        f = self.py.get(name)
        if f is None:
            f = Translator(self, name).build()
            self.py[name] = f
        return f


def _spread(cells, off, ty, c):
    if isinstance(c, tuple):
        if c[0] == "bytes":
            for k, b in enumerate(c[1]):
                cells[off + k] = (1, b)
            return
        for k, item in enumerate(c[1]):
            if ty.k == "s":
                _spread(cells, off + ty.offs[k], ty.sub[k], item)
            else:
                _spread(cells, off + k * ty.sub[0].size, ty.sub[0], item)
        return
    if c == "UNDEF":
        return
    cells[off] = (ty.size, eval(c))


BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "freeze", "addrspacecast"}


class Translator:
    def __init__(self, module, name):
        self.m = module
        self.name = name
        self.vars = {}

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            v = self.vars[n] = "v" + str(len(self.vars))
        return v

    def val(self, p, ty):
        if p.kind() == "name" and p.peek()[0] == "%":
            return self.var(p.next())
        c = p.const(ty)
        if isinstance(c, tuple):
            return self._tuple(c)
        return c

    def _tuple(self, c):
        if c[0] == "bytes":
            return "(" + ",".join(str(b) for b in c[1]) + ",)"
        return "(" + "".join((self._tuple(x) if isinstance(x, tuple) else x) + "," for x in c[1]) + ")"

    def tval(self, p):
        ty = p.type()
        p.attrs()
        return ty, self.val(p, ty)

    def build(self):
        head, body = self.m.funcs[self.name]
        p = Parser(self.m, head)
        while p.peek() != self.name:
            p.next()
        p.next()
        p.expect("(")
        args = []
        vararg = False
        n = 0
        while not p.eat(")"):
            if p.eat("..."):
                vararg = True
            else:
                p.type()
                p.attrs()
                if p.kind() == "name":
                    args.append(self.var(p.next()))
                else:
                    args.append(self.var("%" + str(n)))
                n += 1
            p.eat(",")
        # blocks
        blocks = []
        label = None
        curb = []
        k = 0
        while k < len(body):
            ln = body[k]
            k += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if not ln.startswith(" "):
                mt = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if mt:
                    if curb or label is not None:
                        blocks.append((label, curb))
                    label, curb = "%" + mt.group(1), []
                    continue
            if s.startswith("switch") and "[" in s and "]" not in s:
                while "]" not in s:
                    s += " " + body[k].strip()
                    k += 1
            curb.append(s)
        blocks.append((label, curb))
        if blocks[0][0] is None:
            blocks[0] = ("%" + str(n), blocks[0][1])
        self.index = {b[0]: i for i, b in enumerate(blocks)}
        # phis: block -> [(var, {pred: value})]
        phis = {}
        for lb, ins in blocks:
            for s in ins:
                mt = re.match(r"(%\S+) = phi ", s)
                if not mt:
                    break
                dst = self.var(mt.group(1))
                p = Parser(self.m, s[mt.end() :])
                ty = p.type()
                inc = {}
                while p.eat("["):
                    v = self.val(p, ty)
                    p.expect(",")
                    inc[p.next()] = v
                    p.expect("]")
                    p.eat(",")
                phis.setdefault(lb, []).append((dst, inc))
        self.phis = phis
        code = []
        for i, (lb, ins) in enumerate(blocks):
            self.cur, self.curi = lb, i
            out = []
            for s in ins:
                if re.match(r"%\S+ = phi ", s):
                    continue
                self.ins(s, out)
            code.append(out)
        src = [f"def F(R, {', '.join(args)}{', ' if args else ''}*VA):" if vararg else f"def F(R{''.join(', ' + a for a in args)}):"]
        if len(code) == 1:
            src += ["    " + x for x in code[0]]
        else:
            src.append("    b = 0")
            src.append("    while True:")
            self.tree(src, code, 0, len(code), 8)
        text = "\n".join(src)
        env = dict(OPS)
        env["M"] = self.m
        try:
            exec(compile(text, self.name, "exec"), env)
        except SyntaxError:
            raise Unsupported(f"translation of {self.name} failed:\n{text[:2000]}")
        f = env["F"]
        f.native_name = self.name
        return f

    def tree(self, src, code, lo, hi, ind):
        sp = " " * ind
        if hi - lo == 1:
            src.extend(sp + x for x in code[lo])
            return
        mid = (lo + hi) // 2
        src.append(f"{sp}if b < {mid}:")
        self.tree(src, code, lo, mid, ind + 1)
        src.append(f"{sp}else:")
        self.tree(src, code, mid, hi, ind + 1)

    def jump(self, target, out, sp=""):
        ph = self.phis.get(target)
        if ph:
            ph = [(d, inc[self.cur]) for d, inc in ph]
            ph = [(d, v) for d, v in ph if d != v]
            if ph:
                out.append(sp + ", ".join(d for d, _ in ph) + " = " + ", ".join(v for _, v in ph))
        t = self.index[target]
        if t <= self.curi:
            out.append(sp + "R.fuel -= 1")
            out.append(sp + "if R.fuel < 0: R.out_of_fuel()")
        out.append(f"{sp}b = {t}; continue")

    def ins(self, s, out):
        dst = None
        mt = re.match(r"(%(?:\"[^\"]*\"|[-\w.$]+)) = ", s)
        if mt:
            dst = self.var(mt.group(1))
            s = s[mt.end() :]
        p = Parser(self.m, s)
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BIN:
            flags = []
            while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
                flags.append(p.next())
            ty = p.type()
            a = self.val(p, ty)
            p.expect(",")
            b = self.val(p, ty)
            out.append(f"{dst} = {op}_({a}, {b}, {ty.n})")
        elif op == "icmp":
            pred = p.next()
            ty = p.type()
            a = self.val(p, ty)
            p.expect(",")
            b = self.val(p, ty)
            n = 64 if ty.k == "p" else ty.n
            out.append(f"{dst} = icmp_{pred}({a}, {b}, {n})")
        elif op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.type()
            p.expect(",")
            _, a = self.tval(p)
            out.append(self.load(dst, ty, a))
        elif op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty, v = self.tval(p)
            p.expect(",")
            _, a = self.tval(p)
            if ty.k in "sa":
                self.store_agg(out, ty, v, a, 0)
            elif ty.k == "i" and ty.n == 1:
                out.append(f"R.store({a}, 1, zext_({v}, 1, 8))")
            else:
                out.append(f"R.store({a}, {ty.size}, {v})")
        elif op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            ty = p.type()
            p.expect(",")
            _, base = self.tval(p)
            const, var = 0, []
            first = True
            while p.eat(","):
                if p.kind() == "meta":
                    break
                it, v = self.tval(p)
                lit = int(v) if re.fullmatch(r"\d+", v) else None
                if lit is not None and lit >= 1 << (it.n - 1):
                    lit -= 1 << it.n
                if first:
                    stride = ty.size
                    first = False
                elif ty.k == "s":
                    const += ty.offs[lit]
                    ty = ty.sub[lit]
                    continue
                else:
                    ty = ty.sub[0]
                    stride = ty.size
                if lit is not None:
                    const += lit * stride
                elif stride:
                    var.append((v, stride, it.n))
            if not var:
                out.append(f"{dst} = {base} + {const}" if const else f"{dst} = {base}")
            else:
                e = base
                for v, st, n in var:
                    e = f"gep({e}, {v}, {st}, {n})"
                out.append(f"{dst} = {e}" + (f" + {const}" if const else ""))
        elif op == "br":
            if p.eat("label"):
                self.jump(p.next(), out)
            else:
                _, c = self.tval(p)
                p.expect(",")
                p.expect("label")
                t1 = p.next()
                p.expect(",")
                p.expect("label")
                t2 = p.next()
                out.append(f"if br({c}):")
                self.jump(t1, out, "    ")
                self.jump(t2, out)
        elif op == "switch":
            ty, v = self.tval(p)
            p.expect(",")
            p.expect("label")
            dflt = p.next()
            p.expect("[")
            while not p.eat("]"):
                t, c = self.tval(p)
                p.expect(",")
                p.expect("label")
                tgt = p.next()
                out.append(f"if br(icmp_eq({v}, {c}, {ty.n})):")
                self.jump(tgt, out, "    ")
            self.jump(dflt, out)
        elif op == "ret":
            ty = p.type()
            if ty.k == "v":
                out.append("return None")
            else:
                out.append("return " + self.val(p, ty))
        elif op == "unreachable":
            out.append("R.unreachable()")
        elif op == "alloca":
            ty = p.type()
            cnt = "1"
            if p.eat(",") and p.peek() != "align":
                _, cnt = self.tval(p)
            out.append(f"{dst} = R.alloc({ty.size} * {cnt}, 'stack')")
        elif op == "call":
            self.call(dst, p, out)
        elif op == "select":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            ct, c = self.tval(p)
            p.expect(",")
            ty, a = self.tval(p)
            p.expect(",")
            _, b = self.tval(p)
            n = {"p": "'p'", "f": "'f'"}.get(ty.k, str(ty.n))
            if ty.k in "sa":
                n = "'p'"
            out.append(f"{dst} = select_({c}, {a}, {b}, {n})")
        elif op == "fneg":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            ty, a = self.tval(p)
            out.append(f"{dst} = fneg_({a})")
        elif op in FBIN:
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            ty = p.type()
            a = self.val(p, ty)
            p.expect(",")
            b = self.val(p, ty)
            out.append(f"{dst} = {op}_({a}, {b}, {ty.n})")
        elif op == "fcmp":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                p.next()
            pred = p.next()
            ty = p.type()
            a = self.val(p, ty)
            p.expect(",")
            b = self.val(p, ty)
            out.append(f"{dst} = fcmp_({a}, {b}, '{pred}')")
        elif op in CASTS:
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            ty, a = self.tval(p)
            if op == "freeze":
                out.append(f"{dst} = {a}")
                return
            p.expect("to")
            to = p.type()
            if op in ("zext", "sext", "trunc"):
                out.append(f"{dst} = {op}_({a}, {ty.n}, {to.n})")
            elif op in ("ptrtoint", "inttoptr", "addrspacecast"):
                out.append(f"{dst} = {a}")
            elif op == "bitcast":
                if to.k == "f" and ty.k == "i":
                    out.append(f"{dst} = as_float({a}, {to.size})")
                elif to.k == "i" and ty.k == "f":
                    out.append(f"{dst} = {a}")
                else:
                    out.append(f"{dst} = {a}")
            elif op in ("uitofp", "sitofp"):
                out.append(f"{dst} = {op}_({a}, {ty.n}, {to.n})")
            elif op in ("fptoui", "fptosi"):
                out.append(f"{dst} = {op}_({a}, {to.n})")
            elif op == "fptrunc":
                out.append(f"{dst} = round_f({a}, {to.n})")
            else:
                out.append(f"{dst} = {a}")
        elif op == "extractvalue":
            ty, a = self.tval(p)
            e = a
            while p.eat(","):
                if p.kind() == "meta":
                    break
                e += f"[{p.next()}]"
            out.append(f"{dst} = {e}")
        elif op == "insertvalue":
            ty, a = self.tval(p)
            p.expect(",")
            _, v = self.tval(p)
            idx = []
            while p.eat(","):
                if p.kind() == "meta":
                    break
                idx.append(p.next())
            out.append(f"{dst} = insert_({a}, {v}, [{','.join(idx)}])")
        elif op == "atomicrmw":
            p.eat("volatile")
            what = p.next()
            _, a = self.tval(p)
            p.expect(",")
            ty, v = self.tval(p)
            out.append(f"{dst} = R.load({a}, {ty.size})")
            new = {"add": f"add_({dst}, {v}, {ty.n})", "sub": f"sub_({dst}, {v}, {ty.n})", "xchg": v, "and": f"and_({dst}, {v}, {ty.n})", "or": f"or_({dst}, {v}, {ty.n})"}.get(what)
            if new is None:
                raise Unsupported("atomicrmw " + what)
            out.append(f"R.store({a}, {ty.size}, {new})")
        elif op == "cmpxchg":
            while p.peek() in ("volatile", "weak"):
                p.next()
            _, a = self.tval(p)
            p.expect(",")
            ty, c = self.tval(p)
            p.expect(",")
            _, v = self.tval(p)
            out.append(f"{dst} = R.load({a}, {ty.size})")
            out.append(f"if br(icmp_eq({dst}, {c}, {ty.n})):")
            out.append(f"    R.store({a}, {ty.size}, {v}); {dst} = ({dst}, 1)")
            out.append(f"else: {dst} = ({dst}, 0)")
        elif op == "fence":
            pass
        elif op == "va_arg":
            raise Unsupported("va_arg")
        else:
            raise Unsupported(f"IR instruction {op}")

    def load(self, dst, ty, a):
        if ty.k == "f":
            return f"{dst} = as_float(R.load({a}, {ty.size}), {ty.size})"
        if ty.k in "sa":
            return f"{dst} = {self.load_agg(ty, a, 0)}"
        if ty.k == "i" and ty.n == 1:
            return f"{dst} = icmp_ne(R.load({a}, 1), 0, 8)"
        return f"{dst} = R.load({a}, {ty.size})"

    def load_agg(self, ty, a, off):
        if ty.k == "s":
            return "(" + "".join(self.load_agg(t, a, off + o) + "," for t, o in zip(ty.sub, ty.offs)) + ")"
        if ty.k == "a":
            return "(" + "".join(self.load_agg(ty.sub[0], a, off + i * ty.sub[0].size) + "," for i in range(ty.n)) + ")"
        if ty.k == "f":
            return f"as_float(R.load({a} + {off}, {ty.size}), {ty.size})"
        return f"R.load({a} + {off}, {ty.size})"

    def store_agg(self, out, ty, v, a, off):
        if ty.k in "sa":
            items = ty.sub if ty.k == "s" else [ty.sub[0]] * ty.n
            for i, t in enumerate(items):
                o = ty.offs[i] if ty.k == "s" else i * t.size
                self.store_agg(out, t, f"{v}[{i}]", a, off + o)
            return
        out.append(f"R.store({a} + {off}, {ty.size}, {v})")

    SKIP = ("@llvm.lifetime.", "@llvm.experimental.noalias", "@llvm.assume", "@llvm.dbg.", "@llvm.stacksave", "@llvm.stackrestore", "@llvm.donothing", "@llvm.prefetch", "@llvm.invariant.")

    def call(self, dst, p, out):
        while p.peek() in ("fastcc", "ccc", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "coldcc"):
            p.next()
        p.attrs()
        rty = p.type()
        fixed = None
        if p.peek() == "(":  # function type of a variadic callee
            p.expect("(")
            fixed = 0
            while p.peek() not in (")", "..."):
                p.type()
                p.attrs()
                p.eat(",")
                fixed += 1
            p.eat("...")
            p.expect(")")
        callee = p.next()
        callee = self.m.alias.get(callee, callee)
        p.expect("(")
        args, tys = [], []
        if callee.startswith("@llvm.dbg."):
            return
        while not p.eat(")"):
            ty = p.type()
            byval = p.attrs()
            if ty.k == "v":
                while p.peek() not in (",", ")"):
                    p.next()
                p.eat(",")
                continue
            v = self.val(p, ty)
            if byval is not None:
                v = f"R.copy_of({v}, {byval.size})" if fixed is None or len(args) < fixed else f"*R.words({v}, {byval.size})"
            args.append(v)
            tys.append(ty)
            p.eat(",")
        pre = f"{dst} = " if dst is not None else ""
        if callee.startswith(self.SKIP):
            return
        if callee[0] == "%":
            out.append(f"{pre}R.call({self.var(callee)}{''.join(', ' + a for a in args)})")
        elif callee in self.m.funcs:
            out.append(f"{pre}R.direct({callee!r}{''.join(', ' + a for a in args)})")
        elif callee.startswith("@llvm."):
            self.intrinsic(pre, callee, args, tys, rty, out)
        elif callee == "@printf" or callee == "@vsnprintf" or callee in self.m.declared:
            out.append(f"{pre}R.external({callee!r}{''.join(', ' + a for a in args)})")
        else:
            raise Unsupported("call of " + callee)

    def intrinsic(self, pre, callee, args, tys, rty, out):
        parts = callee.split(".")
        k = parts[1]
        a = ", ".join(args)
        if k in ("memcpy", "memmove"):
            out.append(f"R.memcpy({args[0]}, {args[1]}, {args[2]})")
        elif k == "memset":
            out.append(f"R.memset({args[0]}, {args[1]}, {args[2]})")
        elif k in ("umin", "umax", "smin", "smax"):
            out.append(f"{pre}minmax('{k}', {a}, {rty.n})")
        elif k == "abs":
            out.append(f"{pre}abs_({args[0]}, {rty.n})")
        elif k in ("ctlz", "cttz", "ctpop", "bswap", "fshl", "fshr"):
            out.append(f"{pre}bits_('{k}', {rty.n}, {a})")
        elif k in ("usub", "uadd") and parts[2] == "sat":
            out.append(f"{pre}sat_('{k}', {a}, {rty.n})")
        elif k in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and parts[2] == "with":
            out.append(f"{pre}overflow_('{k}', {a}, {rty.sub[0].n})")
        elif k in ("floor", "ceil", "fabs", "trunc", "round", "fmuladd", "minnum", "maxnum", "sqrt", "log", "exp", "pow"):
            out.append(f"{pre}R.math('{k}', {rty.n}, {a})")
        elif k == "trap":
            out.append("R.unreachable()")
        elif k == "expect":
            out.append(f"{pre}{args[0]}")
        elif k in ("va_start", "va_end", "va_copy"):
            out.append(f"R.va('{k}', {a}{', VA' if k == 'va_start' else ''})")
        elif k == "is" and parts[2] == "fpclass":
            out.append(f"{pre}R.fpclass({a}, {tys[0].n})")
        elif k == "is" and parts[2] == "constant":
            out.append(f"{pre}0")
        elif k == "objectsize":
            out.append(f"{pre}{(1 << 64) - 1}")
        elif k == "eh" or k == "threadlocal":
            out.append(f"{pre}{args[0] if args else '0'}")
        else:
            raise Unsupported("intrinsic " + callee)


# ------------------------------------------------------------------------------------- values
class _Undef:
    def __repr__(self):
        return "undef"

    def __add__(self, o):
        raise NativeFault("an uninitialised value is used as an address")


UNDEF = _Undef()


class Blob:
    """Bytes of several cells moved around as one integer."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts  # [(size, value)]


def _int(x, n):
    """x as a plain or symbolic integer of n bits."""
    t = type(x)
    if t is int or t is SymInt:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return B2I(x)
    if t is float:
        return struct.unpack("<I", struct.pack("<f", x))[0] if n == 32 else struct.unpack("<Q", struct.pack("<d", x))[0]
    if x is UNDEF:
        return _fresh(n)
    raise Unsupported(f"arithmetic on {t.__name__}")


def _fresh(n):
    c = cur()
    k = c.__dict__.get("_undefs", 0)
    c._undefs = k + 1
    if not c.symbolic:
        return 0xBEBEBEBEBEBEBEBE & ((1 << n) - 1)
    z = z3.Int(f"uninitialised{k}")
    c._add(z3.And(z >= -(1 << (n - 1)), z < (1 << (n - 1))))
    return SymInt(z)


def signed(x, n):
    if type(x) is int:
        return x - (1 << n) if x >> (n - 1) else x
    return x


def unsigned(x, n):
    if type(x) is int:
        return x
    return wrap_int(z3.If(x.z < 0, x.z + (1 << n), x.z))


def canon(r, n):
    """Canonical form of a mathematical integer, reduced to n bits."""
    if type(r) is int:
        return r & ((1 << n) - 1)
    H = 1 << (n - 1)
    z = z3.simplify((r.z + H) % (1 << n) - H)
    r = wrap_int(z)
    return r & ((1 << n) - 1) if type(r) is int else r


def _near(r, n):
    """Like canon, for values at most one wrap away."""
    if type(r) is int:
        return r & ((1 << n) - 1)
    H = 1 << (n - 1)
    r = wrap_int(z3.If(r.z >= H, r.z - 2 * H, z3.If(r.z < -H, r.z + 2 * H, r.z)))
    return r & ((1 << n) - 1) if type(r) is int else r


def add_(a, b, n):
    if type(a) is int and type(b) is int:
        return (a + b) & ((1 << n) - 1)
    a, b = _int(a, n), _int(b, n)
    return _near(signed(a, n) + signed(b, n), n)


def sub_(a, b, n):
    if type(a) is int and type(b) is int:
        return (a - b) & ((1 << n) - 1)
    a, b = _int(a, n), _int(b, n)
    return _near(signed(a, n) - signed(b, n), n)


def mul_(a, b, n):
    if type(a) is int and type(b) is int:
        return (a * b) & ((1 << n) - 1)
    a, b = _int(a, n), _int(b, n)
    return canon(signed(a, n) * signed(b, n), n)


def _b(x):
    t = type(x)
    if t is SymBool:
        return x
    if t is int or t is bool:
        return bool(x)
    if x is UNDEF:
        c = cur()
        return wrap_bool(_fresh(8).z > 0) if c.symbolic else False
    if t is SymInt:
        return x != 0
    raise Unsupported(f"condition of type {t.__name__}")


def and_(a, b, n):
    if type(a) is int and type(b) is int:
        return a & b
    if n == 1:
        a, b = _b(a), _b(b)
        if a is False or b is False:
            return 0
        if a is True:
            return b
        return a if b is True else a & b
    a, b = _int(a, n), _int(b, n)
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b & (b + 1) == 0:
            return canon(unsigned(a, n) % (b + 1), n)
        inv = ~b & ((1 << n) - 1)
        if inv & (inv + 1) == 0:
            return canon(a - unsigned(a, n) % (inv + 1), n)
        if b & (b - 1) == 0:
            return canon(unsigned(a, n) // b % 2 * b, n)
    return _conc(a, n) & _conc(b, n)


def or_(a, b, n):
    if type(a) is int and type(b) is int:
        return a | b
    if n == 1:
        a, b = _b(a), _b(b)
        if a is True or b is True:
            return 1
        if a is False:
            return b
        return a if b is False else a | b
    a, b = _int(a, n), _int(b, n)
    if type(a) is int and a == 0:
        return b
    if type(b) is int and b == 0:
        return a
    return _conc(a, n) | _conc(b, n)


def xor_(a, b, n):
    if type(a) is int and type(b) is int:
        return a ^ b
    if n == 1:
        a, b = _b(a), _b(b)
        if type(a) is bool:
            a, b = b, a
        if type(b) is bool:
            return a.logical_not() if b else a
        return a ^ b
    a, b = _int(a, n), _int(b, n)
    if type(a) is int:
        a, b = b, a
    if type(b) is int and b == (1 << n) - 1:
        return wrap_int(-a.z - 1)
    return _conc(a, n) ^ _conc(b, n)


def shl_(a, b, n):
    a, b = _int(a, n), _conc(_int(b, n), n)
    if b >= n:
        return UNDEF
    return canon(signed(a, n) * (1 << b), n)


def lshr_(a, b, n):
    a, b = _int(a, n), _conc(_int(b, n), n)
    if b >= n:
        return UNDEF
    return canon(unsigned(a, n) // (1 << b), n)


def ashr_(a, b, n):
    a, b = _int(a, n), _conc(_int(b, n), n)
    if b >= n:
        return UNDEF
    return canon(signed(a, n) // (1 << b), n)


def _nz(b):
    if b == 0:
        raise NativeFault("division by zero")


def udiv_(a, b, n):
    a, b = unsigned(_int(a, n), n), unsigned(_int(b, n), n)
    _nz(b)
    return canon(a // b, n)


def urem_(a, b, n):
    a, b = unsigned(_int(a, n), n), unsigned(_int(b, n), n)
    _nz(b)
    return canon(a % b, n)


def sdiv_(a, b, n):
    a, b = signed(_int(a, n), n), signed(_int(b, n), n)
    _nz(b)
    neg = bool(a < 0) != bool(b < 0)
    q = abs(a) // abs(b)
    return canon(-q if neg else q, n)


def srem_(a, b, n):
    a, b = signed(_int(a, n), n), signed(_int(b, n), n)
    _nz(b)
    r = abs(a) % abs(b)
    return canon(-r if a < 0 else r, n)


def _conc(x, n):
    """Plain unsigned value of x on this path (forks)."""
    if type(x) is int:
        return x
    if type(x) is SymInt:
        return cur().concretize(x.z) & ((1 << n) - 1)
    return _conc(_int(x, n), n)


def _two(a, b, n):
    a, b = _int(a, n), _int(b, n)
    return signed(a, n), signed(b, n)


def _twou(a, b, n):
    a, b = _int(a, n), _int(b, n)
    return unsigned(a, n), unsigned(b, n)


def icmp_eq(a, b, n):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if n == 1:
        return xor_(xor_(a, b, 1), 1, 1)
    a, b = _two(a, b, n)
    return a == b


def icmp_ne(a, b, n):
    if type(a) is int and type(b) is int:
        return 1 if a != b else 0
    if n == 1:
        return xor_(a, b, 1)
    a, b = _two(a, b, n)
    return a != b


def icmp_slt(a, b, n):
    a, b = _two(a, b, n)
    return a < b


def icmp_sle(a, b, n):
    a, b = _two(a, b, n)
    return a <= b


def icmp_sgt(a, b, n):
    a, b = _two(a, b, n)
    return a > b


def icmp_sge(a, b, n):
    a, b = _two(a, b, n)
    return a >= b


def icmp_ult(a, b, n):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    a, b = _twou(a, b, n)
    return a < b


def icmp_ule(a, b, n):
    a, b = _twou(a, b, n)
    return a <= b


def icmp_ugt(a, b, n):
    if type(a) is int and type(b) is int:
        return 1 if a > b else 0
    a, b = _twou(a, b, n)
    return a > b


def icmp_uge(a, b, n):
    a, b = _twou(a, b, n)
    return a >= b


def br(c):
    if type(c) is int:
        return c
    return bool(_b(c))


def select_(c, a, b, n):
    if type(c) is not int:
        c = _b(c)
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if n == "f" and ta in (float, SymReal) and tb in (float, SymReal):
        za, zb = zreal(a), zreal(b)
        if za is not None and zb is not None:
            return wrap_real(z3.If(c.z, za, zb))
    elif n == 1:
        x, y = _b(a), _b(b)
        return wrap_bool(z3.If(c.z, x.z if type(x) is SymBool else z3.BoolVal(x), y.z if type(y) is SymBool else z3.BoolVal(y)))
    elif type(n) is int and ta in (int, SymInt) and tb in (int, SymInt):
        r = wrap_int(z3.If(c.z, zint(signed(a, n)), zint(signed(b, n))))
        return r & ((1 << n) - 1) if type(r) is int else r
    return a if bool(c) else b


def zext_(a, n, to):
    if type(a) is int:
        return a
    if n == 1:
        return B2I(_b(a))
    return unsigned(_int(a, n), n)


def sext_(a, n, to):
    if n == 1:
        a = _b(a)
        if type(a) is bool:
            return (1 << to) - 1 if a else 0
        return -B2I(a)
    a = _int(a, n)
    if type(a) is int:
        return signed(a, n) & ((1 << to) - 1)
    return a


def trunc_(a, n, to):
    if type(a) is int:
        return a & ((1 << to) - 1)
    a = _int(a, n)
    if to == 1:
        return (a % 2) == 1
    return canon(a, to)


def gep(a, i, stride, n):
    if type(a) is int and type(i) is int:
        if i >> (n - 1):
            i -= 1 << n
        return a + i * stride
    if a is UNDEF:
        raise NativeFault("an uninitialised value is used as an address")
    return a + signed(_int(i, n), n) * stride


def minmax(k, a, b, n):
    a, b = _int(a, n), _int(b, n)
    x, y = (unsigned(a, n), unsigned(b, n)) if k[0] == "u" else (signed(a, n), signed(b, n))
    c = (x < y) if k[1:] == "min" else (x > y)
    if type(c) is bool:
        return a if c else b
    return select_(c, a, b, n)


def abs_(a, n):
    return canon(abs(signed(_int(a, n), n)), n)


def bits_(k, n, a, *rest):
    a = _conc(_int(a, n), n)
    if k == "ctlz":
        return n - a.bit_length()
    if k == "cttz":
        return (a & -a).bit_length() - 1 if a else n
    if k == "ctpop":
        return bin(a).count("1")
    if k in ("fshl", "fshr"):
        b, s = _conc(_int(rest[0], n), n), _conc(_int(rest[1], n), n) % n
        w = (a << n) | b
        return ((w << s) >> n) & ((1 << n) - 1) if k == "fshl" else (w >> s) & ((1 << n) - 1)
    return int.from_bytes(a.to_bytes(n // 8, "little"), "big")


def sat_(k, a, b, n):
    a, b = _twou(a, b, n)
    if k == "usub":
        return canon(a - b, n) if a >= b else 0
    r = a + b
    return (1 << n) - 1 if r >> n else canon(r, n)


def overflow_(k, a, b, n):
    if k[0] == "u":
        a, b = _twou(a, b, n)
    else:
        a, b = _two(a, b, n)
    r = {"mul": a * b, "add": a + b, "sub": a - b}[k[1:]] if True else None
    if k[0] == "u":
        o = (r < 0) | (r >= (1 << n)) if type(r) is not int else int(r < 0 or r >= (1 << n))
    else:
        o = (r < -(1 << (n - 1))) | (r >= (1 << (n - 1))) if type(r) is not int else int(r < -(1 << (n - 1)) or r >= (1 << (n - 1)))
    return (canon(r, n), o)


# floating point
def as_float(x, size):
    t = type(x)
    if t is float or t is SymReal:
        return x
    if t is int:
        return struct.unpack("<f", struct.pack("<I", x))[0] if size == 4 else struct.unpack("<d", struct.pack("<Q", x))[0]
    if x is UNDEF:
        c = cur()
        if not c.symbolic:
            return -0.37253
        k = c.__dict__.get("_undefs", 0)
        c._undefs = k + 1
        return SymReal(z3.Real(f"uninitialised{k}"))
    if t is SymInt:
        return as_float(_conc(x, size * 8), size)
    raise Unsupported(f"float made of {t.__name__}")


def round_f(x, n):
    if type(x) is float:
        if n == 32:
            try:
                return struct.unpack("<f", struct.pack("<f", x))[0]
            except OverflowError:
                return math.copysign(math.inf, x)
    return x


def _fsp(a, b):
    return type(a) is float and type(b) is float


def _special(x):
    return type(x) is float and not math.isfinite(x)


def _farith(a, b, n, f):
    if a is UNDEF or b is UNDEF:
        a, b = as_float(a, n // 8), as_float(b, n // 8)
    if _fsp(a, b):
        return round_f(f(a, b), n)
    if _special(a) or _special(b):
        raise Unsupported("infinite or undefined number meets a symbolic one")
    return f(a, b)


def fadd_(a, b, n):
    return _farith(a, b, n, lambda x, y: x + y)


def fsub_(a, b, n):
    return _farith(a, b, n, lambda x, y: x - y)


def fmul_(a, b, n):
    return _farith(a, b, n, lambda x, y: x * y)


def fdiv_(a, b, n):
    if _fsp(a, b) and b == 0:
        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
    if not _fsp(a, b) and b == 0:
        if a == 0:
            return math.nan
        return math.inf if a > 0 else -math.inf
    return _farith(a, b, n, lambda x, y: x / y)


def frem_(a, b, n):
    if _fsp(a, b):
        return math.fmod(a, b) if b else math.nan
    raise Unsupported("remainder of symbolic numbers")


def fneg_(a):
    return -a


def fcmp_(a, b, pred):
    a, b = as_float(a, 4), as_float(b, 4)
    if (type(a) is float and math.isnan(a)) or (type(b) is float and math.isnan(b)):
        return 1 if pred[0] == "u" else 0
    if pred == "ord":
        return 1
    if pred == "uno":
        return 0
    k = pred[1:]
    if k == "eq":
        r = a == b
    elif k == "ne":
        r = a != b
    elif k == "lt":
        r = a < b
    elif k == "le":
        r = a <= b
    elif k == "gt":
        r = a > b
    else:
        r = a >= b
    return int(r) if type(r) is bool else r


def uitofp_(a, n, to):
    if n == 1:
        a = zext_(a, 1, 8)
        n = 8
    a = unsigned(_int(a, n), n)
    if type(a) is int:
        return round_f(float(a), to)
    return to_float(a, 24 if to == 32 else 53)


def sitofp_(a, n, to):
    a = signed(_int(a, n), n)
    if type(a) is int:
        return round_f(float(a), to)
    return to_float(a, 24 if to == 32 else 53)


def _toint(a, n):
    a = as_float(a, 8)
    if type(a) is float:
        if not math.isfinite(a):
            return UNDEF
        r = int(a)
    else:
        r = a.__trunc__()
    return r


def fptoui_(a, n):
    r = _toint(a, n)
    if r is UNDEF:
        return r
    if type(r) is int:
        return r if 0 <= r < 1 << n else UNDEF
    return canon(r, n)


def fptosi_(a, n):
    r = _toint(a, n)
    if r is UNDEF:
        return r
    if type(r) is int:
        return r & ((1 << n) - 1) if -(1 << (n - 1)) <= r < 1 << (n - 1) else UNDEF
    return canon(r, n)


def insert_(a, v, idx):
    if a is UNDEF:
        a = (UNDEF,) * (idx[0] + 1)
    a = list(a)
    while len(a) <= idx[0]:
        a.append(UNDEF)
    a[idx[0]] = v if len(idx) == 1 else insert_(a[idx[0]], v, idx[1:])
    return tuple(a)


OPS = {k: v for k, v in list(globals().items()) if k.endswith("_") or k.startswith("icmp_") or k in ("br", "gep", "minmax", "as_float", "round_f", "UNDEF")}


# ------------------------------------------------------------------------------------- machine
class Obj:
    __slots__ = ("size", "cells", "alive", "what", "id")

    def __init__(self, oid, size, cells, what):
        self.id, self.size, self.cells, self.what = oid, size, cells, what
        self.alive = True


MASK32 = 0xFFFFFFFF


class Machine:
    """Memory and the outside world of one path."""

    def __init__(self, module, fuel=2_000_000):
        self.m = module
        self.objs = {}
        self.next_id = module.first_free
        self.fuel = fuel
        self.used = set()
        self.ext = dict(EXTERNALS)
        self.state = {}

    # -- errors
    def fault(self, msg):
        raise NativeFault(msg)

    def unreachable(self):
        raise NativeFault("control reaches a point the compiler took for unreachable")

    def out_of_fuel(self):
        raise Hang("the native code does not come to an end")

    # -- calls
    def direct(self, name, *args):
        f = self.m.py.get(name)
        if f is None:
            f = self.m.function(name)
        self.used.add(name)
        return f(self, *args)

    def call(self, addr, *args):
        addr = self.addr(addr)
        name = self.m.names.get(addr >> 32)
        if name is None or addr & MASK32:
            raise NativeFault("call through a bad function pointer")
        if name in self.m.funcs:
            return self.direct(name, *args)
        return self.external(name, *args)

    def external(self, name, *args):
        f = self.ext.get(name)
        if f is None:
            raise Unsupported("external function " + name)
        return f(self, *args)

    # -- memory
    def alloc(self, size, what="heap"):
        size = _conc(size, 64)
        if size > 1 << 31:
            raise NativeException("std::bad_alloc")
        oid = self.next_id
        self.next_id += 1
        self.objs[oid] = Obj(oid, size, {}, what)
        return oid << 32

    def addr(self, a):
        if type(a) is int:
            return a
        if type(a) is SymInt:
            return cur().concretize(a.z)
        if a is UNDEF:
            raise NativeFault("an uninitialised value is used as an address")
        raise Unsupported(f"address of type {type(a).__name__}")

    def obj(self, a, n):
        oid = a >> 32
        o = self.objs.get(oid)
        off = a & MASK32
        if o is None:
            name = self.m.names.get(oid)
            if name is None or name not in self.m.globals:
                raise NativeFault("access through a null pointer" if oid == 0 else "access through a wild pointer")
            size, cells = self.m.template(oid)
            o = self.objs[oid] = Obj(oid, size, dict(cells), "global " + name)
        if not o.alive:
            raise NativeFault(f"access to released memory ({o.what})")
        if off + n > o.size:
            raise NativeFault(f"access outside of an object: {n} bytes at {off} of {o.size} ({o.what})")
        return o, off

    def load(self, a, n):
        if type(a) is not int:
            a = self.addr(a)
        o, off = self.obj(a, n)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return self._load_slow(o, off, n)

    def _pieces(self, o, off, n):
        """[(size, value)] covering n bytes, cutting cells where needed."""
        out = []
        pos, end = off, off + n
        cells = o.cells
        while pos < end:
            c, back = cells.get(pos), 0
            while c is None and back < 7:
                back += 1
                c = cells.get(pos - back)
            if c is None or c[0] <= back:
                out.append((1, UNDEF))
                pos += 1
                continue
            take = min(c[0] - back, end - pos)
            out.append(c if take == c[0] else (take, _part(c[1], c[0], back, take)))
            pos += take
        return out

    def _load_slow(self, o, off, n):
        parts = self._pieces(o, off, n)
        if len(parts) == 1:
            return parts[0][1]
        if all(v is UNDEF for _, v in parts):
            return UNDEF
        return _join(parts)

    def store(self, a, n, v):
        if type(a) is not int:
            a = self.addr(a)
        o, off = self.obj(a, n)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            self._clear(o, off, n)
        if type(v) is Blob:
            for s, x in v.parts:
                cells[off] = (s, x)
                off += s
            return
        if v is UNDEF:
            cells.pop(off, None)
            return
        cells[off] = (n, v)

    def _clear(self, o, off, n):
        """Removes the cells inside a range, keeping the rest of those that stick out."""
        cells = o.cells
        if not cells:
            return
        end = off + n
        for p in range(max(0, off - 7), off):
            c = cells.get(p)
            if c is not None and p + c[0] > off:
                del cells[p]
                cells[p] = (off - p, _part(c[1], c[0], 0, off - p))
                if p + c[0] > end:
                    cells[end] = (p + c[0] - end, _part(c[1], c[0], end - p, p + c[0] - end))
        p = off
        while p < end:
            c = cells.pop(p, None)
            if c is not None:
                if p + c[0] > end:
                    cells[end] = (p + c[0] - end, _part(c[1], c[0], end - p, p + c[0] - end))
                p += c[0]
            else:
                p += 1

    def memcpy(self, d, s, n):
        n = _conc(n, 64)
        if n == 0:
            return
        d, s = self.addr(d), self.addr(s)
        so, soff = self.obj(s, n)
        parts = self._pieces(so, soff, n)
        do, doff = self.obj(d, n)
        self._clear(do, doff, n)
        cells = do.cells
        for size, v in parts:
            if v is not UNDEF:
                cells[doff] = (size, v)
            doff += size

    def memset(self, d, v, n):
        n = _conc(n, 64)
        if n == 0:
            return
        d = self.addr(d)
        o, off = self.obj(d, n)
        self._clear(o, off, n)
        v = _conc(v, 8) & 255
        cells = o.cells
        end = off + n
        while off < end:
            if off % 8 == 0 and end - off >= 8:
                cells[off] = (8, v * 0x0101010101010101)
                off += 8
            else:
                cells[off] = (1, v)
                off += 1

    def words(self, a, n):
        return [self.load(a + i, 8) for i in range(0, n, 8)]

    def copy_of(self, a, n):
        r = self.alloc(n, "argument")
        self.memcpy(r, a, n)
        return r

    def release(self, a, what):
        a = self.addr(a)
        if a == 0:
            return
        o = self.objs.get(a >> 32)
        if o is None or a & MASK32 or o.what != what:
            raise NativeFault("release of something that was not allocated")
        if not o.alive:
            raise NativeFault("memory is released twice")
        o.alive = False
        o.cells = {}

    # -- texts
    def cstring(self, a):
        a = self.addr(a)
        out = bytearray()
        while True:
            c = _conc(self.load(a, 1), 8)
            if c == 0:
                return bytes(out)
            out.append(c)
            a += 1

    def new_bytes(self, data, what="heap"):
        a = self.alloc(len(data), what)
        o = self.objs[a >> 32]
        for i, b in enumerate(data):
            o.cells[i] = (1, b)
        return a

    def array(self, size, values, what="array"):
        a = self.alloc(size * len(values), what)
        o = self.objs[a >> 32]
        for i, v in enumerate(values):
            if type(v) is int:
                v &= (1 << (8 * size)) - 1
            if v is not None:
                o.cells[i * size] = (size, v)
        return a

    # -- math
    def math(self, k, n, a, b=None, c=None):
        if k == "fmuladd":
            return fadd_(fmul_(a, b, n), c, n)
        if k in ("minnum", "maxnum"):
            r = a < b if k == "minnum" else a > b
            return select_(r if type(r) is not bool else int(r), a, b, "f")
        a = as_float(a, n // 8)
        if k == "fabs":
            return abs(a)
        if type(a) is float:
            if not math.isfinite(a) and k in ("floor", "ceil", "trunc", "round"):
                return a
            if k in ("log", "exp", "sqrt"):
                return self.ext["@" + k + ("f" if n == 32 else "")](self, a)
            return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[k](a))
        if k in ("log", "exp"):
            return self.ext["@" + k + ("f" if n == 32 else "")](self, a)
        r = {"floor": a.__floor__, "ceil": a.__ceil__, "trunc": a.__trunc__}[k]()
        return wrap_real(z3.ToReal(zint(r)))

    def fpclass(self, a, mask, n):
        a = as_float(a, n // 8)
        if type(a) is float:
            if math.isnan(a):
                bit = 1
            elif math.isinf(a):
                bit = 9 if a > 0 else 2
            else:
                bit = 6 if a == 0 else 8 if a > 0 else 3
            return mask >> bit & 1
        # a real number stands for finite values only
        r = [c for bit, c in ((3, a < 0), (6, a == 0), (8, a > 0)) if mask >> bit & 1]
        return _b(Or(*r)) if r else 0

    def va(self, k, ap, args=()):
        if k == "va_start":
            # as if no argument came in a register
            self.store(ap, 4, 48)
            self.store(ap + 4, 4, 176)
            self.store(ap + 8, 8, self.array(8, list(args), "arguments"))
            self.store(ap + 16, 8, 0)
        elif k == "va_copy":
            raise Unsupported("va_copy")


def _part(v, size, at, n):
    """n bytes at position `at` of a cell of `size` bytes."""
    if v is UNDEF:
        return UNDEF
    if type(v) is float:
        v = _int(v, size * 8)
    if type(v) is int:
        return (v >> (8 * at)) & ((1 << (8 * n)) - 1)
    if type(v) is SymInt:
        return canon(unsigned(v, size * 8) // (1 << (8 * at)), 8 * n)
    if type(v) in (SymBool, bool):
        return _part(B2I(v), size, at, n)
    if type(v) is Blob:
        pos = 0
        for s, x in v.parts:
            if pos == at and s == n:
                return x
            pos += s
    if type(v) is SymReal:
        c = cur().concretize_real(v.z)
        return _part(float(c), size, at, n)
    raise Unsupported(f"part of {type(v).__name__}")


def _join(parts):
    n = sum(s for s, _ in parts)
    if n not in (1, 2, 4, 8):
        return Blob(parts)
    r, pos = 0, 0
    for s, v in parts:
        if type(v) is int:
            r = r + (v << pos)
        elif type(v) is SymInt:
            r = unsigned(v, 8 * s) * (1 << pos) + r
        else:
            return Blob(parts)
        pos += 8 * s
    return canon(r, 8 * n)


# ------------------------------------------------------------------------------------- externals
EXTERNALS = {}


def external(*names):
    def deco(f):
        for n in names:
            EXTERNALS["@" + n] = f
        return f

    return deco


@external("_Znwm", "_Znam", "malloc")
def _new(R, n):
    return R.alloc(n, "heap")


@external("_ZdlPv", "_ZdaPv", "free")
def _delete(R, a):
    R.release(a, "heap")


@external("_ZdlPvm", "_ZdaPvm")
def _delete_sized(R, a, n):
    R.release(a, "heap")


@external("strlen")
def _strlen(R, a):
    return len(R.cstring(a))


@external("memcpy", "memmove")
def _memcpy(R, d, s, n):
    R.memcpy(d, s, n)
    return d


@external("memset")
def _memset(R, d, v, n):
    R.memset(d, v, n)
    return d


def _bytes_of(R, a, n):
    a = R.addr(a)
    if n == 0:
        return []
    o, off = R.obj(a, n)
    out = []
    for s, v in R._pieces(o, off, n):
        if s == 1:
            out.append(_int(v, 8))
        else:
            out.extend(_int(_part(v, s, i, 1), 8) for i in range(s))
    return out


@external("bcmp", "memcmp")
def _memcmp(R, a, b, n):
    n = _conc(n, 64)
    for x, y in zip(_bytes_of(R, a, n), _bytes_of(R, b, n)):
        if br(icmp_ne(x, y, 8)):
            return 0xFFFFFFFF if br(icmp_ult(x, y, 8)) else 1
    return 0


@external("memchr")
def _memchr(R, a, c, n):
    c = _conc(c, 32) & 255
    for i, x in enumerate(_bytes_of(R, a, _conc(n, 64))):
        if br(icmp_eq(x, c, 8)):
            return R.addr(a) + i
    return 0


@external("strcmp")
def _strcmp(R, a, b):
    x, y = R.cstring(a), R.cstring(b)
    return 0 if x == y else (0xFFFFFFFF if x < y else 1)


@external("__isoc23_strtol", "strtol")
def _strtol(R, a, end, base):
    s = R.cstring(a).decode("latin1")
    m = re.match(r"\s*[-+]?\d+", s)
    e = m.end() if m else 0
    if R.addr(end):
        R.store(end, 8, R.addr(a) + e)
    return (int(m.group(0)) if m else 0) & ((1 << 64) - 1)


@external("__errno_location")
def _errno(R):
    if "errno" not in R.state:
        R.state["errno"] = R.array(4, [0], "errno")
    return R.state["errno"]


@external("strerror")
def _strerror(R, e):
    return R.new_bytes(b"error\0")


def _throw(kind):
    def f(R, *a):
        raise NativeException(kind)

    return f


for _n, _k in {
    "_ZSt19__throw_logic_errorPKc": "std::logic_error",
    "_ZSt20__throw_length_errorPKc": "std::length_error",
    "_ZSt17__throw_bad_allocv": "std::bad_alloc",
    "_ZSt24__throw_invalid_argumentPKc": "std::invalid_argument",
    "_ZSt20__throw_out_of_rangePKc": "std::out_of_range",
    "_ZSt24__throw_out_of_range_fmtPKcz": "std::out_of_range",
    "_ZSt28__throw_bad_array_new_lengthv": "std::bad_array_new_length",
    "_ZSt25__throw_bad_function_callv": "std::bad_function_call",
    "__cxa_throw": "C++ exception",
    "__cxa_pure_virtual": "pure virtual call",
    "__assert_fail": "assertion",
    "abort": "abort",
    "vp_fatal": "fatal error",
}.items():
    EXTERNALS["@" + _n] = _throw(_k)


@external("__cxa_allocate_exception")
def _exc(R, n):
    return R.alloc(_conc(n, 64) + 64, "exception")


@external("_ZNSt12out_of_rangeC1EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc")
def _exc_ctor(R, a, s):
    return None


@external("pthread_mutex_lock", "pthread_mutex_unlock")
def _mutex(R, m):
    return 0


@external("vsnprintf")
def _vsnprintf(R, buf, n, fmt, ap):
    R.store(buf, 1, 0)
    return 0


@external("__cxa_atexit")
def _atexit(R, *a):
    return 0


@external("__cxa_guard_acquire")
def _guard(R, a):
    return 1 if _conc(R.load(a, 1), 8) == 0 else 0


@external("__cxa_guard_release")
def _guard_release(R, a):
    R.store(a, 1, 1)


# files: name -> list of (size, value) cells
class File:
    __slots__ = ("cells", "size", "pos", "eof", "open")

    def __init__(self, cells, size):
        self.cells, self.size, self.pos, self.eof, self.open = cells, size, 0, False, True


def file_object(parts):
    """Contents of a file from (size, value) pieces."""
    o = Obj(0, 0, {}, "file")
    off = 0
    for s, v in parts:
        if isinstance(v, (bytes, bytearray)):
            for b in v:
                o.cells[off] = (1, b)
                off += 1
            continue
        if type(v) is int:
            v &= (1 << (8 * s)) - 1
        o.cells[off] = (s, v)
        off += s
    o.size = off
    return o


@external("fopen", "fopen64")
def _fopen(R, name, mode):
    path = R.cstring(name).decode()
    f = R.state.setdefault("files", {}).get(path)
    if f is None:
        R.store(_errno(R), 4, 2)
        return 0
    h = R.alloc(8, "FILE")
    R.state.setdefault("open", {})[h] = File(f, f.size)
    return h


def _file(R, h):
    f = R.state.get("open", {}).get(R.addr(h))
    if f is None or not f.open:
        raise NativeFault("use of a file that is not open")
    return f


@external("fclose")
def _fclose(R, h):
    _file(R, h).open = False
    return 0


@external("feof")
def _feof(R, h):
    return 1 if _file(R, h).eof else 0


@external("fseek", "fseeko", "fseeko64")
def _fseek(R, h, off, how):
    f = _file(R, h)
    off = signed(_conc(off, 64), 64)
    pos = off + {0: 0, 1: f.pos, 2: f.size}[_conc(how, 32)]
    if pos < 0:
        return 0xFFFFFFFF
    f.pos = pos
    f.eof = False
    return 0


@external("ftell", "ftello", "ftello64")
def _ftell(R, h):
    return _file(R, h).pos


@external("fread")
def _fread(R, buf, size, count, h):
    f = _file(R, h)
    size, count = _conc(size, 64), _conc(count, 64)
    if size == 0 or count == 0:
        return 0
    want = size * count
    have = max(0, min(want, f.size - f.pos))
    if have < want:
        f.eof = True
    if have:
        parts = R._pieces(f.cells, f.pos, have)
        a = R.addr(buf)
        o, off = R.obj(a, have)
        R._clear(o, off, have)
        for s, v in parts:
            o.cells[off] = (s, v)
            off += s
        f.pos += have
    return have // size


@external("vp_list")
def _list(R, folder, index, out, size):
    names = R.state.get("listing", [])
    i = _conc(index, 64)
    if i >= len(names):
        return 0
    s = names[i].encode() + b"\0"
    a = R.addr(out)
    for k, b in enumerate(s):
        R.store(a + k, 1, b)
    return 1


GRID = (0.015625, 0.125, 0.25, 0.5, 0.75, 0.9375)


def _on_grid(x):
    """Logarithms are only taken of a few values: the ones of a draw that matter are tried in turn."""
    if type(x) is float:
        return x
    for g in GRID:
        if bool(x == g):
            return g
    raise PathEnd("draw outside of the grid")


@external("logf", "log")
def _log(R, x):
    x = _on_grid(as_float(x, 4))
    return round_f(math.log(x), 32) if x > 0 else -math.inf


@external("expf", "exp")
def _exp(R, x):
    x = as_float(x, 4)
    if type(x) is not float:
        raise Unsupported("exponential of a symbolic number")
    return round_f(math.exp(x), 32)


@external("vp_draw_real")
def _draw_real(R, lo, hi):
    return R.state["draws"].real(as_float(lo, 4), as_float(hi, 4))


@external("vp_draw_int")
def _draw_int(R, lo, hi):
    return R.state["draws"].integer(signed(_int(lo, 64), 64), signed(_int(hi, 64), 64))


@external("vp_draw_order")
def _draw_order(R, n):
    return R.state["draws"].order(_int(n, 64))


@external("vp_draw_binomial")
def _draw_binomial(R, n, p):
    return R.state["draws"].binomial(signed(_int(n, 64), 64), as_float(p, 8))
