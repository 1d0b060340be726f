"""The C++ graph engine as code under test.

For a check the sources in the repository are lowered with clang to LLVM IR, which `llvm.py`
executes symbolically; the same sources and the same entry points are also compiled to a library
with address checking, against which counterexamples are replayed.
"""
import glob
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

from . import llvm, proto
from .core import PropertyFailure, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NATIVE = os.path.join(VERIF, "native")
SRC = "src/cc/lib/graph"
ELSEWHERE = ("hdfs_wrap", "metadata")  # replaced by native/hdfs.cc and the entry points
COMMON = ["-std=c++20", "-fno-access-control", "-D_XOPEN_SOURCE=700", "-DSNARK_PLATFORM_LINUX", "-DNDEBUG", "-w", "-Wno-non-pod-varargs",
          "-include", os.path.join(NATIVE, "random.h"), f"-I{REPO}", f"-I{REPO}/src/cc/lib", f"-I{REPO}/{SRC}"]
LOWER = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-S", "-emit-llvm"]
USED = set()
SERVED = "src/cc/lib/distributed"
REMOTE = False  # whether the client, the server and the interface for Python are under test too
_module = None


def _run(cmds, cwd):
    """Runs commands side by side; raises with the output of the first that fails."""
    ps = [subprocess.Popen(c, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for c in cmds]
    bad = None
    for c, p in zip(cmds, ps):
        err = p.communicate()[1]
        if p.returncode and bad is None:
            bad = " ".join(c[:1] + c[-3:]) + "\n" + err.decode(errors="replace")[:2000]
    if bad:
        raise RuntimeError("native build failed: " + bad)


def _units(where):
    found = sorted(os.path.splitext(os.path.basename(p))[0] for p in glob.glob(f"{REPO}/{where}/*.cc"))
    return [u for u in found if u not in ELSEWHERE and not u.endswith("_test")]


def _jobs(d, own):
    """(source, name, options) of everything to compile."""
    jobs = [(f"{REPO}/{SRC}/{u}.cc", u, []) for u in _units(SRC)]
    jobs += [(f"{NATIVE}/{n}.cc", os.path.basename(n), []) for n in own]
    if REMOTE:
        gen = os.path.join(d, "gen")
        os.makedirs(f"{gen}/{SERVED}", exist_ok=True)
        with open(f"{REPO}/{SERVED}/service.proto") as f:
            text = proto.header(f.read())
        with open(f"{gen}/{SERVED}/service.grpc.pb.h.{threading.get_ident()}", "w") as f:
            f.write(text)
        os.replace(f.name, f"{gen}/{SERVED}/service.grpc.pb.h")
        with_threads = ["-include", f"{NATIVE}/remote/threads.h", f"-I{gen}", f"-I{NATIVE}/remote"]
        jobs += [(f"{REPO}/{SERVED}/{u}.cc", f"served_{u}", with_threads) for u in _units(SERVED)]
        jobs.append((f"{NATIVE}/remote.cc", "remote", with_threads))
    return jobs


def lower(d):
    """LLVM IR of the engine and the entry points, from the current sources."""
    cc = ["clang++", *COMMON, f"-I{NATIVE}/shim", *LOWER]
    jobs = _jobs(d, ("driver", "hdfs", "tree"))
    _run([[*cc, *opts, f"-I{NATIVE}", src, "-o", f"{name}.ll"] for src, name, opts in jobs], d)
    _run([["llvm-link", "-S", *[f"{name}.ll" for _, name, _ in jobs], "-o", "all.ll"]], d)
    api = []
    for name in ("driver", "remote") if REMOTE else ("driver",):
        with open(os.path.join(d, f"{name}.ll")) as f:
            api += re.findall(r"^define[^@\n]*@(vp_\w+)", f.read(), re.M)
    _run([["opt", "-S", "-passes=function(lowerinvoke,simplifycfg),internalize,globaldce,function(sroa,instcombine,simplifycfg)",
           "--internalize-public-api-list=" + ",".join(api), "all.ll", "-o", "opt.ll"]], d)
    os.rename(os.path.join(d, "opt.ll"), os.path.join(d, "engine.ll"))


def build(d):
    """The library for replays."""
    cc = ["clang++", *COMMON, f"-I{NATIVE}/replay", f"-I{NATIVE}", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-pie", "-c"]
    try:
        jobs = _jobs(d, ("driver", "hdfs", "replay/hooks"))
        _run([[*cc, *opts, src, "-o", f"{name}.o"] for src, name, opts in jobs], d)
        absl = sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
        absl = [a for a in absl if re.search(r"libabsl_(raw_hash_set|hash|city|low_level_hash|hashtablez_sampler|synchronization|base|throw_delegate|raw_logging_internal|spinlock_wait|strings|strings_internal|int128|time|time_zone|civil_time|malloc_internal|graphcycles_internal|stacktrace|symbolize|debugging_internal|demangle_internal|exponential_biased|bad_optional_access|bad_variant_access|log_severity|bad_any_cast_impl|cord|cord_internal|cordz_functions|cordz_info|cordz_handle)\.a$", a)]
        _run([["clang++", "-no-pie", "-rdynamic", "-fsanitize=address", "-Wl,--unresolved-symbols=ignore-all", *[f"{name}.o" for _, name, _ in jobs], "-Wl,--start-group", *absl, "-Wl,--end-group", "-lpthread", "-o", "replay.tmp"]], d)
        os.rename(os.path.join(d, "replay.tmp"), os.path.join(d, "replay.exe"))
    except Exception as e:
        with open(os.path.join(d, "failed.tmp"), "w") as f:
            f.write(str(e))
        os.rename(os.path.join(d, "failed.tmp"), os.path.join(d, "failed"))


def prepare():
    """Called once by the check; the workers and replays inherit the result."""
    global _module
    d = tempfile.mkdtemp(prefix="symx-native-")
    os.environ["VERIF_NATIVE_DIR"] = d
    t = threading.Thread(target=build, args=(d,), daemon=True)
    t.start()
    try:
        lower(d)
        with open(os.path.join(d, "engine.ll")) as f:
            _module = llvm.Module(f.read())
    except RuntimeError as e:
        t.join()
        if not os.path.exists(os.path.join(d, "replay.exe")):
            raise
        _module = str(e)  # compiles, but not with the stand-ins: nothing can be decided

    def release():
        t.join()
        shutil.rmtree(d, ignore_errors=True)

    return release


def module():
    if isinstance(_module, str):
        raise Unsupported(_module)
    return _module


def library():
    d = os.environ.get("VERIF_NATIVE_DIR")
    if d is None or not os.path.isdir(d):
        d = tempfile.mkdtemp(prefix="symx-native-")
        os.environ["VERIF_NATIVE_DIR"] = d
        _own.append(d)
        build(d)
    exe = os.path.join(d, "replay.exe")
    for _ in range(6000):
        if os.path.exists(exe):
            return exe
        if os.path.exists(os.path.join(d, "failed")):
            with open(os.path.join(d, "failed")) as f:
                raise Unsupported(f.read())
        time.sleep(0.05)
    raise Unsupported("the library for replays is missing")


_own = []


def discard():
    """Ends the process running the library and removes a library built for one replay."""
    if Helper.one is not None:
        Helper.one.stop()
    for d in _own:
        shutil.rmtree(d, ignore_errors=True)


def demangle(names):
    """Readable names of the engine's own functions."""
    names = sorted(names)
    if not names:
        return []
    try:
        out = subprocess.run(["c++filt"], input="\n".join(n.lstrip("@") for n in names), capture_output=True, text=True, timeout=20).stdout.split("\n")
    except Exception:
        out = names
    res = set()
    for x in out:
        if not x.startswith("snark::") and " snark::" not in x.split("(")[0]:
            continue
        x = x[x.index("snark::") :]
        x = re.sub(r"\[abi:\w+\]", "", x)
        x = re.sub(r"\(.*", "", x.replace("(anonymous namespace)", "anon"))
        res.add(re.sub(r"<.*", "", x))
    return sorted(res)


# ------------------------------------------------------------------------------------- running
SIZES = {"q": 8, "Q": 8, "i": 4, "I": 4, "f": 4, "B": 1, "P": 8}


class Arr:
    """An array given to the library; `values` holds its contents after the call."""

    def __init__(self, code, values):
        self.code = code
        self.values = [None] * values if isinstance(values, int) else list(values)

    def __getitem__(self, i):
        return self.values[i]

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)


def out(code, n):
    return Arr(code, n)


class Draws:
    """Every random number the engine asks for is an unknown of the solver."""

    def __init__(self, ctx, den=16):
        self.ctx, self.den, self.n = ctx, den, 0
        self.log = []

    def real(self, lo, hi):
        k = self.n
        self.n += 1
        u = self.ctx.real(f"draw{k}", 0, 1, self.den)
        self.ctx.assume(u < 1)
        r = lo + (hi - lo) * u
        self.log.append(("real", lo, hi, r))
        return r

    def integer(self, lo, hi):
        k = self.n
        self.n += 1
        if type(lo) is not int or type(hi) is not int:
            raise Unsupported("symbolic range of a draw")
        if lo > hi:
            raise llvm.NativeFault(f"a random integer is drawn from the empty range [{lo}, {hi}]")
        if hi - lo >= 2**62:
            return 1  # a seed; what is drawn with it is unknown anyway
        r = self.ctx.int(f"draw{k}", lo, hi)
        self.log.append(("integer", lo, hi, r))
        return r

    def order(self, n):
        """Which of n replies arrives next."""
        self.replies = getattr(self, "replies", 0) + 1
        return self.ctx.pick(f"arrival{self.replies}", 0, n - 1)

    def binomial(self, n, p):
        k = self.n
        self.n += 1
        if not self.ctx.symbolic:
            if not 0 <= p <= 1:
                raise PropertyFailure(f"a binomial variable is drawn with probability {p}")
        else:
            if type(p) is float:
                if not 0 <= p <= 1:
                    raise PropertyFailure(f"a binomial variable is drawn with probability {p}")
            else:
                self.ctx.check((p >= 0) & (p <= 1), "probabilities of draws are between 0 and 1")
        n = n if type(n) is int else self.ctx.concretize(n.z)
        if n < 0:
            raise PropertyFailure(f"a binomial variable is drawn with {n} trials")
        r = self.ctx.int(f"draw{k}", 0, max(n, 0))
        # impossible outcomes of a certain experiment
        if type(p) is float:
            self.ctx.assume((p > 0) | (r == 0)) if not self.ctx.symbolic else (self.ctx.assume(r == 0) if p == 0 else None)
            if p == 1:
                self.ctx.assume(r == n)
        else:
            self.ctx.assume(~(p <= 0) | (r == 0))
            self.ctx.assume(~(p >= 1) | (r == n))
        self.log.append(("binomial", n, p, r))
        return r


class Library:
    """The library with the files and the draws of one path."""

    FOLDER = "/graph"

    def __init__(self, ctx, draws=None, fuel=400_000):
        self.ctx = ctx
        self.draws = draws or Draws(ctx)
        if ctx.symbolic:
            self.m = llvm.Machine(module(), fuel)
            self.m.used = USED
            self.m.state = {"files": {}, "listing": [], "draws": self.draws}
            self.folder = self.FOLDER
            for f in _module.initialisers:
                self.m.direct(f)
        else:
            self.folder = tempfile.mkdtemp(prefix="graph-")
            ctx.on_exit(lambda: shutil.rmtree(self.folder, ignore_errors=True))

    # -- files
    def put(self, name, parts):
        """A file from (code, value) pieces."""
        if self.ctx.symbolic:
            self.m.state["files"][self.folder + "/" + name] = llvm.file_object([(SIZES[c], v) if c != "s" else (0, v) for c, v in parts])
            self.m.state["listing"].append(name)
        else:
            with open(os.path.join(self.folder, name), "wb") as f:
                for c, v in parts:
                    f.write(v if c == "s" else _pack(c, v))

    # -- calls
    def call(self, name, *args):
        return self._symbolic(name, args) if self.ctx.symbolic else self._concrete(name, args)

    def _symbolic(self, name, args):
        m = self.m
        given = []
        arrays = []
        for a, ty in zip(args, m.m.arg_types("@" + name)):
            if isinstance(a, Arr):
                p = m.array(SIZES[a.code], a.values, "argument array")
                arrays.append((a, p))
                given.append(p)
            elif isinstance(a, (str, bytes)):
                given.append(m.new_bytes((a.encode() if isinstance(a, str) else a) + b"\0", "text"))
            elif ty.k == "f":
                given.append(float(a) if isinstance(a, int) else a)
            elif type(a) is int:
                given.append(a & ((1 << (64 if ty.k == "p" else ty.n)) - 1))
            else:
                given.append(a)
        r = m.direct("@" + name, *given)
        for a, p in arrays:
            size = SIZES[a.code]
            a.values = [_read(m, a.code, p + i * size) for i in range(len(a.values))]
        return r

    def _concrete(self, name, args):
        h = Helper.get()
        given = []
        for a in args:
            if isinstance(a, Arr):
                size = SIZES[a.code]
                data = b"".join(b"\xbe" * size if v is None else _pack(a.code, v) for v in a.values)
                given.append([data])
            elif isinstance(a, str):
                given.append(a.encode())
            else:
                given.append(a)
        try:
            r, arrays = h.call(name, given, self.draws)
        except BaseException:
            if Helper.one is h:
                h.stop()
            raise
        arrays = iter(arrays)
        for a in args:
            if isinstance(a, Arr):
                data = next(arrays)
                a.values = list(struct.unpack("<%d%s" % (len(a.values), a.code), data))
        return r


def _pack(c, v):
    if c in "qQiI":
        n = SIZES[c]
        return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
    return struct.pack("<" + c, float(v) if c == "f" else int(v))


def _read(m, code, a):
    size = SIZES[code]
    v = m.load(a, size)
    if code == "f":
        return llvm.as_float(v, 4)
    if type(v) is llvm.Blob:
        raise Unsupported("mixed cells in an output")
    v = llvm._int(v, 8 * size)
    if type(v) is int:
        return llvm.signed(v, 8 * size) if code in "qi" else v
    return v if code in "qi" else llvm.unsigned(v, 8 * size)


class Helper:
    """The program running the library; it may crash without taking the replay along."""

    one = None

    @classmethod
    def get(cls):
        if cls.one is None:
            cls.one = cls()
        return cls.one

    def __init__(self):
        exe = library()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        env = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:handle_abort=1"}
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe, str(r1), str(w2)], pass_fds=(r1, w2), env=env, stdout=subprocess.DEVNULL, stderr=self.err)
        os.close(r1)
        os.close(w2)
        self.out, self.inp = os.fdopen(w1, "wb", 0), os.fdopen(r2, "rb", 0)
        if self.take(5) != b"ready":
            raise Unsupported("the library for replays does not start")

    def take(self, n):
        data = b""
        while len(data) < n:
            more = self.inp.read(n - len(data))
            if not more:
                raise EOFError
            data += more
        return data

    def stop(self):
        Helper.one = None
        self.p.kill()
        self.p.wait()
        self.out.close()
        self.inp.close()

    def call(self, name, args, draws):
        """(result, contents of the arrays); `args` are ints, floats, bytes (texts) and [bytes] (arrays)."""
        msg = [struct.pack("<I", len(name)), name.encode(), struct.pack("<I", len(args))]
        sizes = []
        for a in args:
            if isinstance(a, list):
                sizes.append(len(a[0]))
                msg += [b"a", struct.pack("<Q", len(a[0])), a[0]]
            elif isinstance(a, bytes):
                msg += [b"t", struct.pack("<Q", len(a) + 1), a, b"\0"]
            elif isinstance(a, float):
                msg += [b"f", struct.pack("<f", a)]
            else:
                msg += [b"i", (int(a) & (1 << 64) - 1).to_bytes(8, "little")]
        try:
            self.out.write(b"".join(msg))
            while True:
                if self.take(1) == b"R":
                    return struct.unpack("<q", self.take(8))[0], [self.take(n) for n in sizes]
                kind = self.take(1)
                data = self.take(16)
                if kind == b"r":
                    self.out.write(struct.pack("<d", draws.real(*struct.unpack("<dd", data))))
                elif kind == b"o":
                    self.out.write(struct.pack("<q", draws.order(struct.unpack("<qq", data)[0])))
                elif kind == b"i":
                    self.out.write(struct.pack("<q", draws.integer(*struct.unpack("<qq", data))))
                else:
                    self.out.write(struct.pack("<q", draws.binomial(*struct.unpack("<qd", data))))
        except (EOFError, BrokenPipeError):
            self.p.wait()
            self.err.seek(0)
            text = self.err.read().decode(errors="replace")
            self.stop()
            raise llvm.NativeFault("the library crashed: " + _summary(text)) from None


def _summary(text):
    m = re.search(r"SUMMARY: .*|fatal error: .*|terminate called.*(?:\n.*what.*)?", text)
    lines = [x.strip() for x in re.findall(r"#\d+ 0x\w+ in (snark::[^\n]*)", text)][:2]
    return (m.group(0) if m else text[-300:]) + (" at " + "; ".join(lines) if lines else "")
