"""Reference reader of partition files and makers of symbolic records and features."""
import numpy as _np

from symx import binio
from symx.core import Eq, is_sym
from symx.env import fields, pack

DTYPES = {"float32": "f", "float64": "d", "float16": "e", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "int64": "q", "uint64": "Q"}


def value(ctx, name, code):
    """An arbitrary value of an element type."""
    if code in "fde":
        return ctx.real(name, -64, 64)
    lo, hi = binio.int_range(code)
    return ctx.int(name, lo, hi)


def array(env, vals, dtype, shape=None):
    a = env.np.array(vals, dtype=getattr(env.np, dtype)) if vals else env.np.empty(0, dtype=getattr(env.np, dtype))
    return a.reshape(shape) if shape is not None else a


def dense(ctx, env, name, dtype, n):
    """(feature, bytes it must be stored as)"""
    c = DTYPES[dtype]
    vals = [value(ctx, f"{name}.{i}", c) for i in range(n)]
    return array(env, vals, dtype), pack(ctx, "=" + c * n, *vals) if n else b""


def sparse(ctx, env, name, dtype, n, dim):
    c = DTYPES[dtype]
    coords = [ctx.int(f"{name}.c{i}", 0, 2**40) for i in range(n * max(dim, 1))]
    vals = [value(ctx, f"{name}.v{i}", c) for i in range(n)]
    f = (array(env, coords, "int64", (n, dim) if dim else None), array(env, vals, dtype))
    return f, sparse_bytes(ctx, coords, dim, vals, c)


def sparse_bytes(ctx, coords, dim, vals, code):
    if not vals:
        return b""
    return pack(ctx, "=II" + "q" * len(coords) + code * len(vals), len(coords), dim if dim else 1, *coords, *vals)


def feature(ctx, env, name, kinds):
    """One feature of an arbitrary kind out of `kinds`."""
    k = ctx.choice(name + ".kind", kinds)
    if k is None:
        return None, b""
    if k == "text":
        t = ctx.choice(name + ".text", ["héé", ""])
        return t, t.encode()
    if k[0] == "dense":
        return dense(ctx, env, name, k[1], k[2])
    return sparse(ctx, env, name, k[1], k[2], k[3])


class Bad(Exception):
    pass


def u64s(env, name):
    r = fields(env.read_bytes(name), "=Q")
    if r is None:
        raise Bad(f"{name} has a partial entry")
    return [x[0] for x in r]


def _slice(data, a, b):
    if is_sym(a) or is_sym(b) or not 0 <= a <= b <= len(data):
        raise Bad(f"feature bounds {a}..{b} of {len(data)} bytes")
    return data[a:b]


def read_partition(env, p, it=0):
    """[(id, type, [feature bytes], [(dst, type, weight, [feature bytes])])] by the documented layout."""
    nodes = fields(env.read_bytes(f"node_{p}_{it}.map"), "=QQi")
    if nodes is None:
        raise Bad("node map has a partial record")
    ni = u64s(env, f"node_{p}_{it}.index")
    nfi = u64s(env, f"node_features_{p}_{it}.index")
    nfd = env.read_bytes(f"node_features_{p}_{it}.data")
    nbi = u64s(env, f"neighbors_{p}_{it}.index")
    ei = fields(env.read_bytes(f"edge_{p}_{it}.index"), "=QQif")
    if ei is None or not ei:
        raise Bad("edge index has a partial record or no end record")
    efi = u64s(env, f"edge_features_{p}_{it}.index")
    efd = env.read_bytes(f"edge_features_{p}_{it}.data")
    if len(ni) != len(nodes) + 1 or len(nbi) != len(nodes) + 1:
        raise Bad(f"{len(nodes)} nodes, {len(ni)} node index entries, {len(nbi)} neighbour index entries")
    if nbi[0] != 0 or nbi[-1] != len(ei) - 1:
        raise Bad(f"neighbour index covers {nbi[0]}..{nbi[-1]} of {len(ei) - 1} edges")
    if ni[0] != 0 or ni[-1] != len(nfi) - 1 or nfi[-1] != len(nfd):
        raise Bad("node feature index does not cover the features")
    if ei[0][1] != 0 or ei[-1][1] != len(efi) - 1 or efi[-1] != len(efd):
        raise Bad("edge feature index does not cover the features")
    out = []
    for i, (nid, pos, typ) in enumerate(nodes):
        if not bool(Eq(pos, i)):
            raise Bad(f"node {i} is stored with position {pos}")
        if not ni[i] <= ni[i + 1] or not nbi[i] <= nbi[i + 1]:
            raise Bad("index is not increasing")
        feats = [_slice(nfd, nfi[k], nfi[k + 1]) for k in range(ni[i], ni[i + 1])]
        edges = []
        for j in range(nbi[i], nbi[i + 1]):
            dst, f0, et, w = ei[j]
            if not f0 <= ei[j + 1][1]:
                raise Bad("edge feature index is not increasing")
            edges.append((dst, et, w, [_slice(efd, efi[k], efi[k + 1]) for k in range(f0, ei[j + 1][1])]))
        out.append((nid, typ, feats, edges))
    return out


def check_partition(ctx, env, p, expect):
    """The partition holds exactly `expect` (same shape as read_partition returns)."""
    try:
        got = read_partition(env, p)
    except Bad as e:
        ctx.fail(f"partition files are consistent: {e}")
    ctx.check(len(got) == len(expect), "number of nodes", lambda: f"{len(got)} != {len(expect)}")
    for i, (g, e) in enumerate(zip(got, expect)):
        ctx.check_eq(g[:2], e[:2], f"id and type of node {i}")
        check_features(ctx, g[2], e[2], f"node {i}")
        ctx.check(len(g[3]) == len(e[3]), f"number of edges of node {i}", lambda: f"{len(g[3])} != {len(e[3])}")
        for j, (ge, ee) in enumerate(zip(g[3], e[3])):
            ctx.check_eq(ge[:3], ee[:3], f"destination, type and weight of edge {j} of node {i}")
            check_features(ctx, ge[3], ee[3], f"edge {j} of node {i}")
    return got


def check_features(ctx, got, want, what):
    # trailing skipped features may be left out
    got, want = list(got), list(want)
    n = max(len(got), len(want))
    got += [b""] * (n - len(got))
    want += [b""] * (n - len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.check(len(a) == len(b), f"size of feature {k} of {what}", lambda: f"{len(a)} != {len(b)}")
        ctx.check(binio.bytes_eq(a, b), f"bytes of feature {k} of {what}", lambda: f"{a} != {b}")


class Model:
    """What a sequence of records must look like in a partition."""

    def __init__(self):
        self.nodes = []

    def node(self, nid, typ, feats=()):
        self.nodes.append((nid, typ, list(feats), []))

    def edge(self, src, dst, typ, w, feats=()):
        if not self.nodes or not bool(Eq(self.nodes[-1][0], src)):
            self.nodes.append((src, -1, [], []))
        self.nodes[-1][3].append((dst, typ, w, list(feats)))
