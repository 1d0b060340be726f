"""Features that change with time."""
from checks.c33 import ASSUMPTIONS  # noqa: F401
from checks.c34 import T
from checks.c37 import cells, find, same
from checks.englib import Edge, Features, I63, Library, Node, World, ids, prepare  # noqa: F401
from symx.native import SIZES
from symx.core import And
from symx.runner import Harness

BOUNDS = ("a node or an edge with up to 2 features of up to 2 versions (thorough 3) of up to 2 bytes or sparse values, missing features among them; start times of versions and requested times any numbers below 2^62; "
          "up to 2 queried nodes or edges with their own times; in memory or on disk; one file, or two with versions of up to two features in both")
OUTSIDE = "queries without a time, features of one edge spread over several files, parallel edges of one type between the same nodes"


def versions(ctx, name, most, body, least=0):
    """A feature as stored and the list of (start, contents); no versions when missing."""
    n = ctx.pick(f"{name}_versions", least, most)
    starts = [ctx.int(f"{name}_start{k}", 0, T) for k in range(n)]
    for a, b in zip(starts, starts[1:]):
        ctx.assume(a < b)
    if not n:
        return [], []
    bodies = [body(f"{name}_{k}") for k in range(n)]
    at = 4 + 8 * n + 8 * (n + 1)
    offsets = [at]
    for pieces, _ in bodies:
        at += sum(SIZES[c] for c, _ in pieces)
        offsets.append(at)
    return [("I", n)] + [("q", s) for s in starts] + [("q", o) for o in offsets] + [p for pieces, _ in bodies for p in pieces], list(zip(starts, [c for _, c in bodies]))


def current(history, ts):
    """The contents at a time; branches on the order of the times."""
    r = None
    for start, contents in history:
        if bool(start <= ts):
            r = contents
    return r


def world(ctx, b, body):
    me, other, stranger = ids(ctx, 3)
    fs = [versions(ctx, f"f{i}", b["versions"], lambda n, i=i: body(n, i), b.get("present", 0)) for i in range(b["features"])]
    lib = Library(ctx)
    disk = ctx.pick("disk", 0, 1) if b.get("disk", 1) else 0
    if b.get("edges"):
        to = ctx.int("dst", 0, 100)
        es = [Edge(to, 0, 1.0, 0, -1, [f[0] for f in fs])]
        w = World(lib, {"0_0": [Node(other, 1, []), Node(me, 0, es)]}, watermark=0, edge_features=b["features"], disk=disk)
        keys = [(me, to, 0), (me, to + 1, 0), (me, to, 1), (stranger, to, 0)]
        ask = [keys[ctx.pick(f"ask{k}", 0, b.get("keys", 4) - 1)] for k in range(ctx.pick("asked", 1, b["asked"]))]
        known = [k is keys[0] for k in ask]
    elif b.get("split"):
        gs = [versions(ctx, f"g{i}", b["versions"], lambda n, i=i: body(n, i), b.get("present", 0)) for i in range(b["features"])]
        w = World(lib, {"0_0": [Node(me, 0, [], [f[0] for f in fs])], "1_0": [Node(me, -1, [], [f[0] for f in gs])]}, watermark=0, node_features=b["features"], disk=disk)
        for f, g in zip(fs, gs):
            for s, _ in f[1]:
                for s2, _ in g[1]:
                    ctx.assume(s != s2)
        ask, known = [me], [True]
        ts = [ctx.int("at0", 0, T)]
        out = []
        for f, g in zip(fs, gs):
            both = [(s, c) for s, c in f[1] + g[1]]
            best = None
            for s, c in both:
                if bool(s <= ts[0]) and (best is None or bool(s > best[0])):
                    best = (s, c)
            out.append(None if best is None else best[1])
        return w, ask, ts, [out]
    else:
        parts = {"0_0": [Node(me, 0, [], [f[0] for f in fs]), Node(other, 1, [])]}
        if b.get("last") is None and ctx.flag("followed"):
            parts["0_0"][1].features = [versions_fixed()]
        w = World(lib, parts, watermark=0, node_features=b["features"], disk=disk)
        ask = [(me, stranger)[ctx.pick(f"ask{k}", 0, b.get("keys", 2) - 1)] for k in range(ctx.pick("asked", 1, b["asked"]))]
        known = [k is me for k in ask]
    ts = [ctx.int(f"at{k}", 0, T) for k in range(len(ask))]
    stored = [[current(f[1], t) for f in fs] if k else [None] * len(fs) for k, t in zip(known, ts)]
    return w, ask, ts, stored


def versions_fixed():
    """One version of a feature of another node, since time 0."""
    return [("I", 1), ("q", 0), ("q", 28), ("q", 29), ("B", 77)]


def blob(ctx, b):
    def body(name, i):
        n = ctx.pick(f"{name}_size", 0 if b.get("empty") else 1, b["size"])
        vs = [ctx.int(f"{name}_{k}", 0, 255) for k in range(n)]
        return [("B", v) for v in vs], vs

    return body


def dense(ctx, b):
    w, ask, ts, stored = world(ctx, b, blob(ctx, b))
    fs = [(k, b["bytes"]) for k in range(b["wanted"])] if b.get("present") else [(ctx.pick(f"feature{k}", 0, b["features"] - b.get("known", 0)), ctx.pick(f"bytes{k}", 1, b["bytes"])) for k in range(ctx.pick("wanted", b.get("fewest", 1), b["wanted"]))]
    want = []
    for s in stored:
        for f, size in fs:
            data = (s[f] or [])[:size] if f < len(s) else []
            want += data + [0] * (size - len(data))
            if data:
                ctx.cover("stored")
    same(ctx, Features(w, ask, ts).dense(fs), want, "features are those valid at the requested time, zeros where there is none")
    w.close()


def strings(ctx, b):
    w, ask, ts, stored = world(ctx, b, blob(ctx, b))
    fs = list(range(b["wanted"])) if b.get("present") else [ctx.pick(f"feature{k}", 0, b["features"] - b.get("known", 0)) for k in range(ctx.pick("wanted", b.get("fewest", 1), b["wanted"]))]
    data = [(s[f] or []) if f < len(s) else [] for s in stored for f in fs]
    dims, got, size = Features(w, ask, ts).strings(fs)
    same(ctx, dims, [len(d) for d in data], "the lengths of string features are those at the requested time")
    same(ctx, got, [v for d in data for v in d], "the contents of string features are those at the requested time")
    if size:
        ctx.cover("stored")
    w.close()


def sparse(ctx, b):
    dims = [ctx.pick(f"dim{f}", 1, b["dim"]) for f in range(b["features"])]

    def body(name, i):
        pieces, rows, values = cells(ctx, name, dims[i], b["size"], 1)
        return pieces, (rows, values)

    w, ask, ts, stored = world(ctx, b, body)
    fs = [ctx.pick(f"feature{k}", 0, b["features"] - b.get("known", 0)) for k in range(ctx.pick("wanted", b.get("fewest", 1), b["wanted"]))]
    gd, gi, gv, sizes = Features(w, ask, ts).sparse(fs)
    for k, f in enumerate(fs):
        ind, val = [], []
        for n, s in enumerate(stored):
            if f < len(s) and s[f]:
                ind += [x for r in s[f][0] for x in [n] + r]
                val += s[f][1]
                ctx.cover("stored")
        same(ctx, gi[k], ind, "sparse indices are those at the requested time")
        same(ctx, gv[k], val, "sparse values are those at the requested time")
    w.close()


Q = {"features": 2, "versions": 2, "size": 1, "asked": 1, "wanted": 1, "bytes": 1, "dim": 1}
HARNESSES = [
    Harness("dense", dense, Q, {**Q, "versions": 3, "size": 2, "bytes": 2}, covers=["stored"]),
    Harness("dense_two", dense, {**Q, "features": 1, "asked": 2, "disk": 0, "last": 1}, {**Q, "asked": 2, "wanted": 2}, covers=["stored"]),
    Harness("dense_bytes", dense, {**Q, "features": 1, "size": 2, "bytes": 3, "empty": 1, "wanted": 2, "keys": 1, "disk": 0}, {**Q, "size": 2, "bytes": 3, "empty": 1, "wanted": 2}, covers=["stored"], weight=2),
    Harness("strings", strings, {**Q, "size": 1, "keys": 1}, {**Q, "versions": 3, "size": 2, "wanted": 2}, covers=["stored"]),
    Harness("strings_two", strings, {**Q, "features": 1, "wanted": 2, "asked": 2, "disk": 0}, {**Q, "asked": 2, "wanted": 2}, covers=["stored"]),
    Harness("sparse", sparse, {**Q, "size": 2, "features": 1, "dim": 2, "asked": 2, "disk": 0}, {**Q, "size": 2, "dim": 2, "asked": 2}, covers=["stored"], weight=2),
    Harness("edge_dense", dense, {**Q, "edges": 1}, {**Q, "edges": 1, "versions": 3, "size": 2, "bytes": 2, "asked": 2}, covers=["stored"]),
    Harness("edge_strings", strings, {**Q, "edges": 1, "disk": 0}, {**Q, "edges": 1, "versions": 3, "size": 2, "asked": 2}, covers=["stored"]),
    Harness("edge_sparse", sparse, {**Q, "edges": 1, "features": 1, "size": 2, "dim": 2, "disk": 0}, {**Q, "edges": 1, "size": 2, "dim": 2, "asked": 2}, covers=["stored"]),
    Harness("two_files", dense, {**Q, "split": 1, "features": 1, "disk": 0}, {**Q, "split": 1, "features": 2, "wanted": 2}, covers=["stored"]),
    Harness("two_files_strings", strings, {**Q, "split": 1, "features": 1, "size": 2, "disk": 0}, {**Q, "split": 1, "features": 1, "size": 2, "versions": 3}, covers=["stored"], weight=3),
    Harness("two_files_sparse", sparse, {**Q, "split": 1, "features": 1, "size": 2, "dim": 2, "disk": 0}, {**Q, "split": 1, "features": 1, "size": 2, "dim": 2, "versions": 3}, covers=["stored"], weight=3),
    Harness("two_files_both", dense, {**Q, "split": 1, "wanted": 2, "versions": 1, "present": 1, "size": 2, "bytes": 2, "disk": 0}, {**Q, "split": 1, "wanted": 2, "present": 1, "size": 2, "bytes": 2}, covers=["stored"]),
    Harness("two_files_lengths", strings, {**Q, "split": 1, "wanted": 2, "versions": 1, "present": 1, "size": 2, "disk": 0}, {**Q, "split": 1, "wanted": 2, "present": 1, "size": 2}, covers=["stored"], weight=3),
]
