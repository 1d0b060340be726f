"""Features of nodes and edges of a loaded graph."""
from checks.c33 import ASSUMPTIONS  # noqa: F401
from checks.englib import Edge, Features, I63, Library, Node, World, ids, prepare  # noqa: F401
from symx.core import And
from symx.runner import Harness

BOUNDS = ("two nodes or edges with up to 2 features of up to 2 bytes or 2 sparse values with up to 2 indices each, any contents; up to 2 queried nodes or edges, known or not, and up to 2 requested features, stored or not, of up to 3 bytes; "
          "features kept in memory or on disk; nodes in one file or two, of which one holds the features; neighbourhoods of up to 3 edges, and one of 18")
OUTSIDE = "larger features, features of one node spread over several files, parallel edges of one type between the same nodes"


def blob(ctx, name, most, least=0):
    """A feature of a few bytes, empty when missing."""
    return [("B", ctx.int(f"{name}_{i}", 0, 255)) for i in range(ctx.pick(f"{name}_size", least, most))]


def cells(ctx, name, dim, most, least=0):
    """A sparse feature: the pieces as stored, the rows of indices, the values."""
    n = ctx.pick(f"{name}_values", least, most)
    rows = [[ctx.int(f"{name}_i{k}_{d}", 0, I63 - 1) for d in range(dim)] for k in range(n)]
    values = [ctx.int(f"{name}_v{k}", 0, 255) for k in range(n)]
    if not n:
        return [], [], []
    return [("I", n * dim), ("I", dim)] + [("q", x) for r in rows for x in r] + [("B", v) for v in values], rows, values


def same(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + " (length)")
    for g, w in zip(got, want):
        ctx.check(g == w, what)


def find(table, key):
    """The stored features of a node or an edge; branches on equality of the symbolic keys."""
    for k, f in table:
        if bool(And(*[a == b for a, b in zip(k, key)])):
            return f
    return []


def nodes(ctx, b, make):
    me, other, stranger = ids(ctx, 3)
    mine, third = make("mine", b["features"]), make("other", 1)
    lib = Library(ctx)
    parts = {"0_0": [Node(other, 1, [], third[0]), Node(me, 0, [Edge(other, 0)], mine[0])]}
    place = ctx.pick("place", 0, 2) if b.get("split") else 0
    if place:
        parts = {"0_0": [Node(me, 0, [], mine[0]), Node(other, 1, [], third[0])], "1_0": [Node(me, -1, [Edge(5, 0)])]}
        if place == 2:
            parts = {"0_0": [Node(me, -1, [Edge(5, 0)])], "1_0": [Node(other, 1, [], third[0]), Node(me, 0, [], mine[0])]}
    w = World(lib, parts, node_features=b["features"], disk=ctx.pick("disk", 0, 1) if b.get("disk", 1) else 0)
    ask = [me, other] if b.get("sure") else [(me, other, stranger)[ctx.pick(f"ask{k}", 0, 2)] for k in range(ctx.pick("asked", 1, b["asked"]))]
    return w, ask, [find([((me,), mine[1]), ((other,), third[1])], (x,)) for x in ask]


def edges(ctx, b, make):
    me, other, stranger = ids(ctx, 3)
    dst = [ctx.int(f"dst{k}", -I63, I63 - 1) for k in range(2)]
    types = [ctx.pick(f"type{k}", 0, b.get("types", 2) - 1) for k in range(2)]
    ctx.assume(types[0] <= types[1] or b.get("split"))
    if types[0] == types[1]:
        ctx.assume(dst[0] < dst[1])
    mine = [make(f"mine{k}", b["features"]) for k in range(2)]
    es = [Edge(dst[k], types[k], 1.0, features=mine[k][0]) for k in range(2)]
    lib = Library(ctx)
    cut = ctx.pick("cut", 0, 2) if b.get("split") else 2
    parts = {"0_0": [Node(other, 1, []), Node(me, 0, es[:cut])]}
    if cut < 2:
        parts["1_0"] = [Node(me, -1, es[cut:])]
        ctx.assume(cut == 1 or types[0] <= types[1])
    else:
        ctx.assume(types[0] <= types[1])
    w = World(lib, parts, edge_features=b["features"], disk=ctx.pick("disk", 0, 1) if b.get("disk", 1) else 0)
    ask = []
    for k in range(0 if b.get("sure") else ctx.pick("asked", 1, b["asked"])):
        ask.append(((me, other, stranger)[ctx.pick(f"src{k}", 0, 2)], ctx.int(f"to{k}", -I63, I63 - 1), ctx.pick(f"kind{k}", 0, 1)))
    if b.get("sure"):
        ask = [(me, dst[k], types[k]) for k in range(2)]
    table = [((me, dst[k], types[k]), mine[k][1]) for k in range(2)]
    return w, ask, [find(table, x) for x in ask]


def blobs(ctx, b):
    def make(name, n):
        fs = [blob(ctx, f"{name}{i}", b["size"]) for i in range(n if b.get("sure") else ctx.pick(f"{name}_features", 0, n))]
        return fs, fs

    return make


def wanted(ctx, b, sizes):
    n = b["wanted"] if b.get("sure") else ctx.pick("wanted", 1, b["wanted"])
    fs = ([1, 0] if ctx.flag("swapped") else [0, 1]) if b.get("sure") else [ctx.pick(f"feature{k}", 0, b["features"]) for k in range(n)]
    return [(f, ctx.pick(f"bytes{k}", 1, b["bytes"])) for k, f in enumerate(fs)] if sizes else fs


def dense(ctx, b):
    w, ask, stored = (edges if b.get("edges") else nodes)(ctx, b, blobs(ctx, b))
    fs = wanted(ctx, b, True)
    want = []
    for s in stored:
        for f, size in fs:
            data = [v for _, v in s[f]][:size] if f < len(s) else []
            want += data + [0] * (size - len(data))
            if data:
                ctx.cover("stored")
    same(ctx, Features(w, ask).dense(fs), want, "features are returned as stored, cut or filled with zeros to the requested size, zeros where there is none")
    w.close()


def strings(ctx, b):
    w, ask, stored = (edges if b.get("edges") else nodes)(ctx, b, blobs(ctx, b))
    fs = wanted(ctx, b, False)
    data = [[v for _, v in s[f]] if f < len(s) else [] for s in stored for f in fs]
    dims, got, size = Features(w, ask).strings(fs)
    same(ctx, dims, [len(d) for d in data], "the lengths of string features are those stored, 0 where there is none")
    same(ctx, got, [v for d in data for v in d], "the contents of string features are those stored, in the order requested")
    if size:
        ctx.cover("stored")
    w.close()


def sparse(ctx, b):
    dims = [ctx.pick(f"dim{f}", 1, b["dim"]) for f in range(b["features"])]

    def make(name, n):
        fs = [cells(ctx, f"{name}{i}", dims[i], b["size"]) for i in range(ctx.pick(f"{name}_features", 0, n))]
        return [f[0] for f in fs], fs

    w, ask, stored = (edges if b.get("edges") else nodes)(ctx, b, make)
    fs = wanted(ctx, b, False)
    gd, gi, gv, sizes = Features(w, ask).sparse(fs)
    for k, f in enumerate(fs):
        ind, val, dim = [], [], 0
        for n, s in enumerate(stored):
            if f < len(s) and s[f][0]:
                dim = dims[f]
                ind += [x for r in s[f][1] for x in [n] + r]
                val += s[f][2]
                ctx.cover("stored")
        ctx.check(gd[k] == dim, "the dimension of sparse indices is the stored one")
        same(ctx, gi[k], ind, "sparse indices are those stored, each preceded by the position of its node in the request")
        same(ctx, gv[k], val, "sparse values are those stored")
    w.close()


def none(ctx, b):
    """Graphs without any feature."""
    me, other, stranger = ids(ctx, 3)
    w = World(Library(ctx), {"0_0": [Node(me, 0, [Edge(5, 0)]), Node(other, 1, [])]}, disk=ctx.pick("disk", 0, 1))
    x = (me, other, stranger)[ctx.pick("ask", 0, 2)]
    for q in (Features(w, [x]), Features(w, [(x, ctx.int("to", 0, 9), 0)])):
        same(ctx, q.dense([(ctx.pick("feature", 0, 1), 2)]), [0, 0], "a graph without features returns zeros")
        dims, got, size = q.strings([0])
        ctx.check(And(dims[0] == 0, size == 0), "a graph without features returns no string")
        dims, i, v, s = q.sparse([0])
        ctx.check(And(dims[0] == 0, s[0] == 0, s[1] == 0), "a graph without features returns no sparse values")
    w.close()


def many(ctx, b):
    """An edge among many, for which the engine searches differently."""
    n = 18
    order = sorted(range(n), key=lambda k: (k * 7) % n) if ctx.flag("unsorted") else list(range(n))
    es = [Edge(10 * k, 0, 1.0, features=[[("B", k + 1)]]) for k in order]
    w = World(Library(ctx, fuel=2_000_000), {"0_0": [Node(3, 0, es)]}, edge_features=1)
    to = ctx.int("to", -1, 10 * n)
    got = Features(w, [(3, to, 0)]).dense([(0, 1)])
    want = 0
    for k in range(n):
        if bool(to == 10 * k):
            want = k + 1
    ctx.check(got[0] == want, "the features of an edge are found among many edges")
    w.close()


Q = {"features": 2, "size": 1, "asked": 1, "wanted": 2, "bytes": 2}
HARNESSES = [
    Harness("none", none, {}, {}),
    Harness("many", many, {}, {}),
    Harness("dense", dense, {**Q, "size": 2, "wanted": 1, "bytes": 3}, {**Q, "size": 2, "asked": 2, "wanted": 2, "bytes": 3, "split": 1}, covers=["stored"]),
    Harness("dense_wide", dense, {**Q, "size": 2, "bytes": 3, "disk": 0, "sure": 1}, {**Q, "size": 3, "bytes": 4, "sure": 1}, covers=["stored"], weight=2),
    Harness("dense_split", dense, {**Q, "features": 1, "asked": 2, "bytes": 1, "split": 1, "disk": 0}, {**Q, "asked": 2, "split": 1}, covers=["stored"]),
    Harness("strings", strings, Q, {**Q, "size": 2, "asked": 2, "split": 1}, covers=["stored"]),
    Harness("strings_two", strings, {**Q, "features": 1, "asked": 2, "wanted": 1, "split": 1, "disk": 0}, {**Q, "size": 2, "asked": 2, "split": 1}, covers=["stored"]),
    Harness("sparse", sparse, {**Q, "dim": 2, "size": 2, "features": 1, "asked": 2, "wanted": 1}, {**Q, "dim": 2, "size": 2, "asked": 2, "split": 1}, covers=["stored"]),
    Harness("sparse_two", sparse, {**Q, "dim": 1, "size": 1, "features": 2, "disk": 0}, {**Q, "dim": 2, "size": 2, "asked": 2, "wanted": 2}, covers=["stored"]),
    Harness("edge_dense", dense, {**Q, "edges": 1, "wanted": 1, "bytes": 1, "disk": 0}, {**Q, "edges": 1, "asked": 2, "split": 1}, covers=["stored"], weight=2),
    Harness("edge_bytes", dense, {**Q, "edges": 1, "features": 1, "size": 2, "wanted": 1, "bytes": 3}, {**Q, "edges": 1, "features": 1, "size": 2, "bytes": 3, "asked": 2}, covers=["stored"], weight=2),
    Harness("edge_wide", dense, {**Q, "edges": 1, "types": 1, "disk": 0, "sure": 1}, {**Q, "edges": 1, "size": 2, "bytes": 3, "sure": 1}, covers=["stored"], weight=2),
    Harness("edge_split", dense, {**Q, "edges": 1, "features": 1, "wanted": 1, "bytes": 1, "split": 1, "asked": 1, "disk": 0}, {**Q, "edges": 1, "asked": 2, "wanted": 1, "split": 1}, covers=["stored"], weight=2),
    Harness("edge_strings", strings, {**Q, "edges": 1, "features": 1, "wanted": 2}, {**Q, "edges": 1, "asked": 2, "split": 1}, covers=["stored"], weight=2),
    Harness("edge_sparse", sparse, {**Q, "edges": 1, "dim": 2, "size": 2, "features": 1, "wanted": 1, "disk": 0}, {**Q, "edges": 1, "dim": 2, "size": 2, "asked": 2, "split": 1}, covers=["stored"], weight=2),
]
