"""C01: binary graph files hold exactly the records that were converted."""
from deepgnn.graph_engine.snark.converter import writers

from checks import binlib
from symx.env import Env
from symx.runner import Harness

BOUNDS = "ids any unsigned 63-bit, weights any multiple of 1/4 up to 64, feature values any of their type; numbers of records, types, features and feature sizes as listed; text features from a fixed set"
OUTSIDE = "more records or features than listed; edges of a node not sorted by type (rejected by the writer); alias files (C04) and timestamps (C02)"
ASSUMPTIONS = ["weights exactly representable in 32-bit floats"]
ID = 2**63 - 1


def structure(ctx, b):
    """Any mix of nodes, edges and edges without their node; spread over several add() calls."""
    env = Env(ctx)
    w = writers.BinaryWriter(env.path(), ctx.pick("partition", 0, 1) * 7, True, True)
    p = w.suffix if hasattr(w, "suffix") else 0
    m = binlib.Model()
    n = ctx.pick("records", 0, b["records"])
    calls = [[]]
    for i in range(n):
        if i in b["calls"] and ctx.flag(f"call{i}"):
            calls.append([])
        nid = ctx.int(f"src{i}", 0, ID)
        typ = ctx.pick(f"type{i}", 0, b["types"] - 1)
        wt = ctx.real(f"w{i}", 0, 64)
        if ctx.flag(f"is_edge{i}"):
            dst = ctx.int(f"dst{i}", 0, ID)
            placeholder = len(m.nodes)
            m.edge(nid, dst, typ, wt)
            last = m.nodes[-1][3]
            ctx.assume(len(last) < 2 or last[-2][1] <= typ)
            if len(m.nodes) > placeholder:
                ctx.cover("placeholder")
            calls[-1].append((nid, dst, typ, wt, None, None, []))
        else:
            m.node(nid, typ)
            calls[-1].append((nid, -1, typ, wt, None, None, []))
    for c in calls:
        w.add(iter(c))
    w.close()
    binlib.check_partition(ctx, env, p, m.nodes)
    ne = sum(len(x[3]) for x in m.nodes)
    ctx.check_eq([w.node_count, w.edge_count], [sum(1 for x in m.nodes if x[1] >= 0), ne], "records counted by the writer")


def _feats(ctx, env, name, b):
    fs = [binlib.feature(ctx, env, f"{name}.f{k}", b["kinds"]) for k in range(ctx.pick(f"{name}.count", 0, b["features"]))]
    return [x for x, _ in fs], [e for _, e in fs]


def node_features(ctx, b):
    env = Env(ctx)
    w = writers.BinaryWriter(env.path(), 0, True, True)
    m = binlib.Model()
    recs = []
    for i in range(b["nodes"]):
        f, e = _feats(ctx, env, f"n{i}", b)
        nid = ctx.int(f"id{i}", 0, ID)
        recs.append((nid, -1, 0, 1.0, None, None, f))
        m.node(nid, 0, e)
        if ctx.flag(f"orphan{i}") if b.get("orphans") else False:
            s = ctx.int(f"o{i}", 0, ID)
            recs.append((s, 5, 0, 1.0, None, None, []))
            m.edge(s, 5, 0, 1.0)
    w.add(iter(recs))
    w.close()
    binlib.check_partition(ctx, env, 0, m.nodes)
    ctx.check(w.node_feature_count == max(len(x[-1]) for x in recs if x[1] == -1), "feature count of the writer", lambda: f"{w.node_feature_count}")
    if b"" in [e for x in m.nodes for e in x[2][:-1]]:
        ctx.cover("gap")


def edge_features(ctx, b):
    env = Env(ctx)
    w = writers.BinaryWriter(env.path(), 0, True, True)
    m = binlib.Model()
    recs = []
    for i in range(b["edges"]):
        if ctx.flag(f"node{i}"):
            nid = ctx.int(f"id{i}", 0, ID)
            f, e = (lambda x: ([x[0]], [x[1]]))(binlib.dense(ctx, env, f"n{i}", "float32", 1)) if ctx.flag(f"nf{i}") else ([], [])
            recs.append((nid, -1, 0, 1.0, None, None, f))
            m.node(nid, 0, e)
        src = m.nodes[-1][0] if m.nodes else ctx.int(f"src{i}", 0, ID)
        f, e = _feats(ctx, env, f"e{i}", b)
        recs.append((src, i, 0, 0.5, None, None, f))
        m.edge(src, i, 0, 0.5, e)
    w.add(iter(recs))
    w.close()
    binlib.check_partition(ctx, env, 0, m.nodes)
    ctx.check(w.edge_feature_count == max(len(x[-1]) for x in recs if x[1] != -1), "feature count of the writer", lambda: f"{w.edge_feature_count}")
    if b"" in [e for x in m.nodes for y in x[3] for e in y[3][:-1]]:
        ctx.cover("gap")


def element_types(ctx, b):
    """Every element type, dense and sparse, for node and edge features."""
    env = Env(ctx)
    w = writers.BinaryWriter(env.path(), 0, True, True)
    dt = ctx.choice("dtype", sorted(binlib.DTYPES))
    n = ctx.pick("length", 1, b["length"])
    if ctx.flag("sparse"):
        dim = ctx.pick("dim", 0, 3)
        f, e = binlib.sparse(ctx, env, "s", dt, n, dim)
        if n == 1 and dim and ctx.flag("flat_coordinates"):
            f = (f[0].reshape(-1), f[1])
            e = binlib.sparse_bytes(ctx, f[0].tolist(), 0, f[1].tolist(), binlib.DTYPES[dt])
            ctx.cover("flat")
    else:
        f, e = binlib.dense(ctx, env, "d", dt, n)
    g, ge = binlib.dense(ctx, env, "after", "int32", 1)
    w.add(iter([(3, -1, 0, 1.0, None, None, [f, g]), (3, 4, 0, 1.0, None, None, [g, f])]))
    w.close()
    m = binlib.Model()
    m.node(3, 0, [e, ge])
    m.edge(3, 4, 0, 1.0, [ge, e])
    binlib.check_partition(ctx, env, 0, m.nodes)


KINDS = [None, "text", ("sparse", "float32", 1, 2), ("dense", "float32", 2)]
MORE = KINDS + [("dense", "uint8", 3), ("dense", "int64", 0), ("sparse", "int32", 2, 0), ("sparse", "uint8", 0, 0)]
HARNESSES = [
    Harness("structure", structure, dict(records=4, types=2, calls=[2]), dict(records=5, types=2, calls=[2, 3]), covers=["placeholder"], weight=3),
    Harness("node_features", node_features, dict(nodes=2, features=2, kinds=KINDS + [("dense", "uint8", 3), ("sparse", "uint8", 0, 0)]), dict(nodes=2, features=2, kinds=MORE, orphans=True), covers=["gap"], weight=2),
    Harness("edge_features", edge_features, dict(edges=2, features=2, kinds=KINDS[1:] + [None]), dict(edges=2, features=2, kinds=MORE), covers=["gap"], weight=2),
    Harness("element_types", element_types, dict(length=2), dict(length=4), covers=["flat"]),
]
