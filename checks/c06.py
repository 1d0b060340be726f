"""C06: JSON records decode to exactly the node and edges they describe."""
from deepgnn.graph_engine.snark import decoders

from checks import binlib
from checks.c05 import check_feature
from symx.core import And, Eq, Ite, Or
from symx.env import Env
from symx.runner import Harness

BOUNDS = "ids, types, times and feature values any of their type, weights any multiple of 1/4; numbers of edges and features as listed; features spread over kinds and indexes in any order"
OUTSIDE = "more edges or features than listed; malformed records; times at or above 2^60"
ID = 2**62
T = 2**60


def _time(ctx, name, lo):
    return ctx.int(name, lo, T) if ctx.flag(name + ".given") else None


def leq(a, b):
    """Lexicographic a <= b as one term."""
    r = True
    for x, y in reversed(list(zip(a, b))):
        r = Or(x < y, And(Eq(x, y), r))
    return r


def edges(ctx, b):
    """Every edge once with its own fields, ordered by type, lifetime and destination."""
    env = Env(ctx)
    dec = decoders.JsonDecoder()
    rec = {"node_id": ctx.int("id", 0, ID), "node_type": ctx.int("type", 0, 9), "node_weight": ctx.real("weight", 0, 9), "edge": []}
    nc, nr = (_time(ctx, "nc", 0), _time(ctx, "nr", -1)) if b["times"] else (None, None)
    if nc is not None:
        rec["created_at"] = nc
    if nr is not None:
        rec["removed_at"] = nr
    nc, nr = 0 if nc is None else nc, -1 if nr is None else nr
    want = []
    for k in range(ctx.pick("edges", 0, b["edges"])):
        # the weight identifies the edge in the output
        e = {"src_id": rec["node_id"], "dst_id": ctx.int(f"dst{k}", 0, ID), "edge_type": ctx.int(f"et{k}", 0, 3), "weight": (k + 1) / 4}
        c, r = (_time(ctx, f"ec{k}", 0), _time(ctx, f"er{k}", -1)) if b["times"] else (None, None)
        if c is not None:
            e["created_at"] = c
        if r is not None:
            e["removed_at"] = r
        rec["edge"].append(e)
        want.append((e["src_id"], e["dst_id"], e["edge_type"], e["weight"], nc if c is None else c, nr if r is None else r))
    out = list(dec.decode(env.json.dumps(rec)))
    ctx.check(len(out) == 1 + len(want), "the node and each of its edges", lambda: f"{out}")
    ctx.check_eq(out[0][:6], (rec["node_id"], -1, rec["node_type"], rec["node_weight"], nc, nr), "the node comes first")
    ctx.check(all(list(x[6]) == [] for x in out), "no features")
    seen = []
    keys = []
    for o in out[1:]:
        k = round(float(o[3]) * 4) - 1
        ctx.check(0 <= k < len(want) and k not in seen, "each edge once", lambda: f"{out}")
        seen.append(k)
        ctx.check_eq(o[:6], want[k], "fields of an edge")
        w = want[k]
        keys.append((w[2], w[4], Ite(Eq(w[5], -1), 2 * T, w[5]), w[1]))
    for x, y in zip(keys, keys[1:]):
        ctx.check(leq(x, y), "edges are ordered by type, lifetime and destination", lambda: f"{x} before {y}")
    if len(want) > 1:
        ctx.cover("several edges")


JSON_KEYS = {"float32": ["float_feature", "float32_feature"], "float64": ["double_feature", "float64_feature"]}


def feature(ctx, env, name, kinds):
    """(key, value, expectation)"""
    k = ctx.choice(name + ".kind", kinds)
    if k[0] == "text":
        return "binary_feature", "té,x", ("text", "té,x")
    dt, n = k[1], k[2]
    key = ctx.choice(name + ".key", JSON_KEYS.get(dt, [dt + "_feature"]))
    vals = [binlib.value(ctx, f"{name}.v{i}", binlib.DTYPES[dt]) for i in range(n)]
    if k[0] == "dense":
        return key, vals, (dt, vals, None)
    dim = k[3]
    coords = [ctx.int(f"{name}.c{i}", 0, 2**40) for i in range(n * max(dim, 1))]
    rows = [coords[i * dim : (i + 1) * dim] for i in range(n)] if dim else coords
    return "sparse_" + key, {"coordinates": rows, "values": vals}, (dt, vals, rows)


def features(ctx, b):
    env = Env(ctx)
    dec = decoders.JsonDecoder()
    items, wants = [], []
    for j, el in enumerate(["node", "edge"]):
        it = {"node_id": 3, "node_type": 0, "node_weight": 1.0} if j == 0 else {"src_id": 3, "dst_id": j, "edge_type": 0, "weight": 1.0}
        want = []
        idx = [i for i in range(b["indexes"]) if ctx.flag(f"{el}.has{i}")]
        ctx.assume(len(idx) + sum(len(w) for w in wants) <= b["total"])
        for i in ([idx[x] for x in ctx.permutation(f"{el}.order", len(idx))] if b["any_order"] else idx):
            key, val, e = feature(ctx, env, f"{el}.f{i}", b["kinds"])
            it.setdefault(key, {})[str(i)] = val
            want.append((i, e))
        if (b["any_order"] or not j) and ctx.flag(f"{el}.empty_groups"):
            it.setdefault("uint64_feature", {})
            it.setdefault("binary_feature", None)
        items.append(it)
        wants.append(dict(want))
    rec = dict(items[0], edge=items[1:])
    out = list(dec.decode(env.json.dumps(rec)))
    ctx.check(len(out) == 2, "the node and its edge", lambda: f"{out}")
    for o, w, el in zip(out, wants, ["the node", "the edge"]):
        fs = list(o[6])
        n = max(list(w) + [-1]) + 1
        ctx.check(len(fs) >= n and all(f is None for f in fs[n:]), f"number of features of {el}", lambda: f"{fs}")
        for i in range(n):
            check_feature(ctx, env.np, fs[i], w.get(i), f"feature {i} of {el}")
        if any(i not in w for i in range(n)):
            ctx.cover("gap")


KINDS = [("dense", "float32", 2), ("dense", "uint64", 1), ("text",), ("sparse", "float32", 1, 2), ("dense", "int64", 0)]
TYPES = [("dense", t, 1) for t in sorted(binlib.DTYPES)] + [("sparse", t, 2, d) for t in sorted(binlib.DTYPES) for d in (0, 2)]
HARNESSES = [
    Harness("order", edges, dict(edges=3, times=False), dict(edges=4, times=False), covers=["several edges"]),
    Harness("times", edges, dict(edges=2, times=True), dict(edges=3, times=True), covers=["several edges"], weight=2),
    Harness("features", features, dict(indexes=2, kinds=KINDS, any_order=True, total=2), dict(indexes=3, kinds=KINDS, any_order=True, total=3), covers=["gap"], weight=2),
    Harness("element_types", features, dict(indexes=1, kinds=TYPES, any_order=False, total=1)),
]
