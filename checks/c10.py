"""C10: merging the metadata of conversion workers keeps every partition and every total."""
from deepgnn.graph_engine.snark import meta_merger
from deepgnn.graph_engine.snark.meta import BINARY_DATA_VERSION, Meta

from symx.core import Sum
from symx.env import Env
from symx.runner import Harness

BOUNDS = "every listing order of the listed number of workers, numbers of partitions per worker, type and feature counts; weights any multiple of 1/4 up to 1024, counts any up to 2^40"
OUTSIDE = "more workers, partitions or types; files of different format versions (rejected); weights whose sums round"


def merging(ctx, b):
    W = ctx.pick("workers", 1, b["workers"])
    # Eleven or more workers do not sort like numbers: name files with offsets.
    first = ctx.choice("first_worker", b.get("first", [0]))
    order = ctx.permutation("listing", W)
    names = [f"meta_{first + w}.json" for w in range(W)]
    env = Env(ctx, list_order=lambda xs: [xs[i] for i in order] if len(xs) == W else xs)
    if not ctx.symbolic:
        real = meta_merger.get_fs

        class FS:
            def __init__(self, fs):
                self._fs = fs

            def glob(self, *a, **k):
                r = self._fs.glob(*a, **k)
                return [r[i] for i in order] if len(r) == W else r

            def __getattr__(self, n):
                return getattr(self._fs, n)

        ctx.patch(meta_merger, "get_fs", lambda p: (FS(real(p)[0]), {}))
    metas, off = [], 0
    for w in range(W):
        P = ctx.pick(f"partitions{w}", 1, b["partitions"])
        nt = ctx.pick(f"node_types{w}", b.get("min_types", 0), b["types"])
        et = ctx.pick(f"edge_types{w}", b.get("min_types", 0), b["types"])
        m = {
            "binary_data_version": BINARY_DATA_VERSION,
            "node_count": ctx.int(f"nodes{w}", 0, 2**40), "edge_count": ctx.int(f"edges{w}", 0, 2**40),
            "node_type_count": nt, "edge_type_count": et,
            "node_feature_count": ctx.int(f"nf{w}", 0, 1000), "edge_feature_count": ctx.int(f"ef{w}", 0, 1000),
            "partitions": {
                str(off + p): {"node_weight": [ctx.real(f"nw{w}.{p}.{t}", 0, 1024) for t in range(nt)], "edge_weight": [ctx.real(f"ew{w}.{p}.{t}", 0, 1024) for t in range(et)]}
                for p in range(P)
            },
            "node_count_per_type": [ctx.int(f"nc{w}.{t}", 0, 2**40) for t in range(nt)],
            "edge_count_per_type": [ctx.int(f"ec{w}.{t}", 0, 2**40) for t in range(et)],
            "watermark": b.get("watermark", -1),
        }
        off += P
        metas.append(m)
        env.write_text(names[w], env.json.dumps(m))
        if P > 1:
            ctx.cover("several partitions")
    if len({m["node_type_count"] for m in metas}) > 1:
        ctx.cover("different types")
    meta_merger.merge_metadata_files(env.path())
    ctx.check(env.exists("meta.json"), "metadata is written")
    g = env.read_json("meta.json")
    nt = max(m["node_type_count"] for m in metas)
    et = max(m["edge_type_count"] for m in metas)
    pad = lambda x, n: list(x) + [0] * (n - len(x))
    ctx.check_eq([g["binary_data_version"], g["watermark"]], [BINARY_DATA_VERSION, b.get("watermark", -1)], "version and watermark")
    for k in ("node_count", "edge_count"):
        ctx.check_eq(g[k], Sum([m[k] for m in metas]), k)
    ctx.check_eq([g["node_type_count"], g["edge_type_count"]], [nt, et], "type counts cover all workers")
    for k in ("node_feature_count", "edge_feature_count"):
        for m in metas:
            ctx.check(g[k] >= m[k], k + " covers all workers", lambda: f"{g[k]} < {m[k]}")
        from symx.core import Or

        ctx.check(Or([g[k] == m[k] for m in metas]), k + " is one of the workers'")
    ctx.check(sorted(g["partitions"], key=int) == [str(p) for p in range(off)], "partitions listed", lambda: f"{list(g['partitions'])} of {off}")
    for m in metas:
        for i, p in m["partitions"].items():
            ctx.check_eq(g["partitions"][i]["node_weight"], pad(p["node_weight"], nt), f"node weights of partition {i}")
            ctx.check_eq(g["partitions"][i]["edge_weight"], pad(p["edge_weight"], et), f"edge weights of partition {i}")
    for k, n in (("node_count_per_type", nt), ("edge_count_per_type", et)):
        ctx.check_eq(g[k], [Sum([pad(m[k], n)[t] for m in metas]) for t in range(n)], k)
    # the merged file is what graph clients load
    r = Meta(env.path())
    ctx.check_eq([r.node_count, r.edge_count, r.partition_count], [g["node_count"], g["edge_count"], off], "loaded totals")


HARNESSES = [
    Harness("merge", merging, {"workers": 2, "partitions": 2, "types": 2}, {"workers": 3, "partitions": 2, "types": 1}, covers=["several partitions", "different types"], weight=2),
    Harness("orders", merging, {"workers": 3, "partitions": 2, "types": 1, "min_types": 1, "first": [0, 9], "watermark": 5}, {"workers": 4, "partitions": 3, "types": 1, "min_types": 1, "first": [0, 8, 9], "watermark": 5}, covers=["several partitions"]),
]
