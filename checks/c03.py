"""C03: the metadata file describes exactly the partition files next to it."""
from deepgnn.graph_engine.snark import convert
from deepgnn.graph_engine.snark.meta import BINARY_DATA_VERSION

from checks import binlib, convlib
from symx.core import Sum
from symx.runner import Harness

BOUNDS = "every spread of the listed number of records over partitions, types and kinds (node, edge); weights any multiple of 1/4 up to 64, not 0; default and queue dispatchers and debug mode; completion orders as listed"
OUTSIDE = "more records, types, partitions or preemptions; weights whose sums round in floating point; the shares and metadata of several conversion workers together (C09, C10)"
ASSUMPTIONS = ["threads, processes, pipes and queues are deterministic stand-ins; scheduling points are their operations"]


def conversion(ctx, b):
    mode = ctx.choice("mode", b["modes"])
    s, env, _ = convlib.setup(ctx, b["switches"])
    P = 1 if mode == "debug" else ctx.pick("partitions", 1, b["partitions"])
    W = 1 if mode == "debug" else ctx.pick("workers", 1, b.get("workers", 1))
    me = ctx.pick("worker", 0, W - 1)
    off = ctx.choice("offset", [0, 3]) if mode == "queue" and "workers" in b else 0
    n = ctx.pick("records", 0, b["records"])
    skip = ctx.choice("skip", b.get("skips", [(False, False)]))
    wm = ctx.choice("watermark", b.get("watermarks", [None]))
    recs, lines, route = [], [], []
    for i in range(n):
        typ = ctx.pick(f"type{i}", 0, b["types"] - 1)
        w = ctx.real(f"w{i}", 0.25, 64)
        edge = ctx.flag(f"edge{i}")
        feats = [env.np.array([1.5], dtype=env.np.float32)] * ctx.pick(f"features{i}", 0, b["features"])
        r = (100 + i, 5 if edge else -1, typ, w, None, None, feats)
        recs.append(r)
        lines.append([r])
        route.append(ctx.pick(f"to{i}", 0, P - 1) if mode == "queue" else i % P)
    dec = convlib.Decoder(lines)
    d = None
    if mode == "queue":
        d = convlib.make(("queue", True), env.path(), P, route, dec, off, skip, wm)
    size = ctx.pick("batch", 1, b["batch"]) if "batch" in b else 2
    batches = [[str(i) for i in range(k, min(k + size, n))] for k in range(0, n, size)]
    c = convert.MultiWorkersConverter(
        graph_path=env.path("in"), output_dir=env.path(), decoder=dec, partition_count=P * W, worker_index=me, worker_count=W, dispatcher=d, file_iterator=iter(batches),
        skip_node_sampler=skip[0], skip_edge_sampler=skip[1], debug=mode == "debug", watermark=wm)
    ctx.patch(convert, "print", lambda *a, **k: None)
    c.convert()
    ctx.check(not s.unhandled, "no worker fails", lambda: f"{s.unhandled}")

    ids = [p for p in range(P * W + 4) if env.exists(f"node_{p}_0.map")]
    ctx.check(len(ids) == P and (mode == "queue" or W > 1 or ids == list(range(P))), "the worker's share of the partitions is written", lambda: f"{ids} of {P * W}")
    m = env.read_json("meta.json" if W == 1 else f"meta_{me}.json")
    nodes = [r for r in recs if r[1] == -1]
    edges = [r for r in recs if r[1] != -1]
    nt = max([r[2] + 1 for r in nodes], default=0)
    et = max([r[2] + 1 for r in edges], default=0)
    ctx.check(m["binary_data_version"] == BINARY_DATA_VERSION, "format version")
    ctx.check(int(m["watermark"]) == (-1 if wm is None else wm), "watermark", lambda: f"{m['watermark']}")
    want = {
        "node_count": len(nodes), "edge_count": len(edges), "node_type_count": nt, "edge_type_count": et,
        "node_feature_count": max([len(r[6]) for r in nodes], default=0), "edge_feature_count": max([len(r[6]) for r in edges], default=0),
        "node_count_per_type": [sum(r[2] == t for r in nodes) for t in range(nt)], "edge_count_per_type": [sum(r[2] == t for r in edges) for t in range(et)],
    }
    for k, v in want.items():
        ctx.check_eq(m[k], v, k)
    ctx.check(list(m["partitions"]) == [str(p) for p in ids], "partitions listed", lambda: f"{list(m['partitions'])} instead of {ids}")
    for j, p in enumerate(ids):
        mine = [r for r, q in zip(recs, route) if q == j]
        e = m["partitions"][str(p)]
        for kind, k, cnt in (("node", "node_weight", nt), ("edge", "edge_weight", et)):
            sel = [r for r in mine if (r[1] == -1) == (kind == "node")]
            ctx.check(len(e[k]) == cnt, f"one {k} per type in every partition", lambda: f"partition {p}: {e[k]}")
            for t in range(cnt):
                ctx.check_eq(e[k][t], Sum([r[3] for r in sel if r[2] == t]), f"{k} of type {t} in partition {p}")
            skipped = skip[0 if kind == "node" else 1] and mode != "debug"
            for t in range(cnt):
                have = env.exists(f"{kind}_{t}_{p}.alias")
                ctx.check(have != skipped, f"{kind} alias file of type {t} in partition {p}", lambda: f"exists: {have}")
                if have:
                    width = 20 if kind == "node" else 36
                    size_ = len(env.read_bytes(f"{kind}_{t}_{p}.alias"))
                    ctx.check(size_ == width * sum(r[2] == t for r in sel), f"records of {kind} type {t} in partition {p}", lambda: f"{size_} bytes")
            if cnt and not any(r[2] == cnt - 1 for r in sel):
                ctx.cover("type missing in a partition")
        try:
            got = binlib.read_partition(env, p)
        except binlib.Bad as x:
            ctx.fail(f"partition {p} files: {x}")
        ctx.check(sum(g[1] >= 0 for g in got) == sum(r[1] == -1 for r in mine), f"nodes in the files of partition {p}")
        ctx.check(sum(len(g[3]) for g in got) == sum(r[1] != -1 for r in mine), f"edges in the files of partition {p}")
        if not mine:
            ctx.cover("empty partition")
    if ids[0] > 0:
        ctx.cover("later worker")


HARNESSES = [
    Harness("counts", conversion, {"modes": ["default", "queue"], "partitions": 2, "records": 2, "types": 2, "features": 1, "switches": 0, "batch": 2}, {"modes": ["default", "queue"], "partitions": 3, "records": 3, "types": 2, "features": 1, "switches": 0}, covers=["empty partition", "type missing in a partition"], weight=3),
    Harness("options", conversion, {"modes": ["default", "queue", "debug"], "partitions": 2, "records": 2, "types": 2, "features": 0, "switches": 0, "skips": [(False, False), (True, False), (False, True), (True, True)], "watermarks": [None, 0, 9]}, {"modes": ["default", "queue", "debug"], "partitions": 2, "records": 3, "types": 2, "features": 0, "switches": 0, "skips": [(False, False), (True, False), (False, True), (True, True)], "watermarks": [None, 0, 9]}),
    Harness("workers", conversion, {"modes": ["default", "queue"], "partitions": 2, "workers": 3, "records": 2, "types": 1, "features": 0, "switches": 0}, {"modes": ["default", "queue"], "partitions": 2, "workers": 3, "records": 3, "types": 2, "features": 0, "switches": 0}, covers=["later worker"]),
    Harness("completion_order", conversion, {"modes": ["default", "queue"], "partitions": 2, "records": 2, "types": 1, "features": 0, "switches": 1}, {"modes": ["default", "queue"], "partitions": 2, "records": 3, "types": 2, "features": 0, "switches": 1}, weight=2),
]
