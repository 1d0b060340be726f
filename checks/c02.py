"""C02: temporal graphs keep every edge lifetime and timed feature value."""
from deepgnn.graph_engine.snark import decoders
from deepgnn.graph_engine.snark.converter import writers

from checks import binlib
from symx import binio
from symx.core import And, Eq, Implies, Or, count_eq
from symx.env import Env, fields, pack
from symx.runner import Harness

BOUNDS = "creation and removal times any up to 2^60, including 0, -1 and missing ones; ids any unsigned 63-bit; numbers of nodes, edges and timed values as listed"
OUTSIDE = "more records than listed; edges that live longer than their source node (rejected by the writer)"
T = 2**60
ID = 2**63 - 1


def _time(ctx, name, lo):
    return ctx.int(name, lo, T) if ctx.flag(name + ".given") else None


def _alive(ctx, c, r, nc, nr):
    """The edge's lifetime lies inside the lifetime of its source."""
    if c is not None:
        ctx.assume(c >= nc)
    if r is not None:
        ctx.assume(Or(Eq(nr, -1), r <= nr))


def lifetimes(ctx, b):
    """Records handed to the writer, missing times inherited from the node of the same call."""
    env = Env(ctx)
    wm = ctx.int("watermark", 0, T)
    w = writers.BinaryWriter(env.path(), 0, True, True, wm)
    m = binlib.Model()
    want = []
    total = 0
    for i in range(ctx.pick("calls", 1, b["calls"])):
        recs = []
        nc, nr = 0, -1
        src = ctx.int(f"src{i}", 0, ID)
        if ctx.flag(f"node{i}"):
            c, r = _time(ctx, f"nc{i}", 0), _time(ctx, f"nr{i}", -1)
            nc, nr = 0 if c is None else c, -1 if r is None else r
            recs.append((src, -1, 0, 1.0, c, r, []))
            m.node(src, 0)
        else:
            ctx.cover("no node")
        n = ctx.pick(f"edges{i}", 0, min(b["edges"], b["total"] - total))
        total += n
        for k in range(n):
            c, r = _time(ctx, f"ec{i}_{k}", 0), _time(ctx, f"er{i}_{k}", -1)
            _alive(ctx, c, r, nc, nr)
            recs.append((src, k, 0, 1.0, c, r, []))
            m.edge(src, k, 0, 1.0)
            want.append((nc if c is None else c, nr if r is None else r))
        w.add(iter(recs))
    w.close()
    binlib.check_partition(ctx, env, 0, m.nodes)
    check_times(ctx, env, 0, wm, want)


def check_times(ctx, env, p, wm, want):
    data = env.read_bytes(f"edge_{p}_0.timestamp")
    ctx.check(len(data) == 8 + 16 * len(want), "one lifetime per edge", lambda: f"{len(data)} bytes for {len(want)} edges")
    ctx.check_eq(fields(data[:8], "=q")[0][0], wm, "watermark")
    got = fields(data[8:], "=qq")
    for i, (g, e) in enumerate(zip(got, want)):
        ctx.check_eq(g, e, f"lifetime of edge {i}")
    return got


def records(ctx, b):
    """JSON records through decoder and writer."""
    env = Env(ctx)
    wm = ctx.int("watermark", 0, T)
    dec = decoders.JsonDecoder()
    w = writers.BinaryWriter(env.path(), 3, True, True, wm)
    want = []
    for i in range(ctx.pick("nodes", 1, b["nodes"])):
        c, r = _time(ctx, f"nc{i}", 0), _time(ctx, f"nr{i}", -1)
        nc, nr = 0 if c is None else c, -1 if r is None else r
        rec = {"node_id": ctx.int(f"id{i}", 0, ID), "node_type": 0, "node_weight": 1.0, "edge": []}
        if c is not None:
            rec["created_at"] = c
        if r is not None:
            rec["removed_at"] = r
        mine = []
        n = ctx.pick(f"edges{i}", 0, min(b["edges"], b["total"] - sum(len(x[1]) for x in want)))
        for k in range(n):
            c, r = _time(ctx, f"ec{i}_{k}", 0), _time(ctx, f"er{i}_{k}", -1)
            _alive(ctx, c, r, nc, nr)
            e = {"src_id": rec["node_id"], "dst_id": 10 + k, "edge_type": 0, "weight": 1.0}
            if c is not None:
                e["created_at"] = c
            if r is not None:
                e["removed_at"] = r
            rec["edge"].append(e)
            mine.append((10 + k, nc if c is None else c, nr if r is None else r))
        want.append((rec["node_id"], mine))
        w.add(dec.decode(env.json.dumps(rec)))
    w.close()
    got = binlib.read_partition(env, 3)
    ctx.check_eq([g[0] for g in got], [x[0] for x in want], "nodes in order")
    data = env.read_bytes("edge_3_0.timestamp")
    n = sum(len(x[1]) for x in want)
    ctx.check(len(data) == 8 + 16 * n, "one lifetime per edge", lambda: f"{len(data)} bytes for {n} edges")
    ctx.check_eq(fields(data[:8], "=q")[0][0], wm, "watermark")
    times = fields(data[8:], "=qq")
    pos = 0
    for g, (_, mine) in zip(got, want):
        rows = []
        for e in g[3]:
            rows.append((e[0],) + tuple(times[pos]))
            pos += 1
        ctx.check(len(rows) == len(mine), "edges of a node")
        for x in mine:
            ctx.check(count_eq(x, rows) == 1, "an edge keeps its own lifetime", lambda: f"{x} not once in {rows}")


def timed_features(ctx, b):
    env = Env(ctx)
    dec = decoders.JsonDecoder()
    w = writers.BinaryWriter(env.path(), 0, True, True, 5)
    dt = ctx.choice("dtype", b["dtypes"])
    code = binlib.DTYPES["float32" if dt == "float" else dt]
    on_edge = ctx.flag("on_edge")
    vals = []
    for i in range(ctx.pick("values", 1, b["values"])):
        t = ctx.int(f"t{i}", 0, T)
        for x, _, _ in vals:
            ctx.assume(Or(x < t, x > t))
        v = [binlib.value(ctx, f"v{i}_{k}", code) for k in range(ctx.pick(f"len{i}", 0, b["length"]))]
        vals.append((t, v, ctx.flag(f"removed{i}")))
    feat = [dict({"created_at": t, "values": v}, **({"removed_at": 7} if r else {})) for t, v, r in vals]
    extra = binlib.value(ctx, "plain", code)
    item = {dt + "_feature": {"0": feat, "1": [extra]}}
    rec = {"node_id": 9, "node_type": 0, "node_weight": 1.0, "edge": [{"src_id": 9, "dst_id": 2, "edge_type": 0, "weight": 1.0}]}
    (rec["edge"][0] if on_edge else rec).update(item)
    w.add(dec.decode(env.json.dumps(rec)))
    w.close()
    got = binlib.read_partition(env, 0)
    feats = got[0][3][0][3] if on_edge else got[0][2]
    ctx.check(len(feats) == 2, "two features are stored", lambda: f"{feats}")
    ctx.check(len(got[0][2] if on_edge else got[0][3][0][3]) == 0, "the other element has no feature")
    ctx.check(binio.bytes_eq(feats[1], pack(ctx, "=" + code, extra)), "a plain value next to the timed one", lambda: f"{feats[1]}")
    f = feats[0]
    n = len(vals)
    ctx.check(len(f) >= 4 + 8 * (2 * n + 1), "room for times and offsets", lambda: f"{len(f)}")
    ctx.check_eq(fields(f[:4], "=i")[0][0], n, "number of timed values")
    idx = [x[0] for x in fields(f[4 : 4 + 8 * (2 * n + 1)], "=q")]
    times, offs = idx[:n], idx[n:]
    order = sorted(vals, key=lambda x: x[0])
    ctx.check_eq(times, [x[0] for x in order], "creation times in increasing order")
    ctx.check(not any(map(lambda o: isinstance(o, float), offs)) and all(4 + 8 * (2 * n + 1) <= a <= c <= len(f) for a, c in zip(offs, offs[1:])), "offsets lie inside the feature", lambda: f"{offs}")
    for i, (t, v, _) in enumerate(order):
        e = pack(ctx, "=" + code * len(v), *v) if v else b""
        g = f[offs[i] : offs[i + 1]]
        ctx.check(len(g) == len(e), f"size of timed value {i}", lambda: f"{len(g)} != {len(e)}")
        ctx.check(binio.bytes_eq(g, e), f"bytes of timed value {i}", lambda: f"{g} != {e}")
    if n > 1:
        ctx.cover("several values")


HARNESSES = [
    Harness("lifetimes", lifetimes, dict(calls=2, edges=2, total=3), dict(calls=3, edges=2, total=3), covers=["no node"], weight=2),
    Harness("records", records, dict(nodes=2, edges=2, total=2), dict(nodes=2, edges=3, total=3), weight=2),
    Harness("timed_features", timed_features, dict(dtypes=["float", "int64", "uint8"], values=3, length=1), dict(dtypes=sorted(set(binlib.DTYPES)), values=3, length=2), covers=["several values"]),
]
