"""C21: client queries pass arguments to the engine and return its answers faithfully."""
import struct

import numpy as _np

from deepgnn.graph_engine.snark import client, local

from checks import nativelib
from checks.nativelib import pointer, pointers, same, setup, write_meta
from symx.env import aslist, pack
from symx.runner import Harness

BOUNDS = "ids, times, defaults and answers any value of their type; numbers of elements, features, neighbours and types as listed; every subset of elements left unanswered; timestamps given, empty or missing; arrays contiguous, strided or transposed"
OUTSIDE = "larger requests; the native engine itself (it is replaced by a stand-in whose declarations come from py_graph.h and whose answers are arbitrary); weights returned for strategies that define none"
ASSUMPTIONS = ["the engine obeys its C declarations", "floating values are multiples of 1/4 within 32-bit precision"]
I64 = 2**63 - 1
DT = {"float32": "f", "float64": "d", "int64": "q", "uint8": "B", "int16": "h"}


class Engine:
    def __init__(self):
        self.plan = None

    def __getattr__(self, name):
        if name in header_names():
            plan = self.__dict__.get("plan") or {}
            return plan.get(name)
        raise AttributeError(name)


def header_names():
    return nativelib.header()


def i64(ctx, name):
    return ctx.int(name, -I64 - 1, I64)


def i32(ctx, name):
    return ctx.int(name, -(2**31), 2**31 - 1)


def val(ctx, name, code):
    if code in "fd":
        return ctx.real(name, -64, 64)
    w = struct.calcsize(code) * 8
    return ctx.int(name, 0, 2**w - 1) if code in "BQ" else ctx.int(name, -(2 ** (w - 1)), 2 ** (w - 1) - 1)


def cells_of(ctx, code, vals):
    """Bytes of the values, as the engine hands them out."""
    if not vals or code == "B":
        return list(vals)
    data = pack(ctx, "=" + code * len(vals), *vals)
    return list(nativelib.binio.to_cells(data)) if ctx.symbolic else list(data)


class Q:
    """One graph, one request, one scripted answer."""

    def __init__(self, ctx, b, watermark=5, wrap=False):
        self.ctx, self.b = ctx, b
        self.engine = Engine()
        self.env, self.lib = setup(ctx, self.engine)
        write_meta(self.env, node_types=(3, 4), edge_types=(1, 2, 3), features=(9, 9), watermark=watermark)
        self.g = local.Client(self.env.path(), [0]) if wrap else client.MemoryGraph(self.env.path(), [0])
        self.inner = self.g.graph if wrap else self.g
        self.n = ctx.pick("n", b.get("min_n", 0), b["n"])
        self.given = []
        self.strided = ctx.flag("strided")

    def arr(self, vals, dtype, shape=None):
        """A caller's array; remembers its content to see that it stays as it was."""
        a = self.env.np.array(vals, dtype=getattr(self.env.np, dtype)) if len(vals) else self.env.np.zeros(0, dtype=getattr(self.env.np, dtype))
        if shape is not None:
            a = a.reshape(shape)
        if self.strided and len(vals):  # a view of a larger or transposed array
            if a.ndim == 1:
                big = self.env.np.zeros(2 * len(vals), dtype=getattr(self.env.np, dtype))
                big[:] = -7
                big[::2] = a
                a = big[::2]
            else:
                big = self.env.np.zeros((a.shape[1], a.shape[0]), dtype=getattr(self.env.np, dtype))
                big[:] = a.T
                a = big.T
        self.given.append((a, aslist(a)))
        return a

    def nodes(self, name="node"):
        vals = [i64(self.ctx, f"{name}{i}") for i in range(self.n)]
        return vals, self.arr(vals, "int64")

    def times(self):
        k = self.ctx.choice("times", self.b.get("times", ["none", "empty", "given"]))
        if k == "none":
            return None, None
        vals = [i64(self.ctx, f"time{i}") for i in range(self.n if k == "given" else 0)]
        return (vals or None), self.arr(vals, "int64")

    def features(self):
        f = [i32(self.ctx, f"feature{i}") for i in range(self.ctx.pick("features", self.b.get("min_f", 1), self.b["f"]))]
        return f

    def edge_types(self):
        k = self.ctx.choice("edge_types", self.b.get("edge_types", [[0], [2, 0], [1, 1]]))
        return sorted(set(k)), k

    def check_times(self, buf, want, n=None):
        if not self.n and want is None:
            return
        self.ctx.check(buf.null == (want is None), "times are passed exactly when given", lambda: f"null: {buf.null}, given: {want}")
        if want is not None:
            self.ctx.check_eq(buf.read(self.n if n is None else n), want, "times passed to the engine")

    def check_ids(self, buf, size, want, what="ids"):
        self.ctx.check(bool(size == len(want)), f"number of {what} passed to the engine", lambda: f"{size} of {len(want)}")
        self.ctx.check_eq(buf.read(len(want)), want, f"{what} passed to the engine")

    def types(self, buf, size, want):
        self.ctx.check(bool(size == len(want)), "number of types passed to the engine", lambda: f"{size} of {len(want)}")
        self.ctx.check_eq(buf.read(len(want)), want, "types passed to the engine")

    def handle(self, g):
        self.ctx.check(g is self.inner.g_, "the query runs on this graph")

    def answer(self, name, fn):
        """Script the answer of an engine function and count its calls."""
        count = []

        def h(**a):
            count.append(1)
            return fn(**a)

        self.engine.plan = {name: h}
        return count

    def done(self, count):
        self.ctx.check(len(count) == 1, "the engine is asked exactly once", lambda: f"{len(count)}")
        for a, before in self.given:
            self.ctx.check_eq(aslist(a), before, "the caller's arrays are left alone")


def dense_features(ctx, b):
    edge = ctx.flag("edge")
    wrap = ctx.flag("client")
    q = Q(ctx, b, wrap=wrap)
    name = ctx.choice("dtype", b["dtypes"])
    code = DT[name]
    dtype = getattr(_np, name)
    src, a_src = q.nodes("src")
    f = [(i32(ctx, f"feature{i}"), ctx.pick(f"size{i}", 0 if i else 1, b["size"])) for i in range(ctx.pick("features", 1, b["f"]))]
    fa = q.arr([[x, s] for x, s in f], "int32")
    ts, a_ts = q.times()
    total = sum(s for _, s in f)
    w = struct.calcsize(code)
    want = [[0] * total for _ in range(q.n)]
    dst, etp = [], []
    if edge:
        dst = [i64(ctx, f"dst{i}") for i in range(q.n)]
        etp = [i32(ctx, f"etype{i}") for i in range(q.n)]

    def common(ids_size, time_stamps, features, features_size, output, output_size):
        q.check_times(time_stamps, ts)
        ctx.check(bool(features_size == len(f)), "number of features passed to the engine")
        ctx.check_eq(features.read(2 * len(f)), [y for x, s in f for y in (x, s * w)], "features and byte sizes passed to the engine")
        ctx.check(bool(output_size == q.n * total * w), "output size passed to the engine", lambda: f"{output_size}")
        for i in range(q.n):
            if ctx.flag(f"found{i}"):
                want[i] = [val(ctx, f"v{i}.{k}", code) for k in range(total)]
                output.write(want[i], code, i * total)
        return 0

    def node(graph, node_ids, node_ids_size, time_stamps, features, features_size, output, output_size):
        q.handle(graph)
        q.check_ids(node_ids, node_ids_size, src)
        return common(node_ids_size, time_stamps, features, features_size, output, output_size)

    def edges(graph, edge_src_ids, edge_dst_ids, edge_types, edge_size, time_stamps, features, features_size, output, output_size):
        q.handle(graph)
        q.check_ids(edge_src_ids, edge_size, src, "sources")
        q.check_ids(edge_dst_ids, edge_size, dst, "destinations")
        q.check_ids(edge_types, edge_size, etp, "edge types")
        return common(edge_size, time_stamps, features, features_size, output, output_size)

    if edge:
        c = q.answer("GetEdgeFeature", edges)
        if wrap:
            r = q.g.edge_features(q.arr([[s, d, t] for s, d, t in zip(src, dst, etp)], "int64", (q.n, 3)), fa, dtype, timestamps=a_ts)
        else:
            r = q.g.edge_features(a_src, q.arr(dst, "int64"), q.arr(etp, "int32"), fa, dtype, timestamps=a_ts)
    else:
        c = q.answer("GetNodeFeature", node)
        r = q.g.node_features(a_src, fa, dtype, timestamps=a_ts)
    q.done(c)
    ctx.check(tuple(r.shape) == (q.n, total), "shape of the result", lambda: f"{r.shape}")
    ctx.check(r.dtype == _np.dtype(name), "element type of the result", lambda: f"{r.dtype}")
    same(ctx, r, want, "row i holds the features of element i, unanswered ones 0")


def _edge_inputs(ctx, q, edge):
    src, a_src = q.nodes("src")
    if not edge:
        return src, None, None, (a_src,)
    dst = [i64(ctx, f"dst{i}") for i in range(q.n)]
    etp = [i32(ctx, f"etype{i}") for i in range(q.n)]
    return src, dst, etp, (a_src, q.arr(dst, "int64"), q.arr(etp, "int32"))


def _check_elements(q, a, src, dst, etp):
    if dst is None:
        q.check_ids(a["node_ids"], a["node_ids_size"], src)
    else:
        q.check_ids(a["edge_src_ids"], a["edge_size"], src, "sources")
        q.check_ids(a["edge_dst_ids"], a["edge_size"], dst, "destinations")
        q.check_ids(a["edge_types"], a["edge_size"], etp, "edge types")


def sparse_features(ctx, b):
    edge = ctx.flag("edge")
    q = Q(ctx, b)
    name = ctx.choice("dtype", b["dtypes"])
    code = DT[name]
    src, dst, etp, args = _edge_inputs(ctx, q, edge)
    f = q.features()
    fa = q.arr(f, "int32")
    ts, a_ts = q.times()
    dims, idx, vals = [], [], []

    def h(graph, callback, time_stamps, features, features_size, **a):
        q.handle(graph)
        _check_elements(q, a, src, dst, etp)
        q.check_times(time_stamps, ts)
        q.check_ids(features, features_size, f, "features")
        for k in range(len(f)):
            d = ctx.pick(f"dim{k}", 1, b["dim"])
            m = ctx.pick(f"count{k}", 0, b["values"])
            dims.append(d)
            idx.append([[i64(ctx, f"i{k}.{j}.{x}") for x in range(d + 1)] for j in range(m)])
            vals.append([val(ctx, f"v{k}.{j}", code) for j in range(m)])
        ip = [pointer(ctx, q.env, [x for r in rows for x in r], "q") for rows in idx]
        raw = [cells_of(ctx, code, v) for v in vals]
        vp = [pointer(ctx, q.env, r, "B") for r in raw]
        callback(pointers(ctx, ip), pointer(ctx, q.env, [len(r) * (d + 1) for r, d in zip(idx, dims)], "Q"), pointers(ctx, vp), pointer(ctx, q.env, [len(r) for r in raw], "Q"), pointer(ctx, q.env, dims, "q"))
        return 0

    c = q.answer("GetEdgeSparseFeature" if edge else "GetNodeSparseFeature", h)
    gi, gv, gd = (q.g.edge_sparse_features if edge else q.g.node_sparse_features)(*args, fa, getattr(_np, name), timestamps=a_ts)
    q.done(c)
    same(ctx, gd, dims, "dimensions of every feature")
    ctx.check(len(gi) == len(f) and len(gv) == len(f), "one result per feature", lambda: f"{len(gi)} {len(gv)}")
    for k in range(len(f)):
        ctx.check(len(gi[k]) == len(idx[k]), "number of coordinates", lambda: f"feature {k}")
        if idx[k]:
            same(ctx, gi[k], idx[k], f"coordinates of feature {k}")
            ctx.check(gi[k].dtype == _np.int64, "coordinates are 64-bit")
        same(ctx, gv[k], vals[k], f"values of feature {k}")
        ctx.check(gv[k].dtype == _np.dtype(name), "element type of values", lambda: f"{gv[k].dtype}")


def string_features(ctx, b):
    edge = ctx.flag("edge")
    q = Q(ctx, b)
    name = ctx.choice("dtype", b["dtypes"])
    code = DT[name]
    w = struct.calcsize(code)
    src, dst, etp, args = _edge_inputs(ctx, q, edge)
    f = q.features()
    fa = q.arr(f, "int32")
    ts, a_ts = q.times()
    sizes, vals = [], []

    def h(graph, callback, time_stamps, features, features_size, dimensions, **a):
        q.handle(graph)
        _check_elements(q, a, src, dst, etp)
        q.check_times(time_stamps, ts)
        q.check_ids(features, features_size, f, "features")
        sizes[:] = [[ctx.pick(f"size{i}.{k}", 0, b["size"]) for k in range(len(f))] for i in range(q.n)]
        vals[:] = [val(ctx, f"v{i}", code) for i in range(sum(sum(r) for r in sizes))]
        dimensions.write([s * w for r in sizes for s in r])
        cells = cells_of(ctx, code, vals)
        callback(len(cells), pointer(ctx, q.env, cells, "B"))
        return 0

    c = q.answer("GetEdgeStringFeature" if edge else "GetNodeStringFeature", h)
    gv, gd = (q.g.edge_string_features if edge else q.g.node_string_features)(*args, fa, getattr(_np, name), timestamps=a_ts)
    q.done(c)
    ctx.check(tuple(gd.shape) == (q.n, len(f)), "shape of the dimensions", lambda: f"{gd.shape}")
    same(ctx, gd, sizes, "number of values of every element and feature")
    same(ctx, gv, vals, "values in order of elements and features")
    ctx.check(gv.dtype == _np.dtype(name), "element type of values", lambda: f"{gv.dtype}")


def neighbors(ctx, b):
    wrap = ctx.flag("client")
    q = Q(ctx, b, wrap=wrap)
    ids, a_ids = q.nodes()
    et, given = q.edge_types()
    ts, a_ts = q.times()
    counts = [ctx.pick(f"count{i}", 0, b["neighbours"]) for i in range(q.n)]
    types = q.arr(given, "int32") if wrap else (given[0] if len(given) == 1 and ctx.flag("scalar_type") else list(given))
    if ctx.flag("count_only"):
        big = [ctx.int(f"c{i}", 0, 2**64 - 1) for i in range(q.n)]

        def h(py_graph, in_node_ids, in_node_ids_size, time_stamps, in_edge_types, in_edge_types_size, out_neighbor_counts):
            q.handle(py_graph)
            q.check_ids(in_node_ids, in_node_ids_size, ids)
            q.types(in_edge_types, in_edge_types_size, et)
            q.check_times(time_stamps, ts)
            out_neighbor_counts.write(big)

        c = q.answer("NeighborCount", h)
        r = (q.g.neighbor_count if wrap else q.g.neighbor_counts)(a_ids, types, timestamps=a_ts)
        q.done(c)
        same(ctx, r, big, "count of every node")
        return
    created = ctx.flag("return_created")
    total = sum(counts)
    out = [[i64(ctx, f"nb{i}") for i in range(total)], [ctx.real(f"w{i}", 0, 64) for i in range(total)], [i32(ctx, f"t{i}") for i in range(total)], [i64(ctx, f"created{i}") for i in range(total)]]

    def h(graph, return_edge_created_ts, in_node_ids, in_node_ids_size, time_stamps, in_edge_types, in_edge_types_size, out_neighbor_counts, callback):
        q.handle(graph)
        ctx.check(bool(return_edge_created_ts) == created, "creation times are requested exactly when asked for")
        q.check_ids(in_node_ids, in_node_ids_size, ids)
        q.types(in_edge_types, in_edge_types_size, et)
        q.check_times(time_stamps, ts)
        out_neighbor_counts.write(counts)
        callback(*[pointer(ctx, q.env, v, c) for v, c in zip(out, "qfi")], pointer(ctx, q.env, out[3] if created else [], "q"), total)

    c = q.answer("GetNeighbors", h)
    r = q.g.neighbors(a_ids, types, timestamps=a_ts, return_edge_created_ts=created)
    q.done(c)
    ctx.check(len(r) == (5 if created else 4), "creation times are returned exactly when asked for", lambda: f"{len(r)}")
    for got, want, what in zip(r, (out[0], out[1], out[2], counts), ("neighbours", "weights", "types", "counts")):
        same(ctx, got, want, what)
    if created:
        same(ctx, r[4], out[3], "creation times")


def sampling(ctx, b):
    strategy = ctx.choice("strategy", ["byweight", "random", "randomwithoutreplacement", "ppr-go", "lastn"])
    wrap = ctx.flag("client")
    q = Q(ctx, b, wrap=wrap)
    ids, a_ids = q.nodes()
    et, given = q.edge_types()
    if strategy == "lastn":
        ts = [i64(ctx, f"time{i}") for i in range(q.n)]
        a_ts = q.arr(ts, "int64")
    else:
        ts, a_ts = q.times()
    count = ctx.pick("count", 1, b["count"])
    dn, dw, dt_ = i64(ctx, "default_node"), ctx.real("default_weight", -64, 64), i32(ctx, "default_type")
    dts = i64(ctx, "default_time") if not wrap else -1
    alpha, eps = ctx.real("alpha", 0, 1), ctx.real("eps", 0, 1)
    created = ctx.flag("return_created") and strategy != "ppr-go"
    seed = i64(ctx, "seed") if not wrap else None
    types = q.arr(given, "int32") if wrap else list(given)
    z = {"n": [[dn] * count for _ in ids], "w": [[dw] * count for _ in ids], "t": [[dt_] * count for _ in ids], "c": [[dts if strategy == "lastn" else -1] * count for _ in ids]}

    def h(in_node_ids, in_node_ids_size=None, int_node_ids_size=None, **a):
        q.handle(a.get("graph") or a.get("py_graph"))
        q.check_ids(in_node_ids, in_node_ids_size if int_node_ids_size is None else int_node_ids_size, ids)
        q.types(a["in_edge_types"], a["in_edge_types_size"], et)
        q.check_times(a["time_stamps"] if "time_stamps" in a else a["timestamps"], ts or None)
        ctx.check(bool(a["count"] == count), "number of neighbours requested")
        if "seed" in a and seed is not None:
            ctx.check_eq(a["seed"], seed, "seed passed to the engine")
        if "return_edge_created_ts" in a:
            ctx.check(bool(a["return_edge_created_ts"]) == created, "creation times are requested exactly when asked for")
        if "without_replacement" in a:
            ctx.check(bool(a["without_replacement"]) == (strategy == "randomwithoutreplacement"), "replacement follows the strategy")
        for k, v in (("default_node_id", dn), ("default_weight", dw), ("default_edge_type", dt_), ("alpha", alpha), ("eps", eps)):
            if k in a:
                ctx.check_eq(a[k], v, f"{k} passed to the engine")
        if "default_timestamp" in a:
            ctx.check_eq(a["default_timestamp"], dts, "default time passed to the engine")
        for i in range(q.n):
            if not ctx.flag(f"found{i}"):
                continue
            z["n"][i] = [i64(ctx, f"n{i}.{k}") for k in range(count)]
            a["out_neighbor_ids"].write(z["n"][i], at=i * count)
            if "out_weights" in a:
                z["w"][i] = [ctx.real(f"w{i}.{k}", 0, 64) for k in range(count)]
                a["out_weights"].write(z["w"][i], at=i * count)
            if "out_types" in a:
                z["t"][i] = [i32(ctx, f"t{i}.{k}") for k in range(count)]
                a["out_types"].write(z["t"][i], at=i * count)
            if created:
                z["c"][i] = [i64(ctx, f"c{i}.{k}") for k in range(count)]
                a["out_created_ts" if "out_created_ts" in a else "out_timestamps"].write(z["c"][i], at=i * count)
        return 0

    fn = {"byweight": "WeightedSampleNeighbor", "random": "UniformSampleNeighbor", "randomwithoutreplacement": "UniformSampleNeighbor", "ppr-go": "PPRSampleNeighbor", "lastn": "LastNCreatedNeighbor"}[strategy]
    c = q.answer(fn, h)
    if wrap:
        r = q.g.sample_neighbors(a_ids, types, count, strategy, dn, dw, dt_, alpha, eps, timestamps=a_ts, return_edge_created_ts=created)
        parts = {"n": r[0], "t": r[2]}
        if strategy in ("byweight", "ppr-go", "lastn"):
            parts["w"] = r[1]
        if strategy == "ppr-go":
            parts.pop("t")
        if created:
            parts["c"] = r[3]
        elif len(r) > 3:
            parts["c"] = r[3]
            z["c"] = [[-1] * count for _ in ids]
    else:
        g = q.g
        if strategy == "byweight":
            r = g.weighted_sample_neighbors(a_ids, types, count, dn, dw, dt_, seed=seed, timestamps=a_ts, return_edge_created_ts=created)
            parts = dict(zip("nwtc", r))
        elif strategy == "ppr-go":
            r = g.ppr_neighbors(a_ids, types, count, alpha, eps, dn, dw, timestamps=a_ts)
            parts = dict(zip("nw", r))
        elif strategy == "lastn":
            r = g.lastn_neighbors(a_ids, types, a_ts, count, dn, dw, dt_, dts, return_edge_created_ts=created)
            parts = dict(zip("nwtc", r))
        else:
            r = g.uniform_sample_neighbors(strategy == "randomwithoutreplacement", a_ids, types, count, dn, dt_, seed=seed, timestamps=a_ts, return_edge_created_ts=created)
            parts = dict(zip("ntc", r))
        ctx.check(("c" in parts) == created, "creation times are returned exactly when asked for")
    q.done(c)
    for k, what in (("n", "neighbours"), ("w", "weights"), ("t", "types"), ("c", "creation times")):
        if k in parts:
            ctx.check(tuple(parts[k].shape) == (q.n, count), f"shape of {what}", lambda: f"{parts[k].shape}")
            same(ctx, parts[k], z[k], f"{what}: row i belongs to node i, missing ones carry the default")


def walks_and_types(ctx, b):
    wrap = ctx.flag("client")
    q = Q(ctx, b, wrap=wrap)
    ids, a_ids = q.nodes()
    if ctx.flag("types"):
        d = i32(ctx, "default_type") if not wrap else -1
        out = [i32(ctx, f"t{i}") for i in range(q.n)]

        def h(graph, node_ids, node_ids_size, output, default_type):
            q.handle(graph)
            q.check_ids(node_ids, node_ids_size, ids)
            ctx.check_eq(default_type, d, "default type passed to the engine")
            output.write(out)

        c = q.answer("GetNodeType", h)
        r = q.g.node_types(a_ids) if wrap else q.g.node_types(a_ids, d)
        q.done(c)
        same(ctx, r, out, "type of every node")
        return
    et, given = q.edge_types()
    ts, a_ts = q.times()
    L = ctx.pick("length", 0, b["length"])
    p, w = ctx.real("p", 0, 8), ctx.real("q", 0, 8)
    d = i64(ctx, "default_node")
    seed = i64(ctx, "seed")
    out = [[i64(ctx, f"n{i}.{k}") for k in range(L + 1)] for i in range(q.n)]

    def h(graph, seed, p, q, default_node_id, in_node_ids, in_node_ids_size, timestamps, in_edge_types, in_edge_types_size, walk_length, out_node_ids):
        Q_.handle(graph)
        Q_.check_ids(in_node_ids, in_node_ids_size, ids)
        Q_.types(in_edge_types, in_edge_types_size, et)
        Q_.check_times(timestamps, ts)
        ctx.check_eq([p, q, default_node_id, walk_length], [p0, w, d, L], "p, q, default and length passed to the engine")
        if not wrap:
            ctx.check_eq(seed, seed0, "seed passed to the engine")
        out_node_ids.write([x for r in out for x in r])

    Q_, p0, seed0 = q, p, seed
    c = q.answer("RandomWalk", h)
    if wrap:
        r = q.g.random_walk(a_ids, q.arr(given, "int32"), L, p, w, d, timestamps=a_ts)
    else:
        r = q.g.random_walk(a_ids, list(given), L, p, w, d, seed=seed, timestamps=a_ts)
    q.done(c)
    ctx.check(tuple(r.shape) == (q.n, L + 1), "shape of the walks", lambda: f"{r.shape}")
    same(ctx, r, out, "row i is the walk of node i")


HARNESSES = [
    Harness("dense_features", dense_features, {"n": 2, "f": 2, "size": 2, "dtypes": ["float32", "int64"]}, {"n": 3, "f": 2, "size": 2, "dtypes": ["float32", "int64", "uint8", "int16", "float64"]}, weight=2),
    Harness("sparse_features", sparse_features, {"n": 1, "min_n": 1, "f": 2, "dim": 2, "values": 2, "dtypes": ["float32", "int64"], "times": ["none", "given"]}, {"n": 2, "f": 2, "dim": 2, "values": 2, "dtypes": ["float32", "int64", "uint8", "int16"]}, weight=2),
    Harness("string_features", string_features, {"n": 2, "f": 2, "size": 1, "dtypes": ["float32", "uint8"], "times": ["none", "given"]}, {"n": 2, "f": 2, "size": 2, "dtypes": ["float32", "uint8", "int16"]}, weight=2),
    Harness("neighbors", neighbors, {"n": 2, "neighbours": 2}, {"n": 3, "neighbours": 2}),
    Harness("sampling", sampling, {"n": 2, "count": 2}, {"n": 3, "count": 3}, weight=2),
    Harness("walks_and_types", walks_and_types, {"n": 2, "length": 2}, {"n": 3, "length": 3}),
]
