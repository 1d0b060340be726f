"""C24: failures of the engine are retried as configured and never hidden."""
import json as _json
import os as _os

import numpy as _np
import tenacity

from deepgnn.graph_engine.snark import client, distributed, local, server

from checks.c21 import cells_of
from checks.nativelib import pointer, pointers, setup, write_meta
from symx.core import Verdict
from symx.env import aslist
from symx.runner import Harness

BOUNDS = "every query of the client, every sequence of failing and succeeding attempts up to the configured number, any non-zero status, arbitrary partial output of failing attempts; retry settings as listed"
OUTSIDE = "other retry settings; failures that crash the process; waiting times are recorded, not waited"
ASSUMPTIONS = ["a succeeding attempt fills every output, a failing attempt never calls back"]


class Sleeper:
    def __init__(self):
        self.waits = []

    def sleep(self, s):
        self.waits.append(s)


def put(env, path, text):
    if env.ctx.symbolic:
        env.fs.files[env.fs.norm(path)] = [text]
    else:
        with open(path, "w") as f:
            f.write(text)


OUT = {  # native function -> output parameters with element code and number of elements for the requests below
    "GetNodeFeature": [("output", "f", 2)],
    "GetEdgeFeature": [("output", "f", 2)],
    "NeighborCount": [("out_neighbor_counts", "Q", 1)],
    "GetNodeType": [("output", "i", 1)],
    "RandomWalk": [("out_node_ids", "q", 3)],
    "WeightedSampleNeighbor": [("out_neighbor_ids", "q", 2), ("out_weights", "f", 2), ("out_types", "i", 2)],
    "UniformSampleNeighbor": [("out_neighbor_ids", "q", 2), ("out_types", "i", 2)],
    "PPRSampleNeighbor": [("out_neighbor_ids", "q", 2), ("out_weights", "f", 2)],
    "LastNCreatedNeighbor": [("out_neighbor_ids", "q", 2), ("out_weights", "f", 2), ("out_types", "i", 2)],
    "SampleNodes": [("out_nodes", "q", 2), ("out_types", "i", 2)],
    "SampleEdges": [("out_src_id", "q", 2), ("out_dst_id", "q", 2), ("out_type", "i", 2)],
    "GetNeighbors": "neighbors", "GetNodeSparseFeature": "sparse", "GetEdgeSparseFeature": "sparse", "GetNodeStringFeature": "string", "GetEdgeStringFeature": "string",
}
I = lambda *v: _np.array(v, dtype=_np.int64)  # noqa: E731
T = lambda *v: _np.array(v, dtype=_np.int32)  # noqa: E731
QUERIES = {
    "node_features": ("GetNodeFeature", lambda g: [g.node_features(I(1), T([0, 2]), _np.float32)]),
    "edge_features": ("GetEdgeFeature", lambda g: [g.edge_features(I(1), I(2), T(0), T([0, 2]), _np.float32)]),
    "node_sparse_features": ("GetNodeSparseFeature", lambda g: g.node_sparse_features(I(1), T(0), _np.float32)),
    "edge_sparse_features": ("GetEdgeSparseFeature", lambda g: g.edge_sparse_features(I(1), I(2), T(0), T(0), _np.float32)),
    "node_string_features": ("GetNodeStringFeature", lambda g: g.node_string_features(I(1), T(0), _np.float32)),
    "edge_string_features": ("GetEdgeStringFeature", lambda g: g.edge_string_features(I(1), I(2), T(0), T(0), _np.float32)),
    "neighbor_counts": ("NeighborCount", lambda g: [g.neighbor_counts(I(1), [0])]),
    "neighbors": ("GetNeighbors", lambda g: g.neighbors(I(1), [0])),
    "weighted_sample_neighbors": ("WeightedSampleNeighbor", lambda g: g.weighted_sample_neighbors(I(1), [0], 2, seed=1)),
    "uniform_sample_neighbors": ("UniformSampleNeighbor", lambda g: g.uniform_sample_neighbors(False, I(1), [0], 2, seed=1)),
    "ppr_neighbors": ("PPRSampleNeighbor", lambda g: g.ppr_neighbors(I(1), [0], 2)),
    "lastn_neighbors": ("LastNCreatedNeighbor", lambda g: g.lastn_neighbors(I(1), [0], I(3), 2)),
    "random_walk": ("RandomWalk", lambda g: [g.random_walk(I(1), [0], 2, 1.0, 1.0, seed=1)]),
    "node_types": ("GetNodeType", lambda g: [g.node_types(I(1), -1)]),
    "sample_nodes": ("SampleNodes", lambda g: client.NodeSampler(g, [0]).sample(2, 1)),
    "sample_edges": ("SampleEdges", lambda g: client.EdgeSampler(g, [0]).sample(2, 1)),
}


def val(ctx, name, code):
    if code == "f":
        return ctx.real(name, -64, 64)
    return ctx.int(name, *{"q": (-(2**63), 2**63 - 1), "Q": (0, 2**64 - 1), "i": (-(2**31), 2**31 - 1)}[code])


def flat(x):
    x = aslist(x) if not isinstance(x, (list, tuple)) else list(x)
    out = []
    for v in x:
        out += flat(v) if hasattr(v, "__len__") else [v]
    return out


class Engine:
    def __init__(self, target, failures, partial):
        self.target, self.failures, self.partial, self.tries, self.want = target, failures, partial, 0, None
        self.down = False

    def CreateRemoteClient(self, output_folder, **a):
        write = {"binary_data_version": "v2", "node_count": 1, "edge_count": 1, "node_type_count": 1, "edge_type_count": 1, "node_feature_count": 3, "edge_feature_count": 3, "partitions": {"0": {"node_weight": [1.0], "edge_weight": [1.0]}}, "node_count_per_type": [1], "edge_count_per_type": [1], "watermark": 5}
        put(self.env, _os.path.join(output_folder, "meta.json"), _json.dumps(write))

    def __getattr__(self, name):
        if name != self.__dict__.get("target"):
            raise AttributeError(name)
        return lambda **a: self.attempt(OUT[name], a)

    def attempt(self, outs, a):
        ctx, k = self.ctx, self.tries
        self.tries += 1
        fails = k < self.failures
        if fails:
            if isinstance(outs, list) and self.partial:
                for p, code, n in outs:
                    a[p].write([val(ctx, f"junk{k}.{p}", code)], code)
            s = ctx.int(f"status{k}", -(2**31), 2**31 - 1)
            ctx.assume(s != 0)
            return s
        want = []
        if isinstance(outs, list):
            for p, code, n in outs:
                v = [val(ctx, f"{p}{i}", code) for i in range(n)]
                a[p].write(v, code)
                want.append(v)
        elif outs == "neighbors":
            v = [[val(ctx, f"{c}{i}", c) for i in range(2)] for c in "qfi"]
            a["out_neighbor_counts"].write([2])
            a["callback"](*[pointer(ctx, self.env, x, c) for x, c in zip(v, "qfi")], pointer(ctx, self.env, [], "q"), 2)
            want = [*v, [2]]
        else:
            v = [val(ctx, f"v{i}", "f") for i in range(2)]
            raw = cells_of(ctx, "f", v)
            if outs == "string":
                a["dimensions"].write([8])
                a["callback"](8, pointer(ctx, self.env, raw, "B"))
                want = [v, [2]]
            else:
                i = [val(ctx, f"i{k}", "q") for k in range(4)]
                a["callback"](pointers(ctx, [pointer(ctx, self.env, i, "q")]), pointer(ctx, self.env, [4], "Q"), pointers(ctx, [pointer(ctx, self.env, raw, "B")]), pointer(ctx, self.env, [8], "Q"), pointer(ctx, self.env, [1], "q"))
                want = [i, v, [1]]
        self.want = want
        return 0


def judge(ctx, eng, call, attempts):
    try:
        r = call()
    except Exception as e:
        if isinstance(e, Verdict) or not eng.failures or not eng.tries:
            raise
        ctx.check(eng.failures >= attempts, "a query succeeds as soon as one attempt does", lambda: f"{eng.failures} failures, {attempts} attempts allowed, {eng.tries} made")
        ctx.check(eng.tries == attempts, "the query is tried as often as configured", lambda: f"{eng.tries} of {attempts}")
        ctx.cover("gave up")
        return
    ctx.check(eng.tries <= attempts, "the query is tried as often as configured", lambda: f"{eng.tries} of {attempts}")
    ctx.check(eng.want is not None, "a query the engine never answered does not return", lambda: f"{eng.tries} attempts, {eng.failures} failures")
    ctx.check(eng.tries == eng.failures + 1, "an answered query is not repeated", lambda: f"{eng.tries}")
    ctx.check_eq([flat(x) for x in r], eng.want, "the result is the answer of the succeeding attempt")


def remote(ctx, b):
    name = ctx.choice("query", list(QUERIES))
    fn, call = QUERIES[name]
    sleeper = Sleeper()
    ctx.patch(tenacity.nap, "time", sleeper)
    if ctx.flag("configured"):
        attempts = ctx.choice("attempts", b["attempts"])
        initial, mult = ctx.choice("initial", b["initial"]), ctx.choice("multiplier", b["multiplier"])
        longest = ctx.choice("longest", b["longest"])
        if initial > longest:
            return
        policy = {"maxAttempts": attempts, "initialBackoff": f"{initial}s", "maxBackoff": f"{longest}s", "backoffMultiplier": mult}
        opts = [("grpc.service_config", _json.dumps({"methodConfig": [{"name": [{}], "retryPolicy": policy}]}))]
        if ctx.flag("other_option"):
            opts = [("grpc.lb_policy_name", "round_robin")] + opts
    else:
        attempts, initial, longest = 5, 2, 10
        opts = None
    eng = Engine(fn, ctx.pick("failures", 0, attempts + 1), ctx.flag("partial"))
    env, lib = setup(ctx, eng)
    g = client.DistributedGraph(["a:1"], grpc_options=opts, num_threads=1)
    judge(ctx, eng, lambda: call(g), attempts)
    ctx.check(len(sleeper.waits) == max(0, eng.tries - 1), "one pause between attempts", lambda: f"{len(sleeper.waits)} pauses, {eng.tries} attempts")
    for w in sleeper.waits:
        ctx.check(initial <= w <= longest, "pauses stay within the configured limits", lambda: f"{w} of [{initial}, {longest}]")


def memory(ctx, b):
    name = ctx.choice("query", list(QUERIES))
    fn, call = QUERIES[name]
    sleeper = Sleeper()
    ctx.patch(tenacity.nap, "time", sleeper)
    eng = Engine(fn, ctx.pick("failures", 0, 2), ctx.flag("partial"))
    env, lib = setup(ctx, eng)
    write_meta(env, features=(3, 3), watermark=5)
    g = client.MemoryGraph(env.path(), [0])
    judge(ctx, eng, lambda: call(g), 1)
    ctx.check(not sleeper.waits, "a graph in memory does not wait")


class Opening:
    """Engine whose creation functions fail."""

    def __init__(self, ctx, name):
        self.failed = False

        def fail(**a):
            self.failed = True
            s = ctx.int("status", -(2**31), 2**31 - 1)
            ctx.assume(s != 0)
            return s

        setattr(self, name, fail)


def opening(ctx, b):
    what = ctx.choice("what", ["CreateLocalGraph", "CreateRemoteClient", "StartServer", "CreateWeightedNodeSampler", "CreateUniformNodeSampler", "CreateUniformNodeSamplerWithoutReplacement", "CreateWeightedEdgeSampler", "CreateUniformEdgeSampler", "CreateUniformEdgeSamplerWithoutReplacement"])
    eng = Opening(ctx, what)
    env, lib = setup(ctx, eng)
    write_meta(env)
    try:
        if what == "CreateLocalGraph":
            local.Client(env.path(), [0])
        elif what == "CreateRemoteClient":
            client.DistributedGraph(["a:1"], num_threads=1)
        elif what == "StartServer":
            if ctx.flag("distributed"):
                distributed.Server("h:1", env.path(), 0, 1)
            else:
                server.Server(env.path(), [0], "h:1")
        else:
            g = client.MemoryGraph(env.path(), [0])
            kind = "withoutreplacement" if "Without" in what else ("weighted" if "Weighted" in what else "uniform")
            (client.NodeSampler if "Node" in what else client.EdgeSampler)(g, [0], kind)
    except Exception as e:
        if isinstance(e, Verdict) or not eng.failed:
            raise
        return
    ctx.fail("a failure of the engine reaches the caller: " + what)


HARNESSES = [
    Harness("remote", remote, {"attempts": [1, 3], "initial": [1], "longest": [2, 9], "multiplier": [2]}, {"attempts": [1, 2, 4, 6], "initial": [0, 1, 3], "longest": [1, 3, 9], "multiplier": [1, 2]}, covers=["gave up"]),
    Harness("memory", memory, {}, {}, covers=["gave up"]),
    Harness("opening", opening, {}, {}),
]
