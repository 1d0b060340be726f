"""C17: graph-driven samplers deliver the announced number of correct batches."""
from deepgnn.graph_engine import samplers
from deepgnn.graph_engine._base import SamplingStrategy

from symx.core import And, Eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "graph counts up to 2^40; batch size, epochs, workers and loaders any value up to 1000 for the announced length; iteration for up to the listed number of batches"
OUTSIDE = "counts above 2^40 (the length is computed in floating point)"
ASSUMPTIONS = ["the graph client is a stand-in answering counts and samples with arbitrary values"]


class G:
    def __init__(self, ctx, env, count, pair):
        self.ctx, self.env, self.count, self.pair = ctx, env, count, pair
        self.calls, self.count_calls = [], []

    def node_count(self, types):
        self.count_calls.append(("node", types))
        return self.count

    def edge_count(self, types):
        self.count_calls.append(("edge", types))
        return self.count

    def _sample(self, kind, width, size, types, strategy):
        np = self.env.np
        n = len(self.calls)
        vals = [[self.ctx.int(f"s{n}_{i}_{k}", 0, 2**62) for k in range(width)] for i in range(int(size))]
        self.calls.append((kind, size, types, strategy, vals if width > 1 else [v[0] for v in vals]))
        a = np.array(vals, dtype=np.int64)
        a = a if width > 1 else a.reshape(-1)
        return (a, np.array([0] * int(size), dtype=np.int32)) if self.pair else a

    def sample_nodes(self, size, node_types, strategy=None):
        return self._sample("node", 1, size, node_types, strategy)

    def sample_edges(self, size, edge_types, strategy=None):
        return self._sample("edge", 3, size, edge_types, strategy)


def make(ctx, env, g, edges, types, B, E, num, W, D, strategy, d=0):
    cls = samplers.GEEdgeSampler if edges else samplers.GENodeSampler
    return cls(g, types, B, E, sample_num=num, num_workers=W, strategy=strategy, data_parallel_num=D, data_parallel_index=d)


def announced(ctx, b):
    env = Env(ctx)
    edges = ctx.flag("edges")
    B, E, W, D = [ctx.int(n, 1, 1000) for n in ("batch", "epochs", "workers", "loaders")]
    total = ctx.int("count", 0, 2**40)
    given = ctx.flag("sample_num_given")
    num = ctx.int("sample_num", 0, 2**40) if given else -1
    if b["fixed"]:  # products of several unknowns are left to the small cases
        W, D = ctx.pick("w", 1, 3), ctx.pick("d", 1, 3)
        B = ctx.pick("b", 1, b["fixed"])
        E = ctx.pick("e", 1, 3)
    g = G(ctx, env, total, False)
    types = env.np.array([1, 4], dtype=env.np.int32)
    s = make(ctx, env, g, edges, types, B, E, num, W, D, SamplingStrategy.Weighted)
    n = type(s).__len__(s)
    want = num if given else total
    share = B * W * D
    ctx.check(And(n * share >= E * want, (n - 1) * share < E * want), "announced length is the share of the requested samples rounded up", lambda: f"{n}")
    if not given:
        ctx.check(len(g.count_calls) == 1 and g.count_calls[0][0] == ("edge" if edges else "node") and g.count_calls[0][1] is types, "counted for the requested types")


def batches(ctx, b):
    env = Env(ctx)
    edges = ctx.flag("edges")
    arr = ctx.flag("several_types")
    B = ctx.pick("batch", 1, b["batch"])
    E = ctx.pick("epochs", 1, 2)
    W = ctx.pick("workers", 1, 2)
    D = ctx.pick("loaders", 1, 2)
    num = ctx.pick("sample_num", 0, b["num"])
    strategy = ctx.choice("strategy", [SamplingStrategy.Weighted, SamplingStrategy.Random])
    t = [ctx.int("t0", 0, 1000), ctx.int("t1", 0, 1000)]
    types = env.np.array(t, dtype=env.np.int32) if arr else t[0]
    g = G(ctx, env, num, arr and not edges)
    s = make(ctx, env, g, edges, types, B, E, -1, W, D, strategy, d=D - 1)
    n = len(s)
    ctx.check(n == -(-E * num // (B * W * D)), "announced length", lambda: str(n))
    for rep in range(2):
        g.calls.clear()
        it = iter(s)
        got = []
        while True:
            try:
                got.append(next(it))
            except StopIteration:
                break
            if len(got) > 50:
                ctx.fail("iteration ends")
        ctx.check(len(got) == n, "number of batches equals the announced length", lambda: f"{len(got)} != {n}")
        ctx.check(len(g.calls) == n, "one query per batch")
        for x, (kind, size, ty, st, vals) in zip(got, g.calls):
            ctx.check(kind == ("edge" if edges else "node") and size == B and st == strategy, "query asks for a batch with the requested strategy", lambda: f"{kind} {size} {st}")
            ctx.check_eq(aslist(ty) if arr else ty, t if arr else t[0], "query asks for the requested types")
            ctx.check_eq(aslist(x), vals, "batch is what the graph returned")
    if n:
        ctx.cover("sampled")


HARNESSES = [
    Harness("announced", announced, dict(fixed=6), dict(fixed=12)),
    Harness("batches", batches, dict(batch=2, num=3), dict(batch=3, num=6), covers=["sampled"]),
]
