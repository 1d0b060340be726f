"""C20: multi-hop sampling keeps every hop aligned with its parents."""
from deepgnn.graph_engine import graph_ops, multihop

from checks.graphlib import Adjacency, increasing_ids, index_of
from symx.core import Eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "node ids, sampled neighbours, types and weights are arbitrary (62-bit, 31-bit, multiples of 1/4); hop counts, fan-outs and adjacency sizes as listed"
OUTSIDE = "more hops, larger fan-outs or larger neighbourhoods than listed"
ASSUMPTIONS = ["the graph client is a stand-in returning arbitrary samples in the shape the client documents"]


class Sampler:
    """Answers sample_neighbors with fresh symbols and remembers the exchange."""

    def __init__(self, ctx, env):
        self.ctx, self.env, self.calls, self.feature_calls = ctx, env, [], []

    def sample_neighbors(self, nodes, edge_types, count=10, strategy="byweight", default_node=-1, default_weight=0.0, default_edge_type=-1, *a, **k):
        np = self.env.np
        n, c = len(self.calls), int(count)
        nb = [[self.ctx.int(f"s{n}_{i}_{j}", -1, 2**62) for j in range(c)] for i in range(len(nodes))]
        w = [[self.ctx.real(f"w{n}_{i}_{j}", 0, 8) for j in range(c)] for i in range(len(nodes))]
        t = [[self.ctx.int(f"t{n}_{i}_{j}", -1, 1000) for j in range(c)] for i in range(len(nodes))]
        self.calls.append(dict(nodes=list(nodes), types=list(edge_types), count=count, strategy=strategy, default=default_node, nb=sum(nb, []), w=sum(w, []), t=sum(t, [])))
        sh = (len(nodes), c)
        return (np.array(nb, dtype=np.int64).reshape(sh), np.array(w, dtype=np.float32).reshape(sh), np.array(t, dtype=np.int32).reshape(sh),
                np.array([], dtype=np.int64))

    def edge_features(self, edges, meta, ftype):
        self.feature_calls.append((aslist(edges), aslist(meta), ftype))
        return "features"


def fanout(ctx, b):
    env = Env(ctx)
    np = env.np
    g = Sampler(ctx, env)
    hops = ctx.pick("hops", 1, b["hops"])
    fan = [ctx.pick(f"fanout{h}", 1, b["fanout"]) for h in range(hops)]
    meta = [[ctx.int(f"mt{h}_{k}", 0, 1000) for k in range(1 + h % 2)] for h in range(hops)]
    n = ctx.pick("nodes", 1, b["nodes"])
    ids = [ctx.int(f"id{i}", 0, 2**62) for i in range(n)]
    default = ctx.int("default", -(2**40), 2**62)
    strategy = ctx.choice("strategy", ["byweight", "random"])
    nb, w, t = multihop.sample_fanout(g, np.array(ids, dtype=np.int64), meta, fan, default, strategy)
    ctx.check(len(nb) == hops + 1 and len(w) == hops and len(t) == hops and len(g.calls) == hops, "one array per hop")
    ctx.check_eq(aslist(nb[0]), ids, "hop 0 is the input")
    for h, c in enumerate(g.calls):
        ctx.check_eq(c["nodes"], aslist(nb[h]), "a hop is sampled from the nodes of the previous hop in order")
        ctx.check_eq(c["types"], meta[h], "edge types of the hop")
        ctx.check_eq([c["count"], c["default"]], [fan[h], default], "fan-out and default of the hop")
        ctx.check(c["strategy"] == strategy, "strategy is passed on")
        ctx.check_eq(aslist(nb[h + 1]), c["nb"], "samples stay with their parents")
        ctx.check_eq(aslist(w[h]), c["w"], "weights stay with their samples")
        ctx.check_eq(aslist(t[h]), c["t"], "types stay with their samples")


def out_edges(ctx, b):
    env = Env(ctx)
    np = env.np
    g = Sampler(ctx, env)
    n = ctx.pick("nodes", 1, b["nodes"])
    count = ctx.pick("count", 1, b["count"])
    ids = [ctx.int(f"id{i}", 0, 2**62) for i in range(n)]
    types = [ctx.int("type", 0, 1000)]
    strategy = ctx.choice("strategy", ["byweight", "topk"])
    meta = np.array([[0, 2], [1, 3]], dtype=np.int32) if ctx.flag("features") else None
    edges, feat = graph_ops.sample_out_edges(g, np.array(ids, dtype=np.int64), np.array(types, dtype=np.int32), count, strategy, meta)
    c = g.calls[0]
    ctx.check_eq(c["nodes"], ids, "nodes asked for")
    ctx.check_eq([c["types"], c["count"]], [types, count], "types and count asked for")
    ctx.check(c["strategy"] == strategy, "strategy is passed on")
    expected = [[ids[i // count], c["nb"][i], c["t"][i]] for i in range(n * count)]
    ctx.check_eq(aslist(edges), expected, "one (source, destination, type) per sample")
    if meta is None:
        ctx.check(feat is None and not g.feature_calls, "no features unless asked for")
    else:
        ctx.check(feat == "features" and len(g.feature_calls) == 1, "features of the sampled edges are returned")
        ctx.check_eq(g.feature_calls[0][0], expected, "features are fetched for the sampled edges")
        ctx.check_eq(g.feature_calls[0][1], [[0, 2], [1, 3]], "feature description is passed on")


def full(ctx, b):
    """get_neighbor: complete neighbourhoods hop by hop with sparse adjacency."""
    env = Env(ctx)
    np = env.np
    ids = increasing_ids(ctx, b["nodes"])
    g = Adjacency(ctx, env, ids, b["degree"], any_order=True, total=b["edges"])
    src = [ctx.pick(f"src{i}", 0, len(ids) - 1) for i in range(ctx.pick("sources", 1, b["sources"]))]
    hops = ctx.pick("hops", 1, b["hops"])
    types = [[ctx.int(f"type{h}", 0, 1000)] for h in range(hops)]
    M = ctx.pick("max_neighbors", 1, b["max"])
    cap = [len(src) * M**h for h in range(hops + 1)]
    raised = False
    try:
        nodes, adjs = multihop.get_neighbor(g, np.array([ids[s] for s in src], dtype=np.int64), types, M)
    except UserWarning:
        raised = True
    cur = src
    for h in range(hops):
        pairs = [(i, v, w) for i, u in enumerate(cur) for v, w in zip(g.of(u)[0], g.of(u)[1])]
        if len(pairs) > cap[h] * M:
            ctx.check(raised, "neighbourhoods that do not fit are reported")
            ctx.cover("too many")
            return
        nxt = sorted({v for _, v, _ in pairs})
        if not raised:
            ctx.check(len(nodes) == hops + 1 and len(adjs) == hops, "one result per hop")
            vals, ln = aslist(nodes[h + 1][0]), aslist(nodes[h + 1][1])
            ctx.check(ln == [len(nxt)] and len(vals) == cap[h + 1], "number of nodes and padded size", lambda: f"{ln} {len(vals)}")
            ctx.check([index_of(x, ids) for x in vals[: len(nxt)]] == nxt, "nodes of a hop are the distinct neighbours")
            ctx.check_eq(vals[len(nxt) :], [0] * (len(vals) - len(nxt)), "padding is zero")
            ind, w, shape, cnt = [aslist(x) for x in adjs[h]]
            ctx.check(cnt == [len(pairs)] and shape == [len(cur), len(nxt)], "adjacency size", lambda: f"{cnt} {shape}")
            ctx.check(len(ind) == len(w) == cap[h] * M, "adjacency padded size")
            ctx.check_eq([list(x) for x in ind[: len(pairs)]], [[i, nxt.index(v)] for i, v, _ in pairs], "adjacency joins parents with their neighbours")
            ctx.check_eq(w[: len(pairs)], [x for _, _, x in pairs], "weights stay with their edges")
            ctx.check_eq(w[len(pairs) :], [0] * (len(w) - len(pairs)), "weight padding is zero")
        if len(nxt) == 0:
            ctx.cover("empty hop")
        cur = nxt
    ctx.check(not raised, "no failure when everything fits")
    for h, (ns, ts) in enumerate(g.calls):
        ctx.check_eq(ts, types[h], "edge types of the hop")


HARNESSES = [
    Harness("fanout", fanout, dict(hops=3, fanout=2, nodes=2), dict(hops=3, fanout=3, nodes=3)),
    Harness("out_edges", out_edges, dict(nodes=3, count=3), dict(nodes=4, count=4)),
    Harness("full", full, dict(nodes=3, degree=2, edges=3, sources=2, hops=2, max=2), dict(nodes=3, degree=3, edges=4, sources=2, hops=3, max=3), covers=["too many", "empty hop"]),
]
