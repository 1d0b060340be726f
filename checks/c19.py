"""C19: sub-graph extraction returns the complete neighbourhood, nothing else."""
from deepgnn.graph_engine import graph_ops

from checks.graphlib import Adjacency, increasing_ids, index_of
from symx.core import Eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "node ids any distinct 62-bit integers; every out-edge list up to the listed degree (parallel edges and self edges included) over the listed number of nodes; edge types any two integers"
OUTSIDE = "more nodes, hops or out-edges than listed"
ASSUMPTIONS = ["the graph client's neighbors() is a stand-in that answers from an arbitrary adjacency and checks what it is asked"]


def extract(ctx, b):
    env = Env(ctx)
    np = env.np
    hops = ctx.pick("hops", 1, b["hops"])
    self_loop = ctx.flag("self_loop")
    undirected = ctx.flag("undirected")
    as_edges = ctx.flag("return_edges")
    ids = increasing_ids(ctx, b["nodes"])
    g = Adjacency(ctx, env, ids, b["degree"], total=b["edges"])
    src = [ctx.pick(f"src{i}", 0, len(ids) - 1) for i in range(ctx.pick("sources", 1, b["sources"]))]
    types = [ctx.int("type0", 0, 1000), ctx.int("type1", 0, 1000)]
    arr = np.array([ids[s] for s in src], dtype=np.int64)
    nodes, adj, idx = graph_ops.sub_graph(g, arr, np.array(types, dtype=np.int32), hops, self_loop, undirected, as_edges)
    for _, ts in g.calls:
        ctx.check_eq(ts, types, "only the requested edge types are followed")
    # oracle: breadth-first search over the same graph
    inner, frontier = set(src), set(src)
    for _ in range(hops - 1):
        frontier = {v for u in frontier for v in g.of(u)[0]}
        inner |= frontier
    edges = {(u, v) for u in inner for v in g.of(u)[0]}
    reach = set(src) | {x for e in edges for x in e}
    if undirected:
        edges |= {(v, u) for u, v in edges}
    if self_loop:
        edges |= {(u, u) for u in reach}
    got_nodes = [index_of(x, ids) for x in aslist(nodes)]
    ctx.check(sorted(got_nodes, key=str) == sorted(reach, key=str), "nodes are exactly those reachable, each once", lambda: f"{got_nodes} expected {sorted(reach)}")
    ctx.check([got_nodes[int(i)] for i in aslist(idx)] == src, "reported positions point at the source nodes", lambda: f"{aslist(idx)}")
    if as_edges:
        rows = [tuple(r) for r in aslist(adj)]
        got = {(got_nodes[int(a)], got_nodes[int(c)]) for a, c in rows}
        if self_loop or undirected:
            ctx.check(len(got) == len(rows), "edges are listed once", lambda: f"{rows}")
    else:
        m = aslist(adj)
        n = len(got_nodes)
        ctx.check(len(m) == n and all(len(r) == n for r in m), "adjacency matrix is square over the nodes")
        got = {(got_nodes[i], got_nodes[j]) for i in range(n) for j in range(n) if m[i][j] != 0}
    ctx.check(got == edges, "edges are exactly those between the listed nodes", lambda: f"{sorted(got)} expected {sorted(edges)}")
    ctx.check_eq(aslist(arr), [ids[s] for s in src], "source nodes are not modified")
    if len(set(src)) < len(src):
        ctx.cover("repeated source")
    if (src[0], src[0]) in edges and not self_loop:
        ctx.cover("self edge")


HARNESSES = [Harness("extract", extract, dict(nodes=3, degree=2, edges=3, hops=2, sources=2), dict(nodes=4, degree=2, edges=4, hops=3, sources=2), covers=["repeated source", "self edge"])]
