"""C49: metrics of graphs have the values of their definitions."""
import math

import networkx as nx

from deepgnn.graph_engine.snark.preprocess.sampler import metric

from checks.randlib import Draws
from symx.runner import Harness

BOUNDS = "all directed graphs of up to the listed number of nodes, numbers or names as nodes, with or without loops; all outcomes of the random draws of the listed number of trials"
OUTSIDE = "larger graphs, the largest eigenvalue (computed by numpy), the mean of the estimate over many trials; two trials on four nodes only for graphs whose first three nodes form a triangle"
ASSUMPTIONS = ["random gives any value of its range", "logarithms are Python's"]


def graph(ctx, b):
    n = ctx.pick("nodes", 0 if b.get("empty") else 1, b["nodes"])
    names = [f"n{i}" for i in range(n)] if ctx.flag("names") else [5 * i + 7 for i in range(n)]
    g = nx.DiGraph()
    g.add_nodes_from(names)
    if b.get("triangle"):
        edges = [(names[i], names[j]) for i in range(n) for j in range(i) if i < 3 or ctx.flag(f"edge{i}_{j}")]
    else:
        edges = [(u, v) for i, u in enumerate(names) for j, v in enumerate(names) if (i != j or b.get("loops")) and ctx.flag(f"edge{i}_{j}")]
    g.add_edges_from(edges)
    return g, names, edges


def distances(names, edges):
    """Lengths of shortest paths by repeated relaxation."""
    d = {(u, v): 0 if u == v else None for u in names for v in names}
    for _ in names:
        for u, v in edges:
            for s in names:
                if d[s, u] is not None and (d[s, v] is None or d[s, v] > d[s, u] + 1):
                    d[s, v] = d[s, u] + 1
    return d


def shape(ctx, b):
    g, names, edges = graph(ctx, b)
    n = len(names)
    d = distances(names, edges)
    groups = []
    for u in names:
        c = frozenset(v for v in names if d[u, v] is not None and d[v, u] is not None)
        if c not in groups:
            groups.append(c)
    big = max((len(c) for c in groups), default=0)
    share = metric.largest_connected_component(g)
    ctx.check(abs(share - (big / n if n else 0)) < 1e-9, "the share of the largest strongly connected component", lambda: f"{share} of {edges}")
    spans = {max(d[u, v] for u in c for v in c) for c in groups if len(c) == big} or {0}
    got = metric.diameter(g)
    ctx.check(got in spans, "the diameter of a largest strongly connected component", lambda: f"{got} not in {spans} of {edges}")
    dens = metric.densification(g)
    want = math.log(len(edges)) / math.log(n) if n > 1 and edges else 0
    ctx.check(abs(dens - want) < 1e-9, "edges grow as nodes to the power of the densification", lambda: f"{dens} instead of {want}")
    ctx.check(list(g.nodes()) == names and set(g.edges()) == set(edges), "the graph stays as it was")
    if big > 2:
        ctx.cover("component")


def clustering(ctx, b):
    g, names, edges = graph(ctx, b)
    trials = ctx.pick("trials", 1, b["trials"])
    d = Draws(ctx, limit=b["trials"] * 3).install()
    got = metric.average_clustering(g, trials)
    links = {frozenset(e) for e in edges if e[0] != e[1]}
    pairs = [x[1] for x in d.log if x[0] == "sample"]
    ints = [x for x in d.log if x[0] == "int"]
    drawn = [names[x[1]] for x in ints if 0 <= x[1] < len(names)]
    ctx.check(0 <= got <= 1, "the coefficient is between zero and one", lambda: f"{got}")
    if not b.get("loops"):
        full = [u for u in names if sum(1 for l in links if u in l) >= 2]
        if len(pairs) == sum(1 for u in drawn if u in full) and len(drawn) == trials:
            hits = sum(1 for u, v in pairs if frozenset((u, v)) in links)
            ctx.check(abs(got * trials - hits) < 1e-9, "the coefficient is the share of trials that close a triangle", lambda: f"{got} for {pairs} of {edges}")
            ctx.cover("trials")
        if len(ints) == trials == len(drawn) and all(len(p) == 2 for p in pairs):
            ctx.check(all(x[2] == len(names) for x in ints), "every node may be drawn", lambda: f"{ints[0][2]} of {len(names)} nodes")
            near = {u: [v for v in names if frozenset((u, v)) in links] for u in names}
            local = [[frozenset((v, w)) in links for i, v in enumerate(near[u]) for w in near[u][:i]] for u in drawn]
            least, most = sum(1 for c in local if c and all(c)), sum(1 for c in local if any(c))
            ctx.check(least - 1e-9 <= got * trials <= most + 1e-9, "every drawn node counts by its own neighbours", lambda: f"{got} for {drawn} of {edges}")
        if not any(frozenset((u, v)) in links and frozenset((v, w)) in links and frozenset((u, w)) in links for u in names for v in names for w in names):
            ctx.check(got == 0, "a graph without triangles has no clustering")
        if len(links) == len(names) * (len(names) - 1) / 2 and len(names) > 2:
            ctx.check(got == 1, "a complete graph has full clustering", lambda: f"{got}")
            ctx.cover("complete")


HARNESSES = [
    Harness("shape", shape, {"nodes": 3, "empty": True, "loops": True}, {"nodes": 4, "empty": True}, covers=["component"]),
    Harness("clustering", clustering, {"nodes": 3, "trials": 1}, {"nodes": 4, "trials": 1}, covers=["trials", "complete"]),
    Harness("two_trials", clustering, {"nodes": 4, "trials": 2, "triangle": True}, {"nodes": 4, "trials": 3, "triangle": True}, covers=["trials", "complete"]),
    Harness("loops", clustering, {"nodes": 2, "trials": 2, "loops": True}, {"nodes": 3, "trials": 1, "loops": True}),
]
