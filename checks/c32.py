"""C32: graph samples are subgraphs of the requested size."""
import networkx as nx

from deepgnn.graph_engine.snark.preprocess.sampler import forest_fire as ff

from checks.randlib import Draws
from symx.runner import Harness

BOUNDS = "all directed graphs of the listed number of nodes (with or without loops as listed), all requested sizes, all outcomes of the random choices within the listed number of draws; burst sizes up to the number of nodes"
OUTSIDE = "larger graphs; runs with more draws; distribution of the samples"
ASSUMPTIONS = ["random and numpy.random give any value of their range", "the order in which networkx lists nodes and edges is the insertion order"]


def burn(ctx, b):
    n = ctx.pick("nodes", 1, b["nodes"])
    size = ctx.pick("size", 0, n)
    g = nx.MultiDiGraph() if b.get("multi") else nx.DiGraph()
    names = [f"n{i}" if b.get("names") else i * 3 for i in range(n)]
    g.add_nodes_from(names)
    edges = [(u, v) for i, u in enumerate(names) for j, v in enumerate(names) if (i != j or b.get("loops")) and ctx.flag(f"edge{i}_{j}")]
    for u, v in edges:
        g.add_edge(u, v)
        if b.get("multi"):
            g.add_edge(u, v)

    def stuck():
        starts = set([x[1] for x in d.log if x[0] == "int" and x[2] == n][:-1])  # the last one may still burn
        ctx.check(starts != set(range(n)), "a size that can be reached is reached", lambda: f"every node was a start, edges {edges}, size {size}")

    d = Draws(ctx, limit=b["draws"], geometric=b["nodes"], on_limit=stuck).install()
    s = ff.forest_fire(g, size)
    ctx.check(nx.is_directed(s), "a sample is directed")
    ctx.check(set(s.nodes()) <= set(names), "nodes of a sample exist in the graph", lambda: f"{list(s.nodes())}")
    ctx.check(set(s.edges()) <= set(edges), "edges of a sample exist in the graph with their direction", lambda: f"{list(s.edges())} of {edges}")
    ctx.check(size <= len(s) <= size + (1 if size else 0), "a sample has the requested size, or one more for the last edge", lambda: f"{len(s)} nodes for size {size} of edges {edges}")
    ctx.check(list(g.nodes()) == names and set(g.edges()) == set(edges), "the graph stays as it was")
    if size > 1 and s.number_of_edges():
        ctx.cover("burnt")


def undirected(ctx, b):
    g = nx.Graph()
    n = ctx.pick("nodes", 1, b["nodes"])
    g.add_nodes_from(range(n))
    Draws(ctx, limit=30).install()
    try:
        ff.forest_fire(g, ctx.pick("size", 0, n))
    except AssertionError:
        return
    ctx.fail("an undirected graph is refused")


HARNESSES = [
    Harness("burn", burn, {"nodes": 3, "draws": 7}, {"nodes": 3, "draws": 9, "loops": False}, covers=["burnt"], weight=3),
    Harness("loops", burn, {"nodes": 2, "draws": 7, "loops": True, "names": True}, {"nodes": 2, "draws": 11, "loops": True, "names": True}, covers=["burnt"]),
    Harness("multigraph", burn, {"nodes": 2, "draws": 7, "multi": True}, {"nodes": 2, "draws": 11, "multi": True}, covers=["burnt"]),
    Harness("undirected", undirected, {"nodes": 3}, {"nodes": 3}),
]
