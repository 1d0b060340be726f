"""Sampling of neighbours behind the interface for Python, in the process or on servers."""
from checks import c35, c36
from checks.c35 import Spread, runs
from checks.c40 import ASSUMPTIONS as BASE, served
from checks.englib import Edge, Library, Node, World, prepare  # noqa: F401
from symx.core import B2I
from symx.runner import Harness

BOUNDS = "the nodes and draws of C35 and C36 with up to 3 edges in two files, in the process, on one server or on two, replies arriving in any order, requested types in ascending order as the Python client sends them; proportions: up to 3 edges, with replacement in halves; without replacement one edge on each of up to three servers and one sample"
OUTSIDE = "failing connections and servers, more edges, equal probability of all subsets without replacement (N01), unsorted types (the Python client sorts them)"
ASSUMPTIONS = BASE


def merged(ctx, b):
    """A node with at most as many edges on every server as are asked for."""
    me, d = 3, 6
    sizes = [ctx.pick(f"edges{p}", 0, b["edges"]) for p in range(b["parts"])]
    n, count = sum(sizes), b["count"]
    ctx.assume(n > 0 and max(sizes) <= count)
    if b.get("fixed"):
        ctx.assume(sizes == [2, 1])
    es = [Edge(10 + k, 0, 1.0) for k in range(n)]
    draws = Spread(ctx, d)
    parts, at = {}, 0
    for p, s in enumerate(sizes):
        parts[f"{p}_0"] = [Node(me, 0, es[at : at + s])]
        at += s
    w = World(Library(ctx, draws), parts)
    ctx.cover("chosen") if n > count else None
    got = [0] * n
    for share, (i, t, tot, c) in runs(draws, d, lambda: w.uniform([me], [0], count, 1)):
        for k in range(n):
            for x in i:
                got[k] = got[k] + share * B2I(x == 10 + k)
    for k in range(n):
        ctx.check(got[k] * n == d**16 * min(count, n), "without replacement every edge is equally likely" if not b.get("fixed") else "the edges of a server with as many edges as are asked for are equally likely")
    w.close()


S = {"split": 1, "servers": 2, "sorted": 1}
L = {**S, "least_servers": 2}
HARNESSES = [
    Harness("weighted", served(c35.members), {"edges": 2, "types": 1, "asked": 1, "count": 1, **S}, {"edges": 3, "types": 2, "asked": 1, "count": 2, **S}, covers=["sampled", "defaults", "two servers"]),
    Harness("weighted_two", served(c35.members), {"edges": 1, "types": 1, "asked": 2, "count": 2, "times": 1, **L}, {"edges": 2, "types": 2, "asked": 2, "count": 2, "times": 1, **S}, covers=["sampled", "defaults", "two servers"]),
    Harness("moments", served(c35.moments), {"edges": 2, "types": 1, "count": 1, **L}, {"edges": 3, "types": 2, "count": 1, **S}, covers=["sampled", "defaults", "two servers"], weight=2),
    Harness("uniform", served(c36.static), {"without": 0, "edges": 2, "types": 1, "asked": 1, "count": 1, **S}, {"without": 0, "edges": 3, "types": 2, "asked": 2, "count": 2, **S}, covers=["sampled", "defaults", "two servers"]),
    Harness("uniform_two", served(c36.static), {"without": 0, "edges": 1, "types": 1, "asked": 2, "count": 2, **L}, {"without": 0, "edges": 2, "types": 2, "asked": 2, "count": 2, **S}, covers=["sampled", "defaults", "two servers"]),
    Harness("uniform_moments", served(c36.moments), {"without": 0, "edges": 2, "types": 1, "asked": 1, "count": 1, "all": 1, **L}, {"without": 0, "edges": 3, "types": 2, "asked": 1, "count": 2, **S}, covers=["sampled", "defaults", "two servers"], weight=2),
    Harness("without", served(c36.static), {"without": 1, "edges": 3, "types": 1, "asked": 1, "count": 2, "all": 1, "coarse": 1, "times": 0, "own": 1, **L}, {"without": 1, "edges": 3, "types": 2, "asked": 2, "count": 3, **S}, covers=["sampled", "defaults", "chosen", "two servers"], weight=2),
    Harness("without_moments", served(c36.moments), {"without": 1, "edges": 2, "types": 1, "asked": 1, "count": 2, "coarse": 1, "all": 1, "timed": 1, "own": 1, **L}, {"without": 1, "edges": 3, "types": 2, "asked": 1, "count": 2, **S}, covers=["sampled", "defaults", "chosen", "two servers"], weight=2),
    Harness("shares_weighted", served(c35.shares), {"edges": 3, "types": 1, "count": 1, "parts": 2, **S}, {"edges": 3, "types": 2, "count": 1, "parts": 2, **S}, covers=["two servers"]),
    Harness("shares_uniform", served(c36.shares), {"types": 1, "temporal": 0, "edges": 2, "parts": 2, **S}, {"types": 1, "temporal": 0, **S}, covers=["two servers", "shared"]),
    Harness("merged", served(merged), {"parts": 3, "edges": 1, "count": 1, "servers": 3, "least_servers": 3, "own": 1}, {"parts": 3, "edges": 1, "count": 1, "servers": 3, "least_servers": 2, "own": 1}, covers=["chosen"]),
    Harness("subsets", served(merged), {"parts": 2, "edges": 2, "count": 2, "servers": 2, "least_servers": 2, "own": 1, "fixed": 1}, {"parts": 2, "edges": 2, "count": 2, "servers": 2, "least_servers": 2, "own": 1, "fixed": 1}, covers=["chosen"]),
]
