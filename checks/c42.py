"""Samplers of nodes and edges behind the interface for Python, in the process or on servers."""
from checks import c39
from checks.c39 import T, UNIFORM, WEIGHTED
from checks.c40 import ASSUMPTIONS, served
from checks.englib import prepare  # noqa: F401
from symx.runner import Harness

BOUNDS = "up to 3 elements of one type (thorough 4 of two) in two partitions, in the process, on one server or on two (thorough three), up to 3 samples, any outcome of every draw (without replacement: each real draw is 1/8 or 15/16), replies arriving in any order; proportions as in C39 with totals of 2"
OUTSIDE = "failing connections and servers, servers without partitions, larger tables, equal probability of all subsets without replacement (N01)"

S = {"servers": 2, "full": 1}
L = {"servers": 2, "least_servers": 2, "full": 1}
M = {"elements": 2, "types": 1, "partitions": 2, "count": 2}
HARNESSES = [
    Harness("weighted_nodes", served(c39.members), dict(M, edges=0, kind=WEIGHTED, count=1, **S), dict(M, elements=3, types=2, edges=0, kind=WEIGHTED, **S), covers=["sampled", "nothing", "two servers"], weight=2),
    Harness("weighted_edges", served(c39.members), dict(M, edges=1, kind=WEIGHTED, fixed=1, **L), dict(M, elements=3, types=2, edges=1, kind=WEIGHTED, **S), covers=["sampled", "nothing", "two servers"], weight=2),
    Harness("uniform_nodes", served(c39.members), dict(M, edges=0, kind=UNIFORM, fixed=1, **L), dict(M, elements=3, types=2, edges=0, kind=UNIFORM, **S), covers=["sampled", "nothing", "two servers"], weight=2),
    Harness("uniform_edges", served(c39.members), dict(M, edges=1, kind=UNIFORM, fixed=1, count=1, **S), dict(M, elements=3, types=2, edges=1, kind=UNIFORM, **S), covers=["sampled", "nothing", "two servers"], weight=2),
    Harness("without_nodes", served(c39.without), {"elements": 2, "types": 1, "partitions": 2, "count": 3, "edges": 0, **L}, {"elements": 4, "types": 2, "partitions": 2, "count": 5, "edges": 0, **S}, covers=["all", "some"], weight=2),
    Harness("without_edges", served(c39.without), {"elements": 2, "types": 1, "partitions": 2, "count": 3, "edges": 1, **L}, {"elements": 4, "types": 2, "partitions": 2, "count": 5, "edges": 1, **S}, covers=["all", "some"], weight=2),
    Harness("without_three", served(c39.without), {"elements": 3, "least": 3, "types": 1, "partitions": 2, "count": 3, "fewest": 2, "edges": 0, **L}, {"elements": 3, "types": 2, "partitions": 3, "count": 5, "edges": 0, "servers": 3, "full": 1}, covers=["all", "some"], weight=3),
    Harness("shares_nodes", served(c39.shares), dict(M, edges=0, kind=WEIGHTED, count=1, parts=2, total=2, **S), dict(M, types=2, edges=0, kind=WEIGHTED, count=1, parts=2, total=2, **S), covers=["two servers"]),
    Harness("shares_edges", served(c39.shares), dict(M, edges=1, kind=WEIGHTED, count=2, parts=2, total=2, **S), dict(M, types=2, edges=1, kind=WEIGHTED, count=2, parts=2, total=2, **S), covers=["two servers"]),
    Harness("shares_uniform", served(c39.shares), dict(M, edges=0, kind=UNIFORM, count=2, parts=2, **S), dict(M, types=2, edges=1, kind=UNIFORM, count=2, parts=2, **S), covers=["two servers"]),
]
