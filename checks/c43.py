"""Features of graphs behind the interface for Python, in the process or on servers."""
from checks import c37, c38
from checks.c40 import ASSUMPTIONS, served
from checks.englib import prepare  # noqa: F401
from symx.runner import Harness

BOUNDS = "the features and queries of C37 and C38 with files spread over two partitions, in the process, on one server or on two, replies arriving in any order"
OUTSIDE = "failing connections and servers, messages larger than these, several client threads, servers without a graph; edges stored on two servers"

F = {"features": 1, "size": 1, "asked": 1, "wanted": 1, "bytes": 1, "split": 1, "disk": 0, "dim": 1}
V = {"features": 1, "versions": 1, "size": 1, "asked": 1, "wanted": 1, "bytes": 1, "dim": 1, "split": 1, "disk": 0}
E = {**F, "edges": 1, "types": 1, "least_servers": 2, "own": 1}
G = {**F, "features": 2, "wanted": 2}
VV = {**V, "versions": 2}
N = {**V, "features": 2, "wanted": 2, "known": 1, "fewest": 2, "least_servers": 2, "own": 1}
C = ["two servers"]
HARNESSES = [
    Harness("timed_dense", served(c38.dense), V, VV, covers=C),
    Harness("timed_strings", served(c38.strings), V, VV, covers=C),
    Harness("timed_sparse", served(c38.sparse), V, VV, covers=C),
    Harness("dense", served(c37.dense), F, G, covers=C),
    Harness("strings", served(c37.strings), F, G, covers=C),
    Harness("sparse", served(c37.sparse), F, G, covers=C),
    Harness("edge_dense", served(c37.dense), E, {**G, "edges": 1}, covers=C),
    Harness("edge_strings", served(c37.strings), E, {**G, "edges": 1}, covers=C),
    Harness("edge_sparse", served(c37.sparse), E, {**G, "edges": 1}, covers=C),
    Harness("two_strings", served(c38.strings), N, {**N, "versions": 2}, covers=C, weight=2),
    Harness("two_sparse", served(c38.sparse), N, {**N, "versions": 2}, covers=C, weight=2),
    Harness("lengths", served(c38.strings), {**N, "present": 1, "size": 2}, {**N, "present": 1, "size": 3, "versions": 2}, covers=C, weight=3),
    Harness("lengths_one", served(c38.strings), {**N, "present": 1, "size": 2, "servers": 1, "least_servers": 1, "own": 0}, {**N, "present": 1, "size": 2, "versions": 2, "servers": 1, "least_servers": 1, "own": 0}, weight=2),
]
