"""Random walks through the interface for Python."""
from fractions import Fraction

from checks.c35 import Positive, Spread, runs
from checks.c40 import ASSUMPTIONS, served
from checks.englib import Arr, Edge, I63, Library, Node, World, ids, out, prepare  # noqa: F401
from symx.core import And, B2I, Or
from symx.runner import Harness

BOUNDS = ("directed graphs with up to three nodes (thorough four) and edges of two types between any two of them, any ids, walks of up to 3 steps from up to two nodes, p and q of 1/2, 1 or 2, any outcome of every draw, in the process, on one server or on two; "
          "proportions: undirected graphs of three nodes (thorough four), weights 1 and 2, all walks of two steps")
OUTSIDE = "proportions with edges from a node to itself or several edges between two nodes, edges of weight 0, default ids that are nodes of the graph, longer walks; in graphs without the opposite edge a walk may return to where it came from, as documented for p"


def walk(w, start, length, p, q, missing, types, ts=None):
    o = out("q", len(start) * (length + 1))
    w.call("walk", w.g, 1, p, q, missing, len(start), Arr("q", start), *w._times(ts), len(types), Arr("i", types), length, o)
    return [o.values[k * (length + 1) : (k + 1) * (length + 1)] for k in range(len(start))]


def spread(ctx, b, nodes, edges):
    """Nodes with their edges {from: [Edge]} over one or two partitions."""
    def part(keep):
        return [Node(x, 0, sorted((e for e in edges[k] if keep(k, e)), key=lambda e: e.type)) for k, x in enumerate(nodes)]

    if not b.get("split"):
        return {"0_0": part(lambda k, e: True)}
    cut = ctx.pick("cut", 0, len(nodes))
    return {"0_0": part(lambda k, e: k < cut), "1_0": part(lambda k, e: k >= cut)}


def steps(ctx, b):
    n = b["nodes"]
    *nodes, missing = ids(ctx, n + 1)
    edges = {k: [] for k in range(n)}
    temporal = b.get("temporal")
    for k in range(n):
        for j in range(n):
            if (k != j or b.get("loops")) and ctx.flag(f"edge{k}_{j}"):
                e = Edge(nodes[j], ctx.pick(f"type{k}_{j}", 0, b["types"] - 1), 1.0 + j)
                e.to = j
                if temporal:
                    e.created, e.removed = 0, 5 if ctx.flag(f"gone{k}_{j}") else -1
                edges[k].append(e)
    w = World(Library(ctx, Positive(ctx)), spread(ctx, b, nodes, edges), watermark=0 if temporal else -1)
    p, q = b["pq"][ctx.pick("pq", 0, len(b["pq"]) - 1)]
    length = b["length"]
    begin = [0] + ([n - 1] if b["asked"] > 1 else [])
    ts = [ctx.pick(f"at{k}", 4, 5) for k in range(len(begin))] if temporal else None
    got = walk(w, [nodes[k] for k in begin], length, p, q, missing, [0], ts)
    for s, (k, path) in enumerate(zip(begin, got)):
        ctx.check(path[0] == nodes[k], "a walk begins at its starting node")
        prev, cur = None, k
        for x in path[1:]:
            if cur is None:
                ctx.check(x == missing, "after a dead end a walk has default ids")
                continue
            can = {e.to for e in edges[cur] if e.type == 0 and e.at(ts[s] if ts else None)} | ({prev} if prev is not None else set())
            if not can:
                ctx.check(x == missing, "at a node without neighbours a walk has the default id")
                ctx.cover("dead end")
                cur = None
                continue
            ctx.check(Or(*[x == nodes[j] for j in can]), "every step goes to a neighbour of the node or back where the walk came from")
            prev, cur = cur, next(j for j in sorted(can) if bool(x == nodes[j]))
            ctx.cover("step")
    w.close()


class Again(Positive):
    """The same numbers for every run from the same seed."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.past, self.used = [], 0

    def real(self, lo, hi):
        self.used += 1
        if self.used > len(self.past):
            self.past.append(super().real(lo, hi))
        return self.past[self.used - 1]


def repeat(ctx, b):
    """The walk of a seed, whichever server answers first."""
    n = b["nodes"]
    nodes = [10 + k for k in range(n)]
    place = {(k, j): ctx.pick(f"place{k}_{j}", 0, 1) for k in range(b["from"]) for j in range(n) if j != k}
    parts = {f"{p}_0": [Node(x, 0, [Edge(nodes[j], 0, 1.0 + j) for (i, j), q in place.items() if (i, q) == (k, p)]) for k, x in enumerate(nodes)] for p in range(2)}
    draws = Again(ctx)
    w = World(Library(ctx, draws), parts)
    first = walk(w, [nodes[0]], b["length"], 1.0, 2.0, -1, [0])
    draws.used = 0
    second = walk(w, [nodes[0]], b["length"], 1.0, 2.0, -1, [0])
    for x, y in zip(first[0], second[0]):
        ctx.check(x == y, "a seed gives the same walk in whatever order the servers reply")
    w.close()


def shares(ctx, b):
    n, d = b["nodes"], b["parts"]
    nodes = [10 + k for k in range(n)]
    weight = {}
    for k in range(n):
        for j in range(k):
            if b.get("ring"):
                x = int(k - j in (1, n - 1)) or ctx.pick(f"edge{j}_{k}", 0, b["weight"])
            else:
                x = ctx.pick(f"edge{j}_{k}", 0, b["weight"])
            if x:
                weight[j, k] = weight[k, j] = x
    edges = {k: [Edge(nodes[j], 0, float(weight[k, j])) for j in range(n) if (k, j) in weight] for k in range(n)}
    p, q = b["pq"][ctx.pick("pq", 0, len(b["pq"]) - 1)]

    def chances(prev, cur):
        r = {}
        for j in range(n):
            if (cur, j) in weight:
                bias = 1 if prev is None or (j, prev) in weight else 1 / Fraction(q)
                if j == prev:
                    bias = 1 / Fraction(p)
                r[j] = weight[cur, j] * (bias if prev is not None else 1)
        total = sum(r.values())
        return {j: x / Fraction(total) for j, x in r.items()}

    ctx.assume(any(j == 0 for j, _ in weight))
    want = {(0,): Fraction(1)}
    for _ in range(b["length"]):
        more = {}
        for path, share in want.items():
            for j, x in chances(path[-2] if len(path) > 1 else None, path[-1]).items():
                ctx.assume((x * d).denominator == 1)
                more[path + (j,)] = share * x
        want = more
    draws = Spread(ctx, d)
    w = World(Library(ctx, draws), spread(ctx, b, nodes, edges))
    got = {}
    for share, r in runs(draws, d, lambda: walk(w, [nodes[0]], b["length"], p, q, -1, [0])):
        key = tuple(r[0])
        got[key] = got.get(key, 0) + share
    for path in set(want) | {tuple(nodes.index(x) if x in nodes else None for x in key) for key in got}:
        key = tuple(nodes[k] if k is not None else -1 for k in path)
        ctx.check(got.get(key, 0) == want.get(path, 0) * d**16, "steps are as likely as the weights, p and q say")
    ctx.cover("three kinds") if len(set(chances(0, next(iter(want))[1]).values())) > 1 else None
    w.close()


PQ = [(1.0, 1.0), (0.5, 2.0), (2.0, 0.5)]
S = {"servers": 2, "full": 1, "split": 1}
HARNESSES = [
    Harness("steps", served(steps), {"nodes": 3, "types": 1, "length": 2, "asked": 1, "pq": PQ[1:2], "servers": 0}, {"nodes": 3, "types": 2, "length": 3, "asked": 1, "pq": PQ, "servers": 1}, covers=["step", "dead end"]),
    Harness("types", served(steps), {"nodes": 3, "types": 2, "length": 1, "asked": 1, "pq": PQ[:1], "servers": 0}, {"nodes": 3, "types": 2, "length": 2, "asked": 2, "pq": PQ, **S}, covers=["step", "dead end"]),
    Harness("loops", served(steps), {"nodes": 2, "types": 1, "length": 3, "asked": 1, "loops": 1, "pq": PQ[1:2], "servers": 1}, {"nodes": 3, "types": 1, "length": 3, "asked": 1, "loops": 1, "pq": PQ[1:2], "servers": 1}, covers=["step", "dead end"]),
    Harness("two", served(steps), {"nodes": 2, "types": 1, "length": 2, "asked": 2, "pq": PQ[1:2], **S}, {"nodes": 3, "types": 1, "length": 3, "asked": 2, "pq": PQ[1:2], **S}, covers=["step", "dead end", "two servers"]),
    Harness("temporal", served(steps), {"nodes": 2, "types": 1, "length": 2, "asked": 2, "temporal": 1, "pq": PQ[1:2], **S}, {"nodes": 3, "types": 1, "length": 2, "asked": 2, "temporal": 1, "pq": PQ[1:2], **S}, covers=["step", "dead end"]),
    Harness("shares", served(shares), {"nodes": 3, "parts": 12, "weight": 2, "length": 2, "pq": PQ, "servers": 0}, {"nodes": 4, "parts": 12, "weight": 2, "length": 2, "pq": PQ, "servers": 0}, covers=["three kinds"]),
    Harness("shares_served", served(shares), {"nodes": 3, "parts": 6, "weight": 2, "length": 2, "pq": PQ[1:2], "least_servers": 1, **S, "own": 1}, {"nodes": 4, "parts": 6, "weight": 1, "length": 2, "pq": PQ, **S}, covers=["three kinds", "two servers"]),
    Harness("third_step", served(shares), {"nodes": 4, "parts": 6, "ring": 1, "weight": 0, "length": 3, "pq": [(1.0, 0.5)], "servers": 0}, {"nodes": 5, "parts": 6, "ring": 1, "weight": 1, "length": 3, "pq": [(1.0, 0.5), (1.0, 1.0)], "servers": 0}, covers=["three kinds"]),
    Harness("repeat", served(repeat), {"nodes": 3, "from": 1, "length": 1, "own": 1, "full": 1, "least_servers": 2}, {"nodes": 3, "from": 3, "length": 2, "own": 1, "full": 1, "least_servers": 2}, covers=["two servers"]),
]
