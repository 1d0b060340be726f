"""Personalised PageRank through the interface for Python."""
from fractions import Fraction

from checks.c40 import ASSUMPTIONS, served
from checks.c44 import spread
from checks.c35 import Positive
from checks.englib import Arr, Edge, Library, World, ids, out, prepare  # noqa: F401
from symx.core import And, Or
from symx.runner import Harness

BOUNDS = ("directed graphs of three nodes with at most one edge from a node to another, any ids, teleport probability 1/2, every threshold between 1/8 and 1 in steps of 1/64, one or two starting nodes, which may be the same or not in the graph, at times before and after edges disappear, 1 to 4 results, in the process, on one server or on two; "
          "scores compared with the solution of the linear equations for PageRank in rational numbers")
OUTSIDE = "larger graphs, other teleport probabilities, thresholds of 0 (no end), rounding of scores"


def ppr(w, start, count, eps, missing, weight, ts=None):
    o, s = out("q", len(start) * count), out("f", len(start) * count)
    w.call("ppr", w.g, len(start), Arr("q", start), *w._times(ts), 1, Arr("i", [0]), count, 0.5, eps, missing, weight, o, s)
    return [list(zip(o.values[k * count : (k + 1) * count], s.values[k * count : (k + 1) * count])) for k in range(len(start))]


def rank(n, edges):
    """Chance to stop at j for a surfer from k who stops at each node with probability 1/2 and is lost at nodes without edges."""
    half = Fraction(1, 2)
    # x = half * e_k + half * P^T x for every k, by elimination.
    rows = [[Fraction(int(i == j)) - (half * Fraction(edges[j].count(i), len(edges[j])) if edges[j] else 0) for j in range(n)] + [half * int(i == k) for k in range(n)] for i in range(n)]
    for i in range(n):
        p = next(r for r in range(i, n) if rows[r][i])
        rows[i], rows[p] = rows[p], rows[i]
        rows[i] = [x / rows[i][i] for x in rows[i]]
        for r in range(n):
            if r != i and rows[r][i]:
                rows[r] = [x - rows[r][i] * y for x, y in zip(rows[r], rows[i])]
    return [[rows[j][n + k] for j in range(n)] for k in range(n)]


def scores(ctx, b):
    n = b["nodes"]
    *nodes, stranger, missing = ids(ctx, n + 2)
    edges = {k: [] for k in range(n)}
    temporal = b.get("temporal")
    for k in range(n):
        for j in range(n):
            if k != j and ctx.flag(f"edge{k}_{j}"):
                e = Edge(nodes[j], 0, 1.0)
                e.to = j
                if temporal:
                    e.created, e.removed = 0, 5 if ctx.flag(f"gone{k}_{j}") else -1
                edges[k].append(e)
    w = World(Library(ctx, Positive(ctx)), spread(ctx, b, nodes, edges), watermark=0 if temporal else -1)
    eps = ctx.real("eps", Fraction(1, b["least"]), 1, 64)
    begin = [0] + ([ctx.pick("second", 0, n)] if b["asked"] > 1 else [])
    ts = [ctx.pick(f"at{k}", 4, 5) for k in range(len(begin))] if temporal else None
    start = [nodes[k] if k < n else stranger for k in begin]
    count = b["count"]
    got = ppr(w, start, count, eps, missing, 7.0, ts)
    for s, (k, found) in enumerate(zip(begin, got)):
        near = [[e.to for e in edges[j] if e.at(ts[s] if ts else None)] for j in range(n)] + [[]]
        pi = rank(n + 1, near)
        rest = [Fraction(0)] * (n + 1)
        for j in range(n + 1):
            rest[j] = sum(len(near[u]) * pi[u][j] for u in range(n + 1))
        seen, last = {}, 0
        for x, score in found:
            if bool(x == missing):
                ctx.check(score == 7, "places without a node have the default weight")
                continue
            ctx.check(len(seen) == found.index((x, score)), "nodes come before places without one")
            ctx.check(Or(*[x == y for y in nodes + [stranger]]), "results are nodes reached from the starting node")
            j = next(j for j, y in enumerate(nodes + [stranger]) if bool(x == y))
            ctx.check(j not in seen, "no node is reported twice")
            ctx.check(score >= last, "results are ordered by score")
            seen[j], last = score, score
            ctx.check(And(score > 0, score <= pi[k][j]), "no score is above that of the exact solution")
            ctx.check(eps * rest[j] + score >= pi[k][j], "scores are within the threshold of the exact solution")
        ctx.check(len(seen) >= 1, "the starting node or better ones are reported")
        ctx.cover("several") if len(seen) > 1 else None
        if count > n:
            ctx.check(k in seen, "the starting node is reported")
            for j in range(n + 1):
                if j not in seen:
                    ctx.check(eps * rest[j] >= pi[k][j], "only nodes of scores within the threshold are left out")
            if "few" not in b:
                continue
            few = ppr(w, [start[s]], b["few"], eps, missing, 7.0, ts[s : s + 1] if ts else None)[0]
            best = found[: len(seen)][len(seen) - min(b["few"], len(seen)) :]
            for place, (x, score) in enumerate(few):
                if place < len(best):
                    ctx.check(score == best[place][1], "fewer results are those of the best scores")
                    ctx.check(Or(*[And(x == y, score == z) for y, z in found[: len(seen)]]), "fewer results are those of the best scores")
                else:
                    ctx.check(And(x == missing, score == 7), "places without a node have default values")
    w.close()


S = {"servers": 2, "full": 1, "split": 1}
HARNESSES = [
    Harness("scores", served(scores), {"nodes": 3, "least": 4, "asked": 1, "count": 4, "few": 0, "servers": 0}, {"nodes": 3, "least": 8, "asked": 2, "count": 5, "few": 2, "servers": 1}, covers=["several"]),
    Harness("two", served(scores), {"nodes": 2, "least": 2, "asked": 2, "count": 3, "least_servers": 1, **S, "own": 1}, {"nodes": 3, "least": 4, "asked": 2, "count": 4, "few": 1, **S}, covers=["several", "two servers"]),
    Harness("times", served(scores), {"nodes": 3, "least": 2, "asked": 1, "count": 4, "few": 1, "temporal": 1, "servers": 0}, {"nodes": 3, "least": 8, "asked": 1, "count": 4, "few": 1, "temporal": 1, "servers": 1}, covers=["several"]),
    Harness("temporal", served(scores), {"nodes": 2, "least": 4, "asked": 2, "count": 4, "few": 1, "temporal": 1, "servers": 0}, {"nodes": 3, "least": 4, "asked": 2, "count": 4, "few": 1, "temporal": 1, **S}, covers=["several"]),
]
