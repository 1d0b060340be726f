"""Weighted sampling of neighbours."""
import itertools

from checks.c33 import ASSUMPTIONS as BASE
from checks.c34 import T, edge
from checks.englib import Edge, I63, Library, Node, World, ids, prepare, requested  # noqa: F401
from symx.core import And, B2I, Or, Sum, Unsupported
from symx.native import Draws
from symx.runner import Harness

BOUNDS = ("one node with up to 3 edges (thorough 4) of up to 3 types in one file or split over two, up to 2 samples for up to two nodes, weights any multiple of 1/4 below 16 (zero included), any outcome of every random draw; "
          "proportions: all weights in quarters (halves for two samples) of the total, decided over draws spread evenly over [0, 1); times as in C34")
OUTSIDE = "draws of exactly 0 by the uniform generator (probability 2^-24) in combination with weight 0, rounding of weights with more digits, more samples, statistical quality of the generator"
ASSUMPTIONS = BASE + ["the uniform and binomial distributions of boost are replaced by unknowns (any value the distribution can give); a binomial variable is 0 (n) when its probability is 0 (1)"]


class Positive(Draws):
    def real(self, lo, hi):
        r = super().real(lo, hi)
        self.ctx.assume(r > lo)
        return r


def weights(ctx, n):
    return [ctx.real(f"weight{k}", 0, 16, 4) for k in range(n)]


def split(ctx, b, es, me, other):
    if not b.get("split"):
        return {"0_0": [Node(me, 0, es), Node(other, 1, [Edge(5, 1, 1.0)])]}
    cut = ctx.pick("cut", 0, len(es))
    return {"0_0": [Node(me, 0, sorted(es[:cut], key=lambda e: e.type))], "1_0": [Node(other, 1, [Edge(5, 1, 1.0)]), Node(me, -1, sorted(es[cut:], key=lambda e: e.type))]}


def inspect(ctx, w, got, ask, types, count, ts=None, with_ts=False, temporal=False):
    i, t, wt, tot, c = got
    for k, x in enumerate(ask):
        es = w.edges(x, types, None if ts is None else ts[k])
        total = Sum([e.weight for e in es]) if es else 0
        some = bool(total > 0)
        ctx.check(tot is None or tot[k] == total, "the total weight is the sum over the edges that can be drawn")
        for r in range(k * count, (k + 1) * count):
            if some:
                ctx.check(Or(*[And(e.weight > 0, i[r] == e.dst, t[r] == e.type, wt[r] == e.weight, True if not with_ts else (c[r] == (e.created if ts is not None else -1))) for e in es]),
                          "a sampled neighbour is an edge of a requested type that is there, with its own type, weight and creation time")
                ctx.cover("sampled")
            else:
                ctx.check(And(i[r] == -7, t[r] == -3, wt[r] == -2.0, (c[r] == -1) if with_ts else True), "without neighbours default values are returned")
                ctx.cover("defaults")


def members(ctx, b):
    me, other, stranger = ids(ctx, 3)
    n = ctx.pick("edges", 0, b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    if not b.get("split"):
        ctx.assume(types == sorted(types))
    ws = weights(ctx, n)
    es = [Edge(ctx.int(f"dst{k}", -I63, I63 - 1), types[k], ws[k]) for k in range(n)]
    lib = Library(ctx, Positive(ctx))
    w = World(lib, split(ctx, b, es, me, other))
    ask = [me] + ([(other, stranger)[ctx.pick("second", 0, 1)]] if b["asked"] > 1 and ctx.flag("two") else [])
    want = requested(ctx, b["types"] + (1 if b["types"] < 3 else 0))
    count = ctx.pick("count", 1, b["count"])
    with_ts = b.get("times", 0) and ctx.flag("times")
    asked = list(reversed(want)) + want[:1] if b["asked"] > 1 and not b.get("sorted") and ctx.flag("unsorted") else want
    inspect(ctx, w, w.sample(ask, asked, count, with_ts=with_ts), ask, want, count, with_ts=with_ts)
    w.close()


def moments(ctx, b):
    """The same on a temporal graph."""
    me, other, stranger = ids(ctx, 3)
    n = ctx.pick("edges", 1, b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    ctx.assume(types == sorted(types))
    es = [edge(ctx, k, types[k]) for k in range(n)]
    lib = Library(ctx, Positive(ctx))
    w = World(lib, split(ctx, b, es, me, other), watermark=0)
    ask = [me]
    ts = [ctx.int("at", 0, T)] if ctx.flag("timed") else None
    want = requested(ctx, b["types"])
    count = ctx.pick("count", 1, b["count"])
    with_ts = ctx.flag("times")
    inspect(ctx, w, w.sample(ask, want, count, ts, with_ts=with_ts), ask, want, count, ts, with_ts, True)
    w.close()


class Spread:
    """Draws given in advance: one coordinate per elementary decision, each in the middle of one of d equal parts."""

    def __init__(self, ctx, d):
        self.ctx, self.d, self.row, self.used, self.replies, self.arrivals = ctx, d, (), 0, 0, []

    def start(self, row):
        self.row, self.used, self.replies = row, 0, 0

    def order(self, n):
        """Replies arrive in some order, which does not depend on the draws."""
        self.replies += 1
        if self.replies > len(self.arrivals):
            self.arrivals.append(self.ctx.pick(f"arrival{self.replies}", 0, n - 1))
        return self.arrivals[self.replies - 1]

    def integer(self, lo, hi):
        if hi - lo >= 2**62:
            return 1
        n = hi - lo + 1
        if n < 1 or self.d % n:
            raise Unsupported(f"an even share of {n} numbers")
        return lo + self._next()[0] * n // self.d

    def _next(self):
        k = self.used
        self.used += 1
        return (self.row[k] if k < len(self.row) else 0), k >= len(self.row)

    def unit(self):
        v, _ = self._next()
        return (2 * v + 1) / (2 * self.d)

    def real(self, lo, hi):
        return lo + (hi - lo) * self.unit()

    def binomial(self, n, p):
        if type(n) is not int:
            n = self.ctx.concretize(n.z)
        return sum(1 for _ in range(n) if bool(self.unit() < p))


def runs(draws, d, once):
    """Calls once() for every combination of the coordinates it uses; yields the share of each combination with the result."""
    row = []
    while True:
        draws.start(tuple(row))
        r = once()
        row = row[: draws.used] + [0] * (draws.used - len(row))
        yield d ** (16 - draws.used), r
        while row and row[-1] == d - 1:
            row.pop()
        if not row:
            return
        row[-1] += 1


def shares(ctx, b):
    me = 3
    d = b["parts"]
    n = ctx.pick("edges", 1, b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    ws = [ctx.int(f"weight{k}", 0, 4) for k in range(n)]
    es = [Edge(10 + k, types[k], ws[k] * 1.0 if not ctx.symbolic else as_real(ws[k])) for k in range(n)]
    draws = Spread(ctx, d)
    lib = Library(ctx, draws)
    ts = None
    if b.get("temporal"):
        ctx.assume(types == sorted(types))
        for k, e in enumerate(es):
            e.created, e.removed = 0, 5 if ctx.flag(f"gone{k}") else -1
        ts = [7]
    if b.get("fixed"):
        ctx.assume(n == 3 and types == [0, 1, 0])
        parts = {"0_0": [Node(me, 0, es[:2])], "1_0": [Node(me, 0, es[2:])]}
    elif not b["split"]:
        ctx.assume(types == sorted(types))
        parts = {"0_0": [Node(me, 0, es)]}
    else:
        cut = ctx.pick("cut", 1, n)
        ctx.assume(b["count"] == 1 or len(set(types[:cut])) == 1 or cut == n)  # the rest is in "positions"
        parts = {"0_0": [Node(me, 0, sorted(es[:cut], key=lambda e: e.type))], "1_0": [Node(me, 0, sorted(es[cut:], key=lambda e: e.type))]}
    w = World(lib, parts, watermark=0 if ts else -1)
    here = [e for e in es if e.at(ts[0] if ts else None)]
    total = Sum([e.weight for e in here]) if here else 0
    if d == 6:  # all conditional probabilities are multiples of 1/6
        ctx.assume(total == 3)
    else:  # or of 1/2
        ctx.assume(total > 0)
        sums = []
        for f in parts.values():
            mine = [e.weight for e in f[0].edges if e in here]
            ctx.assume(And(*[Or(x == 0, y == 0, x == y) for x, y in itertools.combinations(mine, 2)]) if len(mine) > 1 else True)
            ctx.assume(Sum([B2I(x > 0) for x in mine]) <= 2 if mine else True)
            sums.append(Sum(mine) if mine else 0)
        ctx.assume(Or(sums[0] == 0, sums[-1] == 0, sums[0] == sums[-1]))
    count = b["count"]
    got = [0] * n
    for share, (i, t, wt, tot, c) in runs(draws, d, lambda: w.sample([me], [0, 1, 2], count, ts)):
        for r in range(count):
            for k in range(n):
                got[k] = got[k] + share * B2I(i[r] == 10 + k)
    for k, e in enumerate(es):
        ctx.check(got[k] * total == (d**16 * count * e.weight if e in here else 0), "edges are drawn in proportion to their weight" if not b.get("fixed") else "edges of a node stored in two files are drawn in proportion to their weight for all positions of the answer together")
    w.close()
    ctx.cover("two types") if len(set(types)) > 1 else None


def as_real(x):
    from symx.core import SymReal, z3

    return SymReal(z3.ToReal(x.z))


HARNESSES = [
    Harness("members", members, {"edges": 2, "types": 2, "asked": 2, "count": 1, "times": 1}, {"edges": 3, "types": 3, "asked": 2, "count": 2, "times": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("count", members, {"edges": 3, "types": 3, "asked": 1, "count": 2}, {"edges": 4, "types": 3, "asked": 1, "count": 2}, covers=["sampled", "defaults"], weight=2),
    Harness("split", members, {"edges": 2, "types": 2, "asked": 1, "count": 2, "split": 1}, {"edges": 3, "types": 2, "asked": 2, "count": 2, "split": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("moments", moments, {"edges": 2, "types": 2, "count": 1}, {"edges": 3, "types": 2, "count": 2}, covers=["sampled", "defaults"], weight=2),
    Harness("moments_split", moments, {"edges": 2, "types": 1, "count": 1, "split": 1}, {"edges": 3, "types": 2, "count": 1, "split": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("shares", shares, {"edges": 3, "types": 2, "count": 1, "parts": 6, "split": 0}, {"edges": 3, "types": 3, "count": 1, "parts": 6, "split": 0}, covers=["two types"]),
    Harness("shares_timed", shares, {"edges": 3, "types": 2, "count": 1, "parts": 2, "split": 0, "temporal": 1}, {"edges": 3, "types": 2, "count": 1, "parts": 6, "split": 0, "temporal": 1}, covers=["two types"]),
    Harness("shares_split", shares, {"edges": 3, "types": 2, "count": 1, "parts": 2, "split": 1}, {"edges": 4, "types": 2, "count": 1, "parts": 2, "split": 1}, covers=["two types"]),
    Harness("shares_two", shares, {"edges": 3, "types": 2, "count": 2, "parts": 2, "split": 1}, {"edges": 4, "types": 2, "count": 2, "parts": 2, "split": 1}, covers=["two types"]),
    Harness("positions", shares, {"edges": 3, "types": 2, "count": 2, "parts": 2, "split": 1, "fixed": 1}, {"edges": 3, "types": 2, "count": 2, "parts": 2, "split": 1, "fixed": 1}, covers=["two types"]),
]
