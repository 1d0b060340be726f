"""Uniform sampling of neighbours, with and without replacement."""
from checks.c33 import ASSUMPTIONS as BASE
from checks.c34 import T
from checks.c35 import Spread, runs, split
from checks.englib import Edge, FOREVER, I63, Library, Node, World, ids, prepare, requested  # noqa: F401
from symx.core import And, B2I, Or, Sum
from symx.llvm import GRID
from symx.native import Draws
from symx.runner import Harness

BOUNDS = ("one node with up to 4 edges of up to 3 types (thorough 5) in one file or split over two, up to 3 samples for up to two nodes; destinations, creation, removal and query times any numbers; "
          "with replacement any value of every random draw; without replacement every draw is 1/8 or 15/16 (two edges, thorough all: one of 1/64, 1/8, 1/4, 1/2, 3/4, 15/16), as the algorithm takes logarithms; "
          "proportions with replacement: up to 3 edges, draws spread evenly over [0, 1)")
OUTSIDE = "more edges and samples, other values of the draws without replacement, that all subsets are equally likely without replacement, draws of exactly 0"
ASSUMPTIONS = BASE + ["the uniform distribution of boost is replaced by unknowns"]


class OnGrid(Draws):
    """Draws from a few values, for code that takes logarithms."""

    def __init__(self, ctx, values=GRID):
        super().__init__(ctx)
        self.values = values

    def real(self, lo, hi):
        k = self.n
        self.n += 1
        return lo + (hi - lo) * self.values[self.ctx.pick(f"draw{k}", 0, len(self.values) - 1)]


def edges(ctx, b, temporal):
    n = ctx.pick("edges", b.get("least", 0), b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    if not b.get("split"):
        ctx.assume(types == sorted(types))
    es = [Edge(ctx.int(f"dst{k}", -I63, I63 - 1), types[k], 1.0) for k in range(n)]
    if temporal:
        for k, e in enumerate(es):
            e.created = ctx.int(f"created{k}", 0, T)
            e.removed = ctx.int(f"removed{k}", 0, T) if ctx.flag(f"ends{k}") else FOREVER
            if e.removed is not FOREVER:
                ctx.assume(e.removed >= e.created)
    return es


def same(row, e, timed, with_ts):
    return And(row[0] == e.dst, row[1] == e.type, row[2] == (e.created if timed else -1) if with_ts else True)


def inspect(ctx, w, got, ask, types, count, without, ts=None, with_ts=False):
    i, t, tot, c = got
    for k, x in enumerate(ask):
        es = w.edges(x, types, None if ts is None else ts[k])
        ctx.check(tot is None or tot[k] == len(es), "the total is the number of edges to choose from")
        rows = [(i[r], t[r], c[r]) for r in range(k * count, (k + 1) * count)]
        expect = count if es and not without else min(count, len(es))
        for row in rows[:expect]:
            ctx.check(Or(*[same(row, e, ts is not None, with_ts) for e in es]), "a sampled neighbour is an edge of a requested type that is there, with its own type and creation time")
        for row in rows[expect:]:
            ctx.check(And(row[0] == -7, row[1] == -3, (row[2] == -1) if with_ts else True), "places for which there is no edge get default values")
            ctx.cover("defaults")
        if without:
            for row in rows[:expect]:
                alike = Sum([B2I(And(row[0] == o[0], row[1] == o[1], (row[2] == o[2]) if with_ts else True)) for o in rows[:expect]])
                ctx.check(alike <= Sum([B2I(same(row, e, ts is not None, with_ts)) for e in es]), "without replacement no edge is returned twice")
        if len(es) > count and expect:
            ctx.cover("chosen")
        if expect:
            ctx.cover("sampled")


def query(ctx, b, temporal):
    me, other, stranger = ids(ctx, 3)
    without = b["without"]
    es = edges(ctx, b, temporal)
    lib = Library(ctx, OnGrid(ctx, (GRID[1], GRID[5]) if b.get("coarse") else GRID) if without else Draws(ctx))
    w = World(lib, split(ctx, b, es, me, other), watermark=0 if temporal else -1)
    ask = [stranger] if b.get("strangers") else [me] + ([(other, stranger)[ctx.pick("second", 0, 1)]] if b["asked"] > 1 and ctx.flag("two") else [])
    timed = temporal and (b.get("timed") or ctx.flag("timed"))
    ts = [ctx.int(f"at{k}", 0, T) for k in range(len(ask))] if timed else None
    want = requested(ctx, b["types"]) if not b.get("all") else list(range(b["types"]))
    count = ctx.pick("count", b.get("fewest", 1), b["count"])
    with_ts = ctx.flag("times") if b.get("times", 1) else 0
    asked = list(reversed(want)) + want[:1] if b["asked"] > 1 and not b.get("sorted") and ctx.flag("unsorted") else want
    inspect(ctx, w, w.uniform(ask, asked, count, without, ts, with_ts), ask, want, count, without, ts, with_ts)
    w.close()


def static(ctx, b):
    query(ctx, b, False)


def moments(ctx, b):
    query(ctx, b, True)


def shares(ctx, b):
    """With replacement every edge is equally likely at every position."""
    me, d = 3, b.get("parts", 6)
    n = ctx.pick("edges", 1, b.get("edges", 3))
    types = [0] * (n - 1) + [1] if b["types"] > 1 and ctx.flag("types") else [0] * n
    es = [Edge(10 + k, types[k], 1.0, 0, 5 if b["temporal"] and ctx.flag(f"gone{k}") else FOREVER) for k in range(n)]
    cut = ctx.pick("cut", 1, n)
    draws = Spread(ctx, d)
    lib = Library(ctx, draws)
    parts = {"0_0": [Node(me, 0, es[:cut])]}
    if cut < n:
        parts["1_0"] = [Node(me, 0, es[cut:])]
    w = World(lib, parts, watermark=0 if b["temporal"] else -1)
    ts = [ctx.int("at", 0, 9)] if b["temporal"] else None
    here = w.edges(me, [0, 1, 2], ts[0] if ts else None)
    got = [0] * n
    for share, (i, t, tot, c) in runs(draws, d, lambda: w.uniform([me], [0, 1, 2], 1, 0, ts)):
        for k in range(n):
            got[k] = got[k] + share * B2I(i[0] == 10 + k)
    for k, e in enumerate(es):
        ctx.check(got[k] * len(here) == (d**16 if e in here else 0), "with replacement every edge is equally likely")
    if len(here) > 1:
        ctx.cover("shared")
    w.close()


HARNESSES = [
    Harness("with", static, {"without": 0, "edges": 2, "types": 2, "asked": 2, "count": 1}, {"without": 0, "edges": 3, "types": 2, "asked": 2, "count": 2}, covers=["sampled", "defaults"]),
    Harness("with_split", static, {"without": 0, "edges": 3, "types": 2, "asked": 1, "count": 2, "split": 1, "all": 1}, {"without": 0, "edges": 4, "types": 2, "asked": 1, "count": 2, "split": 1}, covers=["sampled", "defaults"], weight=4),
    Harness("without", static, {"without": 1, "edges": 3, "types": 2, "asked": 1, "count": 2, "coarse": 1, "times": 0}, {"without": 1, "edges": 3, "types": 3, "asked": 2, "count": 3}, covers=["sampled", "defaults", "chosen"], weight=4),
    Harness("without_split", static, {"without": 1, "edges": 3, "types": 1, "asked": 1, "count": 2, "split": 1, "all": 1, "coarse": 1, "times": 0}, {"without": 1, "edges": 4, "types": 2, "asked": 1, "count": 2, "split": 1, "all": 1}, covers=["sampled", "defaults", "chosen"], weight=4),
    Harness("all_draws", static, {"without": 1, "edges": 2, "least": 2, "types": 1, "asked": 1, "count": 1, "all": 1, "times": 0}, {"without": 1, "edges": 3, "least": 2, "types": 1, "asked": 1, "count": 1, "all": 1, "times": 0}, covers=["chosen"], weight=4),
    Harness("with_times", moments, {"without": 0, "edges": 2, "types": 2, "asked": 1, "count": 1}, {"without": 0, "edges": 3, "types": 2, "asked": 1, "count": 2}, covers=["sampled", "defaults"], weight=2),
    Harness("gaps", moments, {"without": 1, "edges": 3, "least": 3, "types": 1, "asked": 1, "count": 3, "fewest": 3, "timed": 1, "all": 1}, {"without": 1, "edges": 4, "least": 3, "types": 2, "asked": 1, "count": 4, "fewest": 3, "timed": 1, "all": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("with_gaps", moments, {"without": 0, "edges": 3, "least": 3, "types": 1, "asked": 1, "count": 1, "timed": 1, "all": 1}, {"without": 0, "edges": 4, "least": 3, "types": 2, "asked": 1, "count": 1, "timed": 1, "all": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("without_times", moments, {"without": 1, "edges": 3, "types": 1, "asked": 1, "count": 2, "all": 1, "coarse": 1}, {"without": 1, "edges": 4, "types": 1, "asked": 1, "count": 2, "all": 1}, covers=["sampled", "defaults", "chosen"], weight=3),
    Harness("without_times_split", moments, {"without": 1, "edges": 2, "types": 1, "asked": 1, "count": 2, "split": 1, "coarse": 1, "all": 1}, {"without": 1, "edges": 3, "types": 2, "asked": 1, "count": 2, "split": 1}, covers=["sampled", "defaults", "chosen"], weight=4),
    Harness("without_times_types", moments, {"without": 1, "edges": 2, "least": 2, "types": 2, "asked": 1, "count": 2, "timed": 1, "coarse": 1, "all": 1, "fewest": 2}, {"without": 1, "edges": 3, "least": 2, "types": 3, "asked": 1, "count": 2, "timed": 1, "coarse": 1}, covers=["sampled", "defaults"], weight=2),
    Harness("unknown", moments, {"without": 0, "edges": 0, "types": 1, "asked": 1, "count": 2, "strangers": 1}, {"without": 0, "edges": 1, "types": 1, "asked": 1, "count": 3, "strangers": 1}, covers=["defaults"]),
    Harness("two_asked", moments, {"without": 1, "edges": 2, "least": 2, "types": 1, "asked": 2, "count": 1, "timed": 1, "all": 1, "coarse": 1}, {"without": 1, "edges": 3, "types": 1, "asked": 2, "count": 2, "timed": 1}, covers=["sampled", "defaults", "chosen"], weight=2),
    Harness("shares", shares, {"types": 2, "temporal": 0}, {"types": 3, "temporal": 0}, covers=["shared"], weight=3),
    Harness("shares_times", shares, {"types": 1, "temporal": 1}, {"types": 2, "temporal": 1}, covers=["shared"], weight=3),
]
