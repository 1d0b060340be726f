"""Queries about a graph at a moment."""
from checks.c33 import ASSUMPTIONS, expect  # noqa: F401
from checks.englib import Edge, FOREVER, I63, Library, Node, World, ids, prepare, requested  # noqa: F401
from symx.core import And, Or, count_eq
from symx.runner import Harness

BOUNDS = ("one node with up to 3 edges (thorough 4) of up to two types, in one file or split over two; creation, removal and query times are any numbers below 2^62, removal may be never; "
          "edges of a type are in the order of creation, as the JSON converter stores them, or in any order; up to two queried nodes; last-N counts up to 3")
OUTSIDE = "larger neighbourhoods, graphs without times queried with times"
T = 2**62


def edge(ctx, k, type):
    created = ctx.int(f"created{k}", 0, T)
    removed = ctx.int(f"removed{k}", 0, T) if ctx.flag(f"ends{k}") else FOREVER
    if removed is not FOREVER:
        ctx.assume(removed >= created)
    return Edge(ctx.int(f"dst{k}", -I63, I63 - 1), type, ctx.real(f"weight{k}", 0, 16, 4), created, removed)


def ordered(ctx, es):
    """The order of the JSON converter: by type, then creation."""
    for a, b in zip(es, es[1:]):
        if a.type == b.type:
            ctx.assume(a.created <= b.created)


def world(ctx, b, lib):
    me, other, stranger = ids(ctx, 3)
    n = ctx.pick("edges", b.get("least", 1), b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    ctx.assume(types == sorted(types))
    es = [edge(ctx, k, types[k]) for k in range(n)]
    if not b.get("any_order"):
        ordered(ctx, es)
    parts = {"0_0": [Node(me, 0, es), Node(other, 1, [Edge(5, 1, 1.0, 10, 20)])]}
    if b["split"]:
        cut = ctx.pick("cut", 0, n)
        parts = {"0_0": [Node(me, 0, es[:cut])], "1_0": [Node(other, 1, [Edge(5, 1, 1.0, 10, 20)]), Node(me, -1, es[cut:])]}
    return World(lib, parts, watermark=0), (me, other, stranger)


def lists(ctx, b):
    lib = Library(ctx)
    w, who = world(ctx, b, lib)
    ask = [who[0]] + ([who[ctx.pick("second", 0, 2)]] if b["asked"] > 1 else [])
    ts = [ctx.int(f"at{k}", 0, T) for k in range(len(ask))]
    want = requested(ctx, b["types"]) if b["types"] > 1 else [0]
    counts = w.counts(ask, want, ts)
    seen = [w.edges(x, want, ts[k]) for k, x in enumerate(ask)]
    for k in range(len(ask)):
        ctx.check_eq(counts[k], len(seen[k]), "the neighbour count at a moment is the number of edges there at that moment")
    with_ts = ctx.flag("times")
    expect(ctx, w, w.neighbors(ask, want, ts, with_ts), ask, want, ts, with_ts)
    if len(seen[0]) >= 2:
        ctx.cover("two there")
    w.close()


def always(ctx, b):
    """Without a time all edges count."""
    lib = Library(ctx)
    w, who = world(ctx, b, lib)
    ask, want = [who[0]], [0, 1]
    ctx.check_eq(w.counts(ask, want)[0], len(w.edges(who[0], want)), "without a time the neighbour count is the number of all edges")
    expect(ctx, w, w.neighbors(ask, want, None, True), ask, want, None, True)
    w.close()


def last(ctx, b):
    lib = Library(ctx)
    w, who = world(ctx, b, lib)
    ask = [who[0]] + ([who[ctx.pick("second", 1, 2)]] if b["asked"] > 1 else [])
    ts = [ctx.int(f"at{k}", 0, T) for k in range(len(ask))]
    want = requested(ctx, b["types"]) if b["types"] > 1 else [0]
    n = ctx.pick("count", 1, b["count"])
    with_ts = ctx.flag("times")
    i, t, wt, c = w.last(ask, want, n, ts, with_ts)
    for k, x in enumerate(ask):
        es = w.edges(x, want, ts[k])
        found = min(n, len(es))
        rows = range(k * n, k * n + found)
        for r in rows:
            ctx.check(Or(*[And(i[r] == e.dst, t[r] == e.type, wt[r] == e.weight, (c[r] == e.created) if with_ts else True) for e in es]),
                      "the last created neighbours are edges there at the moment, with their type, weight and creation time")
        for r in range(k * n + found, (k + 1) * n):
            ctx.check(And(i[r] == -7, t[r] == -3, wt[r] == -2.0, (c[r] == -9) if with_ts else True), "missing neighbours have default values")
        if with_ts:
            # the newest ones: the creation times returned are the largest of those there, each as often as it occurs
            for e in es:
                more = sum(1 for o in es if bool(o.created > e.created))
                same = sum(1 for o in es if bool(o.created == e.created))
                ctx.check_eq(count_eq(e.created, [c[r] for r in rows]), max(0, min(same, found - more)), "the last created neighbours are the newest ones")
        if len(es) > n:
            ctx.cover("more than asked for")
    w.close()


HARNESSES = [
    Harness("lists", lists, {"edges": 2, "types": 2, "asked": 2, "split": 0}, {"edges": 3, "types": 2, "asked": 2, "split": 0}, covers=["two there"], weight=3),
    Harness("one_type", lists, {"edges": 3, "least": 3, "types": 1, "asked": 1, "split": 0}, {"edges": 4, "least": 4, "types": 1, "asked": 1, "split": 0}, covers=["two there"], weight=2),
    Harness("any_order", lists, {"edges": 3, "least": 3, "types": 1, "asked": 1, "split": 0, "any_order": 1}, {"edges": 4, "least": 4, "types": 1, "asked": 1, "split": 0, "any_order": 1}, covers=["two there"], weight=2),
    Harness("split", lists, {"edges": 2, "types": 2, "asked": 1, "split": 1}, {"edges": 3, "types": 2, "asked": 1, "split": 1}, covers=["two there"]),
    Harness("always", always, {"edges": 2, "types": 2, "split": 1}, {"edges": 3, "types": 2, "split": 1}),
    Harness("last", last, {"edges": 3, "types": 1, "asked": 1, "count": 2, "split": 0}, {"edges": 3, "types": 2, "asked": 2, "count": 3, "split": 0}, covers=["more than asked for"], weight=2),
    Harness("last_split", last, {"edges": 2, "types": 2, "asked": 2, "count": 2, "split": 1}, {"edges": 3, "types": 2, "asked": 2, "count": 2, "split": 1}, weight=2),
]
