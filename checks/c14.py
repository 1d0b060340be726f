"""C14: id-range samplers cover the range exactly once across workers and loaders."""
from deepgnn.graph_engine import samplers

from symx.core import And, B2I, Eq, Not, Or, Sum
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "range start any integer in [0, 2^40], backfill any id outside of the range; batch size, workers, loaders and range length as listed per harness"
OUTSIDE = "longer ranges, larger batches and more workers/loaders than listed; ids above 2^40"
ASSUMPTIONS = ["numpy array construction and slicing are modelled by symx.npshim"]


def collect(mk, W, D, ctx):
    """Batches of every (worker, loader) pair; a refused construction yields nothing."""
    out = []
    for w in range(W):
        for d in range(D):
            try:
                s = mk(w, d)
            except AssertionError:
                continue
            batches = []
            it = iter(s)
            for _ in range(60):
                try:
                    batches.append(aslist(next(it)))
                except StopIteration:
                    break
            else:
                ctx.fail("iteration does not end")
            out.append((s, d, batches))
    return out


def nodes(ctx, b):
    Env(ctx)
    B = ctx.pick("batch", 1, b["batch"])
    W = ctx.pick("workers", 1, b["workers"])
    D = ctx.pick("loaders", 1, b["loaders"])
    n = ctx.pick("n", 1, b["n"])
    first = ctx.int("first", 0, 2**40)
    fill = ctx.int("backfill", -(2**40), 2**41)
    last = first + n
    ctx.assume(Or(fill < first, fill >= last))
    runs = collect(
        lambda w, d: samplers.RangeNodeSampler(first, last, B, w, W, fill, data_parallel_num=D, data_parallel_index=d), W, D, ctx
    )
    values = []
    for s, d, batches in runs:
        for k, x in enumerate(batches):
            ctx.check(len(x) == B, "batch has the requested size")
            pads = [Eq(v, fill) for v in x]
            for i in range(1, B):
                ctx.check(Or(Not(pads[i - 1]), pads[i]), "backfill only after real ids")
            ctx.check(Not(pads[0]), "a batch holds at least one real id")
            values += x
        ln = len(s)
        if d == 0:
            ctx.check(ln == len(batches), "announced batches equal produced batches", lambda: f"{ln} != {len(batches)}")
        else:
            ctx.check(ln - 1 <= len(batches) <= ln, "announced batches bound produced batches")
    for v in values:
        ctx.check(Or(Eq(v, fill), And(v >= first, v < last)), "only ids of the range are produced")
    for k in range(n):
        ctx.check(Sum([B2I(Eq(v, first + k)) for v in values]) == 1, "every id of the range is produced exactly once", lambda: f"offset {k}: {values}")
    if W > 1 and D > 1 and n > B:
        ctx.cover("several workers and loaders")


def edges(ctx, b):
    Env(ctx)
    B = ctx.pick("batch", 1, b["batch"])
    W = ctx.pick("workers", 1, b["workers"])
    D = ctx.pick("loaders", 1, b["loaders"])
    n = ctx.pick("n", 1, b["n"])
    first = ctx.int("first", 0, 2**40)
    tp = ctx.int("type", 0, 100)
    fill = ctx.int("backfill", -(2**40), 2**41)
    last = first + n
    ctx.assume(Or(fill < first, fill >= last))
    runs = collect(
        lambda w, d: samplers.RangeEdgeSampler(tp, first, last, B, w, W, fill, data_parallel_num=D, data_parallel_index=d), W, D, ctx
    )
    values = []
    for s, d, batches in runs:
        for x in batches:
            ctx.check(len(x) == B and all(len(r) == 3 for r in x), "batch holds (source, destination, type) rows")
            for r in x:
                ctx.check_eq(r[2], tp, "edge type is the requested one")
                values += r[:2]
    for v in values:
        ctx.check(Or(Eq(v, fill), And(v >= first, v < last)), "only ids of the range are produced")
    for k in range(n):
        ctx.check(Sum([B2I(Eq(v, first + k)) for v in values]) == 1, "every id of the range is produced exactly once")
    if D > 1:
        ctx.cover("loaders")


HARNESSES = [
    Harness("nodes", nodes, dict(batch=3, workers=3, loaders=3, n=13), dict(batch=4, workers=4, loaders=4, n=24), covers=["several workers and loaders"]),
    Harness("edges", edges, dict(batch=2, workers=2, loaders=2, n=9), dict(batch=3, workers=3, loaders=3, n=16), covers=["loaders"]),
]
