"""C04: alias tables reproduce the exact weight distribution."""
import random
import sys

from deepgnn.graph_engine.snark import alias
from deepgnn.graph_engine.snark.converter import writers

from symx.binio import ModShim
from symx.core import And, Eq, Implies, Ite, Or, Sum
from symx.env import Env, fields
from symx.runner import Harness

BOUNDS = "weights any non-negative multiples of 1/8 with the listed totals (zero, equal and very unequal ones included), ids any distinct 62-bit values; numbers of elements and types as listed"
OUTSIDE = "more elements than listed; all weights zero; rounding of weights to 32-bit floats (tolerance 1e-4)"
ASSUMPTIONS = ["arithmetic on weights is exact up to the stated tolerance"]
EPS = 1e-4
ID = 2**62


def weights(ctx, name, n, totals):
    """Arbitrary weights with one of the given totals."""
    ws = [ctx.real(f"{name}{i}", 0, 1024, den=8) for i in range(n)]
    total = ctx.choice(f"{name}.total", totals)
    ctx.assume(Eq(Sum(ws), total))
    return ws, total


def distinct(ctx, name, n):
    ids = [ctx.int(f"{name}{i}", 1, ID) for i in range(n)]
    for a, b in zip(ids, ids[1:]):
        ctx.assume(a < b)
    return [ids[i] for i in ctx.permutation(name + ".order", n)]


def near(a, b):
    return And(a - b <= EPS, b - a <= EPS)


def check_table(ctx, rows, elems, ws, total, what):
    """rows: (element, alias, threshold); elems/ws: what must be in the table."""
    n = len(elems)
    ctx.check(len(rows) == n, f"{what}: one entry per element", lambda: f"{len(rows)} != {n}")
    for r in rows:
        ctx.check(And(r[2] >= 0, r[2] <= 1 + EPS), f"{what}: thresholds lie between 0 and 1", lambda: f"{r}")
        ctx.check(Or([Eq(r[0], e) for e in elems]), f"{what}: only elements of this type", lambda: f"{r}")
        ctx.check(Or(r[2] >= 1, Or([Eq(r[1], e) for e in elems])), f"{what}: aliases are elements of this type", lambda: f"{r}")
    for e, w in zip(elems, ws):
        mass = Sum([Ite(Eq(r[0], e), r[2], 0.0) + Ite(And(Eq(r[1], e), r[2] < 1), 1 - r[2], 0.0) for r in rows])
        # mass / n is the probability of drawing e
        ctx.check(near(mass * total, w * n), f"{what}: probability of each element", lambda: f"{mass} * {total} != {w} * {n}")


def table(ctx, b):
    env = Env(ctx)
    n = ctx.pick("elements", 1, b["elements"])
    ids = list(range(100, 100 + n))
    ws, total = weights(ctx, "w", n, b["totals"])
    np = env.np
    v = alias.Vose(np.array(ids, dtype=np.int64), np.array(ws, dtype=np.float32))
    rows = []
    for i in range(n):
        pr = v.prob[i]
        rows.append((v.elements[i], v.elements[v.alias[i]] if not bool(pr >= 1) else 0, pr))
    check_table(ctx, rows, ids, ws, total, "table")
    # drawing: row chosen uniformly, then the element or its alias
    k = ctx.pick("row", 0, n - 1)
    u = ctx.real("u", 0, 1, den=1024)
    asked = []

    def rr(a, hi=None, *x):
        lo, hi = (0, a) if hi is None else (a, hi)
        asked.append((lo, hi))
        return k

    rnd = ModShim(random, randrange=rr, randint=lambda a, c: rr(a, c + 1), uniform=lambda a, c: u, random=lambda: u)
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("deepgnn.") and vars(m).get("random") is random:
            ctx.patch(m, "random", rnd)
    got = v.sample()
    if asked:
        ctx.check_eq(asked[0], (0, n), "a draw starts from any row")
        e, a, p = rows[k]
        ctx.check(Or(And(u <= p, Eq(got, e)), And(u >= p, Eq(got, a))), "a draw follows the table", lambda: f"u={u} p={p} got {got} of {e}/{a}")
        ctx.cover("drawn")


def files(ctx, b):
    """Alias files of a partition: nodes and edges of several types."""
    env = Env(ctx)
    node = ctx.flag("nodes")
    p = 3
    w = writers.BinaryWriter(env.path(), p, not node, node)
    n = ctx.pick("elements", 1, b["elements"])
    types = [ctx.pick(f"type{i}", 0, b["types"] - 1) for i in range(n)]
    ids = distinct(ctx, "id", n) if not node or n < 3 else [ctx.int(f"id{i}", 10 * i + 1, 10 * i + 9) for i in range(n)]
    ws = [None] * n
    totals = {}
    for t in sorted(set(types)):
        mine = [i for i in range(n) if types[i] == t]
        vals, totals[t] = weights(ctx, f"w{t}_", len(mine), b["totals"])
        for i, x in zip(mine, vals):
            ws[i] = x
    if node:
        recs = [(ids[i], -1, types[i], ws[i], None, None, []) for i in range(n)]
    else:
        order = sorted(range(n), key=lambda i: types[i])
        src = ctx.int("src", 1, ID)
        recs = [(src, -1, 1, 1.0, None, None, [])] + [(src, ids[i], types[i], ws[i], None, None, []) for i in order]
    w.add(iter(recs))
    w.close()
    kind, fmt = ("node", "=qqf") if node else ("edge", "=qqqqf")
    other = "edge" if node else "node"
    ctx.check(not [f for f in env.listdir() if f.startswith(other) and f.endswith(".alias")], "skipped tables are not written", lambda: f"{env.listdir()}")
    for t in range(max(types) + 1):
        name = f"{kind}_{t}_{p}.alias"
        ctx.check(env.exists(name), "a table for every type", lambda: f"{name} missing in {env.listdir()}")
        raw = fields(env.read_bytes(name), fmt)
        ctx.check(raw is not None, "whole records in the table")
        mine = [i for i in range(n) if types[i] == t]
        if not mine:
            ctx.check(raw == [], "no entry for a type without elements", lambda: f"{raw}")
            ctx.cover("empty type")
            continue
        if node:
            rows, elems = raw, [ids[i] for i in mine]
        else:
            # source, destination, alias source, alias destination or pairs interleaved: documented order
            rows = [((r[0], r[1]), (r[2], r[3]), r[4]) for r in raw]
            elems = [(src, ids[i]) for i in mine]
        check_table(ctx, rows, elems, [ws[i] for i in mine], totals[t], name)


HARNESSES = [
    Harness("table", table, dict(elements=4, totals=[1, 3, 8]), dict(elements=5, totals=[0.125, 1, 2, 3, 5, 7, 12, 100]), covers=["drawn"]),
    Harness("files", files, dict(elements=3, types=2, totals=[1, 6]), dict(elements=4, types=2, totals=[1, 3, 10]), covers=["empty type"]),
]
