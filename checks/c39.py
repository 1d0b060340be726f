"""Samplers of nodes and edges."""
from checks import englib
from checks.c33 import ASSUMPTIONS as BASE
from checks.c35 import Spread, as_real, runs
from checks.c36 import OnGrid
from checks.englib import Arr, I63, Library, out, prepare  # noqa: F401
from symx.core import And, B2I, Or, Sum
from symx.native import Draws
from symx.runner import Harness

BOUNDS = ("two types with up to 3 elements in up to two partitions, up to 3 samples (without replacement: types of up to 4 elements, up to 6 samples), any subset of the types 0..2 asked for; ids any 64-bit numbers, alias tables with any thresholds, any weights of partitions up to 8; "
          "any outcome of every draw (without replacement: each real draw is 1/8 or 15/16); proportions: up to 3 elements, weights up to 4, draws spread evenly over [0, 1)")
OUTSIDE = "larger tables, HDFS storage, weights and tables that contradict each other, equal probability of all subsets without replacement"
ASSUMPTIONS = BASE + ["the uniform and binomial distributions of boost are replaced by unknowns; a binomial variable with an undefined probability (0/0, nothing to draw) is 0, as in boost's implementation"]
WEIGHTED, UNIFORM, WITHOUT = range(3)
BLANK = -7


class Certain:
    """0/0 as a probability, and seeds for partitions that no outcome depends on."""

    def binomial(self, n, p):
        if p != p:
            return 0
        return super().binomial(n, p)

    def integer(self, lo, hi):
        return lo if hi - lo > 2**32 else super().integer(lo, hi)


class Any(Certain, Draws):
    pass


class Few(Certain, OnGrid):
    def binomial(self, n, p):
        r = super().binomial(n, p)
        return r if type(r) is int else self.ctx.concretize(r.z)


class Even(Certain, Spread):
    def binomial(self, n, p):
        if p != p or bool(p <= 0):
            return 0
        if bool(p >= 1):
            return n if type(n) is int else self.ctx.concretize(n.z)
        return super().binomial(n, p)


class Tables:
    """Alias tables {(type, partition): [(left, right, threshold)]} of nodes (1-tuples) or edges (pairs) and the weights beside them."""

    def __init__(self, lib, edges, tables, weights, types, partitions):
        self.lib, self.edges, self.tables, self.weights, self.types, self.partitions = lib, edges, tables, weights, types, partitions
        for (t, p), rows in tables.items():
            parts = []
            for left, right, threshold in rows:
                parts += [("q", x) for x in left + right] + [("f", threshold)]
            lib.put(f"{'edge' if edges else 'node'}_{t}_{p}.alias", parts)

    def open(self, kind, wanted, order, elsewhere=False):
        self.wanted, self.order = wanted, order
        rows = self.partitions
        ws = [self.weights[t, p] for p in range(rows) for t in range(self.types)]
        self.g = None
        if englib.DEPLOY:
            servers, owner = englib.DEPLOY(self.lib.ctx, order)
            node, edge = ([], ws) if self.edges else (ws, [])
            self.g = self.lib.call("vp_r_open", self.lib.folder, len(order), Arr("I", order), servers, Arr("I", owner), Arr("I", [0] * servers), *[0 if self.edges else self.types, self.types if self.edges else 0], 0, 0, -1, 0, rows, Arr("f", node), Arr("f", edge))
            self.s = self.lib.call("vp_r_sampler", self.g, int(self.edges), kind, len(wanted), Arr("i", wanted))
            self.lib.ctx.check(self.s != 0, "a sampler can be created")
            return
        self.s = self.lib.call("vp_sampler", int(self.edges), kind, "/elsewhere" if elsewhere else self.lib.folder, self.lib.folder, len(order), Arr("Q", order), self.types, rows, Arr("f", ws), len(wanted), Arr("i", wanted))

    def weight(self):
        if self.g is not None:
            return None
        o = out("f", 1)
        self.lib.call("vp_sampler_weight", self.s, o)
        return o.values[0]

    def sample(self, count):
        t, a, b = Arr("i", [BLANK] * count), Arr("q", [BLANK] * count), Arr("q", [BLANK] * count)
        if self.g is not None:
            self.lib.ctx.check(self.lib.call("vp_r_sample", self.s, int(self.edges), 1, count, t, a, b) == 0, "queries succeed")
        else:
            self.lib.call("vp_sample", self.s, int(self.edges), 1, count, t, a, b)
        return [(t[i], (a[i], b[i]) if self.edges else (a[i],)) for i in range(count)]

    def close(self):
        self.lib.call("vp_sampler_free" if self.g is None else "vp_r_sampler_free", self.s)
        if self.g is not None:
            self.lib.call("vp_r_close", self.g)

    def elements(self):
        """(type, element, condition to be drawn) of what was asked for."""
        return [(t, left, Or(threshold > 0, *[And(th < 1, True) for _, r, th in rows if r is left])) for (t, p), rows in self.tables.items() if t in self.wanted and p in self.order for left, _, threshold in rows]


def same(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def element(ctx, name, edges):
    return tuple(ctx.int(f"{name}_{x}", -I63, I63 - 1) for x in ("src", "dst")[: 1 + edges])


def world(ctx, b, lib, edges, numbered=False):
    """Tables of any shape; every element has its own row."""
    n = ctx.pick("elements", b.get("least", 0), b["elements"])
    places = [(ctx.pick(f"type{k}", 0, b["types"] - 1), ctx.pick(f"partition{k}", 0, b["partitions"] - 1)) for k in range(n)]
    ctx.assume(places == sorted(places) and not (b.get("spread") and len(set(places)) < n))
    es = [(10 + k,) + ((20 + k,) if edges else ()) if numbered else element(ctx, f"e{k}", edges) for k in range(n)]
    if not numbered:
        for i in range(n):
            for j in range(i):
                ctx.assume(~same(es[i], es[j]) if ctx.symbolic else not same(es[i], es[j]))
    tables, weights = {}, {}
    common = b.get("halves") and ctx.flag("full")
    for t in range(b["types"]):
        for p in range(b["partitions"]):
            mine = [k for k in range(n) if places[k] == (t, p)]
            rows = []
            for i, k in enumerate(mine):
                other = mine[i - 1] if len(mine) > 1 else None
                full = other is None or (common if b.get("halves") else ctx.flag(f"full{k}"))
                if full:
                    rows.append((es[k], (0,) * (1 + edges), 1.0))
                elif b.get("halves"):
                    rows.append((es[k], es[other], 0.5))
                else:
                    th = ctx.real(f"threshold{k}", 0, 1, 4)
                    ctx.assume(th < 1)
                    rows.append((es[k], es[other], th))
            tables[t, p] = rows
            weights[t, p] = 0.0 if not mine else b["weight"](ctx, t, p, len(mine))
    return Tables(lib, edges, tables, weights, b["types"], b["partitions"]), es, places


def any_weight(ctx, t, p, n):
    w = ctx.int(f"weight{t}_{p}", 1, 8)
    return as_real(w) if ctx.symbolic else float(w)


def asked(ctx, b):
    return [t for t in range(b["types"] + 1) if b.get("spread") or ctx.flag(f"want{t}")]


def members(ctx, b):
    edges = b["edges"]
    lib = Library(ctx, Any(ctx))
    w, es, places = world(ctx, dict(b, weight=any_weight if not b.get("fixed") else (lambda ctx, t, p, n: 1.0 + t + 2 * p)), lib, edges)
    kind = b["kind"]
    order = list(range(b["partitions"]))
    if b["partitions"] > 1:
        which = 0 if englib.DEPLOY or b.get("spread") else ctx.pick("order", 0, 2)
        order, elsewhere = ([0, 1], [1, 0], [1])[which], which == 1
    else:
        elsewhere = not englib.DEPLOY and ctx.flag("elsewhere")
    w.open(kind, asked(ctx, b), order, elsewhere)
    here = w.elements()
    total = (Sum([w.weights[t, p] for t in w.wanted if t < b["types"] for p in order]) if kind == WEIGHTED else len(here)) if here else 0
    ctx.check(englib.DEPLOY or w.weight() == total, "the weight of a sampler is the total weight of what it draws from")
    count = ctx.pick("count", b.get("fewest", 1), b["count"])
    got = w.sample(count)
    for t, e in got:
        if here:
            ctx.check(Or(*[And(t == tt, same(e, ee), c if kind == WEIGHTED else True) for tt, ee, c in here]), "a sample is an element of a requested type together with that type")
            ctx.cover("sampled")
        else:
            ctx.check(And(t == BLANK, *[x == BLANK for x in e]), "nothing is written when there is nothing to draw")
            ctx.cover("nothing")
    w.close()


def without(ctx, b):
    edges = b["edges"]
    lib = Library(ctx, Few(ctx, (1 / 8, 15 / 16)))
    w, es, places = world(ctx, dict(b, weight=lambda ctx, t, p, n: float(n), halves=1), lib, edges)
    w.open(WITHOUT, ([0], [0, 1, 2], [1])[ctx.pick("wanted", 0, 1 if b["types"] < 2 else 2)], list(range(b["partitions"])))
    here = w.elements()
    ctx.check(englib.DEPLOY or w.weight() == len(here), "the weight of a sampler without replacement is the number of elements")
    count = ctx.pick("count", b.get("fewest", 1), b["count"])
    got = w.sample(count)
    filled = min(count, len(here))
    for t, e in got[:filled]:
        ctx.check(Or(*[And(t == tt, same(e, ee)) for tt, ee, _ in here]), "a sample is an element of a requested type together with that type")
    for tt, ee, _ in here:
        ctx.check(Sum([B2I(And(t == tt, same(e, ee))) for t, e in got[:filled]]) <= 1 if filled else True, "no element is drawn twice without replacement")
    for t, e in got[filled:]:
        ctx.check(And(t == BLANK, *[x == BLANK for x in e]), "nothing is written after all elements have been drawn")
    ctx.cover("all") if 0 < len(here) <= count else None
    ctx.cover("some") if len(here) > count else None
    w.close()


def shares(ctx, b):
    d = b["parts"]
    draws = Even(ctx, d)
    lib = Library(ctx, draws)
    w, es, places = world(ctx, dict(b, weight=any_weight, halves=1, least=1), lib, b["edges"], numbered=True)
    kind = b["kind"]
    w.open(kind, list(range(b["types"])), list(range(b["partitions"])))
    mass = []
    for k, e in enumerate(es):
        rows = w.tables[places[k]]
        m = sum((th if left == e else 0) + ((1 - th) if th < 1 and right == e else 0) for left, right, th in rows)
        mass.append(w.weights[places[k]] * m / len(rows) if kind == WEIGHTED else 1)
    total = Sum(mass)
    if d == 2:
        ctx.assume(all(len(r) < 3 for r in w.tables.values()))
    if kind == WEIGHTED:
        ctx.assume(total == b["total"])
    count = b["count"]
    got = [0] * len(es)
    for share, o in runs(draws, d, lambda: w.sample(count)):
        for t, e in o:
            for k in range(len(es)):
                got[k] = got[k] + share * B2I(And(t == places[k][0], same(e, es[k])))
    for k in range(len(es)):
        ctx.check(got[k] * total == d**16 * count * mass[k], "elements are drawn in proportion to their weight")
    ctx.cover("two types") if len({t for t, _ in places}) > 1 else None
    w.close()


M = {"elements": 2, "types": 2, "partitions": 2, "count": 2}
W, T = dict(M, elements=3), dict(M, elements=3, partitions=1)
HARNESSES = [
    Harness("weighted_nodes", members, dict(M, edges=0, kind=WEIGHTED, count=1), dict(W, edges=0, kind=WEIGHTED), covers=["sampled", "nothing"], weight=2),
    Harness("weighted_edges", members, dict(M, edges=1, kind=WEIGHTED, count=1), dict(W, edges=1, kind=WEIGHTED), covers=["sampled", "nothing"], weight=2),
    Harness("weighted_types", members, dict(T, edges=0, kind=WEIGHTED, fixed=1, count=1), dict(T, edges=1, kind=WEIGHTED, count=3), covers=["sampled", "nothing"], weight=2),
    Harness("uniform_nodes", members, dict(M, edges=0, kind=UNIFORM, count=1), dict(W, edges=0, kind=UNIFORM), covers=["sampled", "nothing"], weight=2),
    Harness("uniform_edges", members, dict(M, edges=1, kind=UNIFORM, count=1), dict(W, edges=1, kind=UNIFORM), covers=["sampled", "nothing"], weight=2),
    Harness("uniform_types", members, dict(T, edges=1, kind=UNIFORM), dict(T, edges=1, kind=UNIFORM, count=3), covers=["sampled", "nothing"], weight=3),
    Harness("places", members, dict(W, edges=1, kind=UNIFORM, least=3, spread=1, fewest=3, count=3), dict(W, edges=0, kind=WEIGHTED, elements=4, least=3, spread=1, fewest=3, count=4), covers=["sampled"], weight=2),
    Harness("without_nodes", without, {"elements": 4, "types": 1, "partitions": 1, "count": 5, "edges": 0}, {"elements": 5, "types": 2, "partitions": 1, "count": 6, "edges": 0}, covers=["all", "some"], weight=3),
    Harness("without_parts", without, {"elements": 3, "types": 1, "partitions": 2, "count": 4, "edges": 0}, {"elements": 4, "types": 2, "partitions": 2, "count": 5, "edges": 0}, covers=["all", "some"], weight=3),
    Harness("without_edges", without, {"elements": 3, "types": 2, "partitions": 1, "count": 4, "edges": 1}, {"elements": 4, "types": 2, "partitions": 1, "count": 5, "edges": 1}, covers=["all", "some"], weight=3),
    Harness("shares_nodes", shares, dict(T, edges=0, kind=WEIGHTED, count=1, parts=6, total=3), dict(W, edges=0, kind=WEIGHTED, count=1, parts=6, total=3), covers=["two types"]),
    Harness("shares_edges", shares, dict(M, edges=1, kind=WEIGHTED, count=1, parts=2, total=2), dict(M, edges=1, kind=WEIGHTED, count=2, parts=2, total=2), covers=["two types"]),
    Harness("shares_uniform", shares, dict(T, edges=0, kind=UNIFORM, count=1, parts=6), dict(W, edges=0, kind=UNIFORM, count=1, parts=6), covers=["two types"]),
    Harness("shares_uniform_edges", shares, dict(M, edges=1, kind=UNIFORM, count=2, parts=2), dict(M, edges=1, kind=UNIFORM, count=2, parts=2), covers=["two types"]),
]
