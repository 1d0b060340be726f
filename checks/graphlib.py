"""A graph whose answers are symbolic, shared by the graph-operation harnesses."""
from symx.core import is_sym


def index_of(x, ids):
    """Position of x in ids (distinct values), or None."""
    for i, y in enumerate(ids):
        if x is y or (is_sym(x) and is_sym(y) and x.z.eq(y.z)):
            return i
    for i, y in enumerate(ids):
        if bool(x == y):
            return i
    return None


def increasing_ids(ctx, n, hi=2**62, name="id"):
    ids = [ctx.int(f"{name}{i}", 0, hi) for i in range(n)]
    for a, b in zip(ids, ids[1:]):
        ctx.assume(a < b)
    return ids


class Adjacency:
    """Lazily chosen out-edges over nodes 0..n-1 with ids `ids`; degree at most deg.

    Every node has an arbitrary list of neighbours (repetition allowed), in an
    arbitrary order when `ordered` is false.
    """

    def __init__(self, ctx, env, ids, deg, any_order=False, total=99):
        self.ctx, self.env, self.ids, self.deg, self.any_order = ctx, env, ids, deg, any_order
        self.out = {}
        self.left = total
        self.calls = []

    def of(self, u):
        if u not in self.out:
            n = self.ctx.pick(f"degree{u}", 0, min(self.deg, self.left))
            self.left -= n
            lo = 0
            ns = []
            for k in range(n):
                lo2 = self.ctx.pick(f"nb{u}_{k}", 0 if self.any_order else lo, len(self.ids) - 1)
                lo = lo2
                ns.append(lo2)
            ws = [self.ctx.real(f"w{u}_{k}", 0, 8) for k in range(n)]
            ts = [self.ctx.int(f"t{u}_{k}", 0, 100) for k in range(n)]
            self.out[u] = (ns, ws, ts)
        return self.out[u]

    def neighbors(self, nodes, edge_types, *a, **k):
        np = self.env.np
        self.calls.append((list(nodes), list(edge_types)))
        nb, w, t, c = [], [], [], []
        for x in nodes:
            u = index_of(x, self.ids)
            if u is None:
                self.ctx.fail("only nodes of the graph are queried")
            ns, ws, ts = self.of(u)
            nb += [self.ids[v] for v in ns]
            w += ws
            t += ts
            c.append(len(ns))
        return np.array(nb, dtype=np.int64), np.array(w, dtype=np.float32), np.array(t, dtype=np.int32), np.array(c, dtype=np.int64)
