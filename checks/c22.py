"""C22: counts by type and samplers follow the request, whatever was requested before."""
import numpy as _np

from deepgnn.graph_engine import _base
from deepgnn.graph_engine.snark import client, local

from checks.nativelib import header, same, setup, write_meta
from symx.core import And, Ite, Or, Sum, is_sym
from symx.runner import Harness

BOUNDS = "histories of requests of the listed length on up to two graphs of one process, every mix of strategies, element kinds and listed type sets (duplicates, any order, unknown types, -1); per-type counts, drawn ids and types any value"
OUTSIDE = "longer histories; other type sets; the native samplers themselves (replaced by a stand-in with arbitrary answers)"
ASSUMPTIONS = ["a sampler object of the engine draws what it was created for"]
S = _base.SamplingStrategy
KINDS = {"weighted": "Weighted", "uniform": "Uniform", "withoutreplacement": "Uniform"}
STRATEGIES = [S.Weighted, S.Random, S.RandomWithoutReplacement]


class Engine:
    """Remembers what each native sampler was created for."""

    def __init__(self, b):
        self.b, self.made, self.drawn, self.k = b, [], [], 0

    def __getattr__(self, name):
        if name.startswith("Create") and name.endswith(("Sampler", "WithoutReplacement")):
            def make(count, types, **a):
                g = a.get("graph") or a.get("py")
                s = a["edge_sampler"] if "Edge" in name else a["node_sampler"]
                self.made.append((s, g, name, types.read(int(count))))
            return make
        raise AttributeError(name)

    def of(self, s):
        m = [x for x in self.made if x[0] is s]
        if not m:
            self.ctx.fail("an existing sampler is asked")
        return m[-1]

    def SampleNodes(self, sampler, seed, count, out_nodes, out_types):
        return self._draw("Node", sampler, seed, count, (out_nodes, out_types))

    def SampleEdges(self, sampler, seed, count, out_src_id, out_dst_id, out_type):
        return self._draw("Edge", sampler, seed, count, (out_src_id, out_dst_id, out_type))

    def _draw(self, kind, sampler, seed, count, outs):
        n = int(count)
        vals = []
        for j, o in enumerate(outs):
            lo, hi = (-(2**31), 2**31 - 1) if j == len(outs) - 1 else (-(2**63), 2**63 - 1)
            v = [self.ctx.int(f"drawn{self.k}.{j}.{i}", lo, hi) for i in range(n)]
            o.write(v)
            vals.append(v)
        self.k += 1
        self.drawn.append((kind, sampler, seed, n, vals))
        return 0


def wanted(ctx, types, counts):
    """Requested types that have elements, as the sampler must get them."""
    out = []
    for t in sorted(set(types)):
        if 0 <= t < len(counts) and bool(counts[t] > 0):
            out.append(t)
    return out


NAMES = {("Node", S.Weighted): "CreateWeightedNodeSampler", ("Node", S.Random): "CreateUniformNodeSampler", ("Node", S.RandomWithoutReplacement): "CreateUniformNodeSamplerWithoutReplacement"}
NAMES.update({("Edge", k[1]): v.replace("Node", "Edge") for k, v in list(NAMES.items())})


def judge(ctx, eng, before, graph, kind, strategy, types, counts, size, seed=None):
    """The last draw used a sampler made for this request."""
    ctx.check(len(eng.drawn) == before + 1, "the engine draws exactly once", lambda: f"{len(eng.drawn) - before}")
    k, s, sd, n, vals = eng.drawn[-1]
    ctx.check(k == kind, "kind of the drawn elements", lambda: f"{k} for {kind}")
    ctx.check(n == size, "number of drawn elements", lambda: f"{n} of {size}")
    if seed is not None:
        ctx.check_eq(sd, seed, "seed passed to the engine")
    _, g, name, got = eng.of(s)
    ctx.check(g is graph.g_, "the sampler belongs to this graph")
    ctx.check(name == NAMES[kind, strategy], "the sampler follows the strategy", lambda: f"{name} for {kind} {strategy}")
    ctx.check_eq(got, wanted(ctx, types, counts), "the sampler was created for exactly the requested types")
    return vals


def _counts(ctx, b, name):
    return [ctx.int(f"{name}{t}", 0, 2**40) for t in range(b["types"])]


def history(ctx, b):
    eng = Engine(b)
    env, lib = setup(ctx, eng)
    graphs, counts = [], []
    for i in range(ctx.pick("graphs", 1, b["graphs"])):
        nodes, edges = _counts(ctx, b, f"g{i}.nodes"), _counts(ctx, b, f"g{i}.edges")
        if b.get("present"):
            for x in nodes + edges:
                ctx.assume(x > 0)
        env.mkdir(f"g{i}")
        write_meta(env, f"g{i}/meta.json", node_types=nodes, edge_types=edges)
        graphs.append(local.Client(env.path(f"g{i}"), [0]))
        counts.append((nodes, edges))
    for k in range(b["requests"]):
        gi = ctx.pick(f"graph{k}", 0, len(graphs) - 1)
        g = graphs[gi]
        kind = ctx.choice(f"kind{k}", ["Node", "Edge"])
        st = ctx.choice(f"strategy{k}", STRATEGIES[: b.get("strategies", 3)])
        req = ctx.choice(f"types{k}", b["requests_for"])
        size = ctx.pick(f"size{k}", 1, b["size"])
        types = [req] if isinstance(req, int) else list(req)
        arg = req if isinstance(req, int) else _np.array(req, dtype=_np.int32)
        c = counts[gi][0 if kind == "Node" else 1]
        before = len(eng.drawn)
        try:
            r = (g.sample_nodes if kind == "Node" else g.sample_edges)(size, arg, st)
        except AssertionError:
            ctx.check(not wanted(ctx, types, c), "a request for types that have elements is served", lambda: f"{req}")
            ctx.check(len(eng.drawn) == before, "a refused request draws nothing")
            ctx.cover("refused")
            continue
        vals = judge(ctx, eng, before, g.graph, kind, st, types, c, size)
        if kind == "Edge":
            same(ctx, r, [list(row) for row in zip(*vals)], "row i is the i-th drawn edge with its type")
        elif isinstance(req, int):
            same(ctx, r, vals[0], "drawn nodes")
        else:
            same(ctx, r[0], vals[0], "drawn nodes")
            same(ctx, r[1], vals[1], "types of drawn nodes")
        if len(eng.made) <= k:
            ctx.cover("sampler reused")


def samplers(ctx, b):
    eng = Engine(b)
    env, lib = setup(ctx, eng)
    nodes, edges = _counts(ctx, b, "nodes"), _counts(ctx, b, "edges")
    write_meta(env, node_types=nodes, edge_types=edges)
    g = client.MemoryGraph(env.path(), [0])
    kind = ctx.choice("kind", ["Node", "Edge"])
    name = ctx.choice("strategy", ["weighted", "uniform", "withoutreplacement"])
    st = dict(zip(["weighted", "uniform", "withoutreplacement"], STRATEGIES))[name]
    req = ctx.choice("types", b["requests_for"])
    c = nodes if kind == "Node" else edges
    types = list(range(len(c))) if req == -1 else ([req] if isinstance(req, int) else list(req))
    size, seed = ctx.pick("size", 0, b["size"]), ctx.int("seed", -(2**63), 2**63 - 1)
    given = list(req) if not isinstance(req, int) else req
    try:
        s = (client.NodeSampler if kind == "Node" else client.EdgeSampler)(g, given, name)
    except AssertionError:
        ctx.check(not wanted(ctx, types, c), "a request for types that have elements is served", lambda: f"{req}")
        return
    ctx.check(given == req, "the caller's list is left alone")
    for k in range(2):
        before = len(eng.drawn)
        r = s.sample(size, seed)
        vals = judge(ctx, eng, before, g, kind, st, types, c, size, seed)
        for got, want in zip(r, vals):
            same(ctx, got, want, "drawn elements and their types")
        ctx.check(len(r) == len(vals), "drawn elements and their types")


def counting(ctx, b):
    eng = Engine(b)
    env, lib = setup(ctx, eng)
    nodes, edges = _counts(ctx, b, "nodes"), _counts(ctx, b, "edges")
    write_meta(env, node_types=nodes, edge_types=edges)
    wrap = ctx.flag("client")
    g = local.Client(env.path(), [0]) if wrap else client.MemoryGraph(env.path(), [0])
    for k in range(2):
        kind = ctx.choice(f"kind{k}", ["Node", "Edge"])
        c = nodes if kind == "Node" else edges
        n = ctx.pick(f"n{k}", 1, b["asked"])
        req = [ctx.pick(f"type{k}.{i}", -1, len(c)) for i in range(n)]
        want = Sum([c[t] for t in set(req) if 0 <= t < len(c)])
        if wrap:
            arg = req[0] if n == 1 and ctx.flag(f"plain{k}") else _np.array(req, dtype=_np.int32)
            got = (g.node_count if kind == "Node" else g.edge_count)(arg)
        else:
            got = (g.get_node_type_count if kind == "Node" else g.get_edge_type_count)(list(req))
        ctx.check_eq(got, want, "sum of the counts of the requested types")


LISTS = [0, 1, [0], [1], [0, 1], [1, 0], [1, 1], [0, 7]]
HARNESSES = [
    Harness("history", history, {"graphs": 1, "types": 2, "requests": 2, "size": 1, "requests_for": [0, [0], [1], [1, 0]], "present": True}, {"graphs": 2, "types": 2, "requests": 3, "size": 1, "strategies": 2, "requests_for": [0, [0], [1, 0]], "present": True}, covers=["sampler reused"], weight=2),
    Harness("long_history", history, {"graphs": 1, "types": 2, "requests": 3, "size": 1, "strategies": 2, "requests_for": [0, [1, 0]], "present": True}, {"graphs": 1, "types": 2, "requests": 4, "size": 1, "strategies": 2, "requests_for": [0, [1, 0]], "present": True}, covers=["sampler reused"]),
    Harness("two_graphs", history, {"graphs": 2, "types": 2, "requests": 2, "size": 2, "strategies": 1, "requests_for": [0, [1, 0], 7]}, {"graphs": 2, "types": 3, "requests": 2, "size": 2, "requests_for": [0, 7, [2, 0], [1, 1]]}, covers=["refused"]),
    Harness("samplers", samplers, {"types": 2, "size": 2, "requests_for": [-1] + LISTS}, {"types": 3, "size": 3, "requests_for": [-1] + LISTS + [[2, 1], [-1, 2]]}),
    Harness("counting", counting, {"types": 2, "asked": 2}, {"types": 3, "asked": 2}),
]
