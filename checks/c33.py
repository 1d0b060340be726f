"""Queries about the structure of a loaded graph."""
from checks.englib import Arr, Edge, I63, Library, Node, World, ids, out, prepare, requested  # noqa: F401
from symx.core import And
from symx.runner import Harness

BOUNDS = ("one node with up to 3 outgoing edges (thorough 4) over edge types 0..2 next to two other nodes, up to two queried nodes including unknown ones, any subset of the types 0..3; "
          "and a node spread over up to three files (thorough four) with up to 2 edges each, all or some of the partitions loaded; node and neighbour ids are any 64-bit numbers, weights any multiple of 1/4 below 16")
OUTSIDE = "files larger than these, HDFS storage, files that are not in the format of the converter"
ASSUMPTIONS = [
    "the engine is executed from the LLVM IR clang 18 -O1 -DNDEBUG gives for the current sources; hash maps, the directory listing and glog are stand-ins with the same contract, floats are exact rationals where the values allow it",
    "counterexamples are replayed against the same sources compiled with AddressSanitizer and the real abseil containers",
]


def expect(ctx, w, got, ask, types, ts=None, with_ts=False):
    counts, sizes, i, t, wt, c = got
    want = [w.edges(x, types, None if ts is None else ts[k]) for k, x in enumerate(ask)]
    for k, es in enumerate(want):
        ctx.check_eq(counts[k], len(es), "the count of a full neighbour query is the number of edges")
    flat = [e for es in want for e in es]
    for k in range(3):
        ctx.check_eq(sizes[k], len(flat), "a full neighbour query returns every edge once")
    ctx.check_eq(sizes[3], len(flat) if with_ts else 0, "creation times are returned for every edge when asked for")
    for k, e in enumerate(flat):
        ctx.check(And(i[k] == e.dst, t[k] == e.type, wt[k] == e.weight), "a full neighbour query returns id, type and weight of the edges in order")
        if with_ts:
            ctx.check_eq(c[k], e.created if ts is not None else -1, "a full neighbour query returns the creation time of the edges")
    return flat


def node(ctx, b):
    me, other, third, stranger = ids(ctx, 4)
    n = ctx.pick("edges", 0, b["edges"])
    types = [ctx.pick(f"type{k}", 0, b["types"] - 1) for k in range(n)]
    ctx.assume(types == sorted(types))
    es = [Edge(ctx.int(f"dst{k}", -I63, I63 - 1), types[k], ctx.real(f"weight{k}", 0, 16, 4)) for k in range(n)]
    first, second = Node(me, ctx.int("kind", 0, 1000), es), Node(other, 2, [Edge(5, 1, 1.0), Edge(6, 1, 1.0)])
    lib = Library(ctx)
    w = World(lib, {"0_0": ([first, second] if ctx.flag("first") else [second, first]) + [Node(third, 0, [Edge(7, 1, 2.0)])]})
    ask = [(me, other, stranger)[ctx.pick(f"ask{k}", 0, 2)] for k in range(ctx.pick("asked", 1, b["asked"]))]
    got = w.node_types(ask, -5)
    for k, x in enumerate(ask):
        ctx.check_eq(got[k], w.type_of(x, -5), "node types are the stored ones, the default for unknown nodes")
    want = requested(ctx, b["types"] + 1)
    counts = w.counts(ask, want)
    for k, x in enumerate(ask):
        ctx.check_eq(counts[k], len(w.edges(x, want)), "the neighbour count is the number of edges with the requested types")
    with_ts = ctx.flag("times")
    flat = expect(ctx, w, w.neighbors(ask, want, with_ts=with_ts), ask, want, with_ts=with_ts)
    w.close()
    ctx.cover("several edges") if len(flat) > 2 else None
    ctx.cover("types between") if want == [1, 2] and types and types[0] == 0 and types[-1] == 2 else None


def files(ctx, b):
    """A node in several files: other partitions and several suffixes of one partition."""
    me, other, stranger = ids(ctx, 3)
    layout = ctx.choice("layout", b["layouts"])
    parts = {}
    k = 0
    for s in layout:
        here = b.get("everywhere") or ctx.flag("in" + s)
        nodes = [Node(other, 3, [Edge(100 + k, 0, 0.5)])] if b.get("both") or not b.get("everywhere") and ctx.flag("both" + s) else []
        if here:
            es = []
            for _ in range(ctx.pick("edges" + s, 0, b["edges"])):
                es.append(Edge(ctx.int(f"dst{k}", -I63, I63 - 1), ctx.pick(f"type{k}", 0, 1), ctx.real(f"weight{k}", 0, 16, 4)))
                k += 1
            ctx.assume([e.type for e in es] == sorted(e.type for e in es))
            nodes.append(Node(me, -1 if not b.get("everywhere") and ctx.flag("unowned" + s) else 1, es))
        parts[s] = nodes
    ctx.assume(all(parts.values()))
    mine = [n.type for nodes in parts.values() for n in nodes if n.id is me]
    ctx.assume(not (b.get("owned") and mine) or max(mine) >= 0)
    lib = Library(ctx)
    known = sorted({int(s.split("_")[0]) for s in layout})
    w = World(lib, parts, partitions=ctx.choice("loaded", [known, known[::-1], known[:1], known[1:] or known]) if b.get("loaded") else None)
    ask = [me, other, stranger]
    got = w.node_types(ask, -5)
    for j, x in enumerate(ask):
        ctx.check_eq(got[j], w.type_of(x, -5), "the type of a node is the one of the first file that knows it")
    want = requested(ctx, 2)
    counts = w.counts(ask, want)
    for j, x in enumerate(ask):
        ctx.check_eq(counts[j], len(w.edges(x, want)), "the neighbour count adds up the files of a node")
    flat = expect(ctx, w, w.neighbors(ask, want), ask, want)
    w.close()
    ctx.cover("two files") if len(w.holders(me)) > 1 and len(flat) > 1 else None


TWO = [("0_0", "1_0"), ("0_0", "0_1"), ("1_0", "10_0")]
HARNESSES = [
    Harness("node", node, {"edges": 3, "types": 3, "asked": 1}, {"edges": 4, "types": 3, "asked": 2}, covers=["several edges", "types between"], weight=2),
    Harness("files", files, {"edges": 1, "layouts": TWO}, {"edges": 2, "layouts": TWO + [("0_0", "0_1", "1_0")]}, covers=["two files"], weight=2),
    Harness("three_files", files, {"edges": 1, "layouts": [("0_0", "0_1", "1_0")], "everywhere": 1}, {"edges": 2, "layouts": [("0_0", "0_1", "1_0"), ("0_0", "0_1", "1_0", "2_0")], "everywhere": 1}, covers=["two files"]),
    Harness("loaded", files, {"edges": 1, "layouts": [("1_0", "10_0")], "everywhere": 1, "loaded": 1}, {"edges": 2, "layouts": [("1_0", "10_0"), ("1_0", "10_0", "11_0")], "everywhere": 1, "loaded": 1}, covers=["two files"]),
]
