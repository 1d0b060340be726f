"""Graphs in the on-disk format of the engine, and what the engine must answer about them."""
from symx import native
from symx.native import Arr, Library, out  # noqa: F401

I63 = 2**63
FOREVER = -1
NO_TIME = -1
prepare = native.prepare
DEPLOY = None  # (ctx, partitions) -> (number of servers, server of each partition) when graphs are reached through the interface for Python


class Edge:
    def __init__(self, dst, type, weight=1.0, created=0, removed=FOREVER, features=None):
        self.dst, self.type, self.weight, self.created, self.removed = dst, type, weight, created, removed
        self.features = features or []

    def at(self, ts):
        """Whether the edge is there at a moment (None: any)."""
        if ts is None:
            return True
        if not bool(self.created <= ts):
            return False
        return bool(self.removed == FOREVER) or bool(self.removed > ts)


class Node:
    def __init__(self, id, type, edges=(), features=None):
        self.id, self.type, self.edges = id, type, list(edges)
        self.features = features or []


class World:
    """Partitions as the converter writes them: {suffix: [nodes]}; a feature is a list of (code, value) pieces."""

    def __init__(self, lib, parts, watermark=-1, node_types=4, edge_types=4, node_features=0, edge_features=0, partitions=None, disk=0):
        self.lib, self.parts = lib, parts
        for suffix, nodes in parts.items():
            self.write(suffix, nodes, watermark >= 0, node_features, edge_features)
        partitions = sorted({int(s.split("_")[0]) for s in parts}) if partitions is None else partitions
        self.api = "vp_r_" if DEPLOY else "vp_"
        if DEPLOY:
            servers, owner = DEPLOY(lib.ctx, partitions)
            self.g = lib.call("vp_r_open", lib.folder, len(partitions), Arr("I", partitions), servers, Arr("I", owner), Arr("I", [0] * servers), node_types, edge_types, node_features, edge_features, watermark, disk, 0, Arr("f", []), Arr("f", []))
            partitions = [p for k in range(max(servers, 1)) for p, o in zip(partitions, owner) if o == k]
        else:
            self.g = lib.call("vp_open", lib.folder, len(partitions), Arr("I", partitions), node_types, edge_types, node_features, edge_features, watermark, disk)
        self.order = [s for p in partitions for s in sorted(s for s in parts if int(s.split("_")[0]) == p)]

    def write(self, suffix, nodes, temporal, node_features, edge_features):
        put = self.lib.put
        put(f"node_{suffix}.map", [x for i, n in enumerate(nodes) for x in (("q", n.id), ("Q", i), ("i", n.type))])
        nindex, nfi, nfd = [], [], []
        at = 0
        for n in nodes:
            nindex.append(("Q", len(nfi)))
            for f in n.features:
                nfi.append(("Q", at))
                nfd += f
                at += sum(native.SIZES[c] for c, _ in f)
        nindex.append(("Q", len(nfi)))
        nfi.append(("Q", at))
        put(f"node_{suffix}.index", nindex)
        if node_features:
            put(f"node_features_{suffix}.index", nfi)
            put(f"node_features_{suffix}.data", nfd)
        count = 0
        nb = [("Q", 0)]
        records, times, efi, efd = [], [("q", 0)], [], []
        at = 0
        for n in nodes:
            count += len(n.edges)
            nb.append(("Q", count))
            for e in n.edges:
                records += [("q", e.dst), ("Q", len(efi)), ("i", e.type), ("f", e.weight)]
                times += [("q", e.created), ("q", e.removed)]
                for f in e.features:
                    efi.append(("Q", at))
                    efd += f
                    at += sum(native.SIZES[c] for c, _ in f)
        records += [("q", 0), ("Q", len(efi)), ("i", -1), ("f", -1.0)]
        efi.append(("Q", at))
        put(f"neighbors_{suffix}.index", nb)
        put(f"edge_{suffix}.index", records)
        if temporal:
            put(f"edge_{suffix}.timestamp", times)
        if edge_features:
            put(f"edge_features_{suffix}.index", efi)
            put(f"edge_features_{suffix}.data", efd)

    # -- the graph as its users see it
    def holders(self, id):
        return [n for s in self.order for n in self.parts[s] if bool(n.id == id)]

    def type_of(self, id, missing):
        t = missing
        for n in self.holders(id):
            t = n.type
            if bool(t != -1):
                break
        return t

    def edges(self, id, types, ts=None):
        """Edges in the order of a full neighbour query."""
        return [e for n in self.holders(id) for t in sorted(set(types)) for e in n.edges if e.type == t and e.at(ts)]

    # -- queries
    def call(self, name, *args):
        r = self.lib.call(self.api + name, *args)
        if DEPLOY and name != "close":
            self.lib.ctx.check(r == 0, "queries succeed")

    def _times(self, ts):
        return (0, Arr("q", [])) if ts is None else (len(ts), Arr("q", ts))

    def node_types(self, ids, missing):
        o = out("i", len(ids))
        self.call("node_types", self.g, len(ids), Arr("q", ids), o, missing)
        return o.values

    def counts(self, ids, types, ts=None):
        o = out("Q", len(ids))
        self.call("neighbor_count", self.g, len(ids), Arr("q", ids), len(types), Arr("i", types), *self._times(ts), o)
        return o.values

    def neighbors(self, ids, types, ts=None, with_ts=False, room=16):
        i, t, w, c, n, s = out("q", room), out("i", room), out("f", room), out("q", room), out("Q", len(ids)), out("Q", 4)
        self.call("neighbors", self.g, int(with_ts), len(ids), Arr("q", ids), len(types), Arr("i", types), *self._times(ts), room, i, t, w, c, n, s)
        return n.values, s.values, i.values, t.values, w.values, c.values

    def sample(self, ids, types, count, ts=None, with_ts=False, missing=(-7, -2.0, -3), totals=None):
        n = len(ids) * count
        i, t, w, c = out("q", n), out("i", n), out("f", n), out("q", n)
        tot = Arr("f", totals or [0.0] * len(ids))
        self.call("sample_neighbor", self.g, int(with_ts), 1, len(ids), Arr("q", ids), len(types), Arr("i", types), *self._times(ts), count, i, t, w, tot, c, *missing)
        return i.values, t.values, w.values, None if DEPLOY else tot.values, c.values

    def uniform(self, ids, types, count, without, ts=None, with_ts=False, missing=(-7, -3)):
        n = len(ids) * count
        i, t, c = out("q", n), out("i", n), out("q", n)
        tot = Arr("Q", [0] * len(ids))
        self.call("uniform_neighbor", self.g, int(without), int(with_ts), 1, len(ids), Arr("q", ids), len(types), Arr("i", types), *self._times(ts), count, i, t, tot, c, *missing)
        return i.values, t.values, None if DEPLOY else tot.values, c.values

    def last(self, ids, types, count, ts, with_ts=True, missing=(-7, -2.0, -3, -9)):
        n = len(ids) * count
        i, t, w, c = out("q", n), out("i", n), out("f", n), out("q", n)
        self.call("last_created", self.g, int(with_ts), len(ids), Arr("q", ids), len(types), Arr("i", types), *self._times(ts), count, i, t, w, c, *missing)
        return i.values, t.values, w.values, c.values

    def close(self):
        self.call("close", self.g)


def ids(ctx, n, name="id"):
    """Distinct 64-bit identifiers."""
    r = [ctx.int(f"{name}{i}", -I63, I63 - 1) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(r[i] != r[j])
    return r


def requested(ctx, n, name="want"):
    """A subset of the edge types 0..n-1, in order."""
    return [t for t in range(n) if ctx.flag(f"{name}{t}")]


class Features:
    """Queries for features of nodes (ids) or edges (triples); times as in the other queries."""

    def __init__(self, w, keys, ts=None):
        self.w, self.lib, self.keys = w, w.lib, keys
        self.edges = bool(keys) and isinstance(keys[0], tuple)
        self.kind = "edge" if self.edges else "node"
        self.args = [w.g, len(keys)]
        self.args += [Arr(c, [k[i] for k in keys]) for i, c in enumerate("qqi")] if self.edges else [Arr("q", keys)]
        self.args += w._times(ts)

    def dense(self, features):
        size = sum(s for _, s in features) * len(self.keys)
        o = Arr("B", [0] * size)
        self.w.call(f"{self.kind}_feature", *self.args, len(features), Arr("i", [f for f, _ in features]), Arr("I", [s for _, s in features]), size, o)
        return o.values

    def strings(self, features, room=16):
        dims = Arr("q", [0] * (len(self.keys) * len(features)))
        o, sizes = out("B", room), out("Q", 1)
        self.w.call(f"{self.kind}_string", *self.args, len(features), Arr("i", features), dims, room, o, sizes)
        return dims.values, o.values[: sizes.values[0]], sizes.values[0]

    def sparse(self, features, room=16):
        n = len(features)
        dims = Arr("q", [0] * n)
        ind, val, sizes = out("q", room * n), out("B", room * n), out("Q", 2 * n)
        self.w.call(f"{self.kind}_sparse", *self.args, n, Arr("i", features), dims, room, ind, val, sizes)
        s = sizes.values
        return dims.values, [ind.values[f * room : f * room + s[2 * f]] for f in range(n)], [val.values[f * room : f * room + s[2 * f + 1]] for f in range(n)], s
