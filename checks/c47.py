"""C47: dataset builders keep every node, label, feature and edge of the raw data."""
import inspect
import json
import os
import shutil
import tempfile
import zipfile

import numpy as np

from checks import stublib

stublib.install()
import sklearn.preprocessing  # noqa: E402


class Scaler:
    def fit(self, rows, *a):
        self.rows = np.array(rows)
        Scaler.fitted.append(self.rows)
        return self

    def transform(self, rows):
        return np.array(rows) * 2.0

    def fit_transform(self, rows):
        return self.fit(rows).transform(rows)


sklearn.preprocessing.StandardScaler = Scaler

from deepgnn.graph_engine.data import citeseer, cora, data_util, ppi, reddit  # noqa: E402
from deepgnn.graph_engine.snark import convert, local  # noqa: E402

from checks.randlib import Draws  # noqa: E402
from symx.runner import Harness  # noqa: E402

BOUNDS = "raw data of up to the listed numbers of nodes and edges with any endpoints, any split of the nodes, any ratio of training nodes, any outcome of the shuffle, any number of partitions within the listed range"
OUTSIDE = "larger data sets, the archives and their download, the MOOC and prebuilt citation graphs, the scaling of features (scikit-learn), edges dropped by Reddit's down-sampling"
ASSUMPTIONS = ["archives are already unpacked", "scikit-learn's scaler is a stand-in that keeps the rows it is fitted on and doubles what it transforms", "conversion to binary files and loading them are covered by other properties; here the lines handed to the converter are decoded"]


class Files:
    def __init__(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="c47")
        ctx.on_exit(lambda: shutil.rmtree(self.dir, ignore_errors=True))

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def ids(self, name):
        with open(os.path.join(self.dir, name)) as f:
            return [int(x) for x in f.read().split()]


class Zip:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def extractall(self, *a, **k):
        pass


class Built:
    """What the converter and the client were asked for."""

    def __init__(self, ctx):
        self.conversions, self.loads = [], []
        built = self

        class Converter:
            def __init__(self, graph_path=None, partition_count=None, output_dir=None, decoder=None, **k):
                self.a = (graph_path, partition_count, output_dir, decoder)

            def convert(self):
                with open(self.a[0]) as f:
                    text = f.read()
                out = []
                for line in text.split("\n"):
                    out += list(self.a[3].decode(line))
                built.conversions.append((out,) + self.a[1:3])

        def load(client, path=None, partitions=None, *a, **k):
            built.loads.append((path, partitions))

        table = {id(convert.MultiWorkersConverter): Converter, id(zipfile.ZipFile): Zip, id(data_util.download_file): lambda *a, **k: None}
        for m in (convert, zipfile, data_util, cora, citeseer, ppi, reddit):
            for k, v in list(vars(m).items()):
                if id(v) in table:
                    ctx.patch(m, k, table[id(v)])
        ctx.patch(local.Client, "__init__", load)

    def check(self, ctx, path, parts):
        ctx.check(len(self.conversions) == 1 and len(self.loads) == 1, "the graph is converted and loaded once")
        out, count, where = self.conversions[0]
        ctx.check_eq(count, parts, "the graph is converted to the requested number of partitions")
        where_loaded, loaded = self.loads[0]
        ctx.check(os.path.abspath(str(where)) == os.path.abspath(str(where_loaded)) == path, "the converted folder is loaded")
        got = sorted(p[1] if isinstance(p, tuple) else p for p in loaded)
        ctx.check(got == list(range(parts)), "every partition of the graph is loaded", lambda: f"{loaded} of {parts}")
        return out


def elements(ctx, out, nodes, edges):
    """Nodes and edges come as declared: nodes id -> (type, features), edges as a sorted list of (src, dst, type)."""
    seen, links, last = {}, [], None
    for src, dst, typ, weight, _, _, feats in out:
        ctx.check(weight == 1, "weights are one")
        if dst == -1:
            ctx.check(src not in seen, "every node is written once")
            seen[src] = (typ, [list(map(float, f)) for f in feats])
            last = src
        else:
            ctx.check(src == last, "edges follow their node")
            links.append((src, dst, typ))
    ctx.check(seen == nodes, "every node has its type, features and label", lambda: f"{seen} instead of {nodes}")
    ctx.check(sorted(links) == sorted(edges), "every edge is stored in both directions with the type of its ends", lambda: f"{sorted(links)} instead of {sorted(edges)}")


def citation(ctx, b):
    f, made = Files(ctx), Built(ctx)
    kind = b["kind"]
    n = ctx.pick("nodes", 1, b["nodes"])
    names = ["p7", "3", "x", "p70"][:n]
    feats = [[float(i), 0.5] for i in range(n)]
    labels = [ctx.choice(f"label{i}", ["b", "a"]) for i in range(n)]
    edges = []
    for k in range(ctx.pick("edges", 0, b["edges"])):
        edges.append((ctx.pick(f"from{k}", 0, n - 1), ctx.pick(f"to{k}", 0, n - 1 if kind == "cora" else n)))
    folder, stem = ("cora", "cora") if kind == "cora" else ("citeseer-doc-classification", "citeseer")
    f.write(f"{folder}/{stem}.content", "".join(f"{names[i]}\t" + "\t".join(map(str, feats[i])) + f"\t{labels[i]}\n" for i in range(n)))
    known = names + ["unknown"]
    f.write(f"{folder}/{stem}.cites", "".join(f"{known[s]}\t{known[t]}\n" for s, t in edges))
    Draws(ctx, limit=20).install()
    ratio = ctx.real("ratio", 0, 1, 8)
    ctx.assume(ratio * n >= 1)
    shuffled = ctx.flag("shuffled")
    parts = ctx.pick("partitions", 1, b["partitions"])
    cls = cora.CoraFull if kind == "cora" else citeseer.CiteseerFull
    g = object.__new__(cls)
    data_util.Dataset.__init__(g, "raw.zip", stem, n, 2, 7, ratio, shuffled, output_dir=f.dir, num_partitions=parts)
    out = made.check(ctx, f.dir, parts)
    train, test = f.ids("train.nodes"), f.ids("test.nodes")
    ctx.check(sorted(train + test) == list(range(1, n + 1)), "every node is for training or for tests")
    ctx.check(len(train) == int(n * ratio), "the requested share of nodes is for training", lambda: f"{train} of {n} for {ratio}")
    if not shuffled:
        ctx.check(train == list(range(1, len(train) + 1)), "the first nodes are for training")
    order = list(dict.fromkeys(labels))
    nodes = {i + 1: (0 if i + 1 in train else 1, [feats[i], [float(order.index(labels[i]))]]) for i in range(n)}
    links = set()
    for s, t in edges:
        if t < n:
            typ = 0 if s + 1 in train and t + 1 in train else 1
            links |= {(s + 1, t + 1, typ), (t + 1, s + 1, typ)}
    elements(ctx, out, nodes, links)
    if links and test:
        ctx.cover("test nodes")


def options(ctx, b):
    """Constructors hand their options on."""
    got = []
    sig = inspect.signature(data_util.Dataset.__init__)
    ctx.patch(data_util.Dataset, "__init__", lambda self, *a, **k: got.append(sig.bind(self, *a, **k)))
    ratio, shuffled, parts = ctx.real("ratio", 0, 1), ctx.bool("shuffled"), ctx.int("partitions", 1, 5)
    if ctx.flag("cora"):
        cora.CoraFull("/out", ratio, shuffled, num_partitions=parts)
        a = got[0].arguments
        ctx.check_eq(a.get("num_partitions", 1), parts, "the number of partitions is handed on")
    else:
        citeseer.CiteseerFull("/out", ratio, shuffled)
        a = got[0].arguments
    ctx.check_eq(a["train_node_ratio"], ratio, "the share of training nodes is handed on")
    ctx.check(a["random_selection"] == shuffled, "the selection is handed on")
    ctx.check(a["output_dir"] == "/out", "the folder is handed on")


def protein(ctx, b):
    f, made = Files(ctx), Built(ctx)
    n = ctx.pick("nodes", 1, b["nodes"])
    place = ctx.permutation("ids", n)
    kinds = [ctx.choice(f"kind{i}", ["train", "val", "test"]) for i in range(n)]
    ctx.assume(any(k == "train" for k in kinds))
    edges = [(ctx.pick(f"from{k}", 0, n - 1), ctx.pick(f"to{k}", 0, n - 1)) for k in range(ctx.pick("edges", 0, b["edges"]))]
    ctx.assume(len({frozenset(e) for e in edges}) == len(edges))
    both = b.get("both") and ctx.flag("both")
    name = b["kind"]
    raw = os.path.join("raw", name)
    word = (lambda i: i) if name == "ppi" else (lambda i: f"t{i}")
    f.write(f"{raw}/{name}-id_map.json", json.dumps({str(word(i)): place[i] for i in range(n)}))
    f.write(f"{raw}/{name}-G.json", json.dumps({
        "nodes": [{"id": word(i), "test": kinds[i] == "test", "val": kinds[i] == "val" or (both and kinds[i] == "test")} for i in range(n)],
        "links": [{"source": s, "target": t} for s, t in edges]}))
    labels = [[i % 2, 1, i // 2] for i in range(n)] if name == "ppi" else [i + 3 for i in range(n)]
    f.write(f"{raw}/{name}-class_map.json", json.dumps({str(word(i)): labels[i] for i in range(n)}))
    feats = np.arange(2 * n, dtype=np.float64).reshape(n, 2) + 1
    np.save(os.path.join(f.dir, raw, f"{name}-feats.npy"), feats)
    Scaler.fitted = []
    parts = ctx.pick("partitions", 1, b["partitions"])
    if name == "ppi":
        ppi.PPI(f.dir, num_partitions=parts)
    else:
        reddit.Reddit(f.dir, 1.1, num_partitions=parts)
    out = made.check(ctx, f.dir, parts)
    code = {"train": 0, "val": 1, "test": 2}
    row = {place[i]: i for i in range(n)}
    want = {place[i]: (code[kinds[i]], [[float(x) for x in (labels[i] if name == "ppi" else [j == labels[i] for j in range(50)])], [float(x) * 2 for x in feats[place[i]]]]) for i in range(n)}
    links = []
    for s, t in edges:
        if name == "reddit":
            ps, pt = s, t
        else:
            ps, pt = place[s], place[t]
        typ = 0 if kinds[row[ps]] == kinds[row[pt]] == "train" else 1
        links.append((ps, pt, typ))
        if ps != pt:
            links.append((pt, ps, typ))
    elements(ctx, out, want, links)
    trained = sorted(place[i] for i in range(n) if kinds[i] == "train")
    ctx.check(sorted(map(tuple, Scaler.fitted[0].tolist())) == sorted(tuple(feats[i].tolist()) for i in trained), "features are scaled by the training nodes only")
    for k in code:
        ctx.check(sorted(f.ids(f"{k}.nodes")) == sorted(place[i] for i in range(n) if kinds[i] == k), "node files list the nodes of their kind")
    if len(set(kinds)) > 1 and links:
        ctx.cover("kinds")


HARNESSES = [
    Harness("cora", citation, {"kind": "cora", "nodes": 3, "edges": 1, "partitions": 2}, {"kind": "cora", "nodes": 3, "edges": 2, "partitions": 2}, covers=["test nodes"], weight=2),
    Harness("citeseer", citation, {"kind": "citeseer", "nodes": 2, "edges": 2, "partitions": 2}, {"kind": "citeseer", "nodes": 3, "edges": 2, "partitions": 3}, covers=["test nodes"]),
    Harness("options", options, {}, {}),
    Harness("ppi", protein, {"kind": "ppi", "nodes": 3, "edges": 1, "partitions": 2, "both": True}, {"kind": "ppi", "nodes": 3, "edges": 2, "partitions": 2, "both": True}, covers=["kinds"], weight=2),
    Harness("reddit", protein, {"kind": "reddit", "nodes": 2, "edges": 2, "partitions": 2}, {"kind": "reddit", "nodes": 3, "edges": 2, "partitions": 2}, covers=["kinds"]),
]
