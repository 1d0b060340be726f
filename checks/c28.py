"""C28: downloading fetches every file the requested partitions need."""
import json
import os
import shutil
import tempfile

import fsspec
from fsspec.implementations.memory import MemoryFileSystem

from deepgnn.graph_engine.snark import _downloader

from symx.runner import Harness

BOUNDS = "graphs of the listed numbers of partitions, converter iterations, node and edge types with or without node features, edge features, sampling tables and timestamps; every list of requested partitions in any order, each on one of two remote file systems, in another directory of the first one or on the local one"
OUTSIDE = "more partitions; two partitions of the same number at different places; remote file systems other than the in-memory stand-ins of fsspec; HDFS streaming"
ASSUMPTIONS = ["fsspec's in-memory file system stands for the remote ones"]


class RemoteA(MemoryFileSystem):
    store, pseudo_dirs, protocol, root_marker = {}, [""], "symxa", "/"


class RemoteB(MemoryFileSystem):
    store, pseudo_dirs, protocol, root_marker = {}, [""], "symxb", "/"


for c in (RemoteA, RemoteB):
    fsspec.register_implementation(c.protocol, c, clobber=True)


def files_of(p, its, node_feats, edge_feats, ntypes, etypes, alias, temporal):
    """Names of the files that opening a partition needs (see the converter's writers and the native partition reader)."""
    out = []
    for i in range(its):
        out += [f"node_{p}_{i}.map", f"node_{p}_{i}.index", f"neighbors_{p}_{i}.index", f"edge_{p}_{i}.index"]
        if node_feats:
            out += [f"node_features_{p}_{i}.data", f"node_features_{p}_{i}.index"]
        if edge_feats:
            out += [f"edge_features_{p}_{i}.data", f"edge_features_{p}_{i}.index"]
        if temporal:
            out.append(f"edge_{p}_{i}.timestamp")
    if alias[0]:
        out += [f"node_{t}_{p}.alias" for t in range(ntypes)]
    if alias[1]:
        out += [f"edge_{t}_{p}.alias" for t in range(etypes)]
    return out


def download(ctx, b):
    root = tempfile.mkdtemp(prefix="symx-dl-")
    ctx.on_exit(lambda: shutil.rmtree(root, ignore_errors=True))
    for c in (RemoteA, RemoteB):
        c.store.clear()
        c.pseudo_dirs[:] = [""]
        c.clear_instance_cache()
    N = ctx.pick("partitions", 1, b["partitions"])
    first = ctx.choice("first", b["first"])
    its = ctx.pick("iterations", 1, b["iterations"])
    nt, et = ctx.pick("node_types", 1, b["types"]), ctx.pick("edge_types", 1, b["types"])
    if b.get("plain"):
        nf, ef, alias, temporal = 1, 2, (True, True), True
    else:
        nf, ef = ctx.choice("node_features", [0, 1]), ctx.choice("edge_features", [0, 3])
        alias = (ctx.flag("node_alias"), ctx.flag("edge_alias"))
        temporal = ctx.flag("temporal")
    where = {p: ctx.choice(f"place{p}", b["places"]) for p in range(first, first + N)}
    base = {"A": "symxa://store/graph", "A2": "symxa://store/other", "B": "symxb://bucket/g", "local": root + "/here"}
    local_meta = ctx.flag("meta_local") if b.get("meta_local") else False
    os.mkdir(root + "/here")
    meta = {"binary_data_version": "v2", "node_count": 1, "edge_count": 1, "node_type_count": nt, "edge_type_count": et, "node_feature_count": nf, "edge_feature_count": ef,
            "partitions": {str(p): {"node_weight": [1.0] * nt, "edge_weight": [1.0] * et} for p in range(first + N)}, "node_count_per_type": [1] * nt, "edge_count_per_type": [1] * et,
            "watermark": 5 if temporal else -1}
    fss = {"A": RemoteA(), "A2": RemoteA(), "B": RemoteB()}
    mroot = "local" if local_meta else "A"

    def put(k, name, data):
        if k == "local":
            with open(f"{base[k]}/{name}", "wb") as f:
                f.write(data)
        else:
            fss[k].pipe(f"{base[k]}/{name}", data)

    put(mroot, "meta.json", json.dumps(meta).encode())
    put(mroot, "notes.txt", b"unrelated")
    need = {}
    for p, k in where.items():
        need[p] = files_of(p, its, nf, ef, nt, et, alias, temporal)
        for name in need[p]:
            put(k, name, f"{k} {name}".encode())
    order = ctx.permutation("order", N)
    chosen = [first + i for i in order if ctx.flag(f"take{i}")]
    ctx.assume(bool(chosen))
    parts = [(base[where[p]], p) for p in chosen]
    temp = os.path.join(root, "tmp")
    os.mkdir(temp)
    ctx.patch(tempfile, "tempdir", temp)
    res = _downloader.download_graph_data(base[mroot], parts)
    if local_meta:
        ctx.check(res.name == base["local"] and parts == [(base[where[p]], p) for p in chosen], "nothing is downloaded for a local graph")
        ctx.check(not os.listdir(temp), "nothing is downloaded for a local graph")
        res.reset()
        ctx.check(os.path.exists(base["local"] + "/meta.json"), "a local graph stays")
        return
    d = res.name
    ctx.check(json.load(open(d + "/meta.json")) == meta, "the metadata is downloaded")
    want = {"meta.json"}
    for p, (path, q) in zip(chosen, parts):
        ctx.check(q == p, "partitions keep their order")
        if where[p] == "local":
            ctx.check(path == base["local"], "local partitions are used where they are", lambda: f"{path}")
            continue
        ctx.cover("remote")
        ctx.check(path == d, "downloaded partitions are opened where they were downloaded to", lambda: f"{path}")
        want |= set(need[p])
        for name in need[p]:
            f = os.path.join(d, name)
            ctx.check(os.path.exists(f), "every needed file is downloaded", lambda: f"{name} of partition {p} at {where[p]} is missing, there are {sorted(os.listdir(d))}")
            ctx.check(open(f, "rb").read() == f"{where[p]} {name}".encode(), "a downloaded file has the contents of its source")
    ctx.check(set(os.listdir(d)) == want, "nothing else is downloaded", lambda: f"{sorted(set(os.listdir(d)) - want)}")
    res.reset()
    ctx.check(not os.path.exists(d), "downloaded files are removed with the graph")


HARNESSES = [
    Harness("contents", download, {"partitions": 2, "first": [0, 10], "iterations": 2, "types": 2, "places": ["A"]}, {"partitions": 3, "first": [0, 10], "iterations": 2, "types": 2, "places": ["A"]}, covers=["remote"], weight=3),
    Harness("places", download, {"partitions": 2, "first": [0], "iterations": 1, "types": 1, "places": ["A", "A2", "B", "local"], "meta_local": True, "plain": True}, {"partitions": 3, "first": [0, 9], "iterations": 1, "types": 1, "places": ["A", "A2", "B", "local"], "meta_local": True, "plain": True}, covers=["remote"], weight=2),
]
