"""C15: in-memory file samplers give each worker and loader its share of every epoch."""
import numpy as np

from deepgnn.graph_engine import samplers

from checks.samplib import check_share, columns, drain
from symx import npshim
from symx.core import And, Eq
from symx.env import Env
from symx.runner import Harness

BOUNDS = "node ids any integer in [0, 2^62], fill value any negative integer, features any multiple of 1/4 in [-8, 8]; counts as listed per harness"
OUTSIDE = "more rows, files, workers, loaders or epochs than listed; shuffling with several loaders (each loader draws its own permutation)"
ASSUMPTIONS = ["file enumeration and text parsing by open/np.fromfile are modelled line by line with unmodified tokens"]
BIG = 2**62


def structure(ctx, b, files=True):
    B = ctx.pick("batch", 1, b["batch"])
    D = ctx.pick("loaders", 1, b["loaders"])
    E = ctx.pick("epochs", 1, b["epochs"])
    drop = ctx.flag("drop_last")
    shuffle = ctx.flag("shuffle") if D == 1 else False
    W = ctx.pick("workers", 1, b["workers"])
    if files:
        F = ctx.pick("files", W, b["files"])
        rows = [ctx.pick(f"rows{i}", 1, b["rows"]) for i in range(F)]
    else:
        F = 1
        rows = [ctx.pick("rows", W, b["rows"] * W)]
    if shuffle:  # every permutation of every epoch is explored
        ctx.assume(sum(rows) <= b["rows_shuffled"])
    return B, D, E, drop, shuffle, W, F, rows


def node_files(ctx, b):
    env = Env(ctx)
    B, D, E, drop, shuffle, W, F, rows = structure(ctx, b)
    fill = ctx.int("fill", -(2**40), -1)
    data = []
    for f in range(F):
        ids = [ctx.int(f"id{f}_{i}", 0, BIG) for i in range(rows[f])]
        env.write_text(f"s{f}.txt", "".join(ctx.token(x) + "\n" for x in ids))
        data.append([[x] for x in ids])
    runs, mine = [], []
    for w in range(W):
        runs.append([])
        mine.append([r for f in range(w, F, W) for r in data[f]])
        for d in range(D):
            s = samplers.FileNodeSampler(env.path("s*.txt"), B, epochs=E, shuffle=shuffle, drop_last=drop, backfill_id=fill, worker_index=w, num_workers=W,
                                         data_parallel_num=D, data_parallel_index=d)
            runs[-1].append((s, drain(ctx, s)))
    check_share(ctx, runs, mine, B, E, D, drop, shuffle, lambda r: Eq(r[0], fill))


def edge_files(ctx, b):
    env = Env(ctx)
    B, D, E, drop, shuffle, W, F, rows = structure(ctx, b)
    feat = ctx.pick("features", 0, b["features"])
    extra = ctx.pick("extra_columns", 0, 1) if feat else 0
    fill = ctx.int("fill", -(2**40), -1)
    tp = ctx.int("type", 0, 1000)
    data = []
    for f in range(F):
        rs, text = [], ""
        for i in range(rows[f]):
            src, dst = ctx.int(f"src{f}_{i}", 0, BIG), ctx.int(f"dst{f}_{i}", 0, BIG)
            fs = [ctx.real(f"f{f}_{i}_{k}", -8, 8) for k in range(feat)]
            cols = [ctx.token(src), ctx.token(dst)] + [ctx.token(v) for v in fs] + ["7"] * extra
            text += "\t".join(cols) + "\n"
            rs.append([src, dst, tp] + fs)
        env.write_text(f"s{f}.txt", text)
        data.append(rs)
    ftype = npshim.DTypeArg(np.float32) if ctx.symbolic else np.float32
    runs, mine = [], []
    for w in range(W):
        runs.append([])
        mine.append([r for f in range(w, F, W) for r in data[f]])
        for d in range(D):
            s = samplers.FileEdgeSampler(tp, env.path("s*.txt"), B, epochs=E, shuffle=shuffle, feature_dim=feat, feature_type=ftype, drop_last=drop,
                                         backfill_id=fill, worker_index=w, num_workers=W, data_parallel_num=D, data_parallel_index=d)
            runs[-1].append((s, drain(ctx, s)))
    check_share(ctx, runs, mine, B, E, D, drop, shuffle, lambda r: And(Eq(r[:3], [fill, fill, tp]), Eq(r[3:], [0] * feat)))
    if feat and drop:
        ctx.cover("features with drop_last")


def tuple_files(ctx, b):
    """FileTupleSampler and FileTupleSamplerV2: rows of one file dealt to workers in turn."""
    env = Env(ctx)
    v2 = ctx.flag("v2")
    B, D, E, drop, shuffle, W, F, rows = structure(ctx, b, files=False)
    fill = ctx.int("fill", -(2**20), -1)
    data, text = [], ""
    for i in range(rows[0]):
        nid = ctx.int(f"id{i}", 0, BIG)
        if v2:
            label = ctx.real(f"label{i}", -8, 8)
            fs = [ctx.real(f"f{i}_{k}", -8, 8) for k in range(2)]
            text += ctx.token(nid) + "\t" + ctx.token(label) + "\t" + " ".join(ctx.token(x) for x in fs) + "\n"
            data.append([nid, label] + fs)
        else:
            tp = ctx.int(f"type{i}", 0, 1000)
            text += ctx.token(nid) + "\t" + ctx.token(tp) + "\n"
            data.append([nid, tp])
    p = env.write_text("tuples.txt", text)
    cls = samplers.FileTupleSamplerV2 if v2 else samplers.FileTupleSampler
    runs, mine = [], []
    for w in range(W):
        runs.append([])
        mine.append(data[w::W])
        for d in range(D):
            s = cls(p, B, epochs=E, shuffle=shuffle, drop_last=drop, backfill=fill, worker_index=w, num_workers=W, data_parallel_num=D, data_parallel_index=d)
            runs[-1].append((s, drain(ctx, s)))
    check_share(ctx, runs, mine, B, E, D, drop, shuffle, lambda r: And([Eq(x, fill) for x in r]))
    ctx.cover("v2" if v2 else "v1")


Q = dict(batch=3, loaders=2, epochs=2, workers=2, files=2, rows=3, rows_shuffled=3, features=1)
T = dict(batch=4, loaders=3, epochs=2, workers=3, files=3, rows=3, rows_shuffled=4, features=2)
HARNESSES = [
    Harness("node_files", node_files, Q, dict(T, files=4), covers=["padded"]),
    Harness("edge_files", edge_files, dict(Q, rows=2), T, covers=["padded", "features with drop_last"]),
    Harness("tuple_files", tuple_files, dict(Q, rows=3), dict(T, rows=4), covers=["padded", "v1", "v2"]),
]
