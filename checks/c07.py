"""C07: TSV lines decode to exactly the node and edges they describe."""
from deepgnn.graph_engine.snark import decoders

from checks import binlib
from checks.c05 import check_feature
from checks.c06 import leq
from symx.env import Env
from symx.runner import Harness

BOUNDS = "ids, types and feature values any of their type, weights any multiple of 1/4; any of the trailing columns missing or empty; numbers of neighbours and features as listed"
OUTSIDE = "malformed lines, text features with separators or quotes; more neighbours or features than listed"
ID = 2**62
CODES = {"i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "f": "float32", "f16": "float16", "d": "float64"}


def feature(ctx, name, kinds, length):
    """(text, expectation)"""
    k = ctx.choice(name, kinds)
    if k == "empty":
        return ctx.choice(name + ".form", ["", "f:", ":1"]), None
    if k == "b":
        t = ctx.choice(name + ".text", ["té x", "7"])
        return "b:" + t, ("text", t)
    dt = CODES[k]
    vals = [binlib.value(ctx, f"{name}.v{i}", binlib.DTYPES[dt]) for i in range(ctx.pick(name + ".n", 1, length))]
    return f"{k}:" + " ".join(ctx.token(v) for v in vals), (dt, vals, None)


def feature_list(ctx, name, b, n):
    fs = [feature(ctx, f"{name}{i}", b["kinds"], b["length"]) for i in range(n)]
    text = ";".join(t for t, _ in fs)
    # a single empty feature is the same text as no feature at all
    ctx.assume(text != "" or n == 0)
    return text, [e for _, e in fs]


def check_features(ctx, env, got, want, what):
    got = list(got)
    ctx.check(len(got) >= len(want) and all(f is None for f in got[len(want) :]), f"number of features of {what}", lambda: f"{got}")
    for i, e in enumerate(want):
        check_feature(ctx, env.np, got[i], e, f"feature {i} of {what}")


def node(ctx, b):
    env = Env(ctx)
    dec = decoders.TsvDecoder()
    cols = ctx.pick("columns", 1, 5)
    nid = ctx.int("id", 0, ID)
    parts, typ, weight, feats = [ctx.token(nid)], 0, 0.0, []
    if cols > 1:
        if ctx.flag("type.given"):
            typ = ctx.int("type", 0, 1000)
            parts.append(ctx.token(typ))
        else:
            parts.append("")
    if cols > 2:
        if ctx.flag("weight.given"):
            weight = ctx.real("weight", 0, 99)
            parts.append(ctx.token(weight))
        else:
            parts.append("")
    if cols > 3:
        t, feats = feature_list(ctx, "f", b, ctx.pick("features", 0, b["features"]))
        parts.append(t)
    if cols > 4:
        parts.append("")
    out = list(dec.decode("\t".join(parts)))
    ctx.check(len(out) == 1, "one node and no edge", lambda: f"{out}")
    ctx.check_eq(out[0][:4], (nid, -1, typ, weight), "id, type and weight")
    check_features(ctx, env, out[0][6], feats, "the node")


def neighbours(ctx, b):
    env = Env(ctx)
    dec = decoders.TsvDecoder()
    nid = ctx.int("id", 0, ID)
    text, want = [], []
    for k in range(ctx.pick("neighbours", 1, b["neighbours"])):
        dst, typ, weight, feats = ctx.int(f"dst{k}", 0, ID), 0, 0.0, []
        cols = ctx.pick(f"columns{k}", 1, 4)
        parts = [ctx.token(dst)]
        if cols > 1:
            if ctx.flag(f"type{k}.given"):
                typ = ctx.int(f"type{k}", 0, 3)
                parts.append(ctx.token(typ))
            else:
                parts.append("")
        if cols > 2:
            weight = (k + 1) / 4 if ctx.flag(f"weight{k}.given") else 0.0
            parts.append(str(weight) if weight else "")
        if cols > 3:
            t, feats = feature_list(ctx, f"f{k}_", b, ctx.pick(f"features{k}", 0, b["features"]))
            parts.append(t)
        text.append(",".join(parts))
        want.append((dst, typ, weight, feats))
    out = list(dec.decode("\t".join([ctx.token(nid), "2", "0.5", "", "|".join(text)])))
    ctx.check(len(out) == 1 + len(want), "the node and each of its neighbours", lambda: f"{out}")
    ctx.check_eq(out[0][:4], (nid, -1, 2, 0.5), "the node comes first")
    ctx.check(list(out[0][6]) == [], "the node has no feature")
    order = sorted(want, key=lambda w: (w[1], w[0]))
    for i, (o, w) in enumerate(zip(out[1:], order)):
        ctx.check_eq(o[:4], (nid, w[0], w[1], w[2]), f"fields of edge {i}")
        check_features(ctx, env, o[6], w[3], f"edge {i}")
    if len(want) > 1:
        ctx.cover("several neighbours")


HARNESSES = [
    Harness("node", node, dict(features=2, length=2, kinds=["empty", "b"] + sorted(CODES)), dict(features=3, length=2, kinds=["empty", "b", "f", "i64", "u8"]), weight=2),
    Harness("neighbours", neighbours, dict(neighbours=2, features=1, length=1, kinds=["f", "b", "empty"]), dict(neighbours=3, features=1, length=1, kinds=["f", "b"]), covers=["several neighbours"], weight=2),
]
