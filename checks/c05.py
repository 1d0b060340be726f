"""C05: edge-list lines decode to exactly the node or edge they describe."""
from deepgnn.graph_engine.snark import decoders

from checks import binlib
from symx.core import Eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "ids, types, times and feature values any of their type, weights any multiple of 1/4; every combination of configured defaults; numbers of features, lengths and coordinate dimensions as listed; text features as any sequence of plain characters, escaped delimiters and escape sequences up to the listed length"
OUTSIDE = "malformed lines; more features than listed; text features whose last character is a lone escape"
ID = 2**62
STYLES = [(",", "/", "\\"), ("\t", ":", "^"), (" ", "|", "%")]


def decode(ctx, dec, line):
    out = list(dec.decode(line))
    ctx.check(len(out) == 1, "a line decodes to one element", lambda: f"{out}")
    ctx.check(len(out[0]) == 7, "an element has seven parts", lambda: f"{out}")
    return out[0]


def fields(ctx, b):
    """ids, type, weight and times, each from the line or from a default."""
    env = Env(ctx)
    node = ctx.flag("node")
    sep = ctx.choice("delimiter", [",", "\t"])
    temporal = ctx.flag("temporal")
    cfg, cols = {"delimiter": sep, "is_temporal": temporal}, []
    src = ctx.int("src", 0, ID)
    dst = -1 if node else ctx.int("dst", 0, ID)
    sp = " " if sep == "," and ctx.flag("spaces") else ""

    def value(name, key, mk):
        v = mk(name)
        if ctx.flag(name + ".default"):
            cfg[key] = v
        else:
            cols.append(v)
        return v

    kind = "node" if node else "edge"
    other = "edge" if node else "node"
    typ = value("type", f"default_{kind}_type", lambda n: ctx.int(n, 0, 1000))
    if node:
        cols.insert(0, -1)
    else:
        cols.append(dst)
    weight = value("weight", f"default_{kind}_weight", lambda n: ctx.real(n, 0, 100))
    created = removed = None
    if temporal:
        created = value("created", "default_created_at", lambda n: ctx.int(n, -1, ID))
        removed = value("removed", "default_removed_at", lambda n: ctx.int(n, -1, ID))
    # defaults of the other kind of element must not matter
    if ctx.flag("other_defaults"):
        cfg[f"default_{other}_type"] = 77
        cfg[f"default_{other}_weight"] = 0.5
        cfg[f"default_{other}_feature_types"] = ["float32"]
        cfg[f"default_{other}_feature_lens"] = [[2]]
    with_feature = ctx.flag("feature")
    line = sep.join([ctx.token(src)] + [sp + ctx.token(c) for c in cols])
    if with_feature:
        v = ctx.int("v", -1000, 1000)
        line += sep + sep.join(["int32", "1", ctx.token(v)])
    got = decode(ctx, decoders.EdgeListDecoder(**cfg), line)
    ctx.check_eq(got[:6], (src, dst, typ, weight, created, removed), "ids, type, weight and times")
    ctx.check_eq([aslist(f) for f in got[6]], [[v]] if with_feature else [], "features")


def feature_kind(ctx, env, name, b, sep, ls, esc):
    """(type text, length list, columns, expected value)"""
    k = ctx.choice(name, b["kinds"])
    if k[0] == "text":
        t, e = "", ""
        for i in range(ctx.pick(name + ".n", 0, b["text"])):
            a = ctx.choice(f"{name}.t{i}", [("a", "a"), (esc + sep, sep), (esc + esc, esc + esc)])
            t, e = t + a[0], e + a[1]
        return "binary", [1], [t], ("text", e)
    if k[0] == "skip":
        return k[1], [0] if k[2] is None else [0, k[2]], [], None
    dt, n = k[1], k[2]
    if dt == "bool":
        vals = [ctx.flag(f"{name}.v{i}") for i in range(n)]
        words = [ctx.choice(f"{name}.w{i}", [("0", "1"), ("False", "True")])[int(v)] for i, v in enumerate(vals)]
    else:
        vals = [binlib.value(ctx, f"{name}.v{i}", binlib.DTYPES[dt]) for i in range(n)]
        words = [ctx.token(v) for v in vals]
    if k[0] == "dense":
        return dt, [n], words, (dt, vals, None)
    dim = k[3]
    coords = [ctx.int(f"{name}.c{i}", 0, 2**40) for i in range(n * max(dim, 1))]
    rows = [coords[i * dim : (i + 1) * dim] for i in range(n)] if dim else coords
    return dt, [n, dim], [ctx.token(c) for c in coords] + words, (dt, vals, rows)


def check_feature(ctx, np, f, want, what):
    if want is None:
        ctx.check(f is None, f"{what} is skipped", lambda: f"{f}")
        return
    if want[0] == "text":
        ctx.check(isinstance(f, str) and f == want[1], f"text of {what}", lambda: f"{f!r} != {want[1]!r}")
        return
    dt, vals, rows = want
    if rows is not None:
        ctx.check(isinstance(f, tuple) and len(f) == 2, f"{what} is sparse", lambda: f"{f}")
        ctx.check(str(f[0].dtype) == "int64", f"coordinates of {what} are 64-bit")
        ctx.check_eq(aslist(f[0]), rows, f"coordinates of {what}")
        f = f[1]
    ctx.check(hasattr(f, "dtype") and str(f.dtype) == dt, f"element type of {what}", lambda: f"{getattr(f, 'dtype', f)}")
    ctx.check_eq(aslist(f), vals, f"values of {what}")


def features(ctx, b):
    """Several features with types and lengths from the line or from defaults."""
    env = Env(ctx)
    node = ctx.flag("node")
    sep, ls, esc = b["styles"][ctx.pick("style", 0, len(b["styles"]) - 1)]
    n = ctx.pick("features", 1, b["features"])
    nd = ctx.pick("with_defaults", 0, n)
    types, lens, cols, want = [], [], [], []
    for i in range(n):
        dt, ln, c, e = feature_kind(ctx, env, f"f{i}", b, sep, ls, esc)
        want.append(e)
        dflt = ctx.pick(f"default{i}", 0, 2) if i < nd else 0
        if i < nd:
            types.append(dt if dflt in (1, 2) else None)
            lens.append(ln if dflt == 1 else None)
            if dflt == 1:
                ctx.cover("default length")
        if dflt == 0:
            cols.append(dt)
        if dflt != 1:
            cols.append(ls.join(str(x) for x in ln))
        cols += c
    kind = "node" if node else "edge"
    cfg = {f"default_{kind}_feature_types": types, f"default_{kind}_feature_lens": lens} if nd else {}
    dec = decoders.EdgeListDecoder(delimiter=sep, length_delimiter=ls, binary_escape=esc, **cfg)
    head = ["4", "-1", "2", "0.5"] if node else ["4", "2", "9", "0.5"]
    line = sep.join(head + cols)
    for rep in range(2):
        got = decode(ctx, dec, line)
        ctx.check_eq(got[:6], (4, -1, 2, 0.5, None, None) if node else (4, 9, 2, 0.5, None, None), "ids, type and weight")
        ctx.check(len(got[6]) == n, "number of features", lambda: f"{got[6]} for {line!r}")
        for i, (f, e) in enumerate(zip(got[6], want)):
            check_feature(ctx, env.np, f, e, f"feature {i}")


SMALL = [("dense", "float32", 2), ("skip", "float32", None), ("text",), ("sparse", "int64", 1, 2), ("sparse", "float32", 2, 0)]
ALL = SMALL + [("skip", "int64", 2), ("dense", "bool", 2), ("sparse", "uint8", 2, 1), ("dense", "uint64", 1), ("sparse", "bool", 1, 0)]
TYPES = [("dense", t, 1) for t in sorted(binlib.DTYPES) + ["bool"]] + [("sparse", t, 2, d) for t in sorted(binlib.DTYPES) + ["bool"] for d in (0, 1, 2)] + [("skip", "int64", None), ("skip", "int64", 2)]
HARNESSES = [
    Harness("fields", fields, {}, {}),
    Harness("one_feature", features, dict(styles=STYLES, features=1, kinds=TYPES + [("text",)], text=4), dict(styles=STYLES, features=1, kinds=TYPES + [("text",)], text=7), covers=["default length"]),
    Harness("features", features, dict(styles=STYLES[:1], features=2, kinds=SMALL, text=2), dict(styles=STYLES[:2], features=3, kinds=SMALL[:4], text=1), covers=["default length"], weight=2),
]
