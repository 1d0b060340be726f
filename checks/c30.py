"""C30: command-line values reach the program exactly as written."""
import argparse

import numpy as np

from checks import stublib

stublib.install()
from deepgnn import arg_types  # noqa: E402
from deepgnn.graph_engine import graph_dataset, utils  # noqa: E402
from deepgnn.graph_engine.backends.options import BackendOptions, GraphType  # noqa: E402
from deepgnn.graph_engine.snark.client import PartitionStorageType  # noqa: E402
from deepgnn.graph_engine.snark.converter.options import DataConverterType  # noqa: E402
from deepgnn.pytorch.common import args as torch_args  # noqa: E402
from deepgnn.tf.common import args as tf_args  # noqa: E402

from symx.core import Eq  # noqa: E402
from symx.env import Env, aslist  # noqa: E402
from symx.runner import Harness  # noqa: E402

BOUNDS = "lists and groups of up to the listed lengths with any integers in [-2^63, 2^63), strings from a small alphabet including empty ones, vectors and matrices of any integers or multiples of 1/4; every subset of the listed graph engine options with any values"
OUTSIDE = "longer lists; text with separators inside of elements; options of particular models"
ASSUMPTIONS = ["int() and str() are inverse on integers"]
LO, HI = -(2**63), 2**63 - 1


def same(ctx, got, want, what):
    ctx.check(type(got) is list and len(got) == len(want), what, lambda: f"{got} {want}")
    for g, w in zip(got, want):
        if isinstance(w, list):
            same(ctx, g, w, what)
        elif isinstance(w, str):
            ctx.check(type(g) is str and g == w, what, lambda: f"{got} {want}")
        else:
            ctx.check(not isinstance(g, str), what)
            ctx.check_eq(g, w, what)


def int_lists(ctx, b):
    Env(ctx)
    n = ctx.pick("n", 0, b["n"])
    vals = [ctx.int(f"v{i}", LO, HI) for i in range(n)]
    same(ctx, arg_types.str2list_int(",".join(ctx.token(v) for v in vals)), vals, "a list of integers is parsed as written")
    same(ctx, arg_types.str2list_int(list(vals)), vals, "a list is taken as it is")
    g = ctx.pick("groups", 0, b["groups"])
    rows = [[ctx.int(f"g{i}_{j}", LO, HI) for j in range(ctx.pick(f"len{i}", 1, b["len"]))] for i in range(g)]
    text = ";".join(",".join(ctx.token(v) for v in r) for r in rows)
    same(ctx, arg_types.str2list2_int(text), rows, "groups of integers are parsed as written")
    same(ctx, arg_types.str2list2_int([list(r) for r in rows]), rows, "a list is taken as it is")
    if ctx.flag("trailing"):
        same(ctx, arg_types.str2list2_int(text + ";"), rows, "a trailing separator adds no group")


def str_lists(ctx, b):
    words = ["q", "ab", "7", "é", ""]
    n = ctx.pick("n", 1, b["n"])
    vals = [ctx.choice(f"v{i}", words) for i in range(n)]
    same(ctx, arg_types.str2list_str(",".join(vals)), vals, "a list of strings is parsed as written")
    g = ctx.pick("groups", 0, b["groups"])
    rows = [[ctx.choice(f"g{i}_{j}", words) for j in range(ctx.pick(f"len{i}", 1, b["len"]))] for i in range(g)]
    rows = [r for r in rows if r != [""]]  # empty groups have no text of their own
    same(ctx, arg_types.str2list2(";".join(",".join(r) for r in rows)), rows, "groups of strings are parsed as written")
    same(ctx, arg_types.str2list2([list(r) for r in rows]), rows, "a list is taken as it is")


def malformed(ctx, b):
    """Text that is not a list of integers is refused."""
    parts = [ctx.choice(f"part{i}", ["1", "-20", "x", "", "1.5", "3;4"]) for i in range(ctx.pick("n", 1, b["n"]))]
    two = ctx.flag("groups")
    text = ",".join(parts)
    try:
        if two:
            groups = [[int(x) for x in y.split(",")] for y in text.split(";") if y != ""]
        else:
            groups = [int(x) for x in parts] if text else []
    except ValueError:
        groups = None
    try:
        got = (arg_types.str2list2_int if two else arg_types.str2list_int)(text)
    except (ValueError, argparse.ArgumentTypeError):
        ctx.check(groups is None, "a well-formed list is accepted", lambda: f"{text!r}")
        ctx.cover("refused")
        return
    ctx.check(got == groups, "malformed text is refused", lambda: f"{text!r} gave {got}")


def booleans(ctx, b):
    word = ctx.choice("word", ["yes", "true", "t", "y", "1", "no", "false", "f", "n", "0", "maybe", "", "2", "on", "tr", "yess", "none"])
    up = [ctx.flag(f"upper{i}") for i in range(min(len(word), b["letters"]))]
    text = "".join(c.upper() if i < len(up) and up[i] else c for i, c in enumerate(word))
    try:
        got = arg_types.str2bool(text)
    except argparse.ArgumentTypeError:
        ctx.check(word in ("maybe", "", "2", "on", "tr", "yess", "none"), "a documented boolean is accepted", lambda: text)
        ctx.cover("refused")
        return
    ctx.check(type(got) is bool, "a boolean is a boolean")
    ctx.check(got == (word in ("yes", "true", "t", "y", "1")) and word in ("yes", "true", "t", "y", "1", "no", "false", "f", "n", "0"), "a boolean means what it says", lambda: f"{text!r} gave {got}")
    v = ctx.flag("value")
    ctx.check(arg_types.str2bool(bool(v)) == bool(v), "a boolean is taken as it is")


def vectors(ctx, b):
    """Vectors are rendered so that splitting them gives their values back."""
    env = Env(ctx)
    dt = ctx.choice("dtype", [np.int64, np.float64])
    two = ctx.flag("matrix")
    r = ctx.pick("rows", 1, b["rows"]) if two else 1
    c = ctx.pick("columns", 1, b["columns"])
    mk = (lambda n: ctx.int(n, LO, HI)) if dt == np.int64 else (lambda n: ctx.real(n, -8, 8, den=4))
    vals = [[mk(f"v{i}_{j}") for j in range(c)] for i in range(r)]
    text = arg_types.vec2str(env.np.array(vals if two else vals[0], dtype=dt))
    rows = text.split(",")
    ctx.check(len(rows) == r, "one group per row", lambda: f"{text!r}")
    for row, want in zip(rows, vals):
        cells = row.split(" ")
        ctx.check(len(cells) == c, "one element per column", lambda: f"{text!r}")
        for x, w in zip(cells, want):
            if ctx.symbolic:
                from symx.npshim import FloatShim, IntShim

                v = (IntShim if dt == np.int64 else FloatShim)(x)
            else:
                v = (int if dt == np.int64 else float)(x)
            ctx.check_eq(v, w, "a vector is rendered as its values")


OPTS = {  # option: (kind, default)
    "graph_type": (list(GraphType), GraphType.LOCAL), "data_dir": (["/data", "adl://x/y"], ""), "enable_ssl": (bool, False), "ssl_cert": (["/c.pem"], ""),
    "backend": (list(graph_dataset.BackendType), graph_dataset.BackendType.SNARK), "num_ge": (int, 0), "ge_start_timeout": (int, 30), "server_idx": (int, None), "client_rank": (int, None),
    "skip_ge_start": (bool, False), "sync_dir": (["/s"], ""), "converter": (list(DataConverterType), DataConverterType.LOCAL),
}
TF = {"task_index": (int, 0), "worker_hosts": ("strs", ""), "ps_hosts": ("strs", ""), "model_dir": (["/m"], None), "partitions": ("ints", [0]), "prefetch_queue_size": (int, 16), "prefetch_worker_size": (int, 2),
      "storage_type": (["memory", "disk"], PartitionStorageType.memory), "config_path": (["/cfg"], ""), "steps_per_epoch": (int, None), "profile_batch": ("ilist", [100, 110])}
TORCH = {"partitions": ("ints", [0]), "batch_size": (int, 512), "fanouts": ("ints", [10, 10]), "max_id": (int, None), "feature_dim": (int, 0), "node_type": (int, 0), "seed": (int, None),
         "data_parallel_num": (int, 2), "prefetch_factor": (int, 2), "sample_file": (["/f*"], ""), "strategy": (["Weighted"], "RandomWithoutReplacement")}


def options(ctx, b):
    Env(ctx, shims=("num",))
    kind = ctx.choice("parser", ["plain", "tf", "torch"])
    spec = dict(OPTS)
    spec.update({"tf": TF, "torch": TORCH}.get(kind, {}))
    names = sorted(spec)
    k = ctx.pick("first", 0, len(names) - 1)
    use = [names[k]] + [n for n in [names[(k + d) % len(names)] for d in range(1, b["window"])] if ctx.flag(f"use_{n}")]
    argv, want = [], {}
    for n in use:
        t = spec[n][0]
        if t is int:
            v = ctx.int(n, 0, 2**31)
            argv += [f"--{n}", ctx.token(v)]
        elif t is bool:
            v = ctx.flag(n)
            argv += [f"--{n}", ctx.choice(n + "_text", [["false", "0"], ["True", "yes"]][int(v)])]
        elif t == "ints":
            v = [ctx.int(f"{n}{i}", 0, 2**31) for i in range(ctx.pick(n + "_len", 1, 3))]
            argv += [f"--{n}"] + [ctx.token(x) for x in v]
        elif t == "ilist":
            v = [ctx.int(f"{n}{i}", 0, 2**31) for i in range(ctx.pick(n + "_len", 1, 2))]
            argv += [f"--{n}", ",".join(ctx.token(x) for x in v)]
        elif t == "strs":
            v = [f"h{i}:1" for i in range(ctx.pick(n + "_len", 1, 3))]
            argv += [f"--{n}", ",".join(v)]
        else:
            v = ctx.choice(n, t)
            argv += [f"--{n}", str(v)]
            if n == "storage_type":
                v = PartitionStorageType[v]
        want[n] = v
    if ctx.flag("servers"):
        want["servers"] = ["h1:2", "h2:3"][: ctx.pick("servers_len", 1, 2)]
        argv += ["--servers"] + want["servers"]
    p = argparse.ArgumentParser()
    {"plain": utils.define_param_graph_engine, "tf": tf_args.import_default_parameters, "torch": torch_args.init_common_args}[kind](p)
    try:
        args = p.parse_args(argv)
    except SystemExit as e:
        ctx.fail(f"documented options are accepted: {argv} {e}")
    opts = BackendOptions(args)
    for n, (_, d) in spec.items():
        if n not in want and n != "model_dir":
            want[n] = d
    if kind == "tf":
        for n in ("worker_hosts", "ps_hosts"):
            want[n] = [""] if want[n] == "" else want[n]
    for n, v in want.items():
        for holder in (args, opts):
            g = getattr(holder, n)
            if isinstance(v, list) and not isinstance(g, str):
                same(ctx, list(g), v, f"option {n} arrives as written")
            elif type(v) in (bool, str) or v is None or not isinstance(v, int):
                if isinstance(g, (str, bool)) or g is None or not hasattr(g, "sort"):
                    ctx.check(Eq(g, v) if type(g) is type(v) or v is None else g == v, f"option {n} arrives as written", lambda: f"{g!r} {v!r}")
            else:
                ctx.check_eq(g, v, f"option {n} arrives as written")
    ctx.check(opts.converter_options.converter == want["converter"], "the converter option arrives as written")


HARNESSES = [
    Harness("int_lists", int_lists, {"n": 4, "groups": 3, "len": 2}, {"n": 6, "groups": 3, "len": 3}),
    Harness("str_lists", str_lists, {"n": 2, "groups": 2, "len": 2}, {"n": 3, "groups": 2, "len": 2}),
    Harness("malformed", malformed, {"n": 3}, {"n": 4}, covers=["refused"]),
    Harness("booleans", booleans, {"letters": 3}, {"letters": 5}, covers=["refused"]),
    Harness("vectors", vectors, {"rows": 2, "columns": 3}, {"rows": 3, "columns": 4}),
    Harness("options", options, {"window": 3}, {"window": 5}, weight=2),
]
