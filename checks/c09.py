"""C09: conversion workers together read every file once and produce every partition once."""
import json
import os

from deepgnn.graph_engine.snark import convert, dispatcher

from checks import convlib, readerlib
from symx.core import And, Ite, Or, Sum
from symx.env import Env
from symx.runner import Harness

BOUNDS = "every number of files, workers and partitions up to the listed ones with at least as many files as workers, every worker index and listing order, one or more lines per file"
OUTSIDE = "larger configurations; fewer files than workers (rejected by the reader); custom dispatchers and file iterators"
ASSUMPTIONS = ["threads, pipes and queues are deterministic stand-ins; the default schedule is used (C08 covers schedules)"]

REAL_PIPE = dispatcher.PipeDispatcher


class D:
    def decode(self, line):
        return [bytes(readerlib.as_cells(line)).decode()]


def split(ctx, b):
    W = ctx.pick("workers", 1, b["workers"])
    P = ctx.pick("partitions", 1, b["partitions"])
    F = ctx.pick("files", W, b["files"])
    order = ctx.permutation("listing", F) if F <= b["orders"] else list(reversed(range(F)))
    made = []
    rec = type("Recorder_", (convlib.Recorder,), {"made": made})
    s, env, fs = readerlib.setup(ctx, order=order, extra={convlib.REAL_WRITER: rec}, max_steps=20000)
    os.makedirs(env.path("out"), exist_ok=True) if not ctx.symbolic else None
    lines = []
    for f in range(F):
        mine = [f"{f}.{k}" for k in range(1 + f % 2)]
        fs.put(f"in/part-{f}", list("".join(x + "\n" for x in mine).encode()))
        lines += mine
    owner = {}
    for w in range(W):
        before = len(made)
        c = convert.MultiWorkersConverter(graph_path=env.path("in"), output_dir=env.path("out"), decoder=D(), partition_count=P, worker_index=w, worker_count=W,
                                          record_per_step=2, buffer_size=1, queue_size=2, thread_count=1)
        c.convert()
        ctx.check(not s.unhandled, "no partition worker fails", lambda: f"{s.unhandled}")
        mine = [x.suffix for x in made[before:] if x.closed]
        name = env.path("out/meta.json" if W == 1 else f"out/meta_{w}.json")
        if mine:
            with fs.open(name, "r") as f:
                t = json.load(f) if ctx.symbolic else json.loads(f.f.read())
            ctx.check(sorted(t["partitions"]) == sorted(map(str, mine)), "metadata of a worker names its partitions", lambda: f"{t['partitions']} {mine}")
            ctx.check(t["node_count"] == sum(len(x.got) for x in made[before:]), "metadata of a worker counts its records")
        for p in mine:
            ctx.check(p not in owner, "a partition has one owner", lambda: f"partition {p}: workers {owner.get(p)} and {w}")
            owner[p] = w
    ctx.check(sorted(owner) == list(range(P)), "the partitions are exactly 0..count-1", lambda: f"{sorted(owner)} of {P} with {W} workers")
    got = sorted(x for m in made for x in m.got)
    ctx.check(got == sorted(lines), "every input line is converted exactly once", lambda: f"{got} of {sorted(lines)}: {W} workers, {P} partitions")
    if W > P:
        ctx.cover("more workers than partitions")
    if P % W:
        ctx.cover("uneven")


def many_partitions(ctx, b):
    """Partition ranges handed to the dispatchers, for any number of partitions."""
    env = Env(ctx)
    W = ctx.pick("workers", 1, b["workers"])
    P = ctx.int("partitions", 1, b["partitions"])
    calls = []

    class Dispatch(dispatcher.PipeDispatcher):
        def __init__(self, folder, parallel, decoder, process=None, partition_offset=0, **k):
            calls.append((parallel, partition_offset))

    for m in (convert, dispatcher):
        for k, v in list(vars(m).items()):
            if v is REAL_PIPE:
                ctx.patch(m, k, Dispatch)
    for w in range(W):
        convert.MultiWorkersConverter(graph_path=env.path(), output_dir=env.path(), decoder=D(), partition_count=P, worker_index=w, worker_count=W)
        ctx.check(len(calls) <= w + 1, "one dispatcher per worker")
        if len(calls) == w:
            calls.append((0, 0))
    calls = [(Ite(c > 0, c, 0), o) for c, o in calls]
    ctx.check_eq(Sum([c for c, _ in calls]), P, "the workers produce as many partitions as requested")
    for i, (c, o) in enumerate(calls):
        ctx.check(Or(c == 0, And(o >= 0, o + c <= P)), "partition numbers stay below the requested count", lambda: f"worker {i}: {c} from {o} of {P}")
        for d, q in calls[:i]:
            ctx.check(Or(c == 0, d == 0, o >= q + d, q >= o + c), "partitions of two workers are disjoint", lambda: f"{calls}")


HARNESSES = [
    Harness("many_partitions", many_partitions, {"workers": 6, "partitions": 2**20}, {"workers": 12, "partitions": 2**31}),
    Harness("split", split, {"workers": 4, "partitions": 6, "files": 6, "orders": 4}, {"workers": 6, "partitions": 9, "files": 8, "orders": 5}, covers=["more workers than partitions", "uneven"], hang_s=60),
]
