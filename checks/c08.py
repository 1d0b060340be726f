"""C08: every dispatched record reaches exactly one partition worker, in order, and joining waits for all of them."""
from checks import convlib
from symx.runner import Harness

BOUNDS = "both dispatchers, threads and processes, every partition assignment and every interleaving at queue, pipe and thread operations with the listed number of preemptions; numbers of records and partitions as listed"
OUTSIDE = "more records, partitions or preemptions; workers that fail; process start-up and serialisation (processes are modelled as tasks sharing nothing but the queues)"
ASSUMPTIONS = ["threads, processes, pipes and queues are deterministic stand-ins; scheduling points are their operations"]


def routing(ctx, b):
    kind = ctx.choice("kind", convlib.KINDS)
    s, env, made = convlib.setup(ctx, b["switches"], recorder=True)
    P = ctx.pick("partitions", 1, b["partitions"])
    off = ctx.choice("offset", b.get("offsets", [0, 3]))
    n = ctx.pick("records", 0, b["records"])
    skip = ctx.choice("skip", b.get("skips", [(True, False)]))
    wm = ctx.choice("watermark", b.get("watermarks", [7]))
    if kind[0] == "queue":
        route = [ctx.pick(f"to{i}", 0, P - 1) for i in range(n)]
    else:
        route = [i % P for i in range(n)]
    gap = ctx.pick("empty_line", 0, n) if b.get("empty") else n
    d = convlib.make(kind, env.path(), P, route, convlib.Decoder([[i] for i in range(n)]), off, skip, wm)
    if gap < n:  # an empty line takes the place of a record
        ctx.cover("empty line")
    for i in range(n):
        d.dispatch("" if i == gap else str(i))
    d.join()
    ctx.check(not s.unhandled, "no worker fails", lambda: f"{s.unhandled}")
    by = {w.suffix: w for w in made}
    ctx.check(len(by) == len(made) and sorted(by) == [off + p for p in range(P)], "one worker per partition, numbered from the offset", lambda: f"{sorted(w.suffix for w in made)}")
    for p in range(P):
        w = by[off + p]
        ctx.check(w.closed == 1, "every worker has written its output when joining returns", lambda: f"partition {w.suffix} of {P}, records to {route}")
        ctx.check(w.got == [i for i in range(n) if route[i] == p and i != gap], "every worker gets its records once and in order", lambda: f"partition {p} got {w.got}, assignment {route}")
        ctx.check((w.skips, w.watermark, w.folder) == (skip, wm, env.path()), "options reach the worker", lambda: f"{w.skips} {w.watermark} {w.folder}")
    ctx.check(d.prop("node_count") == n - (gap < n), "records counted", lambda: f"{d.prop('node_count')}")
    ctx.check(sorted(x["id"] for x in d.prop("partitions")) == sorted(by), "every partition is reported", lambda: f"{d.prop('partitions')}")
    if len(set(route)) < P:
        ctx.cover("unused partition")
    if n > 2 and len(set(route)) == 1:
        ctx.cover("full queue")


HARNESSES = [
    Harness("schedules", routing, {"partitions": 2, "records": 3, "switches": 2, "offsets": [0]}, {"partitions": 3, "records": 3, "switches": 2, "offsets": [0]}, covers=["unused partition", "full queue"], weight=3, hang_s=20),
    Harness("empty_lines", routing, {"partitions": 2, "records": 3, "switches": 0, "offsets": [0], "empty": True}, {"partitions": 2, "records": 4, "switches": 1, "offsets": [0], "empty": True}, covers=["empty line"], hang_s=20),
    Harness("assignments", routing, {"partitions": 3, "records": 4, "switches": 0, "skips": [(True, False), (False, True)], "watermarks": [None, 0, 7]}, {"partitions": 4, "records": 5, "switches": 0, "skips": [(True, False), (False, True)], "watermarks": [None, 0, 7]}, covers=["unused partition"], hang_s=20),
]
