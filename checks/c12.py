"""C12: split text readers cover the input without overlap or loss."""
from deepgnn.graph_engine._adl_reader import TextFileSplitIterator

from checks.c11 import drain
from checks.readerlib import lines_of, same_line, setup
from symx.core import Or
from symx.runner import Harness

BOUNDS = "every file of up to the listed number of bytes (newline, carriage return or letter at each position), every division into ranges that begin at line starts, block sizes, threads and batch sizes as listed"
OUTSIDE = "ranges that cut through a line (the caller must align them); blank lines"
ASSUMPTIONS = ["threads, thread pool and queue are deterministic stand-ins running in their default order (schedules are covered by C11)"]


def ranges(ctx, b):
    s, env, fs = setup(ctx)
    n = ctx.pick("size", 0, b["size"])
    cells = [ctx.int(f"b{i}", 0, 127) for i in range(n)]
    for c in cells:
        ctx.assume(Or(c == 10, c == 13, c >= 97))
    p = fs.put("in/data.txt", cells)
    W = ctx.pick("workers", 1, b["workers"])
    block = ctx.pick("block", 1, b["block"])
    T = ctx.pick("threads", 1, b["threads"])
    B = ctx.pick("batch", 1, b["batch"])
    starts = [i for i in range(n + 1) if i in (0, n) or bool(cells[i - 1] == 10)]
    cuts = [0]
    for w in range(1, W):
        cuts.append(starts[ctx.pick(f"cut{w}", starts.index(cuts[-1]), len(starts) - 1)])
    got = []
    again = ctx.flag("read_twice") if W == 1 else False
    for w in range(W):
        lo = cuts[w]
        last = w == W - 1
        length = -1 if last and ctx.flag("open_end") else (n if last else cuts[w + 1]) - lo
        it = TextFileSplitIterator(filename=p, batch_size=B, read_block_in_M=(block + 0.25) / 1e6, thread_count=T, worker_offset=lo, total_read_length=length)
        if again:
            drain(ctx, iter(it))
            ctx.cover("read twice")
        bs = drain(ctx, iter(it))
        ctx.check(all(len(x) == B for x in bs[:-1]) and all(0 < len(x) <= B for x in bs[-1:]), "batches have the requested size")
        got += [x for y in bs for x in y if len(x)]
    want, _ = lines_of(cells)
    ctx.check(len(got) == len(want), "every line is delivered by exactly one worker", lambda: f"{got} expected {[bytes(x) for x in want]}")
    for a, c in zip(got, want):
        ctx.check(same_line(a, c), "lines come whole", lambda: f"{got} expected {[bytes(x) for x in want]}")
    if W > 1 and 0 < cuts[1] < n:
        ctx.cover("split inside")


HARNESSES = [Harness("ranges", ranges, dict(size=4, workers=2, block=3, threads=2, batch=2), dict(size=5, workers=3, block=5, threads=3, batch=2), covers=["read twice", "split inside"])]
