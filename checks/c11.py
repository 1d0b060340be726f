"""C11: the text reader delivers every line of the input exactly once per epoch."""
from deepgnn.graph_engine._adl_reader import TextFileIterator

from checks.readerlib import TOKENS, as_cells, content, lines_of, same_line, setup
from symx.core import And, Eq, Or
from symx.runner import Harness

BOUNDS = "every ASCII content of up to the listed number of bytes per file (all positions of newlines, carriage returns and other control characters), plus contents built from multi-byte characters and separator look-alikes; block size, threads, batch size, queue size, epochs and schedules as listed"
OUTSIDE = "longer files, more threads, more thread switches than listed; blank lines (they may or may not be delivered); remote stores"
ASSUMPTIONS = ["threads, thread pool and queue are deterministic stand-ins; scheduling points are their operations"]


def drain(ctx, it, limit=60):
    out = []
    for _ in range(limit):
        try:
            out.append(next(it))
        except StopIteration:
            return out
    ctx.fail("iteration does not end")


def judge(ctx, batches, cells_list, B, E, drop, shuffled=False):
    want, blank = [], False
    for c in cells_list:
        w, bl = lines_of(c)
        want += w
        blank |= bl
    want = want * E
    for i, x in enumerate(batches):
        last = i == len(batches) - 1
        ctx.check(len(x) == B or (last and not drop and 0 < len(x) < B), "batches have the requested size", lambda: f"{[len(y) for y in batches]}")
    got = [ln for x in batches for ln in x if len(ln)]
    if shuffled:
        ctx.check(len(got) == len(want) or (drop and len(want) - B < len(got) <= len(want)), "number of lines")
        from symx.core import count_eq

        g, w = [as_cells(x) for x in got], want
        ctx.check(And([count_eq(x, g) <= count_eq(x, w) for x in g]), "every line once per epoch", lambda: f"{got}")
        return
    if drop:
        ctx.check(len(want) - B < len(got) <= len(want), "only an incomplete last batch is dropped", lambda: f"{got} of {want}")
        if not blank:
            ctx.check(len(got) == len(want) // B * B, "complete batches are kept")
    else:
        ctx.check(len(got) == len(want), "every line is delivered exactly once", lambda: f"{got} expected {[bytes(x) for x in want]}")
    for a, w in zip(got, want):
        ctx.check(same_line(a, w), "lines come whole and in order", lambda: f"{got} expected {[bytes(x) for x in want]}")


def make(path, B, E, block, T, Q, drop=False, shuffle=False):
    return TextFileIterator(filename=path, batch_size=B, epochs=E, read_block_in_M=(block + 0.25) / 1e6, buffer_queue_size=Q, thread_count=T, drop_last=drop, shuffle=shuffle)


def blocks(ctx, b):
    """Any content, any block and thread division; default schedule."""
    s, env, fs = setup(ctx)
    n = ctx.pick("size", 0, b["size"])
    T = ctx.pick("threads", 1, b["threads"])
    block = ctx.pick("block", 1, b["block"])
    B = ctx.pick("batch", 1, b["batch"])
    cells = content(ctx, "f", n)
    p = fs.put("in/data.txt", cells)
    it = make(p, B, 1, block, T, 2)
    judge(ctx, drain(ctx, iter(it)), [cells], B, 1, False)
    if n == 0:
        ctx.cover("empty file")


def wide(ctx, b):
    """Multi-byte characters and look-alike separators across block boundaries."""
    s, env, fs = setup(ctx)
    n = ctx.pick("tokens", 1, b["tokens"])
    cells = content(ctx, "f", n, tokens=True)
    T = ctx.pick("threads", 1, b["threads"])
    block = ctx.pick("block", 1, b["block"])
    p = fs.put("in/data.txt", cells)
    judge(ctx, drain(ctx, iter(make(p, 2, 1, block, T, 2))), [cells], 2, 1, False)


def files(ctx, b):
    """Several files, epochs, drop_last, shuffling of files, restarts."""
    F = ctx.pick("files", 1, b["files"])
    s, env, fs = setup(ctx, order=ctx.permutation("listing", F))
    sizes = [ctx.pick(f"size{i}", 0, b["size"]) for i in range(F)]
    E = ctx.pick("epochs", 1, b["epochs"])
    B = ctx.pick("batch", 1, b["batch"])
    drop = ctx.flag("drop_last")
    shuffle = ctx.flag("shuffle") if F > 1 and not drop else False
    data = []
    for i in range(F):
        cells = [ctx.int(f"f{i}.b{k}", 10, 99) for k in range(sizes[i])]
        for c in cells:
            ctx.assume(Or(c == 10, c >= 97))
        fs.put(f"in/p{i}.txt", cells)
        data.append(cells)
    it = make(env.path("in"), B, E, b["block"], 2, 1, drop, shuffle)
    early = ctx.flag("stop_early") if E == 1 and not shuffle else False
    if early:  # stop after one batch, then start again
        i = iter(it)
        try:
            next(i)
        except StopIteration:
            pass
        ctx.cover("restarted")
    for rep in range(2 if not early and E == 1 and not shuffle and b["again"] else 1):
        judge(ctx, drain(ctx, iter(it)), data, B, E, drop, shuffle)


def restarts(ctx, b):
    """An iteration left before its end has no influence on later ones."""
    s, env, fs = setup(ctx)
    n = ctx.pick("size", 1, b["size"])
    cells = [ctx.int(f"b{k}", 10, 99) for k in range(n)]
    for c in cells:
        ctx.assume(Or(c == 10, c >= 97))
    p = fs.put("in/data.txt", cells)
    B = ctx.pick("batch", 1, b["batch"])
    it = make(p, B, 1, ctx.pick("block", 1, b["block"]), 2, ctx.pick("queue", 1, 2))
    i = iter(it)
    try:
        for _ in range(ctx.pick("taken", 0, b["taken"])):
            next(i)
    except StopIteration:
        ctx.cover("at the end")
    judge(ctx, drain(ctx, iter(it)), [cells], B, 1, False)


def schedules(ctx, b):
    """Thread interleavings of reader, block threads and consumer."""
    s, env, fs = setup(ctx, switches=b["switches"])
    cells = list(ctx.choice("content", [b"ab\ncd\ne", b"x\ny\n"]))
    p = fs.put("in/data.txt", cells)
    E = ctx.pick("epochs", 1, b["epochs"])
    Q = ctx.pick("queue", 1, 2)
    it = make(p, 2, E, 4, 2, Q)
    if ctx.flag("stop_early"):
        i = iter(it)
        try:
            next(i)
        except StopIteration:
            pass
        it.join()
        if ctx.flag("restart"):
            judge(ctx, drain(ctx, iter(it)), [cells], 2, E, False)
            it.join()
        ctx.check(not s.unhandled, "no thread fails", lambda: f"{s.unhandled}")
        ctx.cover("stopped early")
        return
    judge(ctx, drain(ctx, iter(it)), [cells], 2, E, False)
    it.join()
    ctx.check(not s.unhandled, "no thread fails", lambda: f"{s.unhandled}")


HARNESSES = [
    Harness("blocks", blocks, dict(size=5, threads=3, block=6, batch=2), dict(size=6, threads=4, block=7, batch=3), covers=["empty file"]),
    Harness("wide", wide, dict(tokens=3, threads=2, block=5), dict(tokens=4, threads=3, block=9)),
    Harness("files", files, dict(files=2, size=2, epochs=2, batch=2, block=1, again=True), dict(files=3, size=3, epochs=2, batch=3, block=2, again=True), covers=["restarted"]),
    Harness("restarts", restarts, dict(size=5, batch=2, block=6, taken=2), dict(size=7, batch=2, block=8, taken=3), covers=["at the end"]),
    Harness("schedules", schedules, dict(switches=1, epochs=1), dict(switches=2, epochs=2), covers=["stopped early"]),
]
