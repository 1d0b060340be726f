"""C13: a failed read surfaces as an error, never as missing lines."""
from checks import c11
from checks.readerlib import content, setup
from symx.core import Or, Verdict
from symx.runner import Harness

BOUNDS = "a failure of any single read operation, or an undecodable byte at any position, for files, blocks, threads, epochs and schedules as listed"
OUTSIDE = "several simultaneous failures; failures while opening or listing files"
ASSUMPTIONS = ["threads, thread pool and queue are deterministic stand-ins; read failures are raised by the file object"]


def consume(ctx, it, limit=60):
    out = []
    try:
        for x in it:
            out.append(x)
            if len(out) > limit:
                ctx.fail("iteration does not end")
    except Exception as e:
        if isinstance(e, Verdict):
            raise
        return out, e
    return out, None


def read_failure(ctx, b):
    s, env, fs = setup(ctx, switches=b["switches"])
    n = ctx.pick("size", 1, b["size"])
    cells = [ctx.int(f"b{i}", 10, 99) for i in range(n)]
    for c in cells:
        ctx.assume(Or(c == 10, c >= 97))
    p = fs.put("in/data.txt", cells)
    T = ctx.pick("threads", 1, b["threads"])
    block = ctx.pick("block", 1, b["block"])
    E = ctx.pick("epochs", 1, b["epochs"])
    fs.fail_at = ctx.pick("fail_at", -1, b["fail_at"])
    it = c11.make(p, 2, E, block, T, 1)
    out, err = consume(ctx, it)
    if fs.raised:
        ctx.check(err is not None, "a failed read reaches the consumer", lambda: f"got {out}")
        ctx.cover("failed")
        it.join()
    else:
        ctx.check(err is None, "no error without a failure", lambda: repr(err))
        c11.judge(ctx, out, [cells], 2, E, False)
        ctx.cover("clean")


def bad_bytes(ctx, b):
    s, env, fs = setup(ctx)
    n = ctx.pick("size", 2, b["size"])
    cells = [ctx.int(f"b{i}", 10, 99) for i in range(n)]
    for c in cells:
        ctx.assume(Or(c == 10, c >= 97))
    cells[ctx.pick("bad", 0, n - 1)] = ctx.choice("byte", [0xFF, 0xC3])
    p = fs.put("in/data.txt", cells)
    it = c11.make(p, 2, 1, ctx.pick("block", 1, b["block"]), ctx.pick("threads", 1, b["threads"]), 1)
    out, err = consume(ctx, it)
    ctx.check(err is not None, "undecodable input reaches the consumer as an error", lambda: f"got {out}")


HARNESSES = [
    Harness("read_failure", read_failure, dict(size=3, threads=2, block=4, epochs=1, fail_at=5, switches=0), dict(size=4, threads=3, block=5, epochs=2, fail_at=9, switches=0), covers=["failed", "clean"]),
    Harness("failure_schedules", read_failure, dict(size=2, threads=2, block=3, epochs=1, fail_at=3, switches=1), dict(size=2, threads=2, block=3, epochs=1, fail_at=4, switches=2), covers=["failed", "clean"]),
    Harness("bad_bytes", bad_bytes, dict(size=4, block=5, threads=2), dict(size=5, block=6, threads=3)),
]
