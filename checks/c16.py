"""C16: text and CSV samplers give each worker its own share of the input."""
from deepgnn.graph_engine import samplers

from checks.readerlib import as_cells, lines_of, setup
from checks.samplib import drain
from symx.core import And, Eq, count_eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "row contents arbitrary (any 62-bit ids; any lower-case letters in text rows); numbers of files, rows, workers, loaders, epochs, batch and buffer sizes as listed; every listing order of a directory; every outcome of shuffling up to three rows"
OUTSIDE = "more files, rows, workers or loaders than listed; malformed rows"
ASSUMPTIONS = ["threads of the text reader run in their default order (schedules are covered by C11)"]


def csv_rows(ctx, b):
    env = Env(ctx)
    B = ctx.pick("batch", 1, b["batch"])
    D = ctx.pick("loaders", 1, b["loaders"])
    E = ctx.pick("epochs", 1, b["epochs"])
    n = ctx.pick("rows", 0, b["rows"])
    cols = ctx.pick("columns", 1, 2)
    rows = [[ctx.int(f"c{i}_{k}", -(2**40), 2**62) for k in range(cols)] for i in range(n)]
    blank = ctx.flag("blank_line")
    text = "".join(",".join(ctx.token(x) for x in r) + "\n" for r in rows) + ("\n" if blank else "")
    p = env.write_text("rows.csv", text)
    seen = []
    for d in range(D):
        s = samplers.CSVNodeSampler(B, p, epoch=E, data_parallel_num=D, data_parallel_index=d)
        for rep in range(2):
            batches = [aslist(x) for x in drain(ctx, s)]
            ctx.check(all(1 <= len(x) <= B for x in batches), "batches hold at most the requested number of rows")
            got = [list(r) for x in batches for r in x]
            mine = rows[d::D] * E
            ctx.check_eq(got, mine, "a loader gets its rows once per epoch, unchanged and in order")
            if D == 1:
                ctx.check(len(s) == len(batches), "announced length", lambda: f"{len(s)} != {len(batches)}")
    if n % (B * D):
        ctx.cover("short batch")


def text_rows(ctx, b):
    F = ctx.pick("files", 1, b["files"])
    W = ctx.pick("workers", 1, min(F, b["workers"]))
    D = ctx.pick("loaders", 1, min(F // W, b["loaders"]))
    order = ctx.permutation("listing", F)
    s, env, fs = setup(ctx, order=order)
    E = ctx.pick("epochs", 1, b["epochs"])
    B = ctx.pick("batch", 1, b["batch"])
    buf = ctx.pick("buffer", 1, b["buffer"])
    shuffle = ctx.flag("shuffle")
    data = []
    for i in range(F):
        rows = [[ctx.int(f"r{i}_{k}", 97, 122)] for k in range(ctx.pick(f"rows{i}", 0, b["rows"]))]
        fs.put(f"in/f{i}.txt", [c for r in rows for c in r + [10]])
        data.append(rows)
    if shuffle:
        ctx.assume(sum(len(x) for x in data) * E <= 3)
    for w in range(W):
        for d in range(D):
            k = w * D + d
            sm = samplers.TextFileSampler(store_name="", filename=env.path("in"), batch_size=B, buffer_size=buf, epochs=E, shuffle=shuffle, worker_index=w, num_workers=W,
                                          data_parallel_num=D, data_parallel_index=d, read_block_in_M=(b["block"] + 0.25) / 1e6)
            if ctx.flag("restart") if (w, d, shuffle) == (0, 0, False) else False:
                it = iter(sm)
                try:
                    next(it)
                except StopIteration:
                    pass
                ctx.cover("restarted")
            batches = drain(ctx, sm)
            mine = [r for i in range(k, F, W * D) for r in data[i]] * E
            ctx.check(all(len(x) == B for x in batches), "batches have the requested size", lambda: f"{batches}")
            got = [as_cells(x) for y in batches for x in y]
            ctx.check(len(batches) == -(-len(mine) // B), "number of batches", lambda: f"{batches} for {mine}")
            ctx.check(all(len(x) == 0 for x in got[len(mine) :]), "only positions after the last row are filled", lambda: f"{batches}")
            got = got[: len(mine)]
            if shuffle:
                ctx.check(And([count_eq(x, got) == count_eq(x, mine) for x in mine]), "every row of the worker is delivered once per epoch", lambda: f"{batches}")
            else:
                ctx.check_eq(got, mine, "a worker gets the rows of its files once per epoch, in order")


def share_files(ctx, b):
    """get_files: the same assignment on every worker whatever the listing order."""
    F = ctx.pick("files", 1, b["files"])
    W = ctx.pick("workers", 1, b["workers"])
    s, env, fs = setup(ctx)
    names = [fs.put("in/f%d.txt" % i, [97, 10]) for i in range(F)]
    fs.put("in/other.dat", [97])
    out = []
    for w in range(W):
        fs.order = ctx.permutation(f"listing{w}", F + 1)
        try:
            out.append(samplers.get_files(env.path("in/*.txt"), w, W))
        except RuntimeError:
            ctx.check(F < W, "too few files are reported")
            ctx.cover("too few")
            return
    ctx.check(F >= W, "more workers than files are reported")
    flat = [x for y in out for x in y]
    ctx.check(sorted(flat) == sorted(names), "every file goes to exactly one worker", lambda: f"{out}")
    ctx.check(all(y for y in out), "every worker gets a file")


HARNESSES = [
    Harness("csv_rows", csv_rows, dict(batch=3, loaders=2, epochs=2, rows=4), dict(batch=4, loaders=3, epochs=3, rows=7), covers=["short batch"]),
    Harness("text_rows", text_rows, dict(files=2, workers=2, loaders=2, epochs=2, batch=2, buffer=1, rows=2, block=3), dict(files=4, workers=2, loaders=2, epochs=2, batch=2, buffer=8, rows=2, block=3), covers=["restarted"], weight=2),
    Harness("share_files", share_files, dict(files=3, workers=2), dict(files=4, workers=3), covers=["too few"]),
]
