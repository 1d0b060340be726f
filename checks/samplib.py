"""Shared pieces of the sampler harnesses."""
from symx.core import And, Eq, Not, Or, same_multiset
from symx.env import aslist


def drain(ctx, s, limit=80):
    out = []
    it = iter(s)
    for _ in range(limit):
        try:
            b = next(it)
        except StopIteration:
            return out
        out.append(b)
    ctx.fail("iteration does not end")


def columns(b):
    """Batch as a list of rows, each a flat list of values over all columns."""
    parts = b if isinstance(b, list) else [b]
    parts = [aslist(p) for p in parts]
    n = len(parts[0])
    if any(len(p) != n for p in parts):
        return None
    rows = []
    for i in range(n):
        r = []
        for p in parts:
            r += p[i] if isinstance(p[i], list) else [p[i]]
        rows.append(r)
    return rows


def check_share(ctx, runs, rows_by_worker, B, E, D, drop, shuffle, is_pad):
    """runs[w][d] = (sampler, batches); rows_by_worker[w] = rows this worker owns."""
    for w, loaders in enumerate(runs):
        mine = rows_by_worker[w]
        total = len(mine) * E
        got = []
        stream = {}
        for d, (s, batches) in enumerate(loaders):
            for k, b in enumerate(batches):
                rows = columns(b)
                ctx.check(rows is not None and len(rows) == B, "batch has the requested size")
                stream[k * D + d] = rows
            if D == 1:
                ln = len(s)
                ctx.check(ln == len(batches), "announced length equals the number of batches", lambda: f"{ln} != {len(batches)}")
        nb = total // B if drop else -(-total // B)
        ctx.check(sorted(stream) == list(range(nb)), "every batch is produced by exactly one loader", lambda: f"{sorted(stream)} expected {nb}")
        for k in range(nb):
            real = min(B, total - k * B)
            got += stream[k][:real]
            for r in stream[k][real:]:
                ctx.check(is_pad(r), "positions after the last sample hold the fill value", lambda: f"{r}")
            if real < B:
                ctx.cover("padded")
        n = len(mine)
        for e in range(E):
            part = got[e * n : (e + 1) * n]
            if len(part) == n:
                if not shuffle:
                    ctx.check_eq(part, mine, "samples of an epoch come in file order")
                else:
                    ctx.check(same_multiset(part, mine), "an epoch holds every sample exactly once", lambda: f"{part} vs {mine}")
            else:
                from symx.core import count_eq

                for r in part:
                    ctx.check(count_eq(r, part) <= count_eq(r, mine), "no sample is repeated inside an epoch")
