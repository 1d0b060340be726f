"""C18: skip-gram pairs are exactly the pairs inside the window."""
from deepgnn.graph_engine import graph_ops

from symx.core import Eq
from symx.env import Env, aslist
from symx.runner import Harness

BOUNDS = "path entries any 62-bit integer; path length, number of paths and window sizes up to the listed limits, both windows independent and possibly larger than the path"
OUTSIDE = "longer paths or wider windows than listed; negative windows; paths of length 0 (rejected by an assertion)"


def pairs(ctx, b):
    env = Env(ctx)
    L = ctx.pick("path_len", 1, b["len"])
    N = ctx.pick("paths", 0, b["paths"])
    lw = ctx.pick("left", 0, b["win"])
    rw = ctx.pick("right", 0, b["win"])
    paths = [[ctx.int(f"p{i}_{j}", 0, 2**62) for j in range(L)] for i in range(N)]
    arr = env.np.array(paths, dtype=env.np.int64).reshape(N, L)
    got = graph_ops.gen_skipgrams(arr, lw, rw)
    expected = [[paths[i][j], paths[i][k]] for i in range(N) for j in range(L) for k in range(max(0, j - lw), min(L, j + rw + 1)) if k != j]
    rows = [list(r) for r in aslist(got)]
    ctx.check(len(rows) == len(expected), "number of pairs", lambda: f"{len(rows)} != {len(expected)}")
    size = graph_ops.get_skipgrams_size(L, lw, rw)
    ctx.check(Eq(size * N, len(expected)), "announced size per path", lambda: f"{size}")
    # the entries are independent symbols, so only the order of rows may differ
    if Eq(rows, expected) is not True:
        from symx.core import same_multiset

        ctx.check(same_multiset(rows, expected), "pairs are exactly those inside the window", lambda: f"{rows} expected {expected}")
    ctx.cover("asymmetric" if lw != rw else "symmetric")
    ctx.check_eq(aslist(arr), paths, "paths are not modified")


HARNESSES = [Harness("pairs", pairs, dict(len=5, paths=2, win=5), dict(len=7, paths=3, win=7), covers=["asymmetric", "symmetric"])]
