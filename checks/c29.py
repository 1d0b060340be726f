"""C29: datasets feed each worker's sampler share through the query unchanged."""
import inspect

import numpy as np

from checks import stublib

stublib.install()
import torch  # noqa: E402
import tensorflow as tf  # noqa: E402
import torch.utils.data  # noqa: E402


class IterableDataset:
    pass


torch.utils.data.IterableDataset = IterableDataset

from deepgnn.graph_engine import graph_dataset, prefetch, samplers  # noqa: E402,F401
from deepgnn.graph_engine._base import Graph  # noqa: E402
from deepgnn.pytorch.common import dataset as torch_dataset  # noqa: E402
from deepgnn.tf.common import dataset as tf_dataset  # noqa: E402

from symx.core import PropertyFailure  # noqa: E402
from symx.env import Env  # noqa: E402
from symx.runner import Harness  # noqa: E402
from symx.sched import Sched  # noqa: E402

BOUNDS = "sampler options any integers, any subset of the listed sampler parameters; samplers of up to the listed number of batches; prefetching with the listed queue and worker sizes under every schedule with at most the listed number of departures; torch and TensorFlow datasets with the listed loaders"
OUTSIDE = "longer samplers, schedules with more departures, several prefetching workers keep no order; what torch and TensorFlow do with the batches"
ASSUMPTIONS = ["torch's worker information and TensorFlow's dataset-from-generator are stand-ins that report a loader's index and call the generator function once per pass"]

KNOWN = ["batch_size", "epochs", "num_workers", "worker_index"]
OPTIONS = ["shuffle", "sample_num", "first"]


class FakeGraph(Graph):
    def __init__(self):
        pass


FakeGraph.__abstractmethods__ = frozenset()


class FakeBackend:
    def __init__(self, g):
        self._g = g

    @property
    def graph(self):
        return self._g


def sampler_class(names, log, n=0, on_iter=None, length=True):
    """A sampler whose constructor has exactly the given parameters."""
    P = inspect.Parameter

    class S(samplers.BaseSampler):
        def __init__(self, **kw):
            log.append(kw)

        def __iter__(self):
            for i in range(n):
                if on_iter:
                    on_iter()
                yield ("batch", i)

        def __len__(self):
            if not length:
                raise NotImplementedError("")
            return n

    ps = [P("self", P.POSITIONAL_OR_KEYWORD)]
    for k in names:
        ps.append(P(k, P.KEYWORD_ONLY, default=None, annotation=Graph if k in ("graph", "client") else int))
    S.__init__.__signature__ = inspect.Signature(ps)
    return S


def options(ctx, b):
    kind = ctx.choice("kind", ["plain", "torch"])
    with_graph = ctx.choice("graph_param", [None, "graph", "client"])
    names = [k for k in KNOWN if ctx.flag(f"takes_{k}")] + [k for k in OPTIONS if ctx.flag(f"takes_{k}")]
    if with_graph:
        names.insert(ctx.pick("graph_at", 0, min(1, len(names))), with_graph)
    given = {k: ctx.int(f"opt_{k}", -5, 2**40) for k in OPTIONS[: b["options"]] if ctx.flag(f"gives_{k}")}
    vals = {k: ctx.int(k, 0, 2**40) for k in KNOWN}
    g, log = FakeGraph(), []
    cls = {"plain": graph_dataset.DeepGNNDataset, "torch": torch_dataset.TorchDeepGNNDataset}[kind]
    ctx.patch(torch.utils.data, "get_worker_info", lambda: None)
    pos = ctx.flag("defaults")
    kw = {k: v for k, v in vals.items() if not (pos and k in ("num_workers", "worker_index"))}
    if pos:
        vals["num_workers"], vals["worker_index"] = 1, 0
    ds = cls(sampler_class(names, log), lambda g, x: x, backend=FakeBackend(g), **kw, **given)
    if kind == "torch":
        iter(ds)
    ctx.check(len(log) == 1, "one sampler is created", lambda: f"{len(log)}")
    want = {k: vals[k] for k in names if k in vals}
    want.update({k: v for k, v in given.items() if k in names})
    if with_graph:
        ctx.check(log[0].get(with_graph) is g, "the sampler gets the dataset's graph")
    got = {k: v for k, v in log[0].items() if k not in ("graph", "client")}
    ctx.check(sorted(got) == sorted(want), "the sampler gets exactly the options it takes", lambda: f"{sorted(got)} {sorted(want)}")
    for k in want:
        ctx.check_eq(got[k], want[k], f"option {k} is passed on as given")


def loaders(ctx, b):
    """Loader processes of torch each hold a copy of the dataset and know their index."""
    D = ctx.pick("loaders", 1, b["loaders"])
    own = ctx.flag("loader_options_given")
    state = {}

    class Info:
        pass

    def info():
        if "k" not in state:
            return None
        i = Info()
        i.id, i.num_workers, i.seed, i.dataset = state["k"], D, 7, None
        return i

    ctx.patch(torch.utils.data, "get_worker_info", info)
    g = FakeGraph()
    kw = {"data_parallel_num": 1, "data_parallel_index": 0} if own else {}
    for k in range(D):
        log = []
        S = sampler_class(["batch_size", "data_parallel_num", "data_parallel_index"], log, n=2)
        ds = torch_dataset.TorchDeepGNNDataset(S, lambda gr, x: (gr, x), backend=FakeBackend(g), batch_size=3, **kw)
        ctx.check(not log, "the sampler is created in the loader")
        state["k"] = k
        for again in range(2):
            got = list(ds)
            ctx.check(got == [(g, ("batch", i)) for i in range(2)], "a pass yields every batch", lambda: f"{got}")
            want = {"batch_size": 3, "data_parallel_num": D, "data_parallel_index": k}
            ctx.check(log[-1] == want, "the sampler knows its loader", lambda: f"{log[-1]} {want}")
        del state["k"]


def shares(ctx, b):
    """Workers and loaders with a real sampler: every node of the range once."""
    env = Env(ctx)
    W, D, B = ctx.pick("workers", 1, b["workers"]), ctx.pick("loaders", 1, b["loaders"]), ctx.pick("batch", 1, b["batch"])
    low = (W - 1) * B * D + 1  # the sampler refuses workers without a share
    n = low + ctx.pick("more_nodes", 0, b["nodes"])
    first = ctx.int("first", 0, 2**40)
    fill = -1
    got = []
    for w in range(W):
        for d in range(D):
            class Info:
                id, num_workers = d, D
            ctx.patch(torch.utils.data, "get_worker_info", lambda i=Info: i)
            ds = torch_dataset.TorchDeepGNNDataset(samplers.RangeNodeSampler, lambda gr, x: x, backend=FakeBackend(FakeGraph()), num_workers=W, worker_index=w,
                                                   batch_size=B, first=first, last=first + n, backfill_id=fill)
            for batch in ds:
                got += [v for v in batch]
    real = [v for v in got if not bool(v == fill)]
    ctx.check(len(real) == n, "every node is seen once", lambda: f"{len(real)} of {n}")
    seen = []
    for v in real:
        k = [i for i in range(n) if bool(v == first + i)]
        ctx.check(len(k) == 1 and k[0] not in seen, "every node is seen once", lambda: f"{v} {seen}")
        seen += k
    del env


def passes(ctx, b):
    """Batches of each pass, with and without prefetching."""
    s = Sched(ctx, b["switches"]).install()
    n = ctx.pick("batches", 0, b["batches"])
    kind = ctx.choice("kind", ["plain", "torch"])
    pre = ctx.flag("prefetch") if b.get("both") else True
    kw = {}
    workers = 2
    if pre:
        if ctx.flag("sizes_given"):
            kw["prefetch_queue_size"] = ctx.choice("queue", [1, 2])
            kw["prefetch_worker_size"] = workers = ctx.choice("prefetch_workers", [1, 2])
    ctx.patch(torch.utils.data, "get_worker_info", lambda: None)
    g, log, bad = FakeGraph(), [], []

    def query(gr, x):
        if gr is not g:
            bad.append(gr)
        s.point()
        return ("result", x)

    cls = {"plain": graph_dataset.DeepGNNDataset, "torch": torch_dataset.TorchDeepGNNDataset}[kind]
    ds = cls(sampler_class(["batch_size"], log, n=n, on_iter=s.point), query, backend=FakeBackend(g), enable_prefetch=pre, **kw)
    want = [("result", ("batch", i)) for i in range(n)]
    for _ in range(b["passes"]):
        it = iter(ds)
        got = list(it)
        ctx.check(sorted(got, key=str) == want, "a pass yields the result of every batch once", lambda: f"{got}")
        if not pre or workers == 1:
            ctx.check(got == want, "a pass keeps the order of the sampler", lambda: f"{got}")
        ctx.check(not bad, "the query gets the dataset's graph")
        ctx.check(len(ds) == n, "the length is the sampler's length")
        if pre:
            it.join()
        else:
            a, c = iter(ds), iter(ds)
            got = [next(x) for _ in range(n) for x in (a, c)]
            ctx.check(got == [w for w in want for _ in range(2)], "two iterations are independent", lambda: f"{got}")
    for _, e in s.unhandled:
        if isinstance(e, PropertyFailure):
            raise e


def tensorflow_(ctx, b):
    n = ctx.pick("batches", 1, b["batches"])
    length = ctx.flag("has_length")
    rows = [ctx.pick(f"rows{i}", 1, 2) for i in range(2)]
    free = [ctx.flag(f"free{i}") for i in range(2)]
    vals = {k: ctx.int(k, 0, 2**40) for k in ("num_workers", "worker_index", "batch_size", "shuffle")}
    rec = {}

    class D:
        def __init__(self, fn, types, output_shapes=None):
            rec.update(fn=fn, types=types, shapes=output_shapes)

        def prefetch(self, k):
            return self

    class T:
        def __init__(self, x):
            self.dtype, self.shape = ("tf", str(x.dtype)), x.shape

    ctx.patch(tf.data.Dataset, "from_generator", D)
    ctx.patch(tf, "convert_to_tensor", T)
    ctx.patch(tf, "TensorShape", lambda x: ("shape", tuple(x)))
    g, log = FakeGraph(), []

    def query(gr, x, return_shape=False):
        if gr is not g or x[0] != "batch":
            raise AssertionError(f"query of {gr} {x}")
        res = [np.full((rows[0], 3), x[1], dtype=np.float32), np.full((rows[1],), 10 + x[1], dtype=np.int64)]
        if return_shape:
            return res, [[None if free[0] else rows[0], 3], [None if free[1] else rows[1]]]
        return res

    S = sampler_class(["batch_size", "num_workers", "worker_index", "epochs", "shuffle", "graph"], log, n=n, length=length)
    _, size = tf_dataset.create_tf_dataset(S, query, backend=FakeBackend(g), **vals)
    ctx.check(size == (n if length else None), "the length is the sampler's length", lambda: f"{size}")
    ctx.check(rec["types"] == (("tf", "float32"), ("tf", "int64")), "element types", lambda: f"{rec['types']}")
    want = (("shape", (None if free[0] else rows[0], 3)), ("shape", (None if free[1] else rows[1],)))
    ctx.check(rec["shapes"] == want, "element shapes", lambda: f"{rec['shapes']}")
    for k in vals:
        ctx.check_eq(log[-1][k], vals[k], f"option {k} is passed on as given")
    ctx.check(log[-1]["epochs"] == 1 and log[-1]["graph"] is g, "one epoch per pass on the dataset's graph")
    for _ in range(2):
        got = [(x[0].tolist(), x[1].tolist()) for x in rec["fn"]()]
        ctx.check(got == [([[float(i)] * 3] * rows[0], [10 + i] * rows[1]) for i in range(n)], "a pass yields the result of every batch in order", lambda: f"{got}")


HARNESSES = [
    Harness("options", options, {"options": 1}, {"options": 3}, weight=2),
    Harness("passes", passes, {"batches": 2, "passes": 2, "both": True, "switches": 1}, {"batches": 3, "passes": 2, "both": True, "switches": 1}, weight=2, hang_s=15),
    Harness("prefetched", passes, {"batches": 1, "passes": 1, "switches": 2}, {"batches": 2, "passes": 1, "switches": 2}, weight=2, hang_s=15),
    Harness("loaders", loaders, {"loaders": 3}, {"loaders": 4}),
    Harness("shares", shares, {"workers": 2, "loaders": 2, "batch": 2, "nodes": 5}, {"workers": 3, "loaders": 3, "batch": 3, "nodes": 8}, weight=2),
    Harness("tensorflow", tensorflow_, {"batches": 3}, {"batches": 5}),
]
