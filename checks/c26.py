"""C26: prefetching delivers every batch exactly once and always terminates."""
import traceback

from deepgnn.graph_engine import prefetch

from symx.binio import ModShim
from symx.core import Verdict
from symx.runner import Harness
from symx.sched import Sched

BOUNDS = "sources of up to the listed number of batches, buffer sizes and numbers of parallel queries as listed, an error (also SystemExit and KeyboardInterrupt) of the source or of a query at any position or none, the consumer stopping at any position; every schedule of consumer, producer and query threads at queue, semaphore, event and future operations with at most the listed number of departures from the default order"
OUTSIDE = "longer sources, more threads, schedules with more departures; several producers on one source; reading on after an error or after joining"
ASSUMPTIONS = ["threads switch only at queue, lock, event and future operations and inside queries"]


class Boom(Exception):
    pass


class Halt(SystemExit):
    """A query that wants to end the program."""


def quiet():
    return ModShim(traceback, print_exc=lambda *a, **k: None)


class Source:
    def __init__(self, s, n, bad, error=Boom):
        self.s, self.n, self.bad, self.error = s, n, bad, error

    def __iter__(self):
        for i in range(self.n):
            self.s.point()
            if self.bad == i:
                raise self.error(f"batch {i}")
            yield ("batch", i)
        if self.bad == self.n:
            raise self.error("end")


def generator(ctx, b):
    s = Sched(ctx, b["switches"]).install({traceback: quiet()})
    n = ctx.pick("batches", b.get("min", 0), b["batches"])
    size = ctx.choice("buffer", b["buffers"])
    par = ctx.pick("parallel", 1, b["parallel"])
    bad_source = ctx.pick("source_error", -1, n) if b.get("errors") else -1
    bad_query = ctx.pick("query_error", -1, n - 1) if b.get("errors") and bad_source < 0 else -1
    stop = ctx.pick("read", 0, n + 1) if b.get("early") else n + 1
    error = ctx.choice("error", [Boom, Halt, KeyboardInterrupt]) if b.get("errors") and (bad_source >= 0 or bad_query >= 0) else Boom
    G = object()
    calls = []

    def query(graph, x):
        if graph is not G or x[0] != "batch":
            raise AssertionError(f"query of {graph} {x}")
        s.point()
        calls.append(x[1])
        if x[1] == bad_query:
            raise error("query")
        return ("result", x[1])

    gen = prefetch.Generator(G, Source(s, n, bad_source, error), query, prefetch_size=size, max_parallel=par)
    got, end = [], None
    ctx.check(iter(gen) is gen, "a generator iterates over itself")
    while len(got) < stop:
        try:
            got.append(next(gen))
        except StopIteration:
            end = "end"
            break
        except (Exception, Halt, KeyboardInterrupt) as e:
            if isinstance(e, Verdict):
                raise
            end = e
            break
    idx = [x[1] if isinstance(x, tuple) and x[0] == "result" else x for x in got]
    fine = len(set(idx)) == len(idx) and set(idx) <= set(range(n))
    ctx.check(fine, "every batch is delivered at most once, transformed by the query", lambda: f"{got} of {n}")
    failing = bad_source >= 0 or bad_query >= 0
    if par == 1:
        ctx.check(idx == sorted(idx), "a single worker keeps the order of the source", lambda: f"{idx}")
    if end == "end":
        ctx.check(not failing, "an error while producing reaches the consumer", lambda: f"source {bad_source}, query {bad_query}, got {idx}")
        ctx.check(sorted(idx) == list(range(n)), "every batch is delivered before the end", lambda: f"{idx} of {n}")
        for _ in range(2):
            try:
                x = next(gen)
            except StopIteration:
                continue
            ctx.fail(f"reading past the end ends again: got {x}")
        ctx.cover("past the end")
    elif end is not None:
        ctx.check(failing, "an error is raised only when producing failed", lambda: f"{end}")
        ctx.cover("error")
    else:
        ctx.cover("stopped early")
    gen.join()
    s.wait(lambda: all(t.done for t in s.tasks if t is not s.main), 50)
    ctx.check(all(t.done for t in s.tasks if t is not s.main), "joining ends all threads", lambda: s.describe())
    gen.join()
    for name, e in s.unhandled:
        if isinstance(e, Verdict):
            raise e


def executor(ctx, b):
    """The bounded executor runs everything once and never holds more than its bound."""
    s = Sched(ctx, b["switches"]).install({traceback: quiet()})
    workers = ctx.choice("workers", [1, 2])
    bound = ctx.pick("bound", 0, b["bound"])
    n = ctx.pick("jobs", 0, b["jobs"])
    bad = ctx.pick("failing", -1, n - 1)
    limit = max(bound if bound > 0 else prefetch.DEFAULT_THREAD_POOL_QUEUE_SIZE, workers)
    state = {"out": 0, "most": 0}
    ran = []

    def job(i, k=None):
        s.point()
        ran.append((i, k))
        state["out"] -= 1
        if i == bad:
            raise Boom("job")
        return i * 10

    fs = []
    with prefetch.BoundedExecutor(max_workers=workers, bound=bound) as ex:
        for i in range(n):
            f = ex.submit(job, i, k=i + 1)
            state["out"] += 1
            state["most"] = max(state["most"], state["out"])
            fs.append(f)
    ctx.check(sorted(ran) == [(i, i + 1) for i in range(n)], "every job runs once", lambda: f"{ran}")
    ctx.check(state["most"] <= limit, "no more jobs are pending than allowed", lambda: f"{state['most']} of {limit}")
    for i, f in enumerate(fs):
        try:
            r = f.result()
        except Boom:
            ctx.check(i == bad, "only failing jobs fail")
        else:
            ctx.check(r == i * 10 and i != bad, "results belong to their jobs", lambda: f"{r} of {i}")


HARNESSES = [
    Harness("schedules", generator, {"min": 1, "batches": 2, "buffers": [1], "parallel": 2, "switches": 2}, {"min": 1, "batches": 2, "buffers": [1, 2], "parallel": 2, "switches": 3}, covers=["past the end"], weight=3, hang_s=15),
    Harness("errors", generator, {"batches": 2, "buffers": [1, 3], "parallel": 2, "errors": True, "switches": 1}, {"batches": 3, "buffers": [1, 2, 5], "parallel": 2, "errors": True, "switches": 1}, covers=["error"], weight=2, hang_s=15),
    Harness("early_stop", generator, {"batches": 3, "buffers": [1, 2], "parallel": 2, "early": True, "switches": 1}, {"batches": 4, "buffers": [1, 2, 5], "parallel": 3, "early": True, "switches": 1}, covers=["stopped early"], weight=2, hang_s=15),
    Harness("sizes", generator, {"batches": 6, "buffers": [0, 1, 2, 3], "parallel": 4, "early": True, "errors": True, "switches": 0}, {"batches": 10, "buffers": [0, 1, 2, 3, 5], "parallel": 5, "early": True, "errors": True, "switches": 0}, hang_s=15),
    Harness("executor", executor, {"bound": 2, "jobs": 3, "switches": 1}, {"bound": 3, "jobs": 4, "switches": 2}, hang_s=15),
]
