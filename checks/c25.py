"""C25: clients start after all servers serve, servers stop last."""
import copy
import os as _os

from deepgnn.graph_engine.backends.snark import client as backend  # noqa: F401
from deepgnn.graph_engine.backends.snark import synchronized as sync

from checks.proclib import World
from symx.core import PropertyFailure
from symx.runner import Harness

BOUNDS = "numbers of servers and clients, start delays, holding times and limits as listed; every schedule of the processes and their threads at file operations, events and waits with at most the listed number of departures from the default order"
OUTSIDE = "more processes, other times, schedules with more departures; file systems with delayed visibility; processes that are killed"
ASSUMPTIONS = ["creating, removing and listing files is atomic and visible to all processes at once", "threads of a process switch only at file operations, waits and lock operations"]


class Log:
    def __init__(self):
        self.up, self.registered, self.left, self.asked, self.connected = {}, {}, {}, {}, {}


def _server(w, log, i):
    class Server:
        def __init__(self, *a, **k):
            if (a, k) != (("h", i), {"x": 5}):
                raise AssertionError(f"arguments of the server: {a} {k}")
            w.point()
            log.up[i] = w.now

        def reset(self):
            pass

    return Server


def _client(ctx, w, log, r, N):
    class Client:
        def __init__(self, *a, **k):
            ctx.check((a, k) == (("c", r), {"y": 6}), "arguments of the client", lambda: f"{a} {k}")
            ctx.check(sorted(log.up) == list(range(N)), "a client is created after every server started", lambda: f"client {r} saw servers {sorted(log.up)} of {N}")
            ctx.check(r not in log.connected, "a client is created once")
            log.connected[r] = w.now

        def reset(self):
            pass

    return Client


def deployment(ctx, b):
    w = World(ctx, b["switches"]).install()
    log = Log()
    N = ctx.pick("servers", 1, b["servers"])
    M = ctx.pick("clients", N, b["clients"])
    limit = ctx.choice("limit", b["limits"])
    w.list_order = ctx.choice("listing", [sorted, lambda x: sorted(x, reverse=True)][: b.get("listings", 1)])
    d = w.path("sync")
    _os.mkdir(d)
    first = ctx.choice("first_rank", b.get("first", [0]))
    delay = [ctx.choice(f"delay{p}", b["delays"]) for p in range(max(N, M))]
    hold = [ctx.choice(f"hold{p}", b["holds"]) for p in range(M)]
    servers, errors = {}, {}

    def worker(p):
        """A worker like the backend: server first, then client, closed in reverse."""
        w.sleep(delay[p])
        if p < N:
            s = sync.SynchronizedServer(d, p, limit, _server(w, log, p), "h", p, x=5)
            servers[p] = [q for q in w.procs if q.parent == w.current.pid]
        if p < M:
            r = first + p
            c = sync.SynchronizedClient(d, r, N, limit, _client(ctx, w, log, r, N), "c", r, y=6)
            log.registered[r] = t0 = w.now
            try:
                g = c.client
                ctx.check(g is c.client, "a client is created once")
            except TimeoutError:
                errors[r] = (t0, w.now)
                log.left[r] = w.now
            else:
                w.sleep(hold[p])
                if limit is None:
                    # a client that comes after the servers have gone would wait forever
                    w.wait(lambda: len(log.registered) == M)
                log.left[r] = w.now
                c.reset()
        if p < N:
            if p not in log.up:
                w.wait(lambda: p in log.up and _os.path.exists(_os.path.join(d, f"snark_{p}.server")))
            log.asked[p] = (w.now, [r for r in log.registered if r not in log.left], list(log.registered))
            s.reset()

    ts = [w.process(lambda p=p: worker(p), f"worker{p}") for p in range(max(N, M))]
    w.wait(lambda: all(t.done for t in ts))
    for name, e in w.unhandled:
        if isinstance(e, PropertyFailure):
            raise e
    ctx.check(not w.unhandled, "no process fails", lambda: f"{w.unhandled}")
    w.wait(lambda: all(q.task.done for q in w.procs), 5)
    for r, (t0, t1) in errors.items():
        # a server that was asked to stop before this client registered cannot know about it
        late = [i for i in range(N) if log.up.get(i, 1e9) > t0 + limit - 1.5 or (i in log.asked and r not in log.asked[i][2])]
        ctx.check(limit is not None and bool(late), "a client gives up only when its waiting limit is exceeded", lambda: f"client {r} waited from {t0} to {t1}, servers up at {log.up}, limit {limit}")
        ctx.check(t1 <= t0 + N * limit + 2, "a client gives up in time", lambda: f"{t1 - t0} s, limit {limit}")
        ctx.cover("gave up")
    ctx.check(len(log.connected) + len(errors) == M, "every client proceeds")
    for p in range(N):
        ctx.check(all(q.task.done for q in servers[p]), "a server stops when asked", lambda: f"server {p}")
        at = max(t for q, t in w.stopped if q in servers[p])
        t0, active, _ = log.asked[p]
        for r in active:
            ctx.check(log.left[r] <= at or (limit is not None and at >= t0 + limit), "a server stops after every client has finished", lambda: f"server {p} asked at {t0}, stopped at {at}, client {r} finished at {log.left[r]}")
            ctx.cover("server waited")
        last = max([t0] + [log.left[r] for r in active] + list(log.left.values()))
        ctx.check(at <= max(last + 2.5, t0), "a server stops soon after its clients", lambda: f"{at} {last}")
    ctx.check(not _os.listdir(d), "nothing is left in the shared directory", lambda: f"{_os.listdir(d)}")


def missing_server(ctx, b):
    """A server that never starts: clients report an error and the others go on."""
    w = World(ctx, b["switches"]).install()
    log = Log()
    N, M = ctx.pick("servers", 1, b["servers"]), ctx.pick("clients", 1, b["clients"])
    gone = ctx.pick("missing", 0, N - 1)
    limit = ctx.choice("limit", b["limits"])
    d = w.path("sync")
    _os.mkdir(d)
    res = {}

    def server(i):
        s = sync.SynchronizedServer(d, i, limit, _server(w, log, i), "h", i, x=5)
        w.sleep(limit * N + 5)
        s.reset()

    def client(r):
        c = sync.SynchronizedClient(d, r, N, limit, _client(ctx, w, log, r, N), "c", r, y=6)
        t0 = w.now
        try:
            c.client
        except TimeoutError:
            res[r] = w.now - t0

    ts = [w.process(lambda i=i: server(i), f"server{i}") for i in range(N) if i != gone] + [w.process(lambda r=r: client(r), f"client{r}") for r in range(M)]
    w.wait(lambda: all(t.done for t in ts))
    for name, e in w.unhandled:
        if isinstance(e, PropertyFailure):
            raise e
    ctx.check(not w.unhandled, "no process fails", lambda: f"{w.unhandled}")
    ctx.check(len(res) == M, "every client reports that servers are missing", lambda: f"{res}")
    for r, dt in res.items():
        ctx.check(limit <= dt <= N * limit + 2, "after the configured limit", lambda: f"{dt} s, limit {limit}")
    ctx.check(not _os.listdir(d), "nothing is left in the shared directory", lambda: f"{_os.listdir(d)}")


def forked(ctx, b):
    """Forked copies of a client share the registration of the original."""
    w = World(ctx, b["switches"]).install()
    log = Log()
    d = w.path("sync")
    _os.mkdir(d)
    s = sync.SynchronizedServer(d, 0, 20, _server(w, log, 0), "h", 0, x=5)
    made = []

    class Client:
        def __init__(self):
            ctx.check(0 in log.up, "a client is created after every server started")
            made.append(w.current.pid)

        def reset(self):
            pass

    c = sync.SynchronizedClient(d, 3, 1, 20, Client)
    early = ctx.flag("connect_first")
    if early:
        c.client

    def child():
        f = copy.copy(c)
        f._lock = sync.threading.Lock() if hasattr(f, "_lock") else None
        f.client
        w.sleep(ctx.choice("child_holds", [0, 2]))
        f.reset()

    ts = [w.process(child, f"fork{i}") for i in range(ctx.pick("forks", 1, b["forks"]))]
    w.wait(lambda: all(t.done for t in ts))
    for name, e in w.unhandled:
        raise e
    ctx.check(_os.path.exists(_os.path.join(d, "snark_3.client")), "a forked copy does not end the registration of its parent")
    stop = w.spawn(s.reset, "stopper")
    w.sleep(3)
    ctx.check(not any(q.task.done for q in w.procs), "a server stops after every client has finished")
    c.client
    c.reset()
    w.wait(lambda: stop.done)
    w.wait(lambda: all(q.task.done for q in w.procs), 5)
    ctx.check(all(q.task.done for q in w.procs), "a server stops after its clients")


def threads(ctx, b):
    """Threads of one process asking for the client at the same time."""
    w = World(ctx, b["switches"]).install()
    log = Log()
    d = w.path("sync")
    _os.mkdir(d)
    s = sync.SynchronizedServer(d, 0, 20, _server(w, log, 0), "h", 0, x=5)
    c = sync.SynchronizedClient(d, 0, 1, 20, _client(ctx, w, log, 0, 1), "c", 0, y=6)
    got = []
    ts = [w.spawn(lambda: got.append(c.client), f"user{i}") for i in range(b["users"])]
    w.wait(lambda: all(t.done for t in ts))
    for name, e in w.unhandled:
        raise e
    ctx.check(len(got) == b["users"] and all(g is got[0] for g in got), "all threads get the same client")
    c.reset()
    s.reset()
    ctx.check(not _os.listdir(d), "nothing is left in the shared directory")


HARNESSES = [
    Harness("deployment", deployment, {"servers": 2, "clients": 2, "limits": [3], "delays": [0, 1.3, 5], "holds": [0, 2, 6], "switches": 0, "first": [0, 9]}, {"servers": 3, "clients": 3, "limits": [3, None], "delays": [0, 1.3, 5], "holds": [0, 2, 6], "switches": 0, "first": [0, 9]}, covers=["gave up", "server waited"], weight=2, hang_s=20),
    Harness("clients", deployment, {"servers": 1, "clients": 3, "limits": [12], "delays": [0], "holds": [0, 2.5, 6], "listings": 2, "switches": 0}, {"servers": 2, "clients": 4, "limits": [12], "delays": [0], "holds": [0, 2.5, 6], "listings": 2, "switches": 0}, covers=["server waited"], hang_s=20),
    Harness("schedules", deployment, {"servers": 2, "clients": 2, "limits": [9], "delays": [0], "holds": [0, 1.3], "switches": 1}, {"servers": 2, "clients": 2, "limits": [9], "delays": [0, 1.3], "holds": [0], "switches": 2}, weight=2, hang_s=20),
    Harness("deep_schedules", deployment, {"servers": 1, "clients": 1, "limits": [9], "delays": [0], "holds": [0, 1.3], "switches": 3}, {"servers": 1, "clients": 2, "limits": [9], "delays": [0], "holds": [0], "switches": 3}, weight=2, hang_s=20),
    Harness("missing_server", missing_server, {"servers": 3, "clients": 2, "limits": [2, 4], "switches": 0}, {"servers": 3, "clients": 2, "limits": [1, 2, 4], "switches": 1}, hang_s=20),
    Harness("forked", forked, {"forks": 2, "switches": 1}, {"forks": 2, "switches": 2}, hang_s=20),
    Harness("threads", threads, {"users": 2, "switches": 2}, {"users": 3, "switches": 3}, hang_s=20),
]
