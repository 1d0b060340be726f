"""C23: exactly the requested partitions are loaded, each once."""
from deepgnn.graph_engine.backends.options import BackendOptions
from deepgnn.graph_engine.backends.snark import client as backend
from deepgnn.graph_engine.snark import client, distributed, local, server

from checks.nativelib import setup, write_meta
from symx.core import has_sym
from symx.runner import Harness

BOUNDS = "lists of partitions of the listed lengths with any 32-bit ids in any order, plain or with their own location; every storage mode, streaming and option value; partition and server counts as listed"
OUTSIDE = "longer lists; the native loader itself; remote storage (downloads are C28)"
ASSUMPTIONS = []
ST = client.PartitionStorageType


class Engine:
    def __init__(self):
        self.loads = []

    def CreateLocalGraph(self, graph, **a):
        self.loads.append((graph, a))

    def StartServer(self, graph, **a):
        self.loads.append((graph, a))


def arg(a, *names):
    for n in names:
        if n in a:
            return a[n]
    raise KeyError(names)


def judge(ctx, eng, env, want, storage, config):
    """One load of exactly the wanted (location, id) list."""
    ctx.check(len(eng.loads) == 1, "the engine loads once", lambda: f"{len(eng.loads)}")
    g, a = eng.loads[0]
    n = arg(a, "count")
    ctx.check(bool(n == len(want)), "number of partitions given to the engine", lambda: f"{n} of {len(want)}")
    ctx.check_eq(arg(a, "partition_indices").read(len(want)), [i for _, i in want], "partitions given to the engine")
    ctx.check(list(arg(a, "partition_locations")) == [p for p, _ in want], "location of every partition", lambda: f"{arg(a, 'partition_locations')} for {want}")
    ctx.check(bool(arg(a, "storage_type") == int(storage)), "storage mode", lambda: f"{arg(a, 'storage_type')}")
    ctx.check((arg(a, "config_path") or "") == config, "configuration path", lambda: f"{arg(a, 'config_path')}")
    return a


def request(ctx, b, env, tuples=True):
    """Partition list as a caller writes it, and what it means."""
    n = ctx.pick("n", b.get("min", 0), b["n"])
    given, want = [], []
    for i in range(n):
        pid = ctx.int(f"id{i}", 0, 2**32 - 1) if not b.get("small") else ctx.pick(f"id{i}", 0, 4)
        own = tuples and ctx.flag(f"own{i}")
        loc = env.path(f"part{i}") if own else env.path()
        given.append((loc, pid) if own else pid)
        want.append((loc, pid))
    return given, want


def open_local(ctx, b):
    eng = Engine()
    env, lib = setup(ctx, eng)
    write_meta(env, partitions=3)
    storage = ctx.choice("storage", [ST.memory, ST.disk])
    config = ctx.choice("config", ["", "/conf"])
    stream = ctx.flag("stream")
    kind = ctx.choice("how", ["graph", "client", "backend"])
    given, want = request(ctx, b, env, kind == "graph")
    keep = list(given)
    if kind == "graph":
        if not given and ctx.flag("unspecified"):
            given, want = None, [(env.path(), 0)]
        make = lambda: client.MemoryGraph(env.path(), given, storage, config, stream)  # noqa: E731
    elif kind == "client":
        want = want or [(env.path(), 0)]
        make = lambda: local.Client(env.path(), given, storage, config, stream)  # noqa: E731
    else:
        want = want or [(env.path(), 0)]
        import argparse

        o = argparse.Namespace(data_dir=env.path(), partitions=given, storage_type=storage, config_path=config, stream=stream)
        make = lambda: backend.SnarkLocalBackend(BackendOptions(o))  # noqa: E731
    if stream and storage == ST.disk:
        try:
            make()
        except ValueError:
            ctx.check(not eng.loads, "a refused mode loads nothing")
            return
        ctx.fail("streaming to disk storage is refused")
    g = make()  # noqa: F841
    a = judge(ctx, eng, env, want, storage, config)
    ctx.check(a["meta_location"] == env.path(), "location of the metadata", lambda: f"{a['meta_location']}")
    if given is not None:
        ctx.check(len(given) == len(keep) and all(x is y for x, y in zip(given, keep)), "the caller's list is left alone")


def open_server(ctx, b):
    eng = Engine()
    env, lib = setup(ctx, eng)
    write_meta(env, partitions=3)
    storage = ctx.choice("storage", [ST.memory, ST.disk])
    config = ctx.choice("config", ["", "/conf"])
    given, want = request(ctx, b, env)
    ssl = {"ssl_key": "KEY", "ssl_root": "ROOT", "ssl_cert": "CERT"} if ctx.flag("ssl") else None
    skip = (ctx.flag("skip_features"), ctx.flag("skip_times"))
    s = server.Server(env.path(), given, "host:1", ssl, storage, config, False, *skip)
    a = judge(ctx, eng, env, want, storage, config)
    judge_server(ctx, env, a, ssl, skip)
    s.reset()
    ctx.check(len(lib.named("ResetServer")) == 1, "the server is stopped once")


def judge_server(ctx, env, a, ssl, skip):
    ctx.check(a["meta_location"] == env.path(), "location of the metadata", lambda: f"{a['meta_location']}")
    ctx.check(a["host_name"] == "host:1", "address of the server", lambda: f"{a['host_name']}")
    got = (a["ssl_key"], a["ssl_root"], a["ssl_cert"])
    ctx.check(got == (("KEY", "ROOT", "CERT") if ssl else (None, None, None)), "certificates", lambda: f"{got}")
    ctx.check((bool(a["skip_feature_loading"]), bool(a["skip_temporal_loading"])) == skip, "what to skip", lambda: f"{a['skip_feature_loading']} {a['skip_temporal_loading']}")


def servers(ctx, b):
    eng = Engine()
    env, lib = setup(ctx, eng)
    P = ctx.pick("partitions", 1, b["partitions"])
    N = ctx.pick("servers", 1, b["servers"])
    write_meta(env, partitions=P)
    storage = ctx.choice("storage", [ST.memory, ST.disk])
    ssl = ctx.flag("ssl")
    skip = (ctx.flag("skip_features"), ctx.flag("skip_times"))
    seen = []
    for i in range(N):
        eng.loads.clear()
        kw = {"ssl_key": "KEY", "ssl_root": "ROOT", "ssl_cert": "CERT"} if ssl else {}
        s = distributed.Server("host:1", env.path(), i, N, storage_type=storage, config_path="/conf", skip_feature_loading=skip[0], skip_temporal_loading=skip[1], **kw)
        ctx.check(len(eng.loads) == 1, "every server loads once")
        a = eng.loads[0][1]
        ids = [int(x) for x in a["partition_indices"].read(int(a["count"]))]
        judge(ctx, eng, env, [(env.path(), x) for x in ids], storage, "/conf")
        judge_server(ctx, env, a, ssl, skip)
        seen += ids
        s.reset()
    ctx.check(sorted(seen) == list(range(P)), "every partition is loaded by exactly one server", lambda: f"{sorted(seen)} of {P} on {N} servers")
    if N > P:
        ctx.cover("more servers than partitions")


HARNESSES = [
    Harness("local", open_local, {"n": 4}, {"n": 5}),
    Harness("server", open_server, {"n": 3}, {"n": 5}),
    Harness("servers", servers, {"partitions": 9, "servers": 8}, {"partitions": 20, "servers": 20}, covers=["more servers than partitions"]),
]
