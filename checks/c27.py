"""C27: workers agree on their ranks, counts and server addresses."""
import argparse
import json as _json
import os as _os
import socket as _socket

from deepgnn.graph_engine import graph_dataset
from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
from deepgnn.graph_engine.backends.snark import client as backend
from deepgnn.graph_engine.snark.client import PartitionStorageType

from checks.proclib import World
from symx.binio import ModShim
from symx.core import And, Eq, Ite, PropertyFailure
from symx.env import Env
from symx.runner import Harness

BOUNDS = "jobs of the listed numbers of hosts and workers per host started by DDP, MPI, Horovod, TensorFlow arguments, TF_CONFIG or explicit indices; hosts enumerated in any order; shared directories listed in the given orders; every schedule with at most the listed number of departures from the default order; rank arithmetic for up to 10^6 hosts"
OUTSIDE = "hosts with different numbers of workers under DDP, MPI and Horovod (documented as unsupported); more hosts; schedules with more departures; two jobs in one model directory at the same time"
ASSUMPTIONS = ["the servers and clients that the backend starts are stand-ins that record their arguments", "the network stack gives every host its own name and never the same port twice"]
META = {"binary_data_version": "v2", "node_count": 4, "edge_count": 0, "node_type_count": 1, "edge_type_count": 1, "node_feature_count": 0, "edge_feature_count": 0, "watermark": -1,
        "node_count_per_type": [4], "edge_count_per_type": [0]}


def namespace(**k):
    d = dict(backend="snark", graph_type=GraphType.REMOTE, servers=[], server_idx=None, client_rank=None, num_ge=0, ge_start_timeout=30, skip_ge_start=False, sync_dir="", enable_ssl=False, ssl_cert="cert")
    d.update(k)
    return argparse.Namespace(**d)


def ranks(ctx, b):
    """Indices derived from the environment of one worker of a uniform job of any size."""
    kind = ctx.choice("kind", ["ddp", "mpi", "horovod"])
    L = ctx.pick("per_host", 1, b["per_host"])
    H = ctx.int("hosts", 1, 10**6)
    h, j = ctx.int("host", 0, 10**6), ctx.int("local", 0, b["per_host"] - 1)
    ctx.assume(And(h < H, j < L))
    t = lambda v: ctx.token(v)
    if kind == "ddp":
        e = {"LOCAL_RANK": t(j), "LOCAL_WORLD_SIZE": str(L), "WORLD_SIZE": t(H * L), "RANK": t(h * L + j)}
    else:
        p = {"mpi": "OMPI_COMM_WORLD", "horovod": "HOROVOD"}[kind]
        e = {p + "_LOCAL_RANK": t(j), p + "_LOCAL_SIZE": str(L), p + "_SIZE": t(H * L), p + "_RANK": t(h * L + j)}
    made = {}

    class Servers(list):
        def __getitem__(self, i):
            return ("addr", i)

        def __len__(self):
            return 10**6

    class S:
        def __init__(self, path, index, limit, klass, addr, data, idx, count, **k):
            made["server"] = (index, addr, idx, count, k.get("storage_type"), data)

        def reset(self):
            pass

    class C:
        def __init__(self, path, rank, count, limit, klass, servers, *a, **k):
            made["client"] = (rank, count, servers)

    os_ = ModShim(_os, getenv=lambda k, d=None: e.get(k, d), environ=e, makedirs=lambda *a, **k: None)
    Env(ctx, extra={_os: os_, backend.SynchronizedServer: S, backend.SynchronizedClient: C})
    if not ctx.symbolic:
        ctx.patch(backend, "os", os_)
        ctx.patch(backend, "SynchronizedServer", S)
        ctx.patch(backend, "SynchronizedClient", C)
    servers = Servers()
    backend.SnarkDistributedBackend(BackendOptions(namespace(data_dir="/d", model_dir="/m", servers=servers)))
    rank, count, given = made["client"]
    ctx.check_eq(rank, h * L + j, "a client's rank is the worker's rank")
    ctx.check(given is servers and count == 10**6, "a client knows all servers")
    if "server" in made:
        index, addr, idx, n, st, data = made["server"]
        ctx.check(Eq(j, 0), "one worker per host starts a server")
        ctx.check(And(Eq(index, h), Eq(idx, h)), "servers are numbered by host", lambda: f"{index} {idx} {h}")
        ctx.check(Eq(addr[1], h), "a server listens at its own address")
        ctx.check(n == 10**6 and data == "/d" and st == PartitionStorageType.memory, "a server knows the data and the number of servers")
        ctx.cover("server")
    else:
        ctx.check(j > 0, "every host starts a server")
        ctx.cover("no server")


class Net:
    """Sockets that hand out names and ports of the host of the running process."""

    def __init__(self, w):
        self.w, self.ports = w, {}

    def module(self):
        net = self

        class Sock:
            def __init__(self, *a, **k):
                self.name = None

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def setsockopt(self, *a):
                pass

            def connect(self, addr):
                self.name = (net.w.env["HOST"], 9)

            def bind(self, addr):
                h = net.w.env["HOST"]
                if addr[0] not in (h, "", "localhost", "0.0.0.0"):
                    raise OSError(f"cannot assign {addr} on {h}")
                net.ports[h] = net.ports.get(h, 5000) + 1
                self.name = (addr[0], net.ports[h])

            def getsockname(self):
                return self.name

            def __getattr__(self, n):
                raise OSError("no network")

        return ModShim(_socket, socket=Sock)


def job(ctx, w, b, tag, H, L, kind, given, data, model):
    """Runs one job and judges what its workers agreed on."""
    log = {"server": [], "client": []}
    W = H * L

    class Server:
        def __init__(self, hostname, data_path, index, total_shards, *a, **k):
            w.point()
            log["server"].append((w.env["WORKER"], hostname, data_path, index, total_shards))

        def reset(self):
            pass

    class Client:
        def __init__(self, servers, *a, **k):
            log["client"].append((w.env["WORKER"], list(servers), len(log["server"])))

        def reset(self):
            pass

    ctx.patch(backend, "Server", Server)
    ctx.patch(backend, "DistributedClient", Client)
    workers = [(h, j) for h in range(H) for j in range(L)]
    v6 = kind.startswith("tf") and ctx.flag(tag + "ipv6")
    hosts = [f"[fe80::{i}]" if v6 else f"host{i}" for i in range(H)]
    if kind.startswith("tf"):
        perm = ctx.permutation(f"{tag}order", W)
        workers = [workers[i] for i in perm]
        names = [f"{hosts[h]}:{2000 + j}" for h, j in workers]
    fixed = [f"{h}:7777" for h in hosts] if given else []
    opts = {}
    delay = [ctx.choice(f"{tag}delay{i}", b["delays"]) for i in range(W)]

    def worker(i):
        h, j = workers[i]
        k = {}
        if kind == "tf_args":
            k = dict(task_index=i, worker_hosts=list(names))
        elif kind == "explicit":
            k = dict(server_idx=h if j == 0 else -1, client_rank=h if j == 0 else H + h * L + j, num_ge=0 if given else H)
        ns = namespace(data_dir=data, model_dir=model, servers=list(fixed), **k)
        w.sleep(delay[i])
        o = opts[i] = BackendOptions(ns)
        be = graph_dataset.create_backend(o)
        g = be.graph
        ctx.check(g is be.graph, "one client per worker")
        if kind == "tf_args":
            ctx.check(ns.worker_hosts == names, "the caller's list of workers stays as given", lambda: f"{ns.worker_hosts} {names}")
        w.sleep(max(b["delays"]) + 2)
        be.close()

    ts = []
    for i, (h, j) in enumerate(workers):
        r = h * L + j
        e = {"HOST": hosts[h], "WORKER": i}
        if kind == "ddp":
            e.update(LOCAL_RANK=str(j), LOCAL_WORLD_SIZE=str(L), WORLD_SIZE=str(W), RANK=str(r))
        elif kind in ("mpi", "horovod"):
            p = {"mpi": "OMPI_COMM_WORLD", "horovod": "HOROVOD"}[kind]
            e.update({p + "_LOCAL_RANK": str(j), p + "_LOCAL_SIZE": str(L), p + "_SIZE": str(W), p + "_RANK": str(r)})
        elif kind == "tf_config":
            e["TF_CONFIG"] = _json.dumps({"cluster": {"worker": names, "ps": ["p:1"]}, "task": {"type": "worker", "index": i}})
        ts.append(w.process(lambda i=i: worker(i), f"worker{i}", e))
    w.wait(lambda: all(t.done for t in ts))
    for name, e in w.unhandled:
        if isinstance(e, PropertyFailure):
            raise e
    ctx.check(not w.unhandled, "every worker starts", lambda: f"{w.unhandled}")
    w.wait(lambda: all(q.task.done for q in w.procs), 5)
    lists = [x[1] for x in log["client"]]
    ctx.check(len(lists) == W, "every worker has a client", lambda: f"{log}")
    ctx.check(all(x == lists[0] for x in lists) and len(lists[0]) == H, "all workers use the same list of servers", lambda: f"{lists}")
    ctx.check(all(x[2] == H for x in log["client"]), "clients are created when all servers run")
    ctx.check(sorted(x[3] for x in log["server"]) == list(range(H)), "servers have distinct indices below their number", lambda: f"{log['server']}")
    for i, addr, d, index, n in log["server"]:
        ctx.check(n == H and d == data, "a server knows the number of servers and the data", lambda: f"{n} {d}")
        ctx.check(addr == lists[0][index], "a server listens where clients expect it", lambda: f"{addr} {index} {lists[0]}")
        if given:
            ctx.check(addr == fixed[index], "given addresses are used")
        else:
            ctx.check(addr.rsplit(":", 1)[0] == hosts[workers[i][0]], "a server listens on its own host", lambda: f"server {index} on {hosts[workers[i][0]]} at {addr}")
    if len({workers[x[0]][0] for x in log["server"]}) == H:
        ctx.cover("one per host")
    ctx.check(len({workers[x[0]][0] for x in log["server"]}) == H, "one server per host", lambda: f"{log['server']}")


def jobs(ctx, b):
    w = World(ctx, b["switches"], max_steps=20000)
    w.install({_socket: Net(w).module()}, modules=("deepgnn.graph_engine.backends", "deepgnn.graph_engine.snark"))
    w.list_order = ctx.choice("listing", [sorted, lambda x: sorted(x, reverse=True), lambda x: sorted(x)[1:] + sorted(x)[:1]][: b["listings"]])
    w.slow = b.get("slow")
    data = w.path("data")
    _os.mkdir(data)
    model = w.path("model")
    _os.mkdir(model)
    meta = dict(META)
    meta["partitions"] = {str(i): {"node_weight": [1.0], "edge_weight": [1.0]} for i in range(ctx.choice("partitions", b.get("partitions", [2])))}
    with open(_os.path.join(data, "meta.json"), "w") as f:
        f.write(_json.dumps(meta))
    kind = ctx.choice("kind", b["kinds"])
    H, L = ctx.pick("hosts", 1, b["hosts"]), ctx.pick("per_host", 1, b["per_host"])
    given = ctx.flag("servers_given") if b.get("given") else False
    job(ctx, w, b, "", H, L, kind, given, data, model)
    if b.get("again"):
        H2 = ctx.pick("hosts2", 1, b["hosts"])
        w.sleep(10)
        job(ctx, w, b, "second_", H2, L, kind, given, data, model)
        ctx.cover("second job")


def existing(ctx, b):
    """Connecting to servers that already run, and a local graph: options are passed on."""
    made = {}

    class Client:
        def __init__(self, *a, **k):
            made.setdefault("n", []).append((a, k))

        def reset(self):
            made["reset"] = True

    Env(ctx, extra={backend.DistributedClient: Client, backend.LocalClient: Client})
    if not ctx.symbolic:
        ctx.patch(backend, "DistributedClient", Client)
        ctx.patch(backend, "LocalClient", Client)
    local = ctx.flag("local")
    if local:
        parts = [ctx.pick(f"part{i}", 0, 3) for i in range(ctx.pick("partitions", 0, 3))]
        st = ctx.choice("storage", list(PartitionStorageType))
        stream = ctx.flag("stream")
        o = BackendOptions(namespace(graph_type=GraphType.LOCAL, data_dir="/data", partitions=parts, storage_type=st, config_path="/cfg", stream=stream))
        be = graph_dataset.create_backend(o)
        ctx.check(isinstance(be.graph, Client) and be.graph is be.graph, "the local graph is opened")
        a, k = made["n"][0]
        got = dict(zip(["path", "partitions", "storage_type", "config_path", "stream"], a))
        got.update(k)
        ctx.check(got == {"path": "/data", "partitions": parts, "storage_type": st, "config_path": "/cfg", "stream": stream}, "options of the local graph", lambda: f"{got}")
    else:
        servers = [f"h{i}:{ctx.pick(f'port{i}', 1, 2)}" for i in range(ctx.pick("servers", 1, 3))]
        ssl = ctx.flag("ssl")
        nt = ctx.choice("threads", [None, 3])
        o = BackendOptions(namespace(servers=servers, skip_ge_start=True, enable_ssl=ssl, num_threads=nt, num_cq_per_thread=5, grpc_options=[("a", "b")], data_dir="/nowhere", model_dir="/nowhere"))
        be = graph_dataset.create_backend(o)
        be.close()
        ctx.check("n" not in made and "reset" not in made, "no client is created before it is needed")
        g = be.graph
        ctx.check(g is be.graph and len(made["n"]) == 1, "one client per worker")
        a, k = made["n"][0]
        got = dict(zip(["servers", "ssl_cert", "grpc_options", "num_threads", "num_cq_per_thread"], a))
        got.update(k)
        want = {"servers": servers, "ssl_cert": "cert" if ssl else None, "grpc_options": [("a", "b")], "num_threads": nt, "num_cq_per_thread": 5}
        ctx.check(got == want, "the client connects to all given servers", lambda: f"{got} {want}")
        be.close()
        ctx.check(made.get("reset"), "closing disconnects the client")


ALL = ["ddp", "mpi", "horovod", "tf_args", "tf_config", "explicit"]
HARNESSES = [
    Harness("ranks", ranks, {"per_host": 4}, {"per_host": 16}, covers=["server", "no server"]),
    Harness("jobs", jobs, {"kinds": ALL, "hosts": 2, "per_host": 2, "given": True, "delays": [0], "switches": 0, "listings": 3, "partitions": [1, 7]}, {"kinds": ALL, "hosts": 3, "per_host": 2, "given": True, "delays": [0], "switches": 0, "listings": 3, "partitions": [1, 7]}, covers=["one per host"], weight=3, hang_s=30),
    Harness("delays", jobs, {"kinds": ["ddp", "tf_args"], "hosts": 2, "per_host": 1, "delays": [0, 1.7, 4], "switches": 0, "listings": 2}, {"kinds": ["ddp", "explicit", "tf_config"], "hosts": 3, "per_host": 1, "delays": [0, 1.7, 4], "switches": 0, "listings": 2}, weight=2, hang_s=30),
    Harness("again", jobs, {"kinds": ["ddp", "tf_config"], "hosts": 2, "per_host": 1, "again": True, "delays": [0, 1.7], "switches": 0, "listings": 1}, {"kinds": ALL, "hosts": 3, "per_host": 1, "again": True, "delays": [0], "switches": 0, "listings": 2}, covers=["second job"], weight=2, hang_s=30),
    Harness("schedules", jobs, {"kinds": ["ddp"], "hosts": 2, "per_host": 1, "delays": [0], "switches": 1, "listings": 1}, {"kinds": ["ddp", "explicit"], "hosts": 2, "per_host": 2, "delays": [0], "switches": 1, "listings": 1}, weight=2, hang_s=30),
    Harness("slow_starts", jobs, {"kinds": ["ddp"], "hosts": 2, "per_host": 1, "delays": [0], "slow": [0, 2.5], "switches": 0, "listings": 1}, {"kinds": ["ddp", "explicit"], "hosts": 3, "per_host": 1, "delays": [0], "slow": [0, 2.5], "switches": 0, "listings": 1}, weight=2, hang_s=30),
    Harness("existing", existing, {}, {}),
]
