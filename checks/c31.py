"""C31: uploading stores exactly the bytes that were written."""
import queue

from azure.datalake.store import core as _adl_core, lib as _adl_lib

from deepgnn.graph_engine import adl_uploader

from symx.binio import ModShim
from symx.core import PropertyFailure
from symx.runner import Harness
from symx.sched import Sched

BOUNDS = "up to the listed numbers of calls of write and writelines with up to the listed numbers of lines (empty and non-ASCII ones included), chunk sizes, file limits, processes, threads and queue sizes; processes that start at once or so slowly that queues stay full; every schedule of caller, processes and threads with at most the listed number of departures from the default order"
OUTSIDE = "failing stores (a failed thread stops its process and later calls return False, the lost chunk is not reported); more data; schedules with more departures"
ASSUMPTIONS = ["the azure client is a stand-in that keeps the bytes of each opened file in order of writing", "processes share queues only"]
WORDS = ["a", "", "é\t1", "line 2"]


class Store:
    def __init__(self, ctx, s):
        self.ctx, self.s, self.files, self.open_now, self.log = ctx, s, {}, {}, []

    def fs(self, token=None, store_name=None, **k):
        self.ctx.check(store_name == "store" and token == "token", "the configured store is used")
        return self

    def open(self, path, mode="rb"):
        self.s.point()
        self.ctx.check(mode == "wb" and path not in self.files, "every file is written once", lambda: f"{path} {mode}")
        self.ctx.check(path.startswith("/out/emb"), "files have the configured prefix", lambda: path)
        f = File(self, path)
        self.files[path] = []
        self.open_now[path] = f
        return f


class File:
    def __init__(self, store, path):
        self.store, self.path, self.closed = store, path, False

    def write(self, data):
        self.store.s.point()
        self.store.ctx.check(not self.closed, "nothing is written to a closed file")
        self.store.files[self.path].append(bytes(data))

    def close(self):
        self.store.s.point()
        self.closed = True
        self.store.open_now.pop(self.path, None)

    def flush(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def upload(ctx, b):
    s = Sched(ctx, b["switches"], 4000)
    store = Store(ctx, s)
    pause = ctx.choice("sign_in", b.get("sign_in", [0]))

    def auth(**k):
        if pause:
            s.sleep(pause)
        return "token"

    s.install({_adl_core: ModShim(_adl_core, AzureDLFileSystem=store.fs), _adl_lib: ModShim(_adl_lib, auth=auth)})
    ctx.patch(adl_uploader.AdlCredentialParser, "read_credentials", staticmethod(lambda *a: {"TENANT_ID": "t", "CLIENT_SECRET": "s", "CLIENT_ID": "c"}))
    P, T = ctx.pick("processes", b.get("least", 1), b["processes"]), ctx.pick("threads", b.get("least_threads", 1), b["threads"])
    per_file = ctx.pick("per_file", 0, b["per_file"])
    per_chunk = ctx.pick("per_chunk", 1, b["per_chunk"])
    size = ctx.choice("queue", b["queues"])
    chunks, refused = [], []
    w = adl_uploader.AdlDataWriter("store", "/out/emb", max_chunks_per_file=per_file, process_num=P, threads_per_process=T, queue_size=size, max_lines_per_chunk=per_chunk)
    with w as ww:
        ctx.check(ww is w, "a writer is its own context")
        for c in range(ctx.pick("calls", 0, b["calls"])):
            if ctx.flag(f"lines{c}"):
                n = ctx.pick(f"n{c}", 0, b["lines"])
                lines = [f"{c}.{i} {WORDS[(c + i) % 4]}" for i in range(n)]
                if n:
                    lines[0] = ctx.choice(f"word{c}", [lines[0], ""])
                given = list(lines)
                try:
                    ok = w.writelines(lines)
                except queue.Full:
                    ok = False
                    refused.append([("\n".join(lines[i:i + per_chunk]) + "\n").encode() for i in range(0, n, per_chunk)])
                    ctx.check(pause > 0, "written lines are accepted")
                    ctx.cover("refused")
                    continue
                ctx.check(ok is True, "written lines are accepted")
                ctx.check(lines == given, "the caller's lines stay as they are")
                chunks += [("\n".join(lines[i:i + per_chunk]) + "\n").encode() for i in range(0, n, per_chunk)]
            else:
                text = ctx.choice(f"text{c}", [f"w{c}é", ""])
                w.write(text)
                if text:
                    chunks.append(text.encode())
    for name, e in s.unhandled:
        if isinstance(e, PropertyFailure):
            raise e
    ctx.check(not s.unhandled, "uploading does not fail", lambda: f"{s.unhandled}")
    got = [x for f in store.files.values() for x in f if x]
    for r in refused:  # a refused call may have stored its first chunks
        k = 0
        while k < len(r) and got.count(r[k]) > chunks.count(r[k]):
            chunks.append(r[k])
            k += 1
        ctx.check(k < len(r), "lines are refused only when they are not stored", lambda: f"{r} {store.files}")
    ctx.check(sorted(got) == sorted(chunks), "exactly what was written is stored", lambda: f"{store.files} for {chunks}")
    ctx.check(not store.open_now, "every file is closed", lambda: f"{list(store.open_now)}")
    if len(set(chunks)) == len(chunks) and not refused:
        for p, f in store.files.items():
            idx = [chunks.index(x) for x in f if x]
            ctx.check(idx == sorted(idx), "a file keeps the order of writing", lambda: f"{p} {idx}")
    for p, f in store.files.items():
        ctx.check(per_file == 0 or len(f) <= per_file, "a file has no more than the allowed number of chunks", lambda: f"{p} {f}")
    if P * T == 1 and not per_file and chunks:
        ctx.check(len(store.files) == 1, "one thread without limit writes one file", lambda: f"{list(store.files)}")
        ctx.cover("one file")
    ctx.check(w.writelines(["late"]) is False, "a closed writer refuses lines")
    w.close()


HARNESSES = [
    Harness("writes", upload, {"processes": 2, "threads": 2, "per_file": 2, "per_chunk": 2, "queues": [1, 4], "calls": 2, "lines": 3, "switches": 0}, {"processes": 2, "threads": 3, "per_file": 2, "per_chunk": 2, "queues": [1, 4], "calls": 3, "lines": 2, "switches": 0}, covers=["one file"], weight=2, hang_s=20),
    Harness("slow_start", upload, {"processes": 2, "threads": 1, "per_file": 0, "per_chunk": 2, "queues": [1, 2], "calls": 2, "lines": 3, "sign_in": [3], "switches": 0}, {"processes": 2, "threads": 2, "per_file": 1, "per_chunk": 2, "queues": [1, 2, 3], "calls": 2, "lines": 4, "sign_in": [0.5, 3], "switches": 0}, covers=["refused"], hang_s=20),
    Harness("schedules", upload, {"processes": 1, "least_threads": 2, "threads": 2, "per_file": 1, "per_chunk": 1, "queues": [1], "calls": 1, "lines": 2, "switches": 1}, {"processes": 2, "threads": 2, "per_file": 1, "per_chunk": 1, "queues": [1], "calls": 1, "lines": 2, "switches": 1}, weight=2, hang_s=20),
    Harness("deep_schedules", upload, {"processes": 1, "least_threads": 2, "threads": 2, "per_file": 0, "per_chunk": 1, "queues": [1], "calls": 0, "lines": 1, "switches": 2}, {"processes": 1, "least_threads": 2, "threads": 2, "per_file": 0, "per_chunk": 1, "queues": [1], "calls": 1, "lines": 1, "switches": 2}, weight=2, hang_s=20),
]
