"""Graphs behind the interface for Python, in the process or on servers."""
from checks import c33, c34, englib
from checks.englib import prepare  # noqa: F401
from symx import native
from symx.runner import Harness

native.REMOTE = True
BOUNDS = ("the graphs and queries of C33 and C34, in the process, on one server or with their files spread in any way over two (thorough three) servers, replies arriving in any order")
OUTSIDE = "failing connections and servers, messages larger than these, several client threads, servers without a graph, larger graphs; edges stored on two servers"
ASSUMPTIONS = c33.ASSUMPTIONS + [
    "gRPC, protobuf and std::thread are stand-ins: messages are carried as objects, a request is handled by the real CallData and service objects when it is sent, its reply is processed by the client's own loop when it arrives, which may be at any time until the client waits for it",
]


def served(fn):
    def run(ctx, b):
        def deploy(ctx, partitions):
            most = b.get("servers", 2)
            n = ctx.pick("servers", b.get("least_servers", 0), most)
            owner = [p % n if b.get("own") and n else ctx.pick(f"owner{p}", 0, n - 1) if n > 1 else 0 for p in partitions]
            if b.get("full"):
                ctx.assume(len(set(owner)) == max(n, 1))
            if n > 1 and b.get("used", 1):
                ctx.assume(len(set(owner)) > 1 or len(partitions) == 1)
            ctx.cover("two servers") if len(set(owner)) > 1 else None
            return n, owner

        englib.DEPLOY = deploy
        try:
            fn(ctx, b)
        finally:
            englib.DEPLOY = None

    return run


L = {"least_servers": 2}
HARNESSES = [
    Harness("node", served(c33.node), {"edges": 2, "types": 2, "asked": 1, "servers": 1}, {"edges": 3, "types": 3, "asked": 2}, weight=2),
    Harness("files", served(c33.files), {"edges": 1, "layouts": c33.TWO[:2], "owned": 1, "both": 1, "least_servers": 1}, {"edges": 2, "layouts": c33.TWO + [("0_0", "0_1", "1_0")], "owned": 1, "servers": 3}, covers=["two servers", "two files"], weight=5),
    Harness("lists", served(c34.lists), {"edges": 2, "types": 1, "asked": 1, "split": 1}, {"edges": 3, "types": 2, "asked": 2, "split": 1}, covers=["two servers", "two there"], weight=2),
    Harness("lists_two", served(c34.lists), {"edges": 1, "types": 1, "asked": 2, "split": 1, **L}, {"edges": 2, "types": 2, "asked": 2, "split": 1}, covers=["two servers"]),
    Harness("last", served(c34.last), {"edges": 2, "types": 1, "asked": 1, "split": 1, "count": 2}, {"edges": 3, "types": 2, "asked": 2, "split": 1, "count": 2}, covers=["two servers", "more than asked for"], weight=2),
    Harness("last_two", served(c34.last), {"edges": 1, "types": 1, "asked": 2, "split": 1, "count": 2, **L}, {"edges": 2, "types": 2, "asked": 2, "split": 1, "count": 2}, covers=["two servers"]),
]
