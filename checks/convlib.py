"""Conversion harness pieces: dispatchers under explored schedules, stand-in writers, line decoding."""
from deepgnn.graph_engine.snark import convert, dispatcher, meta, meta_merger  # noqa: F401
from deepgnn.graph_engine.snark.converter import process, writers

from symx.env import Env
from symx.sched import Sched

REAL_WRITER = writers.BinaryWriter
KINDS = [("pipe", True), ("pipe", False), ("queue", True), ("queue", False)]


class Decoder:
    """Turns line "k" into the k-th list of records, an empty line into none."""

    def __init__(self, records):
        self.records = records

    def decode(self, line):
        if isinstance(line, bytes):
            line = line.decode()
        return iter(self.records[int(line)] if line else [])


class Recorder:
    """A writer that only notes which records it was given."""

    made = None

    def __init__(self, folder, suffix, skip_node_sampler=False, skip_edge_sampler=False, watermark=None):
        self.folder, self.suffix, self.skips, self.watermark = str(folder), suffix, (skip_node_sampler, skip_edge_sampler), watermark
        self.got, self.closed = [], 0
        self.node_count = self.edge_count = self.node_type_num = self.edge_type_num = 0
        self.node_feature_count = self.edge_feature_count = 0
        self.node_weight, self.node_type_count, self.edge_weight, self.edge_type_count = [], [], [], []
        self.made.append(self)

    def add(self, data):
        assert not self.closed
        for r in data:
            self.got.append(r)
            self.node_count += 1

    def close(self):
        self.closed += 1


def setup(ctx, switches=0, recorder=False, max_steps=2000):
    s = Sched(ctx, budget=switches, max_steps=max_steps)
    env = Env(ctx)
    extra = {}
    made = []
    if recorder:
        cls = type("Recorder_", (Recorder,), {"made": made})
        extra[REAL_WRITER] = cls
    s.install(extra)
    return s, env, made


def make(kind, folder, P, route, decoder, offset=0, skip=(False, False), watermark=None):
    name, threads = kind
    k = dict(partition_offset=offset, use_threads=threads, skip_node_sampler=skip[0], skip_edge_sampler=skip[1], watermark=watermark)
    if name == "pipe":
        return dispatcher.PipeDispatcher(folder, P, decoder, **k)
    return dispatcher.QueueDispatcher(folder, P, lambda line: route[int(line)] if line else 0, decoder, **k)
