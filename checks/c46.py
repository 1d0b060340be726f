"""C46: training gives the model every batch once, also across restarts."""
import os
import pickle
import shutil
import tempfile
import types

from checks import stublib

stublib.install()
import torch  # noqa: E402
import torch.utils.data  # noqa: E402


import torch.distributed  # noqa: E402
import torch.nn.parallel  # noqa: E402
import torch.nn.utils  # noqa: E402
import torch.optim.lr_scheduler  # noqa: E402
import torch.utils.tensorboard  # noqa: E402


class IterableDataset:
    pass


class NoGrad:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Writer:
    def __init__(self, *a, **k):
        pass

    def add_scalar(self, *a, **k):
        pass

    def close(self):
        pass

    flush = close


class LambdaLR:
    def __init__(self, optimizer, fn, last_epoch=-1, *a, **k):
        self.optimizer, self.fn, self.last_epoch = optimizer, fn, last_epoch + 1
        optimizer.rate = fn(self.last_epoch)

    def step(self):
        self.last_epoch += 1
        self.optimizer.rate = self.fn(self.last_epoch)

    def get_last_lr(self):
        return [self.optimizer.rate]


class Group:
    """Workers of a distributed training, run one after another."""

    rank, size, shared = 0, 1, None

    @staticmethod
    def broadcast(vector, src, *a, **k):
        if Group.rank == src:
            Group.shared = list(vector)
        else:
            vector[:] = Group.shared

    @staticmethod
    def fill(vector, params):
        list(params)[0].applied = list(vector)


torch.utils.data.IterableDataset = IterableDataset
torch.utils.tensorboard.SummaryWriter = Writer
torch.optim.lr_scheduler.LambdaLR = LambdaLR
torch.no_grad = NoGrad
torch.nn.parallel.DistributedDataParallel = lambda m, *a, **k: m
torch.nn.utils.parameters_to_vector = lambda ps: list(list(ps)[0].applied)
torch.nn.utils.vector_to_parameters = Group.fill
for _k, _f in dict(init_process_group=lambda *a, **k: None, destroy_process_group=lambda *a, **k: None, get_rank=lambda *a: Group.rank, get_world_size=lambda *a: Group.size,
                   broadcast=Group.broadcast, all_reduce=lambda *a, **k: None).items():
    setattr(torch.distributed, _k, _f)

from deepgnn import TrainMode  # noqa: E402
from deepgnn.pytorch.common import utils  # noqa: E402
from deepgnn.pytorch.training import trainer as tr  # noqa: E402
from deepgnn.pytorch.training import trainer_ddp, trainer_fp16  # noqa: E402

from symx.core import Sum  # noqa: E402
from symx.runner import Harness  # noqa: E402

BOUNDS = "training of up to the listed epochs and batches per epoch with any checkpoint intervals, limits on kept checkpoints and on samples within the listed ranges, interrupted at any batch, before or after any saved checkpoint and before any removal of a checkpoint, up to the listed number of times; single and distributed trainer; checkpoints with epochs and steps around the widths of their file names, saved at any times"
OUTSIDE = "longer runs, checkpoints cut short while they are written, the state of the optimizer and of the learning-rate schedule (not part of a checkpoint), apex, TensorFlow and Horovod trainers, limits smaller than one batch"
ASSUMPTIONS = [
    "torch is a stand-in: a model holds the list of batches its optimizer applied, saving stores this list in a scratch directory and loading returns it",
    "a dataset gives the same batches in every epoch",
    "distributed workers stop at the same batch and share the first worker's parameters",
]


class Crash(BaseException):
    pass


class Value:
    """A tensor of one value."""

    def __init__(self, v, rows=1):
        self.v, self.rows = v, rows

    data = property(lambda self: self)
    shape = (1,)
    device = "cpu"

    def item(self):
        return self.v

    def size(self, dim=None):
        return self.rows

    def detach(self):
        return self

    def cpu(self):
        return self

    def cuda(self):
        return self

    def backward(self):
        self.model.grads.append(self.batch)

    def nelement(self):
        return 1

    def __truediv__(self, o):
        return Value(self.v / o)

    def __format__(self, spec):
        return "value"

    def __reduce__(self):
        return (Value, (self.v, self.rows))


class Optimizer:
    def __init__(self, model):
        self.model, self.rate = model, 1
        self.defaults = {"lr": 1}

    def zero_grad(self, *a, **k):
        self.model.grads = []

    def step(self):
        self.model.applied.extend(self.model.grads)


class Model:
    """Its parameters are the batches applied to it."""

    def __init__(self, world):
        self.stop = None
        self.w, self.applied, self.grads, self.training = world, [], [], True
        self.forwards, self.embedded, self.metrics = [], [], []

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def __call__(self, data):
        self.w.event()
        if self.stop is not None and self.stop == len(self.forwards) + 1:
            raise Crash()
        self.forwards.append((self.training, data["set"], data["i"]))
        loss = Value(self.w.loss(data["i"]))
        loss.model, loss.batch = self, data["i"]
        return loss, Value(data["i"], rows=2), Value(data["i"])

    def parameters(self):
        return [self]

    def named_parameters(self):
        return [("p", Value(0))]

    def state_dict(self):
        return {"p": Applied(self.applied)}

    def load_state_dict(self, d, *a, **k):
        self.applied = list(d["p"].batches)

    def metric_name(self):
        return "metric"

    def compute_metric(self, preds, labels):
        self.metrics.append([p.v for p in preds])
        return Value(self.w.metric(preds[0].v if len(preds) == 1 else -1))

    def get_embedding(self, data):
        self.w.event()
        self.forwards.append((self.training, data["set"], data["i"]))
        return Value(data["i"])

    def output_embedding(self, fp, data, embedding):
        fp.write(f"{data['i']} {embedding.v}\n")


class Applied:
    shape = (1,)
    device = "cpu"

    def __init__(self, batches):
        self.batches = list(batches)

    def cpu(self):
        return self


class World:
    """The machine on which training runs are started and interrupted."""

    def __init__(self, ctx):
        self.ctx, self.clock, self.n, self.stop_at = ctx, 0, 0, None
        self.dir = tempfile.mkdtemp(prefix="c46")
        self.open = True
        ctx.on_exit(self.close)
        self.loss = self.metric = lambda i: 0.0
        self.saved = []
        real = {k: getattr(os, k) for k in ("remove", "unlink")}

        def guard(k):
            def f(path, *a, **kw):
                if not self.open:
                    return real[k](path, *a, **kw)
                p = os.path.abspath(os.fspath(path))
                if os.path.dirname(p) != self.dir:
                    ctx.fail("only files in the checkpoint folder are removed")
                self.event()
                return real[k](p)

            return f

        for k in real:
            ctx.patch(os, k, guard(k))
        ctx.patch(torch, "save", self.save)
        ctx.patch(torch, "load", self.load)
        ctx.patch(torch, "tensor", lambda v, *a, **k: v if isinstance(v, Value) else Value(v))
        quiet = types.SimpleNamespace(**{k: lambda *a, **k: None for k in ("info", "warn", "warning", "error", "debug", "addHandler")})
        for m in (tr, utils):
            if hasattr(m, "get_logger"):
                ctx.patch(m, "get_logger", lambda: quiet)
        for k in ("log_telemetry", "dump_gpu_memory"):
            if hasattr(tr, k):
                ctx.patch(tr, k, lambda *a, **k: "")

    def close(self):
        pass

    flush = close


class LambdaLR:
    def __init__(self, optimizer, fn, last_epoch=-1, *a, **k):
        self.optimizer, self.fn, self.last_epoch = optimizer, fn, last_epoch + 1
        optimizer.rate = fn(self.last_epoch)

    def step(self):
        self.last_epoch += 1
        self.optimizer.rate = self.fn(self.last_epoch)

    def get_last_lr(self):
        return [self.optimizer.rate]


class Group:
    """Workers of a distributed training, run one after another."""

    rank, size, shared = 0, 1, None

    @staticmethod
    def broadcast(vector, src, *a, **k):
        if Group.rank == src:
            Group.shared = list(vector)
        else:
            vector[:] = Group.shared

    @staticmethod
    def fill(vector, params):
        list(params)[0].applied = list(vector)


torch.utils.data.IterableDataset = IterableDataset
torch.utils.tensorboard.SummaryWriter = Writer
torch.optim.lr_scheduler.LambdaLR = LambdaLR
torch.no_grad = NoGrad
torch.nn.parallel.DistributedDataParallel = lambda m, *a, **k: m
torch.nn.utils.parameters_to_vector = lambda ps: list(list(ps)[0].applied)
torch.nn.utils.vector_to_parameters = Group.fill
for _k, _f in dict(init_process_group=lambda *a, **k: None, destroy_process_group=lambda *a, **k: None, get_rank=lambda *a: Group.rank, get_world_size=lambda *a: Group.size,
                   broadcast=Group.broadcast, all_reduce=lambda *a, **k: None).items():
    setattr(torch.distributed, _k, _f)

from deepgnn import TrainMode  # noqa: E402
from deepgnn.pytorch.common import utils  # noqa: E402
from deepgnn.pytorch.training import trainer as tr  # noqa: E402
from deepgnn.pytorch.training import trainer_ddp, trainer_fp16  # noqa: E402

from symx.core import Sum  # noqa: E402
from symx.runner import Harness  # noqa: E402

BOUNDS = "training of up to the listed epochs and batches per epoch with any checkpoint intervals, limits on kept checkpoints and on samples within the listed ranges, interrupted at any batch, before or after any saved checkpoint and before any removal of a checkpoint, up to the listed number of times; single and distributed trainer; checkpoints with epochs and steps around the widths of their file names, saved at any times"
OUTSIDE = "longer runs, checkpoints cut short while they are written, the state of the optimizer and of the learning-rate schedule (not part of a checkpoint), apex, TensorFlow and Horovod trainers, limits smaller than one batch"
ASSUMPTIONS = [
    "torch is a stand-in: a model holds the list of batches its optimizer applied, saving stores this list in a scratch directory and loading returns it",
    "a dataset gives the same batches in every epoch",
    "distributed workers stop at the same batch and share the first worker's parameters",
]


class Crash(BaseException):
    pass


class Value:
    """A tensor of one value."""

    def __init__(self, v, rows=1):
        self.v, self.rows = v, rows

    data = property(lambda self: self)
    shape = (1,)
    device = "cpu"

    def item(self):
        return self.v

    def size(self, dim=None):
        return self.rows

    def detach(self):
        return self

    def cpu(self):
        return self

    def cuda(self):
        return self

    def backward(self):
        self.model.grads.append(self.batch)

    def nelement(self):
        return 1

    def __truediv__(self, o):
        return Value(self.v / o)

    def __format__(self, spec):
        return "value"

    def __reduce__(self):
        return (Value, (self.v, self.rows))


class Optimizer:
    def __init__(self, model):
        self.model, self.rate = model, 1
        self.defaults = {"lr": 1}

    def zero_grad(self, *a, **k):
        self.model.grads = []

    def step(self):
        self.model.applied.extend(self.model.grads)


class Model:
    """Its parameters are the batches applied to it."""

    def __init__(self, world):
        self.stop = None
        self.w, self.applied, self.grads, self.training = world, [], [], True
        self.forwards, self.embedded, self.metrics = [], [], []

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def __call__(self, data):
        self.w.event()
        if self.stop is not None and self.stop == len(self.forwards) + 1:
            raise Crash()
        self.forwards.append((self.training, data["set"], data["i"]))
        loss = Value(self.w.loss(data["i"]))
        loss.model, loss.batch = self, data["i"]
        return loss, Value(data["i"], rows=2), Value(data["i"])

    def parameters(self):
        return [self]

    def named_parameters(self):
        return [("p", Value(0))]

    def state_dict(self):
        return {"p": Applied(self.applied)}

    def load_state_dict(self, d, *a, **k):
        self.applied = list(d["p"].batches)

    def metric_name(self):
        return "metric"

    def compute_metric(self, preds, labels):
        self.metrics.append([p.v for p in preds])
        return Value(self.w.metric(preds[0].v if len(preds) == 1 else -1))

    def get_embedding(self, data):
        self.w.event()
        self.forwards.append((self.training, data["set"], data["i"]))
        return Value(data["i"])

    def output_embedding(self, fp, data, embedding):
        fp.write(f"{data['i']} {embedding.v}\n")


class Applied:
    shape = (1,)
    device = "cpu"

    def __init__(self, batches):
        self.batches = list(batches)

    def cpu(self):
        return self


class World:
    """The machine on which training runs are started and interrupted."""

    def __init__(self, ctx):
        self.ctx, self.clock, self.n, self.stop_at = ctx, 0, 0, None
        self.dir = tempfile.mkdtemp(prefix="c46")
        self.open = True
        ctx.on_exit(self.close)
        self.loss = self.metric = lambda i: 0.0
        self.saved = []
        real = {k: getattr(os, k) for k in ("remove", "unlink")}

        def guard(k):
            def f(path, *a, **kw):
                if not self.open:
                    return real[k](path, *a, **kw)
                p = os.path.abspath(os.fspath(path))
                if os.path.dirname(p) != self.dir:
                    ctx.fail("only files in the checkpoint folder are removed")
                self.event()
                return real[k](p)

            return f

        for k in real:
            ctx.patch(os, k, guard(k))
        ctx.patch(torch, "save", self.save)
        ctx.patch(torch, "load", self.load)
        ctx.patch(torch, "no_grad", NoGrad)
        ctx.patch(torch, "tensor", lambda v, *a, **k: v if isinstance(v, Value) else Value(v))
        quiet = types.SimpleNamespace(info=lambda *a, **k: None, warn=lambda *a, **k: None, warning=lambda *a, **k: None, error=lambda *a, **k: None, addHandler=lambda *a: None)
        for m in (tr, utils):
            ctx.patch(m, "get_logger", lambda: quiet)
        ctx.patch(tr, "log_telemetry", lambda *a, **k: None)
        ctx.patch(tr, "dump_gpu_memory", lambda *a, **k: "")

    def close(self):
        self.open = False
        shutil.rmtree(self.dir, ignore_errors=True)

    def event(self):
        self.n += 1
        if self.stop_at is not None and self.stop_at == self.n:
            raise Crash()

    def save(self, obj, path, *a, **k):
        self.event()
        with open(path, "wb") as f:
            pickle.dump(obj, f)
        self.clock += 1
        os.utime(path, (10**9 + self.clock, 10**9 + self.clock))
        self.saved.append(os.path.basename(path))
        self.event()

    def load(self, path, *a, **k):
        with open(path, "rb") as f:
            return pickle.load(f)

    def files(self):
        return sorted(os.listdir(self.dir))


def data(n, name="train"):
    return [{"i": i, "set": name} for i in range(n)]


def arguments(w, **kw):
    a = types.SimpleNamespace(
        mode=TrainMode.TRAIN, user_name="u", job_id="j", gpu=False, enable_adl_uploader=False, save_path=w.dir, model_dir=w.dir, metric_dir=w.dir,
        num_epochs=1, save_ckpt_by_epochs=1, save_ckpt_by_steps=0, log_by_steps=0, eval_during_train_by_steps=0, max_saved_ckpts=0,
        max_samples=0, batch_size=1, warmup=0.0, clip_grad=False, grad_max_norm=1.0, use_per_step_metrics=False, sort_ckpt_by_mtime=False,
        fp16="no", apex_opt_level="O2", local_rank=0, disable_ib=False, trainer="base", uploader_process_num=1, uploader_threads_num=1, uploader_store_name="")
    for k, v in kw.items():
        setattr(a, k, v)
    return a


def settings(ctx, b, n):
    """Any intervals and limits; how many batches of an epoch are wanted."""
    size = 2
    limited = b.get("limits") and ctx.flag("limited")
    workers = b.get("workers", 1)
    kw = dict(
        batch_size=size,
        max_samples=ctx.int("max_samples", size * workers, (n + 1) * size * workers) if limited else 0,
        save_ckpt_by_steps=ctx.int("by_steps", 0, b["by_steps"]),
        save_ckpt_by_epochs=ctx.int("by_epochs", 1, b["by_epochs"]),
        max_saved_ckpts=ctx.int("kept", 0, b["kept"]),
        log_by_steps=b.get("log", 0),
    )
    if limited:
        most = kw["max_samples"] // (size * workers)
        wanted = next(k for k in range(1, n + 2) if most <= k)
        wanted = min(wanted, n)
    else:
        wanted = n
    return kw, wanted


def outcome(ctx, w, history, wanted, epochs, who=""):
    ctx.check(history == list(range(wanted)) * epochs, "the model is trained on every batch of every epoch once and in order" + who,
              lambda: f"{history} for {epochs} epochs of {wanted} batches; checkpoints {w.saved}")


def restarts(ctx, b):
    w = World(ctx)
    n = ctx.pick("batches", 1, b["batches"])
    epochs = ctx.pick("epochs", 1, b["epochs"])
    kw, wanted = settings(ctx, b, n)
    kind = tr.Trainer if not b.get("fp16") else trainer_fp16.FP16Trainer
    most = epochs * (n * 2 + 2) * 2
    for c in range(b["crashes"] + 1):
        last = c == b["crashes"]
        if not last:
            w.stop_at = ctx.int(f"crash{c}", 1, most)
            w.n = 0
        else:
            w.stop_at = None
        t = kind(arguments(w, num_epochs=epochs, **kw))
        model = Model(w)
        before, earlier = w.files(), len(w.saved)
        try:
            t.run(model, data(n), Optimizer(model))
        except Crash:
            ctx.cover("interrupted")
            if before:
                ctx.cover("interrupted again" if c else "interrupted")
            continue
        outcome(ctx, w, model.applied, wanted, epochs)
        ctx.check(all(f[0] for f in model.forwards), "training runs in training mode")
        if not c:
            by = kw["save_ckpt_by_steps"]
            steps = [k for k in range(1, wanted) if by > 0 and k % by == 0]
            for e in range(epochs):
                for k in steps:
                    ctx.check(f"gnnmodel-{e:03}-{k:06}.pt" in w.saved, "a checkpoint is saved after every requested number of steps", lambda: f"epoch {e} step {k} not in {w.saved}")
                if kw["save_ckpt_by_epochs"] == 1:
                    ctx.check(f"gnnmodel-{e + 1:03}-000000.pt" in w.saved, "a checkpoint is saved after every epoch", lambda: f"epoch {e + 1} not in {w.saved}")
        if c and before:
            ctx.cover("resumed")
        limit = kw["max_saved_ckpts"]
        names = [f for f in w.files() if f.startswith("gnnmodel")]
        if limit > 0 and len(w.saved) > earlier:
            ctx.check(limit >= len(names), "no more checkpoints are kept than asked for")
        break


def latest(ctx, b):
    """What a run leaves behind is the newest state, in any number of kept checkpoints."""
    w = World(ctx)
    n = ctx.pick("batches", 1, b["batches"])
    base = ctx.choice("base", b["bases"])
    step = ctx.choice("step", b["steps"])
    epochs = base + ctx.pick("epochs", 1, b["epochs"])
    kept = ctx.int("kept", 0, b["kept"])
    if base or step:
        with open(os.path.join(w.dir, f"gnnmodel-{base:03}-{step:06}.pt"), "wb") as f:
            pickle.dump({"state_dict": {"p": Applied(["start"])}, "epoch": base, "step": step}, f)
    total = step + n
    t = tr.Trainer(arguments(w, num_epochs=epochs, save_ckpt_by_steps=ctx.int("by_steps", 0, b["by_steps"]), max_saved_ckpts=kept))
    model = Model(w)
    feed = [{"i": i, "set": "train"} for i in range(total)] if total < 100 else Skipping(total, step)
    t.run(model, feed, Optimizer(model))
    start = ["start"] if base or step else []
    first = list(range(step, total))
    rest = [i for _ in range(epochs - base - 1) for i in feed_ids(feed)]
    ctx.check(model.applied == start + first + rest, "a run continues after the newest checkpoint", lambda: f"{model.applied} from epoch {base} step {step} to epoch {epochs}")
    again = Model(w)
    t = tr.Trainer(arguments(w, num_epochs=epochs))
    t.run(again, feed, Optimizer(again))
    ctx.check(again.applied == model.applied, "a run started after the last epoch has the newest parameters and trains nothing", lambda: f"{again.applied} instead of {model.applied}; files {w.files()}")
    ctx.check(not [f for f in again.forwards], "a finished training trains nothing more")
    names = [f for f in w.files() if f.startswith("gnnmodel")]
    if kept > 0:
        ctx.check(kept >= len(names), "no more checkpoints are kept than asked for", lambda: f"{names}")
        ctx.cover("removed" if len(w.saved) > len(names) else "kept")


class Skipping:
    """A long dataset of which a resumed run sees the end only."""

    def __init__(self, total, step):
        self.total, self.step = total, step

    def __iter__(self):
        for i in range(self.total):
            yield {"i": i, "set": "train"}


def feed_ids(feed):
    return [d["i"] for d in feed]


def names(ctx, b):
    """Any checkpoints, next to other files."""
    w = World(ctx)
    n = b["files"]
    made = []
    for k in range(n):
        e, s = ctx.choice(f"epoch{k}", b["epochs"]), ctx.choice(f"step{k}", b["steps"])
        made.append((e, s))
    ctx.assume(len(set(made)) == n)
    by_time = ctx.flag("by_time") if b.get("times") else False
    order = ctx.permutation("saved", n) if by_time else list(range(n))
    path = {}
    for at, k in enumerate(order):
        e, s = made[k]
        p = os.path.join(w.dir, f"gnnmodel-{e:03}-{s:06}.pt")
        with open(p, "wb") as f:
            pickle.dump({"state_dict": {"p": Applied([k])}, "epoch": e, "step": s}, f)
        t = b["times"][at] if b.get("times") else at
        os.utime(p, (t, t))
        path[k] = p
    others = ["gnnmodel.txt", "embedding-0.tsv", "other-001-000001.pt"]
    for o in others:
        with open(os.path.join(w.dir, o), "w") as f:
            f.write("x")
    oldest = [path[k] for k in (order if by_time else sorted(range(n), key=lambda k: made[k]))]
    got = utils.get_sorted_checkpoints(w.dir, sort_ckpt_by_mtime=by_time)
    ctx.check(list(got) == oldest, "checkpoints are listed from the oldest to the newest", lambda: f"{[os.path.basename(p) for p in got]}")
    t = tr.Trainer(arguments(w, num_epochs=0, sort_ckpt_by_mtime=by_time))
    model = Model(w)
    t.run(model, [], Optimizer(model))
    newest = [k for k in range(n) if path[k] == oldest[-1]]
    ctx.check(model.applied == newest, "a run starts from the newest checkpoint", lambda: f"{made} loaded {model.applied}")
    kept = ctx.pick("kept", 0, n + 1)
    utils.rotate_checkpoints(w.dir, kept, sort_ckpt_by_mtime=by_time)
    left = oldest[-kept:] if kept else oldest
    ctx.check(set(w.files()) == set(os.path.basename(p) for p in left) | set(others), "the newest checkpoints and other files stay", lambda: f"{w.files()} with {kept} kept")
    if kept and kept < n:
        ctx.cover("removed")


def evaluation(ctx, b):
    """Evaluation during training and on its own sees all the data it should."""
    w = World(ctx)
    n = ctx.pick("batches", 1, b["batches"])
    m = ctx.pick("eval_batches", 1, b["eval_batches"])
    each = ctx.bool("per_step")
    kw, wanted = settings(ctx, b, n)
    kw.update(use_per_step_metrics=each, eval_during_train_by_steps=ctx.int("eval_by", 0, b["eval_by"]))
    t = tr.Trainer(arguments(w, num_epochs=1, **kw))
    model = Model(w)
    t.run(model, data(n), Optimizer(model), data(m, "eval"))
    outcome(ctx, w, model.applied, wanted, 1, " with evaluation")
    by = kw["eval_during_train_by_steps"]
    expected = []
    times = 0
    for i in range(wanted):
        expected.append((True, "train", i))
        if by > 0 and (i + 1) % by == 0:
            expected += [(False, "eval", j) for j in range(m)]
            times += 1
    ctx.check(model.forwards == expected, "every evaluation during training sees all the data in evaluation mode", lambda: f"{model.forwards} instead of {expected}")
    if times:
        ctx.cover("evaluated")


def alone(ctx, b):
    """Evaluation and inference as a run of their own."""
    w = World(ctx)
    n = ctx.pick("batches", 1, b["batches"])
    mode = ctx.choice("mode", ["evaluate", "inference"])
    limited = ctx.flag("limited")
    size = 2
    most = ctx.int("max_samples", size, (n + 1) * size) if limited else 0
    wanted = min(n, next(k for k in range(1, n + 2) if most // size <= k)) if limited else n
    if ctx.flag("trained"):
        with open(os.path.join(w.dir, "gnnmodel-002-000001.pt"), "wb") as f:
            pickle.dump({"state_dict": {"p": Applied([7])}, "epoch": 2, "step": 1}, f)
    before = w.files()
    losses = [ctx.real(f"loss{i}", 0, 10) for i in range(n)]
    metrics = [ctx.real(f"metric{i}", 0, 10) for i in range(n)] + [ctx.real("metric_all", 0, 10)]
    w.loss = lambda i: losses[i]
    w.metric = lambda i: metrics[i]
    each = ctx.flag("per_step") if mode == "evaluate" else False
    t = tr.Trainer(arguments(w, mode=TrainMode.EVALUATE if mode == "evaluate" else TrainMode.INFERENCE, max_samples=most, batch_size=size, use_per_step_metrics=each))
    model = Model(w)
    result = t.run(model, data(n))
    ctx.check(model.forwards == [(False, "train", i) for i in range(wanted)], "every batch is seen once in evaluation mode", lambda: f"{model.forwards}")
    ctx.check(model.applied == ([7] if before else []), "the parameters are those of the checkpoint")
    if mode == "evaluate":
        if each:
            ctx.check(result.item() * wanted == Sum(metrics[:wanted]) if n else True, "the metric is the mean over the batches")
        else:
            ctx.check(model.metrics == [list(range(wanted))], "the metric is computed on all predictions", lambda: f"{model.metrics}")
        ctx.cover("evaluate")
    else:
        with open(os.path.join(w.dir, "embedding-0.tsv")) as f:
            text = f.read()
        ctx.check(text == "".join(f"{i} {i}\n" for i in range(wanted)), "every embedding is written once and in order", lambda: text)
        ctx.cover("inference")
    ctx.check([f for f in w.files() if f.startswith("gnnmodel")] == before, "checkpoints stay as they are")


def workers(ctx, b):
    """All workers of a distributed training resume at the same batch."""
    w = World(ctx)
    size = b["workers"]
    g = Group
    g.size, g.shared = size, None
    for k in ("MASTER_ADDR", "MASTER_PORT", "RANK", "WORLD_SIZE"):
        os.environ.setdefault(k, "1")
    n = ctx.pick("batches", 1, b["batches"])
    epochs = ctx.pick("epochs", 1, b["epochs"])
    kw, wanted = settings(ctx, b, n)
    crash = ctx.int("crash", 1, epochs * n)
    for last in (False, True):
        w.stop_at = None
        g.rank = 0
        probe = trainer_ddp.DDPTrainer(arguments(w, num_epochs=epochs, **kw))
        probe._init_max_steps()
        probe._init_model(Model(w))
        done = 0
        for r in reversed(range(size)):  # the first worker writes the checkpoints, so it comes last
            g.rank = r
            w.n = 0
            t = trainer_ddp.DDPTrainer(arguments(w, num_epochs=epochs, **kw))
            model = Model(w)
            model.stop = None if last else crash
            files = w.files()
            try:
                t.run(model, data(n), Optimizer(model))
                outcome(ctx, w, model.applied, wanted, epochs, " by every worker")
                done += 1
            except Crash:
                ctx.cover("interrupted")
            if r:
                ctx.check(w.files() == files, "only the first worker saves checkpoints")
        ctx.check(done in (0, size), "all workers stop together")
        if done:
            break


HARNESSES = [
    Harness("restarts", restarts, {"batches": 3, "epochs": 3, "crashes": 1, "by_steps": 2, "by_epochs": 2, "kept": 2, "limits": True, "log": 1},
            {"batches": 4, "epochs": 3, "crashes": 1, "by_steps": 3, "by_epochs": 3, "kept": 2, "limits": True, "log": 1}, covers=["interrupted", "resumed"], weight=3),
    Harness("restarts_twice", restarts, {"batches": 3, "epochs": 2, "crashes": 2, "by_steps": 1, "by_epochs": 1, "kept": 1},
            {"batches": 3, "epochs": 2, "crashes": 2, "by_steps": 2, "by_epochs": 2, "kept": 2, "limits": True, "fp16": True}, covers=["interrupted", "resumed"], weight=2),
    Harness("latest", latest, {"batches": 2, "epochs": 2, "bases": [0, 8, 98, 998, 9998], "steps": [0], "kept": 2, "by_steps": 2},
            {"batches": 3, "epochs": 3, "bases": [0, 8, 98, 998, 9998], "steps": [0, 1, 998], "kept": 3, "by_steps": 2}, covers=["removed"], weight=2),
    Harness("names", names, {"files": 2, "epochs": [0, 1, 10, 999, 1000], "steps": [0, 9, 999999, 1000000]},
            {"files": 2, "epochs": [0, 1, 2, 10, 99, 100, 999, 1000, 10000], "steps": [0, 9, 10, 99999, 999999, 1000000, 10000000]}, covers=["removed"]),
    Harness("times", names, {"files": 3, "epochs": [0, 1, 2], "steps": [0], "times": [999999999, 1000000000, 1000000000.5]},
            {"files": 3, "epochs": [0, 1, 2], "steps": [0, 3], "times": [999999999, 1000000000, 1000000000.5]}, covers=["removed"]),
    Harness("evaluation", evaluation, {"batches": 3, "eval_batches": 2, "eval_by": 3, "by_steps": 1, "by_epochs": 1, "kept": 0, "limits": True, "log": 1},
            {"batches": 4, "eval_batches": 3, "eval_by": 4, "by_steps": 2, "by_epochs": 2, "kept": 1, "limits": True, "log": 2}, covers=["evaluated"]),
    Harness("alone", alone, {"batches": 2}, {"batches": 4}, covers=["evaluate", "inference"]),
    Harness("workers", workers, {"workers": 2, "batches": 2, "epochs": 2, "by_steps": 2, "by_epochs": 2, "kept": 1, "limits": True},
            {"workers": 3, "batches": 3, "epochs": 2, "by_steps": 2, "by_epochs": 2, "kept": 2, "limits": True}, covers=["interrupted"]),
]
