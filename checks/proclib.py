"""Processes as scheduled tasks: process ids, forked state, shared files with scheduling points."""
import builtins
import copy
import glob as _glob
import io as _io
import multiprocessing as _mp
import os as _os
import shutil
import sys
import tempfile as _tempfile
import threading as _threading

from symx.binio import ModShim
from symx.sched import Process, Sched


class _Environ(dict):
    """Environment variables of the running process."""

    def __init__(self, world):
        self.w = world

    def _d(self):
        return self.w.envs.setdefault(self.w.current.pid, {})

    def __getitem__(self, k):
        return self._d()[k]

    def __setitem__(self, k, v):
        self._d()[k] = v

    def __delitem__(self, k):
        del self._d()[k]

    def __contains__(self, k):
        return k in self._d()

    def __iter__(self):
        return iter(self._d())

    def __len__(self):
        return len(self._d())

    def get(self, k, d=None):
        return self._d().get(k, d)

    def keys(self):
        return self._d().keys()

    def items(self):
        return self._d().items()

    def values(self):
        return self._d().values()

    def copy(self):
        return dict(self._d())

    def update(self, *a, **k):
        self._d().update(*a, **k)

    def pop(self, *a):
        return self._d().pop(*a)

    def setdefault(self, k, d=None):
        return self._d().setdefault(k, d)


class World(Sched):
    """A scheduler whose tasks belong to processes; files are real, in a scratch directory."""

    def __init__(self, ctx, budget=0, max_steps=6000):
        super().__init__(ctx, budget, max_steps)
        self.main.pid = 100
        self.pids = 100
        self.root = _tempfile.mkdtemp(prefix="symx-world-")
        ctx.on_exit(lambda: shutil.rmtree(self.root, ignore_errors=True))
        self.stopped, self.procs = [], []
        self.envs = {}
        self.env = _Environ(self)
        self.list_order = sorted
        self.slow = None  # pauses of a process after it started another one

    def spawn(self, fn, name="task", daemon=False, process=False):
        t = super().spawn(fn, name, daemon, process)
        t.pid = self.current.pid
        return t

    def process(self, fn, name, env=None):
        """Run fn as a process of its own."""
        self.pids += 1
        t = super().spawn(fn, name, process=True)
        t.pid = self.pids
        self.envs[t.pid] = dict(self.envs.get(self.current.pid, {}) if env is None else env)
        return t

    def path(self, *p):
        return _os.path.join(self.root, *p)

    def _pt(self, fn):
        def f(*a, **k):
            self.point()
            return fn(*a, **k)

        return f

    def table(self):
        t = super().table()
        S = self

        class Process_(Process):
            sched = S

            def start(self):
                if self.task is not None:
                    raise RuntimeError("processes can only be started once")
                child = copy.copy(self)  # a forked process has its own copy of the object

                def run():
                    try:
                        child.run()
                    finally:
                        S.stopped.append((self, S.now))

                self.parent = S.current.pid
                S.procs.append(self)
                self.task = S.process(run, type(self).__name__)
                self.pid = self.task.pid
                if S.slow:
                    S.sleep(S.ctx.choice("slow_start", S.slow))
                else:
                    S.point()

        p = self._pt

        def glob(*a, **k):
            self.point()
            return list(self.list_order(_glob.glob(*a, **k)))

        path = ModShim(_os.path, exists=p(_os.path.exists), isfile=p(_os.path.isfile), getmtime=p(_os.path.getmtime))
        os_ = ModShim(_os, getpid=lambda: S.current.pid, remove=p(_os.remove), unlink=p(_os.unlink), listdir=lambda *a: list(self.list_order(p(_os.listdir)(*a))), rename=p(_os.rename), makedirs=p(_os.makedirs), path=path, environ=S.env, getenv=lambda k, d=None: S.env.get(k, d))
        t[id(_os)] = os_
        t[id(_os.path)] = path
        t[id(_glob)] = ModShim(_glob, glob=glob)
        t[id(_glob.glob)] = glob
        t[id(_mp.Process)] = Process_
        t[id(_mp)].Process = Process_
        self.Process = Process_
        return t

    def install(self, extra=None, modules=("deepgnn.graph_engine.backends",)):
        super().install(extra)
        real = {_mp.Process: self.Process, _mp.context.Process: self.Process, _threading.Thread: None}
        for name, m in list(sys.modules.items()):
            if m is None or not name.startswith(modules):
                continue
            if "open" not in vars(m):
                self.ctx.patch(m, "open", self._pt(_io.open))
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and v.__module__ == name and any(real.get(b) for b in v.__bases__):
                    self._rebase(v, tuple(real.get(b) or b for b in v.__bases__))
        return self

    def _rebase(self, cls, bases):
        old = cls.__bases__
        cls.__bases__ = bases
        self.ctx.on_exit(lambda: setattr(cls, "__bases__", old))
