"""Deterministic scheduler: threads, queues, pools and clocks as explorable choices.

Stand-ins replace threading/queue/concurrent.futures/multiprocessing/time objects in
the modules under test, in symbolic runs and in replays alike.  Every visible
operation is a scheduling point; which task runs next is an input of the path
("sched" variables), so the solver-driven exploration covers all schedules with at
most `budget` departures from the default (run the current task until it blocks).
"""
import collections
import concurrent.futures as _cf
import heapq
import multiprocessing as _mp
import multiprocessing.connection as _mpc
import queue as _queue
import sys
import threading as _threading
import time as _time

from symx import core
from symx.binio import ModShim
from symx.core import Deadlock


class TaskKill(BaseException):
    """Ends a leftover task when the path is over."""


INTERNAL = (TaskKill, core.PathEnd, core.Unsupported)


class Task:
    def __init__(self, sched, fn, name, daemon=False):
        self.sched, self.fn, self.name, self.daemon = sched, fn, name, daemon
        self.ev = _threading.Event()
        self.pred = None
        self.deadline = None
        self.done = False
        self.error = None
        self.killed = False
        self.thread = None
        self.spin = 0
        self.group = 0  # the process the task belongs to

    def runnable(self):
        if self.done:
            return False
        if self.killed:
            return True
        if self.pred is None and self.deadline is None:
            return True
        if self.pred is not None and self.pred():
            return True
        return self.deadline is not None and self.sched.now >= self.deadline


class Sched:
    def __init__(self, ctx, budget=0, max_steps=4000, start_time=1000.0):
        self.ctx = ctx
        self.budget = budget
        self.now = start_time
        self.steps = 0
        self.max_steps = max_steps
        self.over = False
        self.abort = None
        self.main = Task(self, None, "main")
        self.tasks = [self.main]
        self.current = self.main
        self.log = []
        self.n_tasks = 0
        self.n_groups = 0
        ctx.on_exit(self.close)
        self.unhandled = []

    # ------------------------------------------------------------ core
    def spawn(self, fn, name="task", daemon=False, process=False):
        t = Task(self, fn, name, daemon)
        self.n_groups += process
        t.group = self.n_groups if process else self.current.group
        self.tasks.append(t)
        self.n_tasks += 1

        def run():
            t.ev.wait()
            t.ev.clear()
            try:
                if not self.over and not t.killed:
                    fn()
            except TaskKill:
                pass
            except Exception as e:
                t.error = e
                self.unhandled.append((t.name, e))
            except SystemExit as e:
                t.error = e
            except BaseException as e:
                if not isinstance(e, INTERNAL):
                    t.error = e
                    self.unhandled.append((t.name, e))
                elif self.abort is None:  # hand over to the path
                    self.abort = e
            t.done = True
            if not self.over:
                self._leave()

        t.thread = _threading.Thread(target=run, daemon=True)
        t.thread.start()
        return t

    def _pick_next(self, cur_runnable, yielding):
        """Next task to run, or None when nothing can run."""
        while True:
            run = [t for t in self.tasks if t.runnable()]
            if run:
                break
            # let time pass until somebody's deadline
            ds = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if not ds:
                return None
            self.now = max(self.now, min(ds))
        cur = self.current
        i = self.tasks.index(cur)
        if len(run) == 1:
            return run[0]
        order = [t for t in run if t is cur] + sorted((t for t in run if t is not cur), key=lambda t: (self.tasks.index(t) - i) % len(self.tasks))
        if yielding and order[0] is cur:
            order = order[1:] + order[:1]
        if self.budget <= 0:
            return order[0]
        k = self.ctx.pick("sched", 0, len(order) - 1)
        if k:
            self.budget -= 1
        return order[k]

    def _switch(self, nxt):
        me = self.current
        if nxt is me:
            return
        self.current = nxt
        nxt.ev.set()
        me.ev.wait()
        me.ev.clear()
        if self.over or me.killed:
            raise TaskKill()
        if me is self.main and self.abort is not None:
            a, self.abort = self.abort, None
            raise a

    def _leave(self):
        """Current task has finished: give the baton to somebody else."""
        if self.abort is not None:
            nxt = self.main
        else:
            try:
                nxt = self._pick_next(False, False)
            except BaseException as e:
                self.abort = e
                nxt = self.main
            if nxt is None:
                self.abort = Deadlock("all threads are blocked: " + self.describe())
                nxt = self.main
        self.current = nxt
        nxt.ev.set()

    def describe(self):
        return ", ".join(t.name for t in self.tasks if not t.done)

    def point(self, yielding=False):
        """A scheduling point of the running task."""
        self.steps += 1
        if self.over:
            raise TaskKill()
        if self.steps > self.max_steps:
            raise Deadlock("no progress after %d steps (livelock): %s" % (self.max_steps, self.describe()))
        nxt = self._pick_next(True, yielding)
        self._go(nxt)

    def _go(self, nxt):
        if nxt is None:
            err = Deadlock("all threads are blocked: " + self.describe())
            if self.current is self.main:
                raise err
            self.abort = err
            nxt = self.main
        self._switch(nxt)
        if self.current is self.main and self.abort is not None:
            a, self.abort = self.abort, None
            raise a

    def wait(self, pred, timeout=None):
        """Block the running task until pred() or the timeout; returns pred()."""
        self.point()
        t = self.current
        if pred():
            return True
        t.pred = pred
        t.deadline = None if timeout is None else self.now + max(0, timeout)
        try:
            while not t.runnable():
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Deadlock("no progress after %d steps (livelock)" % self.max_steps)
                self._go(self._pick_next(False, False))
        finally:
            t.pred = None
            t.deadline = None
        return bool(pred())

    def sleep(self, dt):
        self.wait(lambda: False, dt)

    def poll(self, ready):
        """A non-blocking test: yields to others when not ready."""
        self.point(yielding=not ready())
        return ready()

    def close(self):
        self.over = True
        # one at a time: unwinding frees solver terms, which is not thread safe
        for t in self.tasks:
            if t.thread is not None:
                t.ev.set()
                t.thread.join(5)

    # ------------------------------------------------------------ installation
    def table(self):
        S = self

        class Thread_(Thread):
            sched = S

        class Process_(Process):
            sched = S

        class Pool_(ThreadPoolExecutor):
            sched = S

        class Timer_(Timer):
            sched = S

        def mk(cls):
            def f(*a, **k):
                return cls(S, *a, **k)

            return f

        time_shim = ModShim(_time, sleep=self.sleep, time=lambda: self.now, monotonic=lambda: self.now, perf_counter=lambda: self.now)
        q = mk(Queue)
        thr = ModShim(_threading, Thread=Thread_, Lock=mk(Lock), RLock=mk(RLock), Semaphore=mk(Semaphore), BoundedSemaphore=mk(Semaphore), Event=mk(Event),
                      Condition=mk(Condition), Timer=Timer_, main_thread=lambda: _MainThread(), current_thread=lambda: self.current)
        qm = ModShim(_queue, Queue=q, SimpleQueue=q)
        futs = ModShim(_cf, ThreadPoolExecutor=Pool_, ProcessPoolExecutor=Pool_, as_completed=mk(as_completed), wait=mk(wait_futures), Future=Future)
        pq = mk(ProcessQueue)
        mpm = ModShim(_mp, Process=Process_, Queue=pq, SimpleQueue=pq, Pipe=mk(Pipe), Lock=mk(Lock), Event=mk(Event), JoinableQueue=pq)
        t = {
            id(_time): time_shim, id(_time.sleep): self.sleep, id(_time.time): time_shim.time, id(_time.monotonic): time_shim.monotonic,
            id(_threading): thr, id(_threading.Thread): Thread_, id(_threading.Lock): thr.Lock, id(_threading.RLock): thr.RLock,
            id(_threading.Semaphore): thr.Semaphore, id(_threading.BoundedSemaphore): thr.BoundedSemaphore, id(_threading.Event): thr.Event,
            id(_threading.Condition): thr.Condition, id(_threading.Timer): Timer_,
            id(_queue): qm, id(_queue.Queue): q,
            id(_cf): futs, id(_cf.ThreadPoolExecutor): Pool_, id(_cf.Future): Future, id(_cf.as_completed): futs.as_completed, id(_cf.wait): futs.wait,
            id(_mp): mpm, id(_mp.Process): Process_, id(_mpc.Connection): PipeConn,
        }
        return t

    def install(self, extra=None):
        t = self.table()
        for k, v in (extra or {}).items():
            t[k if isinstance(k, int) else id(k)] = v
        for name, m in list(sys.modules.items()):
            if m is None or not (name == "deepgnn" or name.startswith("deepgnn.")):
                continue
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                r = t.get(id(v))
                if r is not None:
                    self.ctx.patch(m, k, r)
        return self


class _MainThread:
    name = "MainThread"

    def is_alive(self):
        return True


# ---------------------------------------------------------------- stand-ins
class Queue:
    def __init__(self, sched, maxsize=0, **k):
        self.s = sched
        self.maxsize = maxsize
        self.items = collections.deque()
        self.unfinished = 0
        self.closed = False

    def put(self, item, block=True, timeout=None):
        ok = lambda: self.maxsize <= 0 or len(self.items) < self.maxsize
        if not block:
            self.s.point()
            if not ok():
                raise _queue.Full()
        elif not self.s.wait(ok, timeout):
            raise _queue.Full()
        self.items.append(item)
        self.unfinished += 1

    def get(self, block=True, timeout=None):
        ok = lambda: len(self.items) > 0
        if not block:
            if not self.s.poll(ok):
                raise _queue.Empty()
        elif not self.s.wait(ok, timeout):
            raise _queue.Empty()
        return self.items.popleft()

    def put_nowait(self, item):
        self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        self.s.poll(lambda: len(self.items) > 0)
        return len(self.items)

    def empty(self):
        self.s.poll(lambda: len(self.items) > 0)
        return not self.items

    def full(self):
        self.s.point()
        return 0 < self.maxsize <= len(self.items)

    def task_done(self):
        self.s.point()
        if self.unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished -= 1

    def join(self):
        self.s.wait(lambda: self.unfinished == 0)

    def close(self):
        self.closed = True

    def cancel_join_thread(self):
        pass

    def join_thread(self):
        pass

    @property
    def queue(self):
        return self.items


class ProcessQueue(Queue):
    """A multiprocessing queue: closing it makes it unusable in the process that closed it."""

    def __init__(self, sched, maxsize=0, **k):
        super().__init__(sched, maxsize)
        self.closed_in = set()

    def _open(self):
        if self.s.current.group in self.closed_in:
            raise ValueError("Queue is closed")

    def put(self, item, block=True, timeout=None):
        self._open()
        super().put(item, block, timeout)

    def get(self, block=True, timeout=None):
        self._open()
        g = self.s.current.group
        ok = lambda: len(self.items) > 0 or g in self.closed_in
        if not block:
            if not self.s.poll(ok):
                raise _queue.Empty()
        elif not self.s.wait(ok, timeout):
            raise _queue.Empty()
        if g in self.closed_in:
            raise OSError("handle is closed")
        return self.items.popleft()

    def close(self):
        self.s.point()
        self.closed_in.add(self.s.current.group)


class Thread:
    sched = None
    process = False
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        Thread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Thread-%d" % Thread._n
        self.daemon = bool(daemon)
        self.task = None
        self.pid = self.ident = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self.task is not None:
            raise RuntimeError("threads can only be started once")
        self.task = self.sched.spawn(self.run, self.name, self.daemon, self.process)
        self.sched.point()

    def join(self, timeout=None):
        if self.task is None:
            raise RuntimeError("cannot join thread before it is started")
        self.sched.wait(lambda: self.task.done, timeout)

    def is_alive(self):
        return self.task is not None and not self.sched.poll(lambda: self.task.done)

    def setDaemon(self, d):
        self.daemon = d


class Process(Thread):
    process = True

    @property
    def exitcode(self):
        if self.task is None or not self.task.done:
            return None
        return 1 if self.task.error else 0

    def terminate(self):
        t = self.task
        if t is not None and not t.done:
            self.sched.point()
            if not t.done:
                t.killed = True

    kill = terminate

    def close(self):
        pass


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=self._fire)
        self.interval, self.function = interval, function
        self.fargs, self.fkw = args or (), kwargs or {}
        self.cancelled = False

    def _fire(self):
        self.sched.wait(lambda: self.cancelled, self.interval)
        if not self.cancelled:
            self.function(*self.fargs, **self.fkw)

    def cancel(self):
        self.cancelled = True


class Lock:
    reentrant = False

    def __init__(self, sched, *a):
        self.s = sched
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        free = lambda: self.owner is None or (self.reentrant and self.owner is self.s.current)
        me = self.s.current
        if self.reentrant and self.owner is me:
            self.depth += 1
            return True
        if not blocking:
            self.s.point()
            if self.owner is not None:
                return False
        elif not self.s.wait(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
            return False
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        self.s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


class Semaphore:
    def __init__(self, sched, value=1):
        self.s = sched
        self.value = value
        self.initial = value

    def acquire(self, blocking=True, timeout=None):
        if not blocking:
            self.s.point()
            if self.value <= 0:
                return False
        elif not self.s.wait(lambda: self.value > 0, timeout):
            return False
        self.value -= 1
        return True

    def release(self, n=1):
        self.s.point()
        self.value += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Event:
    def __init__(self, sched):
        self.s = sched
        self.flag = False

    def set(self):
        self.s.point()
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        self.s.poll(lambda: self.flag)
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        self.s.wait(lambda: self.flag, timeout)
        return self.flag


class Condition:
    def __init__(self, sched, lock=None):
        self.s = sched
        self.lock = lock or RLock(sched)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        w = [False]
        self.waiters.append(w)
        depth, self.lock.depth, self.lock.owner = self.lock.depth, 0, None
        self.s.wait(lambda: w[0], timeout)
        if w in self.waiters:
            self.waiters.remove(w)
        me = self.s.current
        self.s.wait(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.depth = me, depth
        return w[0]

    def wait_for(self, pred, timeout=None):
        end = None if timeout is None else self.s.now + timeout
        while not pred():
            left = None if end is None else end - self.s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
        return pred()

    def notify(self, n=1):
        for w in self.waiters[:n]:
            w[0] = True
        self.waiters = self.waiters[n:]

    def notify_all(self):
        self.notify(len(self.waiters))


class PipeConn:
    """One end of a pipe."""

    def __init__(self, sched, q_in, q_out):
        self.s, self.q_in, self.q_out = sched, q_in, q_out

    def send(self, x):
        if self.q_out is None:
            raise OSError("connection is read-only")
        self.q_out.put(x)

    def recv(self):
        if self.q_in is None:
            raise OSError("connection is write-only")
        return self.q_in.get()

    def poll(self, timeout=0.0):
        if timeout:
            return self.s.wait(lambda: len(self.q_in.items) > 0, timeout)
        return not self.q_in.empty()

    def close(self):
        pass


def Pipe(sched, duplex=True):
    a, b = Queue(sched), Queue(sched)
    if duplex:
        return PipeConn(sched, a, b), PipeConn(sched, b, a)
    return PipeConn(sched, a, None), PipeConn(sched, None, a)


class Future:
    def __init__(self, sched=None):
        self.s = sched
        self.state = "pending"
        self._result = None
        self._error = None
        self.callbacks = []

    def _set(self, result, error):
        self._result, self._error = result, error
        self.state = "done"
        for cb in self.callbacks:
            try:
                cb(self)
            except Exception:
                pass

    def set_result(self, r):
        self._set(r, None)

    def set_exception(self, e):
        self._set(None, e)

    def done(self):
        return self.s.poll(lambda: self.state in ("done", "cancelled"))

    def running(self):
        return self.state == "running"

    def cancelled(self):
        return self.state == "cancelled"

    def cancel(self):
        self.s.point()
        if self.state != "pending":
            return False
        self.state = "cancelled"
        for cb in self.callbacks:
            cb(self)
        return True

    def result(self, timeout=None):
        if not self.s.wait(lambda: self.state in ("done", "cancelled"), timeout):
            raise _cf.TimeoutError()
        if self.state == "cancelled":
            raise _cf.CancelledError()
        if self._error is not None:
            raise self._error
        return self._result

    def exception(self, timeout=None):
        if not self.s.wait(lambda: self.state in ("done", "cancelled"), timeout):
            raise _cf.TimeoutError()
        return self._error

    def add_done_callback(self, cb):
        if self.state in ("done", "cancelled"):
            cb(self)
        else:
            self.callbacks.append(cb)


class ThreadPoolExecutor:
    sched = None

    def __init__(self, max_workers=None, *a, **k):
        self.max_workers = 5 if max_workers is None else max_workers
        if self.max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.jobs = collections.deque()
        self.workers = 0
        self.idle = 0
        self.stopped = False
        self.tasks = []

    def submit(self, fn, *a, **k):
        if self.stopped:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future(self.sched)
        self.jobs.append((f, fn, a, k))
        if self.workers < self.max_workers and self.idle < len(self.jobs):
            self.workers += 1
            self.tasks.append(self.sched.spawn(self._work, "pool-worker", True))
        self.sched.point()
        return f

    def _work(self):
        while True:
            self.idle += 1
            try:
                self.sched.wait(lambda: self.jobs or self.stopped)
            finally:
                self.idle -= 1
            if not self.jobs:
                return
            f, fn, a, k = self.jobs.popleft()
            if f.state == "cancelled":
                continue
            f.state = "running"
            try:
                r = fn(*a, **k)
            except INTERNAL:
                raise
            except BaseException as e:
                f._set(None, e)
            else:
                f._set(r, None)
            del fn, a, k

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *x) for x in zip(*its)]
        return iter([f.result() for f in fs])

    def shutdown(self, wait=True, cancel_futures=False):
        self.stopped = True
        if cancel_futures:
            for f, *_ in list(self.jobs):
                f.cancel()
        if wait:
            self.sched.wait(lambda: all(t.done for t in self.tasks))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


def as_completed(sched, fs, timeout=None):
    left = list(fs)
    while left:
        sched.wait(lambda: any(f.state in ("done", "cancelled") for f in left))
        for f in list(left):
            if f.state in ("done", "cancelled"):
                left.remove(f)
                yield f


def wait_futures(sched, fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    test = any if return_when == "FIRST_COMPLETED" else all
    sched.wait(lambda: test(f.state in ("done", "cancelled") for f in fs), timeout)
    d = {f for f in fs if f.state in ("done", "cancelled")}
    return d, set(fs) - d
