"""joblib's worker pools under the control of the explorer.

`pools(ctx, ...)` replaces joblib's 'threading' and 'loky' backends (through
joblib's own backend interface) by one whose workers advance only when the
scheduler says so.  Each task of a pool runs in a thread of its own that stops at
every *yield point*: when it starts, where the objective function calls
`yield_point`, and - for code of the package that runs inside a worker - before
every bytecode instruction.  Which worker moves next is a choice of the explorer.
For 'loky' the task and its result cross a pickle boundary, as between processes.
"""
import contextlib
import pickle
import threading
from collections import deque

import joblib.parallel as jp
from joblib._parallel_backends import ParallelBackendBase
import cloudpickle

import sys
import os

from engine import HarnessLimit

REPO = os.path.realpath(os.environ.get("STOCHOPY_REPO", "/repo")) + "/stochopy/"
BLOCK_S = 1.0  # a worker that neither yields nor ends for this long is waiting for another one
DEAD_S = 20.0


class Deadlock(Exception):
    pass


def held():
    """A lock that is taken: a cheap one-shot semaphore."""
    k = threading.Lock()
    k.acquire()
    return k


class Task:
    __slots__ = ("fn", "callback", "thread", "go", "back", "done", "value", "error", "blocked", "index", "abandon", "payload")

    def __init__(self, fn, callback, index):
        self.fn, self.callback, self.index = fn, callback, index
        self.go = held()
        self.back = held()
        self.done = self.blocked = self.abandon = False
        self.value = self.error = self.thread = self.payload = None


_local = threading.local()


def yield_point(tag=None):
    """Called in a worker: hand control back to the scheduler."""
    t = getattr(_local, "task", None)
    if t is not None:
        t.back.release()
        t.go.acquire()


def _tracer(frame, event, arg):
    if event == "call":
        if not os.path.realpath(frame.f_code.co_filename).startswith(REPO):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return _tracer
    if event == "opcode":
        yield_point("op")
    return _tracer


class Scheduler:
    def __init__(self, ctx, cpus=3, batch=1, preempt_code=True):
        self.ctx, self.cpus, self.batch, self.preempt = ctx, cpus, batch, preempt_code
        self.pending = deque()
        self.active = []
        self.current = None
        self.count = 0
        self.switches = 0
        self.pools = 0
        self.max_active = 0

    def body(self, task, process):
        def run():
            _local.task = task
            task.go.acquire()
            if self.preempt:
                sys.settrace(_tracer)
            try:
                fn = cloudpickle.loads(task.payload) if process else task.fn
                v = fn()
                task.value = pickle.loads(cloudpickle.dumps(v)) if process else v
            except BaseException as e:
                task.error = e
            finally:
                sys.settrace(None)
                _local.task = None
                task.done = True
                task.back.release()

        return run

    def submit(self, fn, callback, process):
        t = Task(fn, callback, self.count)
        self.count += 1
        if process:
            t.payload = cloudpickle.dumps(fn)
        t.thread = threading.Thread(target=self.body(t, process), daemon=True)
        self.pending.append(t)
        return t

    def drop(self):
        """Tasks that have not started are forgotten; started ones run to their end."""
        self.pending.clear()
        while self.active:
            self.step(0)

    def step(self, n_jobs):
        while self.pending and len(self.active) < n_jobs:
            t = self.pending.popleft()
            t.thread.start()
            self.active.append(t)
        self.max_active = max(self.max_active, len(self.active))
        run = [t for t in self.active if not t.blocked]
        if not run:
            # every worker waits: give them a last chance before calling it a deadlock
            for t in self.active:
                if t.back.acquire(timeout=DEAD_S):
                    t.blocked = False
                    self.after(t)
                    return
            raise Deadlock("all workers are blocked")
        if self.current in run:
            run.remove(self.current)
            run.insert(0, self.current)
        t = run[self.ctx.choose(len(run), "worker")]
        if t is not self.current:
            self.switches += 1
        self.current = t
        t.go.release()
        if not t.back.acquire(timeout=BLOCK_S):
            t.blocked = True
            return
        self.after(t)
        for u in self.active:
            if u.blocked and u.back.acquire(blocking=False):
                u.blocked = False
                self.after(u)

    def after(self, t):
        if t.done:
            t.thread.join()
            self.active.remove(t)
            if self.current is t:
                self.current = None
            if t.callback is not None:
                t.callback(t)

    def drain(self, n_jobs):
        while self.pending or self.active:
            self.step(n_jobs)


def make_backend(sched, process):
    class Controlled(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_sharedmem = not process
        supports_timeout = True
        uses_threads = not process
        default_n_jobs = 1 if not process else -1

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            return n_jobs if n_jobs > 0 else max(sched.cpus + 1 + n_jobs, 1)

        def configure(self, n_jobs=1, parallel=None, **kw):
            self.parallel = parallel
            self.n = self.effective_n_jobs(n_jobs)
            sched.pools += 1
            return self.n

        def submit(self, func, callback=None):
            return sched.submit(func, callback, process)

        def compute_batch_size(self):
            return sched.batch

        def retrieve_result_callback(self, out):
            if out.error is not None:
                raise out.error
            return out.value

        def abort_everything(self, ensure_ready=True):
            sched.drop()

        def terminate(self):
            sched.drop()

        @contextlib.contextmanager
        def retrieval_context(self):
            # a worker may take longer than any time limit that is set
            if getattr(self.parallel, "timeout", None) is not None and (sched.pending or sched.active) and sched.ctx.choose(2, "slow worker"):
                sched.drop()
                raise TimeoutError
            sched.drain(self.n)
            yield

    return Controlled


@contextlib.contextmanager
def pools(ctx, **kw):
    s = Scheduler(ctx, **kw)
    saved = dict(jp.BACKENDS)
    jp.BACKENDS["threading"] = make_backend(s, False)
    jp.BACKENDS["loky"] = make_backend(s, True)
    jp.BACKENDS["multiprocessing"] = make_backend(s, True)
    try:
        yield s
    finally:
        jp.BACKENDS.clear()
        jp.BACKENDS.update(saved)


# ------------------------------------------------------------------ objective that yields

_objects = {}


def _lookup(k):
    return _objects[k]


class Shared:
    """Stands for an object that lives in the harness: pickled by reference."""

    def __reduce__(self):
        _objects[id(self)] = self
        return _lookup, (id(self),)


class Objective(Shared):
    """Deterministic objective that records its calls and lets others run in between."""

    def __init__(self, f, yields=2, fault=None):
        self.f, self.yields, self.fault = f, yields, fault
        self.log = []  # (generation stamp, point)
        self.bad = []
        self.running = 0
        self.stamp = 0
        self.ncall = 0
        self.xs, self.vs = [], []

    def __call__(self, x, *args):
        import numpy as np

        k = self.ncall
        self.ncall += 1
        stamp = self.stamp
        self.running += 1
        try:
            x0 = np.array(x, copy=True)
            if x0.ndim != 1 or x0.dtype.kind != "f":
                self.bad.append(f"called with {type(x).__name__} of shape {np.shape(x)}")
            if self.fault is not None:
                self.fault(k, x0)
            v = None
            for i in range(self.yields):
                yield_point("objective")
                if not np.array_equal(x, x0):
                    self.bad.append(f"the candidate {x0} changed to {np.array(x)} during its evaluation")
                if i == 0:
                    v = self.f(x0, *args)
            if self.yields == 0:
                v = self.f(x0, *args)
            self.log.append((stamp, self.stamp, x0, v))
            self.xs.append(x0)
            self.vs.append(v)
            return v
        finally:
            self.running -= 1
