"""Simulated MPI ranks under the control of the explorer.

Each rank runs the real code in a thread of its own; only one runs at a time, and
each has its own state of NumPy's global generator.  `mpi4py.MPI.COMM_WORLD` is
replaced by a communicator whose operations follow the MPI standard: collectives
match by their order on the communicator, a broadcast lets the root go on, a
reduction or gather lets the other ranks go on, barrier/all-* operations wait for
everybody.  Which rank advances next is a choice of the explorer.  Collectives
that do not match, buffers that do not fit and deadlocks are reported.
"""
import contextlib
import functools
import pickle
import threading

import numpy as np

from engine import HarnessLimit


class Mismatch(Exception):
    """The ranks' collective operations do not match: undefined behaviour."""


class Abandon(BaseException):
    pass


_tl = threading.local()


def _mpi():
    import mpi4py

    mpi4py.rc.initialize = False
    mpi4py.rc.finalize = False
    from mpi4py import MPI

    return MPI


def held():
    """A lock that is taken: a cheap one-shot semaphore."""
    k = threading.Lock()
    k.acquire()
    return k


class Coll:
    __slots__ = ("kind", "args", "data", "result", "arrived")

    def __init__(self):
        self.kind, self.args, self.data, self.result, self.arrived = None, None, {}, None, set()


class World:
    def __init__(self, ctx, size, rng):
        self.ctx, self.size = ctx, size
        self.colls = []
        self.rng = list(rng)
        self.switches = 0
        self.touched = False
        self.ops = [[] for _ in range(size)]
        self.problem = None

    # -------------------------------------------------------------- scheduling
    def run(self, body):
        """Run body(rank) on every rank; returns list of (value, exception)."""
        n = self.size
        self.go = [held() for _ in range(n)]
        self.back = held()
        self.owner = None  # the rank whose random state is the global one
        self.wait = [None] * n  # None or a predicate
        self.done = [False] * n
        self.seq = [0] * n
        out = [(None, None)] * n
        self.dead = False

        def main(r):
            self.go[r].acquire()
            _tl.rank, _tl.world = r, self
            try:
                out[r] = (body(r), None)
            except BaseException as e:
                out[r] = (None, e)
            self.done[r] = True
            self.back.release()

        ths = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(n)]
        for t in ths:
            t.start()
        keep = np.random.get_state()
        cur = None
        try:
            while not all(self.done):
                run = [r for r in range(n) if not self.done[r] and (self.dead or self.wait[r] is None or self.wait[r]())]
                if not run:
                    waiting = {r: self.ops[r][-1] if self.ops[r] else "?" for r in range(n) if not self.done[r]}
                    ended = [r for r in range(n) if self.done[r]]
                    self.problem = self.problem or f"deadlock: ranks wait in {waiting}" + (f", ranks {ended} have ended" if ended else "")
                    self.dead = True
                    continue
                if cur in run:
                    run.remove(cur)
                    run.insert(0, cur)
                r = run[0] if self.dead else run[self.ctx.choose(len(run), "rank")]
                if r != cur:
                    self.switches += 1
                cur = r
                if r != self.owner:
                    if self.owner is not None and not self.done[self.owner]:
                        self.rng[self.owner] = np.random.get_state()
                    np.random.set_state(self.rng[r])
                    self.owner = r
                self.wait[r] = None
                self.go[r].release()
                if not self.back.acquire(timeout=60):
                    raise HarnessLimit(f"rank {r} does not come back")
        finally:
            np.random.set_state(keep)
        for t in ths:
            t.join(timeout=5)
        return out

    def pause(self, pred):
        """The calling rank stops until pred() holds (always a scheduling point)."""
        r = _tl.rank
        self.wait[r] = pred
        self.back.release()
        self.go[r].acquire()
        if self.dead:
            raise Abandon()

    # -------------------------------------------------------------- collectives
    def collective(self, kind, args, data, complete, wait_for):
        """kind/args must agree on all ranks. data: this rank's contribution.

        wait_for: 'all', 'root' or None - whose arrival this rank has to await.
        complete(coll) computes the results once all data needed has arrived.
        """
        self.touched = True
        r = _tl.rank
        k = self.seq[r]
        self.seq[r] += 1
        while len(self.colls) <= k:
            self.colls.append(Coll())
        c = self.colls[k]
        self.ops[r].append(kind)
        if c.kind is None:
            c.kind, c.args = kind, args
        elif (c.kind, c.args) != (kind, args):
            self.problem = self.problem or f"collective {k}: rank {r} calls {kind}{args}, another rank {c.kind}{c.args}"
            raise Mismatch(self.problem)
        c.data[r] = data
        c.arrived.add(r)
        if wait_for == "all":
            self.pause(lambda: len(c.arrived) == self.size)
        elif wait_for == "none":
            self.pause(lambda: True)
        else:
            self.pause(lambda: wait_for in c.arrived)
        return c


def parse(buf):
    """The array behind an mpi4py buffer specification."""
    if isinstance(buf, (list, tuple)):
        a = buf[0]
        if len(buf) > 2 or (len(buf) == 2 and isinstance(buf[1], (int, tuple, list))):
            raise HarnessLimit("buffer specification with counts")
        dt = buf[1] if len(buf) == 2 else None
    else:
        a, dt = buf, None
    if not isinstance(a, np.ndarray):
        raise HarnessLimit(f"buffer of type {type(a).__name__}")
    if not (a.flags.c_contiguous or a.flags.f_contiguous):
        raise ValueError("ndarray is not contiguous")
    MPI = _mpi()
    kinds = [(MPI.DOUBLE, np.float64), (MPI.INT64_T, np.int64), (MPI.FLOAT, np.float32), (MPI.LONG, np.int64), (MPI.INT, np.int32), (MPI.BOOL, np.bool_)]
    want = a.dtype.type if dt is None else next((t for d, t in kinds if d == dt), None)
    if want is None:
        raise HarnessLimit("datatype")
    flat = a.reshape(-1) if a.flags.c_contiguous else a.T.reshape(-1)
    flat = flat.view(want)
    assert flat.size == 0 or np.shares_memory(flat, a)
    return flat


def reducer(op):
    MPI = _mpi()
    for o, f in ((MPI.SUM, np.add), (MPI.MAX, np.maximum), (MPI.MIN, np.minimum), (MPI.PROD, np.multiply)):
        if op == o:
            return f
    raise HarnessLimit("reduction operation")


def fold(op, parts):
    f = reducer(op)
    out = parts[0]
    for p in parts[1:]:
        out = f(out, p)
    return out


def clone(o):
    return pickle.loads(pickle.dumps(o))


class Comm:
    """The part of mpi4py's communicator that is modelled."""

    def _w(self):
        w = getattr(_tl, "world", None)
        if w is None:
            raise HarnessLimit("MPI used outside of a simulated rank")
        w.touched = True
        return w

    def Get_rank(self):
        self._w()
        return _tl.rank

    def Get_size(self):
        return self._w().size

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        w = self._w()
        w.collective("Barrier", (), None, None, "all")

    barrier = Barrier

    def Bcast(self, buf, root=0):
        w = self._w()
        a = parse(buf)
        if _tl.rank != root and not a.flags.writeable:
            raise ValueError("buffer is read-only")
        c = w.collective("Bcast", (root, a.size, a.dtype.str), a.copy() if _tl.rank == root else None, None, "none" if _tl.rank == root else root)
        if _tl.rank != root:
            a[:] = c.data[root]

    def bcast(self, obj, root=0):
        w = self._w()
        c = w.collective("bcast", (root,), pickle.dumps(obj) if _tl.rank == root else None, None, "none" if _tl.rank == root else root)
        return obj if _tl.rank == root else pickle.loads(c.data[root])

    def _send(self, sendbuf, recvbuf):
        MPI = _mpi()
        return parse(recvbuf) if sendbuf is MPI.IN_PLACE or (isinstance(sendbuf, int) and sendbuf == MPI.IN_PLACE) else parse(sendbuf)

    def Allreduce(self, sendbuf, recvbuf, op=None):
        MPI = _mpi()
        op = MPI.SUM if op is None else op
        w = self._w()
        s, r = self._send(sendbuf, recvbuf), parse(recvbuf)
        if s.size != r.size:
            raise ValueError("mismatch in send and receive counts")
        c = w.collective("Allreduce", (s.size, s.dtype.str, opname(op)), s.copy(), None, "all")
        r[:] = fold(op, [c.data[i] for i in range(w.size)])

    def allreduce(self, obj, op=None):
        MPI = _mpi()
        op = MPI.SUM if op is None else op
        w = self._w()
        c = w.collective("allreduce", (opname(op),), clone(obj), None, "all")
        parts = [clone(c.data[i]) for i in range(w.size)]
        if op == MPI.SUM:
            out = parts[0]
            for p in parts[1:]:
                out = out + p
            return out
        return fold(op, parts)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        MPI = _mpi()
        op = MPI.SUM if op is None else op
        w = self._w()
        me = _tl.rank == root
        s = self._send(sendbuf, recvbuf)
        c = w.collective("Reduce", (s.size, s.dtype.str, opname(op), root), s.copy(), None, "all" if me else "none")
        if me:
            parse(recvbuf)[:] = fold(op, [c.data[i] for i in range(w.size)])

    def reduce(self, obj, op=None, root=0):
        MPI = _mpi()
        op = MPI.SUM if op is None else op
        w = self._w()
        me = _tl.rank == root
        c = w.collective("reduce", (opname(op), root), clone(obj), None, "all" if me else "none")
        if me:
            parts = [clone(c.data[i]) for i in range(w.size)]
            out = parts[0]
            for p in parts[1:]:
                out = out + p if op == MPI.SUM else reducer(op)(out, p)
            return out
        return None

    def gather(self, obj, root=0):
        w = self._w()
        me = _tl.rank == root
        c = w.collective("gather", (root,), pickle.dumps(obj), None, "all" if me else "none")
        return [pickle.loads(c.data[i]) for i in range(w.size)] if me else None

    def allgather(self, obj):
        w = self._w()
        c = w.collective("allgather", (), pickle.dumps(obj), None, "all")
        return [pickle.loads(c.data[i]) for i in range(w.size)]

    def Gather(self, sendbuf, recvbuf, root=0):
        w = self._w()
        me = _tl.rank == root
        s = parse(sendbuf)
        c = w.collective("Gather", (s.size, s.dtype.str, root), s.copy(), None, "all" if me else "none")
        if me:
            parse(recvbuf)[:] = np.concatenate([c.data[i] for i in range(w.size)])

    def Allgather(self, sendbuf, recvbuf):
        w = self._w()
        s = parse(sendbuf)
        c = w.collective("Allgather", (s.size, s.dtype.str), s.copy(), None, "all")
        parse(recvbuf)[:] = np.concatenate([c.data[i] for i in range(w.size)])

    def scatter(self, sendobj, root=0):
        w = self._w()
        me = _tl.rank == root
        if me and len(sendobj) != w.size:
            raise ValueError(f"expecting {w.size} items, got {len(sendobj)}")
        c = w.collective("scatter", (root,), [pickle.dumps(o) for o in sendobj] if me else None, None, "none" if me else root)
        return pickle.loads(c.data[root][_tl.rank])

    def Scatter(self, sendbuf, recvbuf, root=0):
        w = self._w()
        me = _tl.rank == root
        r = parse(recvbuf)
        c = w.collective("Scatter", (r.size, r.dtype.str, root), parse(sendbuf).copy() if me else None, None, "none" if me else root)
        r[:] = c.data[root].reshape(w.size, -1)[_tl.rank]

    def Abort(self, *a):
        raise HarnessLimit("Abort")

    def __getattr__(self, name):
        raise HarnessLimit(f"communicator operation {name} is not modelled")


def opname(op):
    MPI = _mpi()
    for n in ("SUM", "MAX", "MIN", "PROD"):
        if op == getattr(MPI, n):
            return n
    return repr(op)


def _guard(f):
    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except (TypeError, AttributeError, AssertionError, KeyError, IndexError) as e:
            raise HarnessLimit(f"{f.__name__}: {type(e).__name__}: {e}")

    return g


for _n, _f in list(vars(Comm).items()):
    if callable(_f) and not _n.startswith("_"):
        setattr(Comm, _n, _guard(_f))

WORLD = Comm()


@contextlib.contextmanager
def world(ctx, size, rng):
    MPI = _mpi()
    saved = MPI.COMM_WORLD
    MPI.COMM_WORLD = WORLD
    try:
        yield World(ctx, size, rng)
    finally:
        MPI.COMM_WORLD = saved
