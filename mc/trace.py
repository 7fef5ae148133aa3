"""Drive one run of the real code through its public API and record what is observable."""
import copy
import signal

import numpy as np

from engine import HarnessLimit
import stochopy.optimize as so
import stochopy.sample as ss

OPTIMIZERS = ("de", "pso", "cpso", "na", "cmaes", "vdcma")
SAMPLERS = ("mcmc", "hmc")


class Runaway(BaseException):
    """The code kept evaluating far beyond its budget, or did not return."""


def _alarm(*_):
    raise Runaway("no result within the time limit")


def _near(a, b, scale):
    return bool(np.all(np.abs(a - b) <= 1e-9 * scale))


class Objective:
    """Objective function whose answers come from `policy(x, k)`; records every call."""

    def __init__(self, policy, limit=100000, args=None):
        self.policy = policy
        self.xs = []
        self.vs = []
        self.bad = []  # protocol faults
        self.limit = limit
        self.memo = {}
        self.expect_args = args
        self.types = []

    def __call__(self, x, *args):
        if len(self.xs) >= self.limit:
            raise Runaway(f"more than {self.limit} evaluations")
        xc = np.array(x, copy=True)
        if not isinstance(x, np.ndarray) or x.ndim != 1 or x.dtype.kind != "f":
            self.bad.append(f"called with {type(x).__name__} {getattr(x, 'shape', None)} {getattr(x, 'dtype', None)}")
            xc = np.asarray(xc, dtype=float).ravel()
        if self.expect_args is not None and not same_args(args, self.expect_args):
            self.bad.append(f"called with args {args!r}")
        key = xc.tobytes()
        if key in self.memo:
            v = self.memo[key]
        else:
            v = self.memo[key] = self.policy(xc, len(self.xs))
        self.xs.append(xc)
        self.vs.append(v)
        return v


def same_args(a, b):
    return len(a) == len(b) and all(
        (p is q) or (type(p) is type(q) and np.array_equal(p, q)) for p, q in zip(a, b)
    )


class Trace:
    """Everything observed during one run."""

    __slots__ = ("method", "bounds", "opts", "xs", "vs", "cbs", "res", "exc", "obj", "lo", "hi", "scale", "ndim", "x0")

    def __init__(self):
        self.cbs = []
        self.res = None
        self.exc = None

    # evaluations of generation g (1-based) for population-based optimizers
    def gen(self, g):
        p = self.opts["popsize"]
        return self.xs[(g - 1) * p : g * p], self.vs[(g - 1) * p : g * p]

    def brief(self):
        r = self.res
        return {
            "method": self.method,
            "options": {k: (v if np.isscalar(v) or v is None else repr(v)) for k, v in self.opts.items()},
            "bounds": repr(self.bounds),
            "x0": repr(self.x0),
            "values": [float(v) for v in self.vs[:60]],
            "result": None if r is None else {k: repr(r[k]) for k in r if k not in ("xall", "funall")},
            "exception": repr(self.exc) if self.exc is not None else None,
        }


class CB:
    """Snapshot of one callback invocation, and references to what was passed."""

    __slots__ = ("X", "state", "ref", "n", "keys")

    def __init__(self, X, state, n):
        self.X = np.array(X, copy=True)
        self.ref = state
        self.keys = tuple(sorted(state.keys()))
        self.state = {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in state.items()}
        self.n = n


# what a callback returns has no meaning
RETURNS = (None, True, True, "stop", False, True, np.ones(2))


def run(method, bounds, opts, policy, x0=None, callback=True, args=(), limit=None, front=None, timeout=60, obj=None):
    """Execute one run. opts: options for the method (seed, maxiter, popsize, ...)."""
    t = Trace()
    t.method, t.bounds, t.opts, t.x0 = method, bounds, dict(opts), x0
    b = np.array(bounds, dtype=float)
    t.lo, t.hi = b[:, 0], b[:, 1]
    t.scale = float(np.max(np.abs(b))) + 1e-300
    t.ndim = len(b)
    if limit is None:
        limit = (opts.get("popsize", 10)) * (opts.get("maxiter", 100) + 3) + 50
        if method in SAMPLERS:
            limit = 100000
    if obj is None:
        obj = Objective(policy, limit, args if args else ())
    t.obj = obj
    cb = None
    if callback:

        def cb(X, state):
            t.cbs.append(CB(X, state, len(obj.xs)))
            return RETURNS[len(t.cbs) % len(RETURNS)]

    sampler = method in SAMPLERS
    front = front or (ss.sample if sampler else so.minimize)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        t.res = front(obj, bounds, x0=x0, args=args, method=method, options=dict(opts), callback=cb)
    except HarnessLimit:
        raise
    except (Exception, Runaway) as e:
        t.exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    t.xs, t.vs = obj.xs, obj.vs
    return t


def crash(t):
    """Text if the run did not deliver a result."""
    if t.exc is not None:
        return f"{t.method} with {t.opts} raised {type(t.exc).__name__}: {t.exc}"
    if t.res is None or not hasattr(t.res, "keys"):
        return f"{t.method} with {t.opts} returned {t.res!r}"
    return None


def find(t, x, upto=None, fun=None):
    """Values of the evaluated points that coincide with x (to rounding)."""
    n = len(t.xs) if upto is None else upto
    if n == 0:
        return []
    A = np.array(t.xs[:n])
    x = np.asarray(x, dtype=float)
    if A.shape[1:] != x.shape:
        return []
    s = np.maximum(t.scale, np.abs(A).max())
    hit = np.all(np.abs(A - x) <= 1e-9 * s, axis=1)
    return [t.vs[i] for i in np.flatnonzero(hit)]


def veq(a, b, tol=1e-12):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))
