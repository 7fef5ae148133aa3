"""Plain records of whole runs, for checks that compare runs with each other."""
import copy
import signal

import numpy as np

import trace as tr
import universe as U
from engine import HarnessLimit

# (method, box, options): every method with each of its modes; small, but several iterations long
CONFIGS = [
    ("de", "B2", dict(popsize=3, maxiter=4)),
    ("de", "B3", dict(popsize=6, maxiter=4, strategy="rand2bin", updating="deferred", constraints="Random", mutation=1.5)),
    ("de", "B2", dict(popsize=5, maxiter=4, strategy="best2bin", constraints="Random", mutation=2.0, recombination=0.4)),
    ("de", "B1", dict(popsize=4, maxiter=4, strategy="rand1bin", updating="deferred")),
    ("pso", "B2", dict(popsize=3, maxiter=4)),
    ("pso", "B3", dict(popsize=4, maxiter=5, updating="deferred", constraints="Shrink", inertia=1.0, cognitivity=4.0)),
    ("cpso", "TINY", dict(popsize=4, maxiter=5, competitivity=2.0)),
    ("cpso", "B2", dict(popsize=3, maxiter=5, constraints="Shrink", updating="deferred", sociability=4.0, inertia=1.0)),
    ("cpso", "B2", dict(popsize=3, maxiter=4, competitivity=None)),
    ("na", "B2", dict(popsize=3, maxiter=4)),
    ("na", "FIX", dict(popsize=4, maxiter=4, nrperc=1.0)),
    ("cmaes", "B2", dict(popsize=4, maxiter=6)),
    ("cmaes", "B3", dict(popsize=5, maxiter=5, constraints="Penalize", sigma=1.0, muperc=0.25)),
    ("vdcma", "B2", dict(popsize=4, maxiter=6)),
    ("vdcma", "B7", dict(popsize=5, maxiter=5, constraints="Penalize", sigma=1.0, muperc=1.0)),
    ("mcmc", "B2", dict(maxiter=8, stepsize=0.4)),
    ("mcmc", "B3", dict(maxiter=8, stepsize=[0.5, 0.7, 0.9], perc=0.5, constraints="Reject")),
    ("hmc", "B2", dict(maxiter=5, nleap=3, stepsize=0.2)),
    ("hmc", "B3", dict(maxiter=5, nleap=2, stepsize=[0.2, 0.3, 0.1], constraints="Reject", jac="pull")),
    # one variable; boxes in which normalization changes nothing; no history
    ("de", "I1", dict(popsize=4, maxiter=3, return_all=False)),
    ("pso", "B1", dict(popsize=3, maxiter=3, constraints="Shrink", return_all=False)),
    ("cpso", "S2", dict(popsize=3, maxiter=4, competitivity=2.0, return_all=False)),
    ("cpso", "B1", dict(popsize=3, maxiter=3, updating="deferred")),
    ("na", "I2", dict(popsize=4, maxiter=4, return_all=False)),
    ("na", "B1", dict(popsize=3, maxiter=3)),
    ("cmaes", "S2", dict(popsize=4, maxiter=5, return_all=False)),
    ("cmaes", "S1", dict(popsize=4, maxiter=4, constraints="Penalize")),
    ("vdcma", "S2", dict(popsize=4, maxiter=5, return_all=False)),
    ("vdcma", "B1", dict(popsize=4, maxiter=4, constraints="Penalize")),
    ("mcmc", "I1", dict(maxiter=6, stepsize=0.4, return_all=False)),
    ("hmc", "S1", dict(maxiter=4, nleap=3, stepsize=0.2, return_all=False)),
]
CORE = 19  # the first configurations; combined with one another


def base_options(method, o, seed=11):
    if method in tr.SAMPLERS:
        return dict(dict(seed=seed), **o)
    return dict(dict(seed=seed, ftol=U.OFF, return_all=True), **o)


def resolve(method, box, o):
    """Replace the symbolic values in options (jac) by objects."""
    o = dict(o)
    if isinstance(o.get("jac"), str):
        import samplers

        o["jac"] = samplers.jacobian(dict(jac=o["jac"], box=box, enum=("dev", "in", 0)))
    return o


def snap(v):
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    return copy.copy(v)


class Rec:
    __slots__ = ("xs", "vs", "as_", "cbs", "res", "exc", "raw")

    def __init__(self):
        self.xs, self.vs, self.as_, self.cbs = [], [], [], []
        self.res = self.exc = self.raw = None

    def brief(self):
        return dict(evaluations=len(self.xs), points=[x.tolist() for x in self.xs[:12]], values=[float(v) for v in self.vs[:12]], callbacks=len(self.cbs), result=None if self.res is None else {k: repr(v) for k, v in self.res.items() if k not in ("xall", "funall")}, exception=repr(self.exc))


def record(fun, call, timeout=60, limit=20000, callback=True):
    """`call(obj, cb)` performs the run on the real code."""
    r = Rec()

    def obj(x, *a):
        if len(r.xs) >= limit:
            raise tr.Runaway(f"more than {limit} evaluations")
        x = np.array(x, copy=True)
        v = fun(x, *a)
        r.xs.append(x)
        r.vs.append(v)
        r.as_.append(a)
        return v

    def cb(X, state):
        r.cbs.append((np.array(X, copy=True), {k: snap(v) for k, v in state.items()}, len(r.xs)))
        return tr.RETURNS[len(r.cbs) % len(tr.RETURNS)]

    old = signal.signal(signal.SIGALRM, tr._alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        r.raw = call(obj, cb if callback else None)
        r.res = {k: snap(v) for k, v in r.raw.items()}
    except HarnessLimit:
        raise
    except (Exception, tr.Runaway) as e:
        r.exc = e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return r


def front(method):
    return tr.ss.sample if method in tr.SAMPLERS else tr.so.minimize


def direct(method):
    return getattr(tr.ss if method in tr.SAMPLERS else tr.so, method)


def through_front(method, box, o, x0=None, args=(), bounds=None):
    b = U.BOXES[box] if bounds is None else bounds
    return lambda obj, cb: front(method)(obj, b, x0=x0, args=args, method=method, options=o, callback=cb)


def same(a, b, tol=True):
    """Equal up to the last bits (BLAS results depend on memory alignment)."""
    if isinstance(a, (np.ndarray, float, int, np.number)) or isinstance(b, (np.ndarray, float, int, np.number)):
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            return bool(np.array_equal(a, b) or (tol and np.allclose(a, b, rtol=1e-9, atol=1e-11)))
        except (TypeError, ValueError):
            return False
    return type(a) is type(b) and a == b


def differ(a, b, ignore=()):
    """Text: how record a differs from record b (the reference)."""
    if (a.exc is None) != (b.exc is None):
        return f"raised {a.exc!r}" if a.exc is not None else f"did not raise {b.exc!r}"
    if a.exc is not None:
        return None if type(a.exc) is type(b.exc) else f"raised {a.exc!r} instead of {b.exc!r}"
    for i, (x, y) in enumerate(zip(a.xs, b.xs)):
        if not same(x, y):
            return f"evaluation {i + 1} is at {x.tolist()} instead of {y.tolist()}"
    if len(a.xs) != len(b.xs):
        return f"{len(a.xs)} evaluations instead of {len(b.xs)}"
    if "callbacks" not in ignore:
        if len(a.cbs) != len(b.cbs):
            return f"{len(a.cbs)} callbacks instead of {len(b.cbs)}"
        for i, (c, d) in enumerate(zip(a.cbs, b.cbs), 1):
            if not same(c[0], d[0]):
                return f"callback {i} received {c[0].tolist()} instead of {d[0].tolist()}"
            bad = fields(c[1], d[1], ignore)
            if bad:
                return f"state of callback {i}: {bad}"
            if c[2] != d[2]:
                return f"callback {i} after {c[2]} evaluations instead of {d[2]}"
    bad = fields(a.res, b.res, ignore)
    return f"result: {bad}" if bad else None


def fields(a, b, ignore=()):
    ka, kb = set(a) - set(ignore), set(b) - set(ignore)
    if ka != kb:
        return f"fields {sorted(ka)} instead of {sorted(kb)}"
    for k in sorted(ka):
        if not same(a[k], b[k]):
            return f"{k} = {a[k]!r} instead of {b[k]!r}"
    return None


def cover(st, r):
    st.runs += 1
    st.steps += len(r.cbs) or 1
    st.edges += len(r.xs)
    st.checked += 1
    for c in r.cbs:
        st.state(c[0], c[1].get("nit"))
    if not r.cbs and r.xs:
        st.state(np.array(r.xs))
    st.outcomes.add(hash(repr(sorted((k, repr(v)) for k, v in (r.res or {}).items() if k not in ("xall", "funall")))))
