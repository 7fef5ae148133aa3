"""Faults of user code at every call of every run."""
import signal
import threading

import numpy as np

import pools
import runs
import trace as tr
import universe as U
from engine import Ctx, Divergence, HarnessLimit, explore

BOUNDS = (
    "19 configurations of 8 methods (both updating modes): exceptions of 15 classes (incl. StopIteration, KeyboardInterrupt-like) raised by each objective call, each jac call and each callback; "
    "then a run of the same and of another configuration; controlled thread/process pools with 2-3 workers: a fault at each call (pairs of faults in thorough), all schedules with up to 1 (2) "
    "departures; real pools on a few drivers"
)
ASSUMPTIONS = ["a StopIteration may arrive as Python's RuntimeError that wraps it when it crosses a generator (always so in joblib's pools, where it is not injected)", "with process pools, 'the same exception' means the same class and arguments"]


class Boom(Exception):
    pass


class Abort(BaseException):
    """Like KeyboardInterrupt or SystemExit."""


class Odd(Exception):
    """An exception whose truth value and comparison misbehave."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = Exception.__hash__


CLASSES = (Boom, Abort, StopIteration, ValueError, IndexError, FloatingPointError, np.linalg.LinAlgError, KeyError, AttributeError, RuntimeError, Odd, ZeroDivisionError, GeneratorExit, TypeError, ImportError)


def configs():
    out = []
    for m, box, o in runs.CONFIGS:
        out.append((m, box, o))
        if m in ("de", "pso", "cpso"):
            out.append((m, box, dict(o, updating="deferred" if o.get("updating", "immediate") == "immediate" else "immediate")))
    return out


def tasks(tier):
    th = tier == "thorough"
    T = []
    C = configs()
    for k, (m, box, o) in enumerate(C):
        for place in ("objective", "callback") + (("jac",) if m == "hmc" else ()):
            T.append(dict(label=f"{place} fault {m} {o}", cfg=k, place=place, weight=o["maxiter"] * o.get("popsize", 5), kind="serial", classes=len(CLASSES) if th or place != "objective" else 5))
        if m in tr.OPTIMIZERS:
            for backend in ("threading", "loky"):
                for w in (2, 3) if th else (2 + k % 2,):
                    T.append(dict(label=f"pool fault {backend} workers={w} {m} {o}", cfg=k, kind="pool", backend=backend, w=w, bound=2 if th else 1, pairs=th, weight=100))
    for k in (range(0, len(C), 2) if th else (0, 5, 12, 15)):
        if C[k][0] in tr.OPTIMIZERS:
            for backend in ("threading", "loky") if th or k in (0, 15) else ("threading",):
                T.append(dict(label=f"real {backend} pool {C[k]}", cfg=k, kind="real", backend=backend, weight=2000))
    return T


def fun_of(box):
    f = U.base_fun("in", U.BOXES[box])
    return lambda x, *a: f(x)


def call_of(cfg, extra=None):
    m, box, o = cfg
    oo = runs.resolve(m, box, runs.base_options(m, o))
    oo.update(extra or {})
    return runs.through_front(m, box, oo)


def run(task, st, tier):
    return dict(serial=serial, pool=pool, real=real)[task["kind"]](task, st, tier)


def environment():
    import os
    import warnings

    return (tuple(sorted(np.geterr().items())), len(warnings.filters), np.geterrcall(), tuple(sorted(np.get_printoptions().items(), key=str)).__repr__(), os.getcwd(), threading.active_count(), str(signal.getsignal(signal.SIGINT)))


def serial(task, st, tier):
    C = configs()
    cfg = C[task["cfg"]]
    m, box, o = cfg
    other = C[(task["cfg"] * 7 + 3) % len(C)]
    f = fun_of(box)
    ref = runs.record(f, call_of(cfg))
    oref = runs.record(fun_of(other[1]), call_of(other))
    if ref.exc is not None or oref.exc is not None:
        st.violate(f"{cfg if ref.exc is not None else other}: raised {ref.exc or oref.exc!r}", {"task": task})
        return
    place = task["place"]
    njac = [0]
    total = {"objective": len(ref.xs), "callback": len(ref.cbs)}.get(place)
    if place == "jac":
        if "jac" not in o:
            st.skip("no jac in this configuration")
            return
        runs.record(f, with_jac(cfg, lambda k: njac.__setitem__(0, k + 1)))
        total = njac[0]
    n = task["classes"]
    for k in range(total):
        for c in range(n):
            cls = CLASSES[(k * n + c) % len(CLASSES)]
            exc = cls("injected", k)
            calls = {"objective": 0, "callback": 0, "jac": 0, "after": 0}
            raised = [False]

            def hit(where):
                if raised[0]:
                    calls["after"] += 1
                i = calls[where]
                calls[where] += 1
                if where == place and i == k and not raised[0]:
                    raised[0] = True
                    raise exc

            def obj(x, *a):
                hit("objective")
                return f(x)

            def cb(X, s):
                hit("callback")

            env = environment()
            got = ret = None
            run_ = with_jac(cfg, lambda i: hit("jac")) if "jac" in o else call_of(cfg)
            try:
                ret = guarded(lambda: run_(obj, cb))
            except BaseException as e:
                got = e
            st.runs += 1
            st.steps += calls["callback"] + 1
            st.edges += calls["objective"]
            st.checked += 1
            st.state(task["cfg"], place, k, cls.__name__)
            st.outcomes.add(type(got).__name__)
            what = f"{m} {o}: {cls.__name__} raised by call {k + 1} of the {place}"
            if got is None:
                bad = f"was swallowed, the run returned {ret!r}"
            elif got is not exc and not (isinstance(exc, StopIteration) and isinstance(got, RuntimeError) and got.__cause__ is exc):
                bad = f"reached the caller as {got!r}"
            elif calls["after"]:
                bad = f"was followed by {calls['after']} more calls of user code"
            elif environment() != env:
                bad = f"left the process changed: {[(a, b) for a, b in zip(env, environment()) if a != b]}"
            else:
                bad = None
            if bad:
                st.violate(f"{what} {bad}", {"task": task, "call": k, "class": cls.__name__})
                return
        # after the last fault at this call: the next runs
        r = runs.record(f, call_of(cfg))
        bad = runs.differ(r, ref)
        if not bad and k % 3 == 0:
            r = runs.record(fun_of(other[1]), call_of(other))
            bad = runs.differ(r, oref)
            bad = bad and f"(a run of {other}) {bad}"
        st.checked += 1
        if bad:
            st.violate(f"{m} {o}: a run after a fault in call {k + 1} of the {place}: {bad}", {"task": task, "call": k})
            return
    st.sample({"task": task["label"], "fault points": total})


def guarded(call, timeout=60):
    old = signal.signal(signal.SIGALRM, tr._alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return call()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def with_jac(cfg, hook):
    m, box, o = cfg
    oo = runs.resolve(m, box, runs.base_options(m, o))
    j = oo["jac"]
    n = [0]

    def jac(x, *a):
        hook(n[0])
        n[0] += 1
        return j(x)

    oo["jac"] = jac
    return runs.through_front(m, box, oo)


def matches(got, excs, process):
    if process:
        return any(type(got) is type(e) and got.args == e.args for e in excs)
    return any(got is e for e in excs)


PCLS = (Boom, ValueError, TypeError, IndexError, RuntimeError, KeyError)


def pool(task, st, tier):
    cfg = configs()[task["cfg"]]
    m, box, o = cfg
    o = dict(o, maxiter=min(o["maxiter"], 3))
    cfg = (m, box, o)
    f = fun_of(box)
    process = task["backend"] == "loky"
    extra = dict(workers=task["w"], backend=task["backend"])
    sref = dict(updating="deferred") if m in ("de", "pso", "cpso") else {}
    ref = runs.record(f, call_of(cfg, sref))
    if ref.exc is not None:
        st.violate(f"{cfg}: raised {ref.exc!r}", {"task": task})
        return
    total = len(ref.xs)
    places = [("objective", k, None) for k in range(total)]
    if task["pairs"]:
        places += [("objective", k, k + d) for k in range(total) for d in (1, 2) if k + d < total]
    places += [("callback", k, None) for k in range(len(ref.cbs))]
    call = call_of(cfg, extra)
    for j, (place, k, k2) in enumerate(places):
        cls = PCLS[j % len(PCLS)]

        def one(ctx):
            excs = {k: cls("injected", k)}
            if k2 is not None:
                excs[k2] = PCLS[(j + 1) % len(PCLS)]("second", k2)
            hits = []

            def fault(i, x):
                if place == "objective" and i in excs:
                    hits.append(excs[i])
                    raise excs[i]

            obj = pools.Objective(f, yields=1, fault=fault)
            ncb = [0, 0]

            def cb(X, s):
                if hits:
                    ncb[1] += 1
                ncb[0] += 1
                if place == "callback" and ncb[0] == k + 1:
                    hits.append(excs[k])
                    raise excs[k]

            got = ret = None
            with pools.pools(ctx, batch=1 + j % 2, cpus=3, preempt_code=False) as s:
                try:
                    ret = guarded(lambda: call(obj, cb))
                except (HarnessLimit, Divergence):
                    raise
                except BaseException as e:
                    got = e
                finally:
                    s.drop()
            return hits, got, ret, ncb

        for ctx, (hits, got, ret, ncb), new in explore(one, task["bound"]):
            st.runs += 1
            st.edges += new
            st.steps += 1
            st.checked += 1
            st.state(task["cfg"], place, k, k2, ctx.choices)
            bad = None
            if not hits:
                if got is not None:
                    bad = f"raised {got!r} although no fault was injected"
            elif got is None:
                bad = f"was swallowed, the run returned {ret!r}"
            elif not matches(got, hits, process and place == "objective"):
                bad = f"reached the caller as {type(got).__name__}: {got}"
            elif ncb[1]:
                bad = "was followed by a callback"
            if bad:
                st.violate(f"{m} {o} {extra}: {cls.__name__} in call {k + 1} of the {place} {bad}", {"task": task, "choices": list(ctx.choices), "place": [place, k, k2]})
                return
        if j % 4 == 0:
            with pools.pools(Ctx(), batch=1, cpus=3, preempt_code=False) as s:
                obj = pools.Objective(f, yields=0)
                r = runs.record(None, lambda _, cb: call(obj, cb))
                s.drop()
            bad = f"raised {r.exc!r}" if r.exc is not None else runs.fields(r.res, ref.res)
            st.checked += 1
            if bad:
                st.violate(f"{m} {o} {extra}: a run after a fault in call {k + 1} of the {place}: {bad}", {"task": task})
                return
    st.sample({"task": task["label"], "fault points": len(places), "executions": st.runs})


class RealFault:
    def __init__(self, box, at):
        self.box, self.at = box, at

    def __call__(self, x):
        v = fun_of(self.box)(x)
        if v <= self.at:
            raise ValueError("injected", 7)
        return v


def real(task, st, tier):
    from props import c07

    if not c07.pool_works(task["backend"]):
        st.skip(f"joblib's own {task['backend']} pool does not work here")
        return
    cfg = configs()[task["cfg"]]
    m, box, o = cfg
    call = call_of(cfg, dict(workers=2, backend=task["backend"]))
    sref = dict(updating="deferred") if m in ("de", "pso", "cpso") else {}
    ref = runs.record(fun_of(box), call_of(cfg, sref))
    vs = sorted(set(ref.vs))
    try:
        for at in (vs[-1], vs[len(vs) // 2], vs[0]):
            f = RealFault(box, at)
            got = ret = None
            try:
                ret = guarded(lambda: call(f, None), 200)
            except BaseException as e:
                got = e
            st.runs += 1
            st.checked += 1
            st.steps += 1
            st.state(task["cfg"], at)
            if not (type(got) is ValueError and got.args == ("injected", 7)):
                st.violate(f"{m} {o} with 2 real {task['backend']} workers: ValueError('injected', 7) of the objective " + (f"was swallowed, the run returned {ret!r}" if got is None else f"reached the caller as {got!r}"), {"task": task})
                return
            r = runs.record(None, lambda _, cb: call(RealFault(box, -np.inf), cb), timeout=200)
            bad = f"raised {r.exc!r}" if r.exc is not None else runs.fields(r.res, ref.res)
            if bad:
                st.violate(f"{m} {o} with 2 real {task['backend']} workers: a run after the fault: {bad}", {"task": task})
                return
    finally:
        c07.stop_processes()
