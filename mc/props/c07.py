"""Parallel evaluation is invisible: every schedule of the workers gives the serial deferred run."""
import numpy as np

import pools
import trace as tr
import universe as U
from engine import Ctx, Divergence, HarnessLimit, explore

BOUNDS = (
    "6 optimizers x {threading, loky} x workers 2..popsize+1, -1, -2 x joblib batch sizes 1-3; popsize 3-7, maxiter 1-4; all schedules of the workers "
    "(yield points: start, two inside the objective, every bytecode instruction of package code run by a worker) for one-iteration runs, up to the "
    "stated number of departures from run-to-completion for longer ones; real thread and process pools on the same drivers"
)
ASSUMPTIONS = [
    "joblib keeps its documented contract (results in submission order, call returns after all tasks); its pools are replaced through its backend interface",
    "process isolation is modelled by a pickle round trip of task and result",
]


def cfgs():
    """(method, box, options) used by the parallel checks."""
    C = [
        ("de", "B2", dict(popsize=3, strategy="best1bin", updating="immediate")),
        ("de", "B2", dict(popsize=4, strategy="rand1bin", updating="deferred", constraints="Random")),
        ("pso", "B2", dict(popsize=3, updating="immediate")),
        ("pso", "B2", dict(popsize=3, updating="deferred", constraints="Shrink", inertia=1.0, cognitivity=4.0)),
        ("cpso", "TINY", dict(popsize=4, competitivity=2.0)),
        ("cpso", "B2", dict(popsize=3, competitivity=1.0, constraints="Shrink", updating="deferred")),
        ("na", "B2", dict(popsize=3, nrperc=0.5)),
        ("na", "FIX", dict(popsize=4, nrperc=1.0)),
        ("cmaes", "B2", dict(popsize=4)),
        ("cmaes", "B2", dict(popsize=4, constraints="Penalize", sigma=1.0)),
        ("vdcma", "B2", dict(popsize=4)),
        ("vdcma", "B2", dict(popsize=4, constraints="Penalize", sigma=1.0)),
        # a single variable
        ("de", "I1", dict(popsize=4, strategy="rand1bin", updating="deferred")),
        ("na", "S1", dict(popsize=3, nrperc=0.5)),
        ("cmaes", "B1", dict(popsize=3, constraints="Penalize")),
    ]
    return C


FUNS = ("in", "step", "int", "out", "flat", "rosen")
# what is kept of the run
WATCH = [dict(return_all=True, verbosity=1.0), dict(return_all=False), dict(return_all=True, verbosity=0.0), dict(return_all=True, verbosity=0.4)]
SMOOTH = ("in", "out", "rosen")  # no exact ties that a last-bit difference of a penalty could break


def tasks(tier):
    th = tier == "thorough"
    T = []
    j = 0
    for m, box, o in cfgs():
        p = o["popsize"]
        for backend in ("threading", "loky", None):
            for w in list(range(2, p + 2)) + [-1, -2]:
                j += 1
                if backend is None and w != 2:
                    continue
                base = dict(method=m, box=box, backend=backend, workers=w, fun=FUNS[j % len(FUNS)], batch=(1, 1, 2, 3)[j % 4], x0=(None, "in")[j % 2] if m not in ("na",) else None)
                full = p <= 3 and w == p and backend and (th or m in ("de", "na"))  # every schedule of one iteration
                T.append(dict(base, opts=dict(o, maxiter=1), bound=None if full else (4 if th else 2), yields=2 if full else 1))
                T.append(dict(base, opts=dict(o, maxiter=3), bound=2 if th else 1, yields=2))
                if th or w in (2, p):
                    T.append(dict(base, opts=dict(o, maxiter=2), bound=3 if th else 2, yields=1))
        T.append(dict(method=m, box=box, backend="threading", workers=3, fun=FUNS[j % len(FUNS)], batch=1, x0=None, opts=dict(o, maxiter=30, popsize=7), bound=0, yields=1))
        T.append(dict(method=m, box=box, backend="threading", workers=p + 3, fun="in", batch=1, x0=None, opts=dict(o, maxiter=4, ftol=0.05, xtol=(0.0, 1e9)[j % 2]), bound=1, yields=1))
    for i, t in enumerate(T):
        # values of either sign
        t["shift"] = (0.0, -7.0, -40.0)[i % 3] if "ftol" not in t["opts"] else 0.0
        t["watch"] = WATCH[i // 3 % 4]
        if t["opts"].get("constraints") == "Penalize":
            t["fun"] = SMOOTH[FUNS.index(t["fun"]) % 3]
        t["label"] = " ".join(f"{k}={v}" for k, v in t.items())
        t["weight"] = 1000 if t["bound"] is None else 10 ** t["bound"] * t["opts"]["popsize"] * t["opts"]["maxiter"]
    for m, box, o in cfgs():
        for upd in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            oo = dict(o, maxiter=4, popsize=o["popsize"] + 1, **({"updating": upd} if upd else {}))
            for fun in ("in", "step", "rosen"):
                T.append(dict(label=f"workers 0 and 1 {m} {box} {oo} {fun}", method=m, box=box, opts=oo, serial=True, fun=fun, x0=None, weight=30))
    for k, (m, box, o) in enumerate(cfgs()):
        for backend in ("threading", "loky"):
            if backend == "loky" and not th and k % 4:
                continue
            T.append(dict(label=f"real pool {backend} {m} {o}", method=m, box=box, opts=dict(o, maxiter=4, popsize=6), real=True, backend=backend, weight=5000,
                          workers=(2, -1, 3)[k % 3], fun="in", x0=None))
    return T


def options(task):
    o = dict(seed=11, ftol=U.OFF)
    o.update(task.get("watch", WATCH[0]))
    o.update(task["opts"])
    return o


def snapshot(res):
    return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in res.items()}


def run_one(task, obj, opts, timeout=60):
    cbs = []

    def cb(X, state):
        cbs.append((np.array(X, copy=True), snapshot(state), len(obj.log) if hasattr(obj, "log") else 0, getattr(obj, "running", 0)))
        if hasattr(obj, "stamp"):
            obj.stamp += 1

    t = tr.Trace()
    t.res, t.exc = None, None
    x0 = None
    if task.get("x0"):
        x0 = U.x0_of(dict(method=task["method"], box=task["box"], opts=opts, x0=task["x0"]))
    import signal

    if timeout:
        old = signal.signal(signal.SIGALRM, tr._alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        t.res = tr.so.minimize(obj, U.BOXES[task["box"]], x0=x0, args=(0.25,), method=task["method"], options=opts, callback=cb)
    except (HarnessLimit, Divergence):
        raise
    except (Exception, tr.Runaway) as e:
        t.exc = e
    finally:
        if timeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    t.cbs = cbs
    return t


def same(a, b):
    """Equal up to the last bits (BLAS results depend on memory alignment)."""
    if isinstance(a, (np.ndarray, float, np.floating)) or isinstance(b, (np.ndarray, float, np.floating)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.array_equal(a, b) or np.allclose(a, b, rtol=1e-9, atol=1e-11))
    return a == b


def match(got, want):
    """The points of `got` are those of `want`, once each, in any order."""
    if len(got) != len(want):
        return False
    left = list(got)
    for w in want:
        for i, g in enumerate(left):
            if same(g, w):
                del left[i]
                break
        else:
            return False
    return True


def differ(a, b):
    """First difference between two results/states (exact)."""
    if set(a) != set(b):
        return f"fields {sorted(a)} vs {sorted(b)}"
    for k in sorted(a):
        if not same(a[k], b[k]):
            return f"{k}: {a[k]!r} vs {b[k]!r}"
    return None


def compare(ref, t):
    if t.exc is not None:
        return f"raised {type(t.exc).__name__}: {t.exc}"
    if len(ref.cbs) != len(t.cbs):
        return f"{len(t.cbs)} callbacks, the serial run has {len(ref.cbs)}"
    for i, (r, c) in enumerate(zip(ref.cbs, t.cbs), 1):
        if not same(r[0], c[0]):
            return f"the population of iteration {i} is {c[0].tolist()}, in the serial run {r[0].tolist()}"
        d = differ(c[1], r[1])
        if d:
            return f"the state of callback {i} differs from the serial run: {d}"
    d = differ(snapshot(t.res), snapshot(ref.res))
    if d:
        return f"the result differs from the serial run: {d}"
    return None


def objective_of(task):
    f = U.base_fun(task["fun"], U.BOXES[task["box"]])
    c = task.get("shift", 0.0)
    return lambda x, a: f(x) + a + c


def reference(task):
    """Serial run with deferred updating."""
    o = options(task)
    if task["method"] in ("de", "pso", "cpso"):
        o["updating"] = "deferred"
    obj = pools.Objective(objective_of(task), yields=0)
    return run_one(task, obj, o), obj


def run(task, st, tier):
    if task.get("real"):
        return real(task, st)
    if task.get("serial"):
        return serial(task, st)
    ref, robj = reference(task)
    if ref.exc is not None:
        st.violate(f"the serial deferred run raised {ref.exc!r}", {"task": task})
        return
    want = [[x for (_, s, x, v) in robj.log if s == g] for g in range(len(ref.cbs))]

    def one(ctx):
        obj = pools.Objective(objective_of(task), yields=task["yields"])
        with pools.pools(ctx, batch=task["batch"], cpus=3) as s:
            try:
                t = run_one(task, obj, dict(options(task), workers=task["workers"], backend=task["backend"]))
            finally:
                s.drop()
        return t, obj, s

    used = False
    try:
        for ctx, (t, obj, s), new in explore(one, task["bound"]):
            st.runs += 1
            st.edges += new
            st.steps += s.count
            st.checked += 1
            order = tuple(x.tobytes() for _, _, x, _ in obj.log)
            st.state(order)
            st.outcomes.add(hash(order))
            used = used or s.pools > 0
            if t.exc is not None and isinstance(t.exc, HarnessLimit):
                raise t.exc
            bad = judge(ref, want, t, obj)
            if bad:  # a violation recurs when its schedule is replayed
                t2, obj2, _ = one(Ctx(tuple(ctx.choices)))
                bad = judge(ref, want, t2, obj2)
            if bad:
                st.violate(f"{task['method']} {task['opts']} backend={task['backend']} workers={task['workers']}: {bad}", {"task": task, "choices": list(ctx.choices)})
                return
    except Divergence as e:
        st.skip(f"uncontrolled nondeterminism: {e}")
        return
    if used:
        st.count("controlled pool", task["backend"])
    else:
        st.count("no joblib pool created", task["backend"])
    st.sample({"task": task["label"], "schedules": st.runs})


def serial(task, st):
    """One worker, or none: the serial run with the updating that was asked for."""
    runs_ = []
    for kw in [{}] + [dict(workers=w, backend=b) for w in (0, 1) for b in (None, "threading", "loky")]:
        obj = pools.Objective(objective_of(task), yields=0)
        with pools.pools(Ctx(), batch=1, cpus=3) as s:
            try:
                t = run_one(task, obj, dict(options(task), **kw))
            finally:
                s.drop()
        st.runs += 1
        st.checked += 1
        st.steps += len(obj.log)
        st.state(tuple(x.tobytes() for _, _, x, _ in obj.log))
        if isinstance(t.exc, HarnessLimit):
            raise t.exc
        if not runs_ and t.exc is not None:
            st.violate(f"{task['method']} {task['opts']}: raised {t.exc!r}", {"task": task})
            return
        runs_.append((t, obj))
        ref, robj = runs_[0]
        bad = compare(ref, t)
        if not bad and [x.tobytes() for _, _, x, _ in obj.log] != [x.tobytes() for _, _, x, _ in robj.log]:
            bad = "the points are not evaluated in the order of the run without these options"
        if bad:
            st.violate(f"{task['method']} {task['opts']} with {kw}: {bad}", {"task": task, "options": kw})
            return


def judge(ref, want, t, obj):
    bad = compare(ref, t)
    if bad:
        return bad
    if obj.bad:
        return obj.bad[0]
    for i, c in enumerate(t.cbs, 1):
        if c[3]:
            return f"callback {i} ran while {c[3]} evaluations were still running"
        if c[2] != robj_count(ref, i):
            return f"callback {i} ran after {c[2]} evaluations instead of {robj_count(ref, i)}"
    got = {}
    for s0, s1, x, v in obj.log:
        if s0 != s1:
            return "an evaluation started in one iteration and ended in another"
        got.setdefault(s0, []).append(x)
    for g in range(max(len(want), len(got))):
        if g >= len(want) or not match(got.get(g, []), want[g]):
            return f"iteration {g + 1} evaluated {len(got.get(g, []))} points which are not, once each, the candidates of the serial run"
    return None


def robj_count(ref, i):
    return ref.cbs[i - 1][2]


_probe = {}


def stop_processes():
    """End loky's idle worker processes (they would outlive this process)."""
    try:
        from joblib.externals.loky import reusable_executor as re

        if re._executor is not None:
            re._executor.shutdown(wait=True, kill_workers=True)
    except Exception:
        pass


def pool_works(backend):
    if backend not in _probe:
        try:
            from joblib import Parallel, delayed

            _probe[backend] = Parallel(n_jobs=2, prefer={"loky": "processes", "threading": "threads"}[backend])(delayed(abs)(-i) for i in range(4)) == [0, 1, 2, 3]
        except Exception:
            _probe[backend] = False
        stop_processes()
    return _probe[backend]


def real(task, st):
    if not pool_works(task["backend"]):
        st.skip(f"joblib's own {task['backend']} pool does not work here")
        return
    ref, _ = reference(task)
    f = objective_of(task)
    try:
        t = run_one(task, f, dict(options(task), workers=task["workers"], backend=task["backend"]), timeout=120)
    finally:
        stop_processes()
    st.runs += 1
    st.steps += len(t.cbs)
    st.checked += 1
    for c in t.cbs:
        st.state(c[0])
    t.cbs = [(a, b, None, None) for a, b, _, _ in t.cbs]
    bad = compare(ref, t)
    if bad:
        st.violate(f"real {task['backend']} pool, {task['method']} {task['opts']} workers={task['workers']}: {bad}", {"task": task})
    st.count("real pool", task["backend"])
