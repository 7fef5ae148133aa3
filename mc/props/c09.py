"""Runs with a seed depend on their arguments only: not on what happened before them, nor on who watches."""
import gc
import os
import pickle
import random
import subprocess
import sys
import time

import numpy as np

import runs
import trace as tr
import universe as U
from engine import HarnessLimit

BOUNDS = (
    "history tree: every sequence of up to 2 operations (3 over a reduced alphabet; thorough: 3 over all) out of 35 (19 configurations with a seed, unseeded runs, aborted, rejected, generator reseeded/advanced/"
    "left with a cached normal, benchmark calls, threaded runs), each prefix continued in its own forked copy of the process; every seeded run is compared with the one of a fresh process. "
    "Seeds 0, 1, 11, 2^32-1 and NumPy integers against numpy.random.seed + unseeded run, for all configurations, also twice in a row. "
    "Observers: all combinations of callback, return_all and verbosity on all configurations x objectives, with up to 1 (2) departing objective values at any evaluation and with ftol stops. Surroundings: 4 contents of fresh memory, 3 clocks, 2 machines, 2 process settings, 4 (8) hash seeds on all configurations"
)
ASSUMPTIONS = ["numpy.random's global generator is the only source of randomness of an unseeded run", "values are compared up to the last bits (BLAS results depend on memory alignment)"]


class Stop(Exception):
    pass


# ---------------------------------------------------------------- operations of a history
def seeded(k, seed=11, kind="in", over=None):
    m, box, o = runs.CONFIGS[k]

    def op():
        oo = runs.resolve(m, box, runs.base_options(m, o, seed))
        oo.update(over or {})
        f = U.base_fun(kind, U.BOXES[box])
        return runs.record(lambda x: f(x), runs.through_front(m, box, oo))

    return op


def unseeded(k, kind="in", over=None):
    return seeded(k, None, kind, over)


def aborted(k, place, n):
    m, box, o = runs.CONFIGS[k]

    def op():
        oo = runs.resolve(m, box, runs.base_options(m, o, 5))
        f = U.base_fun("in", U.BOXES[box])
        c = [0]

        def hit(w):
            if w == place:
                c[0] += 1
                if c[0] == n:
                    raise Stop

        def obj(x):
            hit("objective")
            return f(x)

        try:
            runs.front(m)(obj, U.BOXES[box], method=m, options=oo, callback=lambda X, s: hit("callback"))
        except Stop:
            pass

    return op


def rejected(m, **o):
    def op():
        try:
            runs.front(m)(lambda x: 1.0, U.BOXES["B2"], method=m, options=dict(seed=3, **o))
        except Exception:
            pass

    return op


def rng(which):
    def op():
        if which == "seed":
            np.random.seed(987)
        elif which == "advance":
            np.random.rand(7)
        elif which == "gauss":  # leaves a cached second normal in the generator
            np.random.seed(5)
            np.random.randn(1)
        elif which == "state":
            np.random.set_state(np.random.RandomState(4).get_state())

    return op


def bench():
    from stochopy.factory import rosenbrock, sphere

    rosenbrock([1.0, 2.0])
    sphere(np.ones(3))


def threaded(k):
    def op():
        m, box, o = runs.CONFIGS[k]
        oo = runs.base_options(m, o, 3)
        oo.update(workers=2, backend="threading")
        f = U.base_fun("in", U.BOXES[box])
        runs.front(m)(lambda x: f(x), U.BOXES[box], method=m, options=oo)

    return op


def mutating_user():
    """A user who changes, after a run, everything the run gave back."""
    m, box, o = runs.CONFIGS[0]
    for k in (0, 7, 9, 11, 15, 17):
        r = seeded(k)()
        for v in r.raw.values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 1e9
        r.raw.clear()


def alphabet():
    A = []
    for k, (m, box, o) in enumerate(runs.CONFIGS[:runs.CORE]):
        A.append((f"{m}#{k} seed=11", seeded(k), True))
    for k in (0, 6, 9, 11, 15, 17):
        A.append((f"{runs.CONFIGS[k][0]}#{k} unseeded", unseeded(k), False))
    A += [
        ("de aborted by the objective", aborted(0, "objective", 5), False),
        ("na aborted by the callback", aborted(9, "callback", 2), False),
        ("cmaes aborted by the objective", aborted(11, "objective", 3), False),
        ("rejected", rejected("cpso", inertia=7.0), False),
        ("np.random.seed", rng("seed"), False),
        ("np.random.rand", rng("advance"), False),
        ("np.random.randn (cached normal)", rng("gauss"), False),
        ("np.random.set_state", rng("state"), False),
        ("benchmark functions", bench, False),
        ("user overwrites results", mutating_user, False),
    ]
    return A


SMALL = ("de#1", "cpso#6", "na#9", "cmaes#11", "vdcma#14", "mcmc#15", "hmc#17", "unseeded", "gauss", "aborted")


def small(A):
    # one of each group that the third level of the quick tree branches over
    out, seen = [], set()
    for i, (lab, _, _) in enumerate(A):
        for s in SMALL:
            if s in lab and s not in seen or (s == "gauss" and "cached" in lab and s not in seen):
                seen.add(s)
                out.append(i)
                break
    return out


def process_state():
    """Everything in the process that a later run could see: for counting states."""
    out = [pickle.dumps(np.random.get_state(), 4)]
    for name in sorted(n for n in sys.modules if n.startswith("stochopy")):
        for k, v in sorted(vars(sys.modules[name]).items()):
            if isinstance(v, (dict, list, set, int, float, str)) and not k.startswith("__"):
                out.append(repr((name, k, v)))
            d = getattr(v, "__defaults__", None)
            if d:
                out.append(repr((name, k, d)))
    return out


# ---------------------------------------------------------------- forked continuation
def in_child(fn):
    """Run fn() in a forked copy of this process; its (picklable) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = (True, fn())
            except HarnessLimit as e:
                out = (False, f"harness limit: {e}")
            except BaseException as e:
                import traceback

                out = (False, traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh, 4)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a forked continuation died")
    ok, v = pickle.loads(data)
    if not ok:
        raise RuntimeError(v)
    return v


def portable(r):
    """A record without user objects, for the pipe."""
    return (r.xs, [float(v) for v in r.vs], r.cbs, r.res, None if r.exc is None else repr(r.exc))


class View:
    def __init__(self, t):
        self.xs, self.vs, self.cbs, self.res, self.exc = t


def diff(a, b):
    if a.exc is not None or b.exc is not None:
        return None if str(a.exc) == str(b.exc) else f"raised {a.exc}" if a.exc else f"did not raise {b.exc}"
    return runs.differ(a, b)


# ---------------------------------------------------------------- tasks
def tasks(tier):
    th = tier == "thorough"
    A = alphabet()
    T = []
    for i in range(len(A)):
        T.append(dict(kind="tree", first=i, depth=4 if th else 3, label=f"histories starting with {A[i][0]}", weight=100))
        if not th and i in small(A):
            T.append(dict(kind="tree", first=i, depth=4, small=True, label=f"longer histories starting with {A[i][0]}", weight=80))
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        T.append(dict(kind="seed", cfg=k, label=f"seed= against numpy.random.seed {m} {o}", weight=20))
        T.append(dict(kind="memory", cfg=k, label=f"content of fresh memory {m} {o}", weight=10))
        T.append(dict(kind="observe", cfg=k, bound=2 if th else 1, label=f"observers {m} {o}", weight=o["maxiter"] * o.get("popsize", 3) * 30))
        if m in tr.OPTIMIZERS and "updating" not in o or m in ("cmaes", "na"):
            T.append(dict(kind="threads", cfg=k, label=f"after threaded runs {m} {o}", weight=5))
        T.append(dict(kind="ambient", cfg=k, label=f"surroundings {m} {o}", weight=15))
    for part in range(4):
        T.append(dict(kind="hashes", part=part, seeds=list(range(8 if th else 4)), label=f"hash seeds, part {part}", weight=60))
    return T


def run(task, st, tier):
    return dict(ambient=ambient, hashes=hashes, tree=tree, seed=seed, observe=observe, threads=threads, memory=memory)[task["kind"]](task, st, tier)


def tree(task, st, tier):
    A = alphabet()
    refs = {}

    def ref(i):
        if i not in refs:
            refs[i] = View(in_child(lambda: portable(A[i][1]())))
        return refs[i]

    for i, (_, _, seeded_) in enumerate(A):
        if seeded_:
            ref(i)
    inner = small(A) if task.get("small") else range(len(A))

    def node(path):
        """In its own process: perform the last operation of path, then all continuations."""
        lab, op, checked = A[path[-1]]
        out = dict(nodes=1, checked=0, evals=0, states=[], bad=None)
        r = op()
        out["states"].append(__import__("engine").digest(*process_state()))
        if checked:
            v = View(portable(r))
            out["checked"] = 1
            out["evals"] = len(v.xs)
            d = diff(v, refs[path[-1]])
            if d:
                out["bad"] = (list(path), d)
                return out
        if len(path) < task["depth"]:
            for j in inner if len(path) < task["depth"] - 1 else [j for j in inner if A[j][2]]:
                c = in_child(lambda: node(path + (j,)))
                for k in ("nodes", "checked", "evals"):
                    out[k] += c[k]
                out["states"] += c["states"]
                if c["bad"]:
                    out["bad"] = c["bad"]
                    return out
        return out

    out = in_child(lambda: node((task["first"],)))
    st.runs += out["nodes"]
    st.steps += out["nodes"]
    st.edges += out["evals"]
    st.checked += out["checked"]
    st.states.update(out["states"])
    if out["bad"]:
        path, d = out["bad"]
        names = [A[i][0] for i in path]
        st.violate(f"after {names[:-1]}, the run {names[-1]} differs from the one in a fresh process: {d}", {"task": task, "history": names, "difference": d})
    st.sample({"task": task["label"], "histories": out["nodes"]})


SEEDS = (0, 1, 11, 2**32 - 1, np.int64(0), np.uint32(7))


def seed(task, st, tier):
    k = task["cfg"]
    m, box, o = runs.CONFIGS[k]
    for s in SEEDS:
        for kind in ("in", "step"):
            a = seeded(k, s, kind)()

            def other(before):
                np.random.seed(before)
                np.random.randn(3)
                np.random.seed(int(s))
                return unseeded(k, kind)()

            b = other(1)
            c = other(2)
            np.random.seed(77)
            d = seeded(k, s, kind)()
            for r in (a, b, c, d):
                runs.cover(st, r)
            for what, r in (("numpy.random.seed(s) and no seed", b), ("numpy.random.seed(s) and no seed (again)", c), ("seed=s again", d)):
                bad = runs.differ(r, a)
                if bad:
                    st.violate(f"{m} {o} seed={s!r}: the run with {what} differs from seed=s: {bad}", {"task": task, "seed": repr(s), "what": what, "difference": bad})
                    return
        # an unseeded run goes on with the generator where it is: two in a row, started alike, are alike
        pairs = []
        for rep in range(2):
            np.random.seed(int(s))
            pairs.append((unseeded(k)(), unseeded(k)()))
        for a, b in zip(*pairs):
            runs.cover(st, b)
            bad = runs.differ(b, a)
            if bad:
                st.violate(f"{m} {o}: two sequences of two unseeded runs after numpy.random.seed({s}) differ: {bad}", {"task": task, "seed": repr(s), "difference": bad})
                return
        # ... and does not restart the stream by itself
        a, b = pairs[0]
        if not runs.differ(b, a) and len(a.xs) and m not in ():
            st.violate(f"{m} {o}: two consecutive unseeded runs are identical, the generator was reset", {"task": task, "seed": repr(s)})
            return
    # different seeds give different runs
    recs = [(s, seeded(k, s)()) for s in (0, 1, 11, 12, 2**32 - 1)]
    for i, (s, a) in enumerate(recs):
        for t, b in recs[:i]:
            if runs.differ(a, b) is None:
                st.violate(f"{m} {o}: seeds {s} and {t} give the same run", {"task": task, "seeds": [s, t]})
                return


class Memory:
    """numpy.empty with a content decided by the harness: what is in fresh memory is up to the environment."""

    def __init__(self, fill):
        self.fill = fill

    def __enter__(self):
        self.saved = np.empty, np.empty_like
        empty, empty_like = self.saved

        def filled(a):
            if a.dtype.kind in "fc":
                a.fill(self.fill)
            elif a.dtype.kind in "iu":
                a.fill(0 if not np.isfinite(self.fill) else int(np.sign(self.fill)) * 9 if a.dtype.kind == "i" else 9)
            return a

        np.empty = lambda *a, **k: filled(empty(*a, **k))
        np.empty_like = lambda *a, **k: filled(empty_like(*a, **k))

    def __exit__(self, *a):
        np.empty, np.empty_like = self.saved


def memory(task, st, tier):
    k = task["cfg"]
    m, box, o = runs.CONFIGS[k]
    x0s = [None, "in"] + (["far", "farlow", "corner"] if m in ("cmaes", "vdcma", "mcmc", "hmc") else ["corner"])
    over = [{}]
    if m in tr.OPTIMIZERS:
        over = [dict(o_, **p) for o_ in ({}, {"return_all": True, "verbosity": 0.0}, {"return_all": True, "verbosity": 0.4}) for p in ({}, {"maxiter": 1}, {"maxiter": o["maxiter"] + 6}) + (({"sigma": 0.05, "maxiter": 10},) if m in ("cmaes", "vdcma") else ())]
    for x0 in x0s:
        for kind in ("in", "out", "step"):
            for ov in over:
                ref = None
                for fill in (0.0, 1e9, -1e9, np.nan):
                    oo = runs.resolve(m, box, dict(runs.base_options(m, o, 11), **ov))
                    f = U.base_fun(kind, U.BOXES[box])
                    x = None if x0 is None else U.x0_of(dict(method=m, box=box, x0=x0, opts=dict(popsize=o.get("popsize"))))
                    with Memory(fill):
                        r = runs.record(lambda y: f(y), runs.through_front(m, box, oo, x0=x))
                    runs.cover(st, r)
                    if ref is None:
                        ref = r
                        continue
                    bad = runs.differ(r, ref)
                    if bad:
                        st.violate(
                            f"{m} {oo} objective {kind} x0={x0}: the run depends on the content of fresh memory ({fill} instead of 0): {bad}",
                            {"task": task, "objective": kind, "x0": x0, "options": {a: repr(b) for a, b in oo.items()}, "fill": repr(fill), "difference": bad},
                        )
                        return


CLOCK = [n + k for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time") for k in ("", "_ns")]


def patched(owner, names, make):
    """Replace functions of a module, also where a module of the package imported them by name."""
    for n in names:
        old = getattr(owner, n, None)
        if old is None:
            continue
        new = make(n)
        setattr(owner, n, new)
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] == "stochopy" and mod is not None:
                for a, v in list(vars(mod).items()):
                    if v is old:
                        setattr(mod, a, new)


def clock(kind):
    now = [1.7e9]

    def make(n):
        def f(*a):
            now[0] += {"stopped": 0.0, "years": 1e8, "back": -3600.0}[kind]
            return int(now[0] * 1e9) if n.endswith("_ns") else now[0]

        return f

    patched(time, CLOCK, make)


def machine(n):
    patched(os, ["cpu_count", "getpid", "getppid", "process_cpu_count"], lambda _: lambda: n)
    patched(os, ["getloadavg"], lambda _: lambda: (float(n),) * 3)
    os.environ.clear()
    os.environ.update(HOME="/nonexistent", USER="u%d" % n, OMP_NUM_THREADS=str(n), STOCHOPY="%d" % n)
    sys.argv[:] = ["prog%d" % n]


def settings(kind):
    np.seterr(all="ignore" if kind else "warn")
    np.set_printoptions(precision=1 + 8 * kind, threshold=2 + 100 * kind, suppress=bool(kind))
    (gc.disable, gc.enable)[kind]()
    random.seed(kind)
    sys.setrecursionlimit(3000 + 1000 * kind)
    if kind:
        np.random.seed(5)


AMBIENT = (
    [("as it is", lambda: None)]
    + [("clock " + k, lambda k=k: clock(k)) for k in ("stopped", "years", "back")]
    + [("machine %d" % n, lambda n=n: machine(n)) for n in (1, 64)]
    + [("settings %d" % n, lambda n=n: settings(n)) for n in (0, 1)]
)


def ambient_run(k, x0, ov):
    m, box, o = runs.CONFIGS[k]
    oo = runs.resolve(m, box, dict(runs.base_options(m, o, 11), **ov))
    f = U.base_fun("in", U.BOXES[box])
    x = None if x0 is None else U.x0_of(dict(method=m, box=box, x0=x0, opts=dict(popsize=o.get("popsize"))))
    return portable(runs.record(lambda y: f(y), runs.through_front(m, box, oo, x0=x)))


def cases(k):
    m, _, o = runs.CONFIGS[k]
    return [(x0, ov) for x0 in (None, "in") for ov in [{}, {"maxiter": o["maxiter"] + 9}] + ([{"ftol": 0.05}, {"return_all": True, "verbosity": 0.4}] if m in tr.OPTIMIZERS else [])]


def ambient(task, st, tier):
    k = task["cfg"]
    m, box, o = runs.CONFIGS[k]
    for x0, ov in cases(k):
        ref = None
        for name, apply in AMBIENT:
            def child():
                apply()
                return ambient_run(k, x0, ov)

            r = View(in_child(child))
            runs.cover(st, r)
            if ref is None:
                ref = r
                continue
            bad = diff(r, ref)
            if bad:
                st.violate(f"{m} {o} {ov} x0={x0}: the run depends on its surroundings ({name}): {bad}", {"task": task, "x0": x0, "options": repr(ov), "surroundings": name, "difference": bad})
                return


def hashes(task, st, tier):
    """Fresh interpreters whose sets and hash tables are ordered differently."""
    code = "import sys, os, pickle; out = os.dup(1); os.dup2(2, 1); sys.path[:0] = [%r, %r]; from props import c09; pickle.dump([c09.ambient_run(*c) for c in c09.every(%d)], os.fdopen(out, 'wb'), 4)" % (
        os.environ.get("STOCHOPY_REPO", "/repo"), os.path.dirname(os.path.dirname(os.path.abspath(__file__))), task["part"])
    refs = None
    for h in task["seeds"]:
        p = subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, timeout=300)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-2000:])
        got = [View(t) for t in pickle.loads(p.stdout)]
        for i, r in enumerate(got):
            runs.cover(st, r)
            if refs is not None:
                bad = diff(r, refs[i])
                if bad:
                    k, x0, ov = every(task["part"])[i]
                    st.violate(f"{runs.CONFIGS[k]} {ov} x0={x0}: the run depends on the interpreter's hash seed ({h}): {bad}", {"task": task, "config": repr(runs.CONFIGS[k]), "hash seed": h, "difference": bad})
                    return
        if refs is None:
            refs = got


def every(part):
    return [(k, x0, ov) for k in range(part, len(runs.CONFIGS), 4) for x0, ov in cases(k)]


def observe(task, st, tier):
    k = task["cfg"]
    m, box, o = runs.CONFIGS[k]
    o = {a: b for a, b in o.items() if a != "return_all"}
    opt = m in tr.OPTIMIZERS
    settings = []
    for cb in (False, True):
        for ra in (None, False, True):
            for vb in (None, 0.0, 0.5, 1.0) if opt else (None,):
                s = {}
                if ra is not None:
                    s["return_all"] = ra
                if vb is not None:
                    s["verbosity"] = vb
                settings.append((cb, s))
    x0s = [None] + (["in"] if m != "hmc" else [])

    def one(cb, s, kind, x0, dev, ftol):
        oo = runs.resolve(m, box, dict(dict(seed=11), **o))
        if opt:
            oo["ftol"] = ftol
        oo.update(s)
        f = U.base_fun(kind, U.BOXES[box])
        n = [0]
        x0v = None if x0 is None else U.x0_of(dict(method=m, box=box, x0=x0, opts=dict(popsize=o.get("popsize"))))
        seen = [np.inf]

        def obj(x):
            n[0] += 1
            v = f(x)
            a = dev.get(n[0])
            if a == 1:
                v = min(seen[0], v) - 1.0
            elif a == 2:
                v = 1e4
            elif a == 3:
                v = seen[0] if np.isfinite(seen[0]) else v
            seen[0] = min(seen[0], v)
            return v

        return runs.record(obj, runs.through_front(m, box, oo, x0=x0v), callback=cb)

    def compare(kind, x0, dev, ftol, which):
        ref = None
        for cb, s in which:
            r = one(cb, s, kind, x0, dev, ftol)
            runs.cover(st, r)
            if ref is None:
                ref = r
                continue
            bad = runs.differ(r, ref, ("callbacks", "xall", "funall"))
            if bad:
                st.violate(
                    f"{m} {o} objective {kind} x0={x0} departures {dev} ftol={ftol}: with callback={cb} {s} the run differs from the one with {which[0]}: {bad}",
                    {"task": task, "objective": kind, "x0": x0, "departures": dev, "ftol": ftol, "setting": [cb, s], "difference": bad},
                )
                return None
        return ref

    few = [settings[0], (True, dict(settings[-1][1])), (True, {}), (False, dict(settings[-1][1]))]
    if opt:
        few.append((True, dict(return_all=True, verbosity=0.0)))
    for x0 in x0s:
        for kind in ("in", "step", "out"):
            ref = compare(kind, x0, {}, U.OFF, settings)
            if ref is None:
                return
            if opt:
                for ft in sorted({float(v) for v in ref.vs})[:: max(1, len(ref.vs) // 6)]:
                    if compare(kind, x0, {}, ft, few) is None:
                        return
    N = len(ref.xs)
    for i in range(1, N + 1):
        for a in (1, 2, 3):
            if compare("in", None, {i: a}, U.OFF, few) is None:
                return
            if task["bound"] > 1:
                for j in range(i + 1, N + 1):
                    for b in (1, 2, 3):
                        if compare("in", None, {i: a, j: b}, U.OFF, few[:2] + few[4:]) is None:
                            return
    st.sample({"task": task["label"], "runs": st.runs})


def threads(task, st, tier):
    k = task["cfg"]
    m, box, o = runs.CONFIGS[k]
    ref = View(in_child(lambda: portable(seeded(k)())))
    for j in (0, 6, 9, 11):
        threaded(j)()
        r = seeded(k)()
        runs.cover(st, r)
        bad = diff(View(portable(r)), ref)
        if bad:
            st.violate(f"{m} {o} after a run with worker threads of {runs.CONFIGS[j][0]}: {bad}", {"task": task, "difference": bad})
            return
