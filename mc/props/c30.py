"""maxiter, ftol and xtol decide where a run ends, and nothing else."""
import numpy as np

import runs
import trace as tr
import universe as U

BOUNDS = (
    "31 configurations (all methods and modes) x objectives in/step/out x x0 given or not: the run without limits against the runs with every smaller maxiter (cpso with competitivity, whose restarts depend on maxiter "
    "by definition, excepted) and against the runs with ftol equal to each of its values (6, thorough: all) and xtol in {0, 1e-8, 1e300}; also with every single departure (new best, very bad) of the objective at any evaluation "
    "(thorough: every pair); long runs of 60 (thorough: 250) iterations against every maxiter below 24 and multiples of 7; wide runs of up to 45 variables and populations of up to 40"
)
ASSUMPTIONS = ["runs have a fixed seed", "values are compared up to the last bits"]

LONG = [
    ("de", "B2", dict(popsize=5, strategy="rand1bin")),
    ("de", "B3", dict(popsize=7, strategy="best2bin", updating="deferred", constraints="Random")),
    ("pso", "B2", dict(popsize=4)),
    ("pso", "B3", dict(popsize=4, updating="deferred", constraints="Shrink")),
    ("cpso", "B2", dict(popsize=5, competitivity=None)),
    ("na", "B2", dict(popsize=5)),
    ("cmaes", "B2", dict(popsize=6)),
    ("cmaes", "B3", dict(popsize=5, constraints="Penalize", sigma=0.6)),
    ("vdcma", "B2", dict(popsize=6)),
    ("vdcma", "B7", dict(popsize=5, constraints="Penalize", sigma=0.6)),
    ("cmaes", "B1", dict(popsize=15)),
    ("vdcma", "B1", dict(popsize=15)),
    ("mcmc", "B3", dict(stepsize=0.4, perc=0.5)),
    ("mcmc", "B3", dict(stepsize=0.6, constraints="Reject")),
    ("hmc", "B2", dict(nleap=3, stepsize=0.2, constraints="Reject")),
]
WIDE = [
    ("de", 12, dict(popsize=40)),
    ("pso", 20, dict(popsize=33, updating="deferred")),
    ("na", 9, dict(popsize=33)),
    ("cmaes", 45, dict(popsize=4)),
    ("cmaes", 12, dict(popsize=30)),
    ("vdcma", 45, dict(popsize=5)),
    ("vdcma", 12, dict(popsize=30)),
    ("mcmc", 30, dict(stepsize=0.2, perc=0.3)),
    ("hmc", 15, dict(stepsize=0.1, nleap=2)),
]


def tasks(tier):
    T = []
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        T.append(dict(kind="all", cfg=k, label=f"limits {m} {o}", weight=o["maxiter"] * o.get("popsize", 3) * 20))
    for i, (m, box, o) in enumerate(LONG):
        T.append(dict(kind="long", i=i, label=f"long {m} {o}", weight=500))
    for i, (m, n, o) in enumerate(WIDE):
        T.append(dict(kind="wide", i=i, label=f"wide {m} {n} {o}", weight=300))
    return T


def run(task, st, tier):
    th = tier == "thorough"
    return dict(all=all_, long=long_, wide=wide)[task["kind"]](task, st, th)


class Case:
    """One configuration, objective and x0; `perform(...)` runs it with the given limits."""

    def __init__(self, m, box, o, kind="in", x0=None, dev=None, bounds=None):
        self.m, self.o, self.kind, self.dev = m, o, kind, dev or {}
        self.bounds = U.BOXES[box] if bounds is None else bounds
        self.f = U.base_fun(kind, self.bounds)
        self.opt = m in tr.OPTIMIZERS
        self.x0 = None if x0 is None else U.x0_of(dict(method=m, box=box, x0=x0, opts=dict(popsize=o.get("popsize"))))

    def reset(self):
        pass

    def text(self):
        return f"{self.m} {self.o} objective {self.kind} x0={'no' if self.x0 is None else 'yes'} departures {self.dev}"

    def perform(self, maxiter, ftol=U.OFF, xtol=None):
        oo = dict(dict(seed=11, return_all=True), **self.o)
        oo["maxiter"] = maxiter
        oo = runs.resolve(self.m, None, oo) if not isinstance(oo.get("jac"), str) else oo
        if self.opt:
            oo["ftol"] = ftol
            if xtol is not None:
                oo["xtol"] = xtol
        n = [0]
        seen = [np.inf]
        self.reset()

        def obj(x):
            n[0] += 1
            v = self.f(x)
            a = self.dev.get(n[0])
            if a == 1:
                v = min(seen[0], v) - 1.0
            elif a == 2:
                v = 1e4
            seen[0] = min(seen[0], v)
            return v

        return runs.record(obj, lambda ob, cb: runs.front(self.m)(ob, self.bounds, x0=self.x0, method=self.m, options=oo, callback=cb))


SAME = ("x", "fun", "nit", "nfev", "xall", "funall", "accept_ratio")


def prefix(short, full, n):
    """Text: how `short` differs from the first n iterations of `full`."""
    if full.exc is not None:
        return f"the long run raised {full.exc!r}"
    if short.exc is not None:
        return f"raised {short.exc!r}"
    if len(short.cbs) != n:
        return f"{len(short.cbs)} iterations instead of {n}"
    e = full.cbs[n - 1][2]
    if len(short.xs) != e:
        return f"{len(short.xs)} evaluations instead of {e}"
    for i, (x, y) in enumerate(zip(short.xs, full.xs)):
        if not runs.same(x, y):
            return f"evaluation {i + 1} is at {x.tolist()} instead of {y.tolist()}"
    for i in range(n):
        c, d = short.cbs[i], full.cbs[i]
        if not runs.same(c[0], d[0]):
            return f"callback {i + 1} received {c[0].tolist()} instead of {d[0].tolist()}"
        bad = runs.fields(c[1], d[1])
        if bad:
            return f"state of callback {i + 1}: {bad}"
        if c[2] != d[2]:
            return f"callback {i + 1} after {c[2]} evaluations instead of {d[2]}"
    # the result of the short run is what the long one reported at that iteration
    want = full.cbs[n - 1][1]
    for k in SAME:
        if k == "accept_ratio" and n == 1:
            continue  # of one sample, none of which was proposed
        if k in want and not (k in short.res and runs.same(short.res[k], want[k])):
            return f"result: {k} = {short.res.get(k)!r} instead of {want[k]!r}"
    return None


def judge(st, task, case, full, limits, r, n):
    runs.cover(st, r)
    bad = prefix(r, full, n)
    if bad:
        st.violate(f"{case.text()}: with {limits} the run is not the beginning of the one with maxiter={task.get('N')}: {bad}", {"task": task, "case": case.text(), "limits": limits, "difference": bad})
    return bad


def by_maxiter(st, task, case, full, ms):
    if case.m == "cpso" and case.o.get("competitivity", 1.0) is not None:
        return False
    for m in ms:
        n = min(m, len(full.cbs))
        if judge(st, task, case, full, {"maxiter": m}, case.perform(m), n):
            return True
    return False


def by_ftol(st, task, case, full, N, every):
    if not case.opt:
        return False
    best = [float(c[1]["fun"]) for c in full.cbs]
    levels = sorted(set(best))
    if len(levels) > every:
        levels = [levels[i * (len(levels) - 1) // (every - 1)] for i in range(every)]
    for v in levels:
        n = next(i for i, b in enumerate(best, 1) if b <= v)
        for xtol in (0.0, 1e-8, 1e300):
            r = case.perform(N, v, xtol)
            if n == 1 and len(r.cbs) != 1:  # the initial iteration need not stop a run
                n = next((i for i, b in enumerate(best, 1) if i > 1 and b <= v), len(best))
            if judge(st, task, case, full, {"ftol": v, "xtol": xtol}, r, n):
                return True
    for xtol in (0.0, 1e300):
        if judge(st, task, case, full, {"xtol": xtol}, case.perform(N, U.OFF, xtol), len(full.cbs)):
            return True
    return False


def all_(task, st, th):
    m, box, o = runs.CONFIGS[task["cfg"]]
    o = {a: b for a, b in o.items() if a not in ("maxiter", "return_all")}
    if isinstance(o.get("jac"), str):
        o = runs.resolve(m, box, o)
    N = task["N"] = runs.CONFIGS[task["cfg"]][2]["maxiter"] + 3
    many = 1000 if th else 6
    for x0 in (None, "in"):
        for kind in ("in", "step", "out"):
            case = Case(m, box, o, kind, x0)
            full = case.perform(N)
            runs.cover(st, full)
            if by_maxiter(st, task, case, full, range(1, N + 1)) or by_ftol(st, task, case, full, N, many):
                return
    E = len(full.xs)
    devs = [{i: a} for i in range(1, E + 1) for a in (1, 2)]
    if th:
        devs += [{i: a, j: b} for i in range(1, E + 1) for j in range(i + 1, E + 1) for a in (1, 2) for b in (1, 2)]
    for dev in devs:
        case = Case(m, box, o, "in", None, dev)
        full = case.perform(N)
        runs.cover(st, full)
        if by_maxiter(st, task, case, full, range(1, N + 1)) or by_ftol(st, task, case, full, N, 2 if th and len(dev) > 1 else 3):
            return
    st.sample({"task": task["label"], "runs": st.runs})


def long_(task, st, th):
    m, box, o = LONG[task["i"]]
    N = task["N"] = 250 if th else 60
    for kind in ("in", "step", "saw"):
        case = Case(m, box, o, kind if kind != "saw" else "in")
        if kind == "saw":  # every iteration has the same values
            if not case.opt:
                continue
            k = [0]
            p = o["popsize"]

            def saw(x):
                k[0] += 1
                return 1.0 + (k[0] * 3 % p)

            case.f, case.reset = saw, lambda: k.__setitem__(0, 0)
        full = case.perform(N)
        runs.cover(st, full)
        ms = list(range(1, 24)) + list(range(28, N + 1, 7)) + [N - 1, N + 1, 2 * N]
        full = case.perform(4 * N)
        if by_maxiter(st, task, case, full, ms) or by_ftol(st, task, case, full, 4 * N, 20):
            return


def wide(task, st, th):
    m, n, o = WIDE[task["i"]]
    N = task["N"] = 12
    bounds = np.array([[-1.0 - 0.1 * i, 2.0 + 0.25 * i] for i in range(n)])
    for kind in ("in", "out"):
        case = Case(m, None, o, kind, bounds=bounds)
        full = case.perform(N)
        runs.cover(st, full)
        if by_maxiter(st, task, case, full, range(1, N)) or by_ftol(st, task, case, full, N, 12):
            return
