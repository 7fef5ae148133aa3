"""Equivariance under changes of units, invariance under monotone changes of the objective."""
import math

import numpy as np

import runs
import trace as tr
import universe as U
from engine import Ctx, explore

BOUNDS = (
    "all optimizers and samplers x modes: for every execution of the answer trees (complete trees over 2-3 values, all departures of up to 2 evaluations), the same answers by order of call are given to "
    "runs on the box scaled by 2^-60, 2^-20, 2^-3, 2, 2^20, 2^60, per-variable powers of two, and shifted boxes; and 13 strictly increasing transforms of the answers (among them 2^+-200 and the bare ranks on several scales)"
)
ASSUMPTIONS = ["answers are given by order of call, so that rounding of the points cannot change them", "known finding: cpso with restarts is not scale-free"]

SCALES = [("2^-20", 2.0**-20, 0.0), ("2^-3", 0.125, 0.0), ("2", 2.0, 0.0), ("2^20", 2.0**20, 0.0), ("2^-60", 2.0**-60, 0.0), ("2^60", 2.0**60, 0.0), ("2^-3 and shifted by 5", 0.125, 5.0), ("shifted by 64", 1.0, 64.0), ("shifted by -1000", 1.0, -1000.0), ("2^10 and shifted by -64", 1024.0, -64.0),
          ("per variable", "v", 0.0), ("per variable, widely", "w", 0.0), ("per variable and shifted", "v", 3.0)]
MONO = [
    ("2 f + 3", lambda v: 2.0 * v + 3.0),
    ("f^3", lambda v: v**3),
    ("exp(f/8)", lambda v: math.exp(v / 8.0)),
    ("f - 1000", lambda v: v - 1000.0),
    ("1e-6 f", lambda v: 1e-6 * v),
    ("1e12 f", lambda v: 1e12 * v),
    ("-1/f", lambda v: -1.0 / v),
    ("2^-200 f", lambda v: 2.0**-200 * v),
    ("2^200 f", lambda v: 2.0**200 * v),
]
# the ranks of the values alone
RANKS = [
    ("its rank", lambda k, n: float(k)),
    ("a tiny multiple of its rank", lambda k, n: 1e-290 * (k - n)),
    ("1 + a tiny multiple of its rank", lambda k, n: 1.0 + 2.0**-50 * k),
    ("the rank-th power of ten", lambda k, n: -(10.0 ** (250 - min(k, 500)))),
]


def optimizer_tasks(th):
    T = []
    S = [
        ("de", "B2", dict(popsize=3, maxiter=4), 3),
        ("de", "B3", dict(popsize=4, strategy="rand1bin", updating="deferred", constraints="Random", maxiter=4), 3),
        ("de", "B2", dict(popsize=5, strategy="best2bin", constraints="Random", mutation=2.0, maxiter=3), 2),
        ("de", "B2", dict(popsize=6, strategy="rand2bin", updating="deferred", recombination=0.5, maxiter=3), 2),
        ("pso", "B2", dict(popsize=3, maxiter=4), 3),
        ("pso", "B3", dict(popsize=3, updating="deferred", constraints="Shrink", inertia=1.0, cognitivity=4.0, maxiter=4), 3),
        ("cpso", "B2", dict(popsize=3, competitivity=None, constraints="Shrink", maxiter=4), 3),
        ("cpso", "TINY", dict(popsize=4, competitivity=2.0, maxiter=4), 3),
        ("cpso", "B2", dict(popsize=3, competitivity=1.0, updating="deferred", maxiter=4), 3),
        ("na", "B2", dict(popsize=3, nrperc=0.5, maxiter=3), 3),
        ("na", "FIX", dict(popsize=4, nrperc=1.0, maxiter=3), 2),
        ("cmaes", "B2", dict(popsize=4, maxiter=4), 3),
        ("cmaes", "B3", dict(popsize=5, constraints="Penalize", sigma=1.0, maxiter=3), 2),
        ("vdcma", "B2", dict(popsize=4, maxiter=4), 3),
        ("vdcma", "B7", dict(popsize=5, constraints="Penalize", sigma=1.0, maxiter=3), 2),
        ("mcmc", "B2", dict(maxiter=8, stepsize=0.4), 4),
        ("mcmc", "B3", dict(maxiter=8, stepsize=[0.5, 0.7, 0.9], perc=0.5, constraints="Reject"), 4),
        ("hmc", "B2", dict(maxiter=5, nleap=3, stepsize=0.2, jac="const"), 4),
        ("hmc", "B3", dict(maxiter=5, nleap=2, stepsize=[0.2, 0.3, 0.1], constraints="Reject", jac="pull"), 4),
    ]
    for i, (m, box, o, b) in enumerate(S):
        for x0 in (None, "in"):
            for enum in (("tree", (2.0, 1.0, 3.5), b if th else max(1, b - 1)), ("dev", ("in", "rosen", "out")[i % 3], 2 if th else 1)):
                T.append(dict(method=m, box=box, enum=enum, x0=x0, opts=o, alts=4, label=f"{m} {o} {enum} x0={x0}", weight=10 * o["maxiter"] * o.get("popsize", 1) ** (enum[2])))
        T.append(dict(method=m, box=box, enum=("dev", "in", 0), x0=None, opts=dict(o, maxiter=25 if m != "na" else 10, seed=4), alts=4, label=f"{m} {o} long", weight=20))
    return T


def tasks(tier):
    T = []
    for t in optimizer_tasks(tier == "thorough"):
        T.append(dict(t, kind="scale"))
        if t["method"] in tr.OPTIMIZERS and t["opts"].get("constraints") != "Penalize":
            T.append(dict(t, kind="mono"))
    return T


def opts_for(task, scale):
    m = task["method"]
    o = runs.base_options(m, task["opts"])
    if m in tr.OPTIMIZERS:
        o["ftol"] = -math.inf
    return o


def recorded(task, box, x0, answers, opts, jac=None):
    """Run with answers by order of call; returns (trace record, points)."""
    o = dict(opts)
    if jac is not None:
        o["jac"] = jac
    n = [0]

    def f(x):
        k = n[0]
        n[0] += 1
        if k >= len(answers):
            raise tr.Runaway("more evaluations than in the reference run")
        return answers[k]

    m = task["method"]
    return runs.record(f, lambda ob, cb: runs.front(m)(ob, box, x0=x0, method=m, options=o, callback=cb))


def jacfun(task, lo, w, s):
    """The gradient of the same function in the other units."""
    k = task["opts"].get("jac")
    if k is None:
        return None
    n = len(w)
    if k == "const":
        return lambda x: np.linspace(-1.0, 2.0, n) / w
    if k == "pull":
        return lambda x: (x - (lo + 0.4 * w)) / w / w * 4.0
    raise KeyError(k)


def run(task, st, tier):
    m = task["method"]
    box = np.array(U.BOXES[task["box"]], dtype=float)
    lo, hi = box[:, 0], box[:, 1]
    o = opts_for(task, 1.0)

    def one(ctx):
        f = U.policy_for(task, ctx)
        memo = {}

        def g(x):
            k = x.tobytes()
            if k not in memo:
                memo[k] = f(x, len(memo))
            return memo[k]

        oo = dict(o)
        j = jacfun(task, lo, hi - lo, 1.0)
        if j:
            oo["jac"] = j
        x0 = U.x0_of(dict(task, opts=oo))
        if x0 is not None:  # no regular lattice: candidates exactly at the bounds would depend on rounding
            x0 = lo + (x0 - lo) * (0.8 + 0.1 * np.sin(1.0 + 7.3 * np.arange(x0.size).reshape(x0.shape)))
        return runs.record(g, lambda ob, cb: runs.front(m)(ob, box, x0=x0, method=m, options=oo, callback=cb)), x0

    for ctx, (ref, x0), new in explore(one, U.bound_of(task)):
        runs.cover(st, ref)
        st.edges += new
        if ref.exc is not None:
            st.violate(f"{m} {task['opts']}: raised {ref.exc!r}", {"task": U.strip(task), "choices": list(ctx.choices)})
            return
        if task["kind"] == "scale":
            for name, s, sh in SCALES:
                s_ = 2.0 ** np.array([-40.0 * (-1) ** i for i in range(len(lo))]) if s == "w" else 2.0 ** np.array([(-1) ** i * (2 * i + 1) for i in range(len(lo))]) if s == "v" else np.full(len(lo), s)
                t_ = s_ * sh

                def T(x):
                    return np.asarray(x) * s_ + t_

                b2 = np.column_stack([T(lo), T(hi)])
                j = jacfun(task, b2[:, 0], b2[:, 1] - b2[:, 0], s_)
                r = recorded(task, b2, None if x0 is None else T(x0), ref.vs, o, j)
                runs.cover(st, r)
                bad = compare(r, ref, T, s_, np.abs(b2).max(axis=1) + np.abs(t_))
                if bad:
                    key = "cpso-restart-scale" if m == "cpso" and task["opts"].get("competitivity", 1.0) is not None and known_restart(r, ref, o, T) else None
                    st.violate(f"{m} {task['opts']}: variables in other units ({name}): {bad}", {"task": U.strip(task), "choices": list(ctx.choices), "units": name}, key)
                    if key is None:
                        return
        else:
            rank = {v: k for k, v in enumerate(sorted(set(float(v) for v in ref.vs)))}
            for name, g in MONO + [(name, lambda v, h=h: h(rank[v], len(rank))) for name, h in RANKS]:
                vals = [float(v) for v in ref.vs]
                if any(not math.isfinite(v) or abs(v) > 1e4 for v in vals) and "rank" not in name and "2" not in name:
                    vals = [min(v, 5e3) for v in vals]
                if name == "-1/f" and min(vals) <= 0:
                    continue
                if name == "exp(f/8)" and max(vals) > 5e3:
                    continue
                try:
                    new_ = [g(v) for v in vals]
                except OverflowError:
                    continue
                if not same_order(vals, new_, [float(v) for v in ref.vs]):
                    st.skip("the transform is not strictly increasing in floating point on these values")
                    continue
                r = recorded(task, box, x0, new_, o)
                runs.cover(st, r)
                bad = compare(r, ref, lambda x: np.asarray(x), np.ones(len(lo)), np.abs(box).max(axis=1), values=False)
                if bad:
                    if m in ("cmaes", "vdcma") and ended_by_values(r, ref):
                        st.skip("a termination test on values fired")
                        continue
                    st.violate(f"{m} {task['opts']}: objective replaced by {name}: {bad}", {"task": U.strip(task), "choices": list(ctx.choices), "transform": name})
                    return
    st.sample({"task": task["label"], "runs": st.runs})


def known_restart(r, ref, o, T):
    """The known finding: the runs part right after a callback at which the swarm's absolute radius is below the threshold in exactly one of them."""
    p = o["popsize"]
    delta = math.log(1.0 + 0.003 * p) / max(0.2, math.log(0.01 * o["maxiter"]))

    def below(c):
        X, g = c[0], c[1]["x"]
        return max(np.linalg.norm(x - g) for x in X) / math.sqrt(4.0 * X.shape[1]) < delta

    for c, d in zip(r.cbs, ref.cbs):
        if not np.allclose(c[0], T(d[0]), rtol=1e-6, atol=1e-6 * np.abs(T(d[0])).max()):
            return False
        if below(c) != below(d):
            return True
    return False


def ended_by_values(r, ref):
    return any(x.res is not None and x.res.get("status") in (-5, -7) for x in (r, ref))


def same_order(a, b, orig):
    """b orders exactly as the original answers do."""
    ia = np.argsort(orig, kind="stable")
    oa, ob = np.array(orig)[ia], np.array(b)[ia]
    return bool(np.all((np.diff(oa) > 0) == (np.diff(ob) > 0)) and np.all(np.diff(ob) >= 0))


TOL = 1e-7


def compare(r, ref, T, s, mag, values=True):
    if r.exc is not None:
        return f"raised {r.exc!r}"
    w = np.maximum(mag * 1e-13, 0.0)

    def near(a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= TOL * (np.abs(b) + s) + 1e4 * w))

    for i, (a, b) in enumerate(zip(r.xs, ref.xs)):
        if not near(a, T(b)):
            return f"evaluation {i + 1} is at {a.tolist()} instead of {T(b).tolist()}"
    if len(r.xs) != len(ref.xs):
        return f"{len(r.xs)} evaluations instead of {len(ref.xs)}"
    for i, (c, d) in enumerate(zip(r.cbs, ref.cbs), 1):
        if not near(c[0], T(d[0])):
            return f"callback {i} received {c[0].tolist()} instead of {T(d[0]).tolist()}"
        if "x" in c[1] and not near(c[1]["x"], T(d[1]["x"])):
            return f"callback {i} reports x={c[1]['x']} instead of {T(d[1]['x'])}"
    if len(r.cbs) != len(ref.cbs):
        return f"{len(r.cbs)} callbacks instead of {len(ref.cbs)}"
    if not near(r.res["x"], T(ref.res["x"])):
        return f"the result is x={r.res['x']} instead of {T(ref.res['x'])}"
    for k in ("fun", "nit", "nfev", "accept_ratio", "funall") + (("status",) if values else ()):
        if k in ("fun", "funall") and not values:
            continue
        if k == "status" and r.res.get(k) != ref.res.get(k) and {r.res.get(k), ref.res.get(k)} == {0, 1}:
            continue  # xtol is in the units of the variables
        if k in ref.res and not runs.same(r.res.get(k), ref.res[k]):
            return f"the result has {k}={r.res.get(k)!r} instead of {ref.res[k]!r}"
    if "xall" in ref.res and not near(r.res["xall"], T(ref.res["xall"])):
        return "xall differs"
    return None
