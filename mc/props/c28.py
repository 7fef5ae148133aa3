"""Every documented valid configuration completes with a well-formed result."""
import itertools
import math
import numbers

import numpy as np

import runs
import trace as tr
import universe as U

BOUNDS = (
    "8 methods: full cross products of the values of the options that select behaviour (up to 20000 combinations each) x boxes of 1-7 variables x 9 objectives in rotation; every pair of values of all "
    "options; integer-typed, 0-d and NumPy-typed arguments; maxiter 1-300 singly"
)
ASSUMPTIONS = ["lower < upper for every variable, except for na which supports fixed variables", "known finding: array-like sigma"]

KINDS = ("in", "flat", "lin", "step", "huge", "int", "out", "rosen", "neg", "mixed", "cond")
V = {
    "de": dict(maxiter=(1, 2, 6), popsize=("min", 7), strategy=("best1bin", "rand1bin", "best2bin", "rand2bin"), mutation=(0.5, 0, 2.0), recombination=(0.9, 0.0, 1), constraints=(None, "Random"), updating=("immediate", "deferred"),
               box=("B1", "B2", "B6"), x0=(None, "in", "corner"), return_all=(True, False), verbosity=(1.0, 0.0, 0.5)),
    "pso": dict(maxiter=(1, 2, 6), popsize=(2, 5), inertia=(0.7298, 0.0, 1), cognitivity=(1.49618, 0, 4.0), sociability=(1.49618, 0.0, 4), constraints=(None, "Shrink"), updating=("immediate", "deferred"), box=("B1", "B3"),
                x0=(None, "corner"), return_all=(True, False), verbosity=(1.0, 0.0, 0.5)),
    "cpso": dict(maxiter=(1, 2, 6), popsize=(2, 5), inertia=(0.7298, 1), competitivity=(1.0, None, 0, 2.0, 0.5), cognitivity=(1.49618, 4.0), sociability=(0, 4), constraints=(None, "Shrink"), updating=("immediate", "deferred"),
                 box=("B1", "TINY", "B3"), x0=(None, "corner"), return_all=(True, False), verbosity=(1.0, 0.0)),
    "na": dict(maxiter=(1, 2, 5), popsize=(2, 3, 6), nrperc=(0.5, 1e-9, 1, 0.3), box=("B1", "B2", "FIX", "B6"), x0=(None, "in", "corner"), return_all=(True, False), verbosity=(1.0, 0.0, 0.5, 0.01)),
    "cmaes": dict(maxiter=(1, 2, 9), popsize=(2, 3, 4, 7), sigma=(0.1, 1, 1e-6, 10.0), muperc=(0.5, 1, 0.01, 0.34), constraints=(None, "Penalize"), box=("B1", "B2", "B6"), x0=(None, "in", "corner"), return_all=(True, False),
                  verbosity=(1.0, 0.0, 0.5)),
    "vdcma": dict(maxiter=(1, 2, 9), popsize=(2, 3, 4, 7), sigma=(0.1, 1, 1e-6, 10.0), muperc=(0.5, 1, 0.01, 0.34), constraints=(None, "Penalize"), box=("B1", "B2", "B7"), x0=(None, "in", "corner"), return_all=(True, False),
                  verbosity=(1.0, 0.0, 0.5)),
    "mcmc": dict(maxiter=(1, 2, 9), stepsize=(0.1, 1, 3.0, "array", "int array", "list"), perc=(1.0, 0, 1, 0.5, 0.99, 0.34), constraints=(None, "Reject"), box=("B1", "B2", "B3", "B7"), x0=(None, "in", "corner"), return_all=(True, False)),
    "hmc": dict(maxiter=(1, 2, 5), nleap=(1, 2, 10), stepsize=(0.01, 1, "array", "int array", "list"), jac=(None, "pull", "list"), finite_diff_abs_step=(1e-4, 1), constraints=(None, "Reject"), box=("B1", "B2", "B7"), x0=(None, "in", "corner"), return_all=(True, False)),
}
# further values, combined pairwise with everything
MORE = dict(seed=(None, 0, 2**32 - 1, np.int64(7)), xtol=(0, 0.0, 1, 1e9, np.float32(0.5)), ftol=(0, -1e9, 1e9, 1, np.float64(0.3)), workers=(0, 1), backend=(None, "threading", "loky"), callback=(True, False))
MORE_M = {m: dict(MORE) for m in tr.OPTIMIZERS}
MORE_M["mcmc"] = {k: MORE[k] for k in ("seed", "callback")}
MORE_M["hmc"] = MORE_M["mcmc"]
NP = dict(maxiter=(np.int64(3), np.int32(2)), popsize=(np.int64(6), np.int16(8)))
OPTV = {
    "de": dict(mutation=(np.float32(0.5), 1e-300), recombination=(np.float32(0.25), 1e-12)),
    "pso": dict(inertia=(np.float32(0.5),)), "cpso": dict(competitivity=(np.float32(1.5), 1e-9, 2)), "na": dict(nrperc=(np.float32(0.5), 0.999999)),
    "cmaes": dict(sigma=(np.float32(0.5), np.array(0.3), 2), muperc=(np.float32(0.5),)), "vdcma": dict(sigma=(np.float32(0.5), np.array(0.3), 2), muperc=(np.float32(0.5),)),
    "mcmc": dict(stepsize=(np.float32(0.5), np.array(0.2), np.array(2)), perc=(np.float32(0.5), 1e-9)), "hmc": dict(stepsize=(np.float32(0.05), np.array(0.02)), nleap=(np.int64(3),)),
}


def tasks(tier):
    T = []
    for m in V:
        keys = list(V[m])
        split = keys[2]
        for v in range(len(V[m][split])):
            for w in range(len(V[m][keys[1]])):
                n = math.prod(len(x) for k, x in V[m].items() if k not in (split, keys[1]))
                T.append(dict(kind="product", m=m, fix=((split, v), (keys[1], w)), label=f"{m} product {split}={V[m][split][v]} {keys[1]}={V[m][keys[1]][w]}", weight=n * {"na": 4, "hmc": 3}.get(m, 1)))
        T.append(dict(kind="pairs", m=m, label=f"{m} pairs", weight=2000))
        T.append(dict(kind="iters", m=m, label=f"{m} maxiter", weight=3000))
        if m in ("cmaes", "vdcma"):
            T.append(dict(kind="sigma", m=m, label=f"{m} array-like sigma", weight=1))
    return T


def build(m, cfg):
    """(options, box, x0, callback) from a combination."""
    o = {k: v for k, v in cfg.items() if k not in ("box", "x0", "callback", "kind")}
    box = cfg.get("box", "B2")
    n = len(U.BOXES[box])
    if o.get("popsize") == "min":
        o["popsize"] = U.DE_MIN[o.get("strategy", "best1bin")]
    if m == "de" and o.get("popsize", 10) < U.DE_MIN[o.get("strategy", "best1bin")]:
        return None
    st = o.get("stepsize")
    if isinstance(st, str):
        o["stepsize"] = {"array": np.linspace(0.05, 0.2, n), "int array": np.arange(1, n + 1), "list": [0.1] * n}[st]
    if o.get("jac") == "pull":
        o["jac"] = lambda x, *a: 0.01 * x
    elif o.get("jac") == "list":
        o["jac"] = lambda x, *a: [0.01 * v for v in x]
    o.setdefault("maxiter", 3)
    if "popsize" not in o and m in tr.OPTIMIZERS:
        o["popsize"] = 6
    x0 = None
    if cfg.get("x0"):
        x0 = U.x0_of(dict(method=m, box=box, x0=cfg["x0"], opts=dict(o, popsize=int(o.get("popsize", 1)))))
    return o, box, x0, cfg.get("callback", True)


def verdict(m, o, box, x0, cb, kind, args=()):
    B = U.BOXES[box]
    f = U.base_fun(kind, B)
    mi = int(o["maxiter"])
    budget = mi * int(o.get("popsize", 1))
    if m == "mcmc":
        budget = mi
    if m == "hmc":
        budget = 10**9
    r = runs.record(lambda x: f(x), lambda ob, c: runs.front(m)(ob, B, x0=x0, method=m, options=o, callback=c), callback=cb, limit=10**6)
    return r, check(m, o, r, len(B), budget, cb)


def scalar(v):
    return isinstance(v, numbers.Real) or (isinstance(v, (np.ndarray, np.generic)) and np.ndim(v) == 0 and np.isreal(v))


def integer(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


def check(m, o, r, n, budget, cb):
    if r.exc is not None:
        return f"raised {type(r.exc).__name__}: {r.exc}"
    if len(r.xs) == 0 or len(r.xs) > budget:
        return f"{len(r.xs)} evaluations, the budget is {budget}"
    for i, x in enumerate(r.xs):
        if x.shape != (n,) or not np.all(np.isfinite(x)):
            return f"evaluation {i + 1} is at {x}"
    for what, d in [("result", r.raw)] + [(f"callback {i + 1}", c[1]) for i, c in enumerate(r.cbs)]:
        for k in ("x", "fun", "nit"):
            if k not in d:
                return f"{what}: no field {k}"
        x = d["x"]
        if not isinstance(x, np.ndarray) or x.shape != (n,) or x.dtype.kind != "f" or not np.all(np.isfinite(x)):
            return f"{what}: x={x!r}"
        if not scalar(d["fun"]) or math.isnan(float(d["fun"])):
            return f"{what}: fun={d['fun']!r}"
        if not integer(d["nit"]) or not 1 <= d["nit"] <= int(o["maxiter"]):
            return f"{what}: nit={d['nit']!r}"
        if m in tr.OPTIMIZERS and (not integer(d.get("nfev")) or d["nfev"] > budget):
            return f"{what}: nfev={d.get('nfev')!r}"
        if m in tr.SAMPLERS and not (scalar(d.get("accept_ratio")) and 0.0 <= d["accept_ratio"] <= 1.0):
            return f"{what}: accept_ratio={d.get('accept_ratio')!r}"
    d = r.raw
    if m in tr.OPTIMIZERS:
        if not integer(d.get("status")) or not isinstance(d.get("success"), (bool, np.bool_)) or not isinstance(d.get("message"), str) or not d["message"]:
            return f"status={d.get('status')!r} success={d.get('success')!r} message={d.get('message')!r}"
    if m == "hmc" and not integer(d.get("nfev")):
        return f"nfev={d.get('nfev')!r}"
    ra = o.get("return_all", m in tr.SAMPLERS)
    for k in ("xall", "funall"):
        if (k in d) != bool(ra):
            return f"return_all={ra} but fields {sorted(d)}"
        if ra and not (isinstance(d[k], np.ndarray) and d[k].dtype.kind == "f" and len(d[k]) == d["nit"] and np.all(np.isfinite(d["xall"])) and not np.any(np.isnan(d["funall"]))):
            return f"{k} is {type(d[k]).__name__} of length {len(d[k])}, nit={d['nit']}"
    if cb and len(r.cbs) != d["nit"]:
        return f"{len(r.cbs)} callbacks, nit={d['nit']}"
    return None


def go(st, task, m, cfg, kind, key=None):
    b = build(m, cfg)
    if b is None:
        return True
    o, box, x0, cb = b
    seed = o.get("seed", 3)
    o.setdefault("seed", 3)
    r, bad = verdict(m, o, box, x0, cb, kind)
    st.runs += 1
    st.steps += max(1, len(r.cbs))
    st.edges += len(r.xs)
    st.checked += 1
    st.state(m, repr(sorted(cfg.items(), key=str)))
    st.outcomes.add(None if r.res is None else r.res.get("status"))
    if bad:
        st.violate(f"{m} with {cfg} on the objective '{kind}': {bad}", {"task": task, "config": repr(cfg), "objective": kind}, key)
        return False
    return True


def run(task, st, tier):
    m = task["m"]
    if task["kind"] == "product":
        fix = dict((k, V[m][k][i]) for k, i in task["fix"])
        rest = [k for k in V[m] if k not in fix]
        for j, vals in enumerate(itertools.product(*[V[m][k] for k in rest])):
            cfg = dict(fix, **dict(zip(rest, vals)))
            if m in tr.OPTIMIZERS and not cfg["return_all"] and cfg.get("verbosity") not in (1.0, 0.5):
                continue
            if tier != "thorough" and j % THIN[m]:
                continue
            kinds = KINDS if tier == "thorough" and m not in ("na", "hmc") else (KINDS[j % len(KINDS)],)
            for kind in kinds:
                if not go(st, task, m, cfg, kind):
                    return
    elif task["kind"] == "pairs":
        allv = {k: tuple(v) for k, v in V[m].items()}
        for src in (MORE_M[m], NP, OPTV[m]):
            for k, v in src.items():
                if k == "popsize" and m in tr.SAMPLERS:
                    continue
                allv[k] = allv.get(k, ()) + tuple(v)
        j = 0
        for a, b in itertools.combinations(allv, 2):
            for va, vb in itertools.product(allv[a], allv[b]):
                j += 1
                if not go(st, task, m, {a: va, b: vb}, KINDS[j % len(KINDS)]):
                    return
    elif task["kind"] == "iters":
        for j, mi in enumerate(list(range(1, 41)) + [60, 100] + ([] if m == "na" else [200, 300])):
            if m == "na" and mi > 25:
                continue
            for box in ("B1", "B2", "B7"):
                if not go(st, task, m, dict(maxiter=mi, box=box, **({"popsize": 3 + j % 6, "ftol": U.OFF} if m in tr.OPTIMIZERS else {"stepsize": (0.1, 0.01)[m == "hmc"]})), KINDS[j % len(KINDS)]):
                    return
    else:
        for sg in ([0.1, 0.2], (0.1, 0.1), np.array([0.3, 0.1]), np.array([1, 2])):
            if not go(st, task, m, dict(sigma=sg), "in", f"sigma-array-{m}"):
                break
    st.sample({"task": task["label"], "configurations": st.runs})


THIN = dict(de=3, pso=2, cpso=1, na=1, cmaes=1, vdcma=1, mcmc=1, hmc=2)
