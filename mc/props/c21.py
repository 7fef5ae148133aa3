"""Invalid configurations are rejected before the first evaluation; edge values are accepted."""
import itertools

import numpy as np

import runs
import trace as tr
import universe as U

BOUNDS = (
    "8 methods x their modes x front end/direct call x x0 given or not: every single invalid value of the table, every pair of an invalid value with another invalid one, "
    "and every edge value, alone and in pairs"
)
ASSUMPTIONS = ["an error of any class derived from Exception counts as a rejection"]

BAD = {}
EDGE = {}
POP = ("de", "pso", "cpso", "na")
OPT = tr.OPTIMIZERS


def _table():
    for m in OPT + tr.SAMPLERS:
        bad = [("fun", v) for v in (None, 3, "f", [1.0])]
        bad += [("callback", v) for v in (3, "cb", 0, [])]
        bad += [("bounds", v) for v in (None, 1.0, [0.0, 1.0], [], [[[0.0, 1.0]] * 2] * 2, np.array([-1.0, 1.0]), [[0.0], [1.0]], [[0.0, 1.0, 2.0]] * 2, "b")]
        if m in POP:
            bad += [("x0", v) for v in ("1d", "cols+", "cols-", "rows+", "rows-", "3d", "scalar", "transposed", "empty", "column", "cube", "deep", "ones")]
            bad += [("popsize", v) for v in (1, 0, -3)]
        else:
            bad += [("x0", v) for v in ("long", "short", "2d", "scalar", "empty", "square", "column", "row", "cube", "deep")]
        if m in OPT:
            bad += [("backend", v) for v in ("openmp", "Threading", "multiprocessing", "loky ", 7)]
        if m == "de":
            bad += [("mutation", v) for v in (-0.1, 2.1, -1e-9, 2.0000001, 5, -np.inf, np.inf)]
            bad += [("recombination", v) for v in (-0.1, 1.1, -1e-9, 1.0000001, 2, np.inf)]
            bad += [("strategy", v) for v in ("best1exp", "rand3bin", "", None, "BEST1BIN", 1, "current")]
            bad += [("pop/strategy", v) for v in (("rand1bin", 3), ("rand1bin", 2), ("rand2bin", 5), ("rand2bin", 3), ("best1bin", 2), ("best2bin", 4), ("best2bin", 2))]
            bad += [("constraints", v) for v in ("Shrink", "Penalize", "Reject", "random", "", 1)]
        if m in ("de", "pso", "cpso"):
            bad += [("updating", v) for v in ("async", "Immediate", None, 0, "sync", "")]
        if m in ("pso", "cpso"):
            bad += [("inertia", v) for v in (-0.1, 1.1, -1e-9, 1.0000001, 2, np.inf)]
            bad += [("cognitivity", v) for v in (-0.1, 4.1, -1e-9, 4.0000001, 10, np.inf)]
            bad += [("sociability", v) for v in (-0.1, 4.1, -1e-9, 4.0000001, 10, np.inf)]
            bad += [("constraints", v) for v in ("Random", "Penalize", "Reject", "shrink", "", 1)]
        if m == "cpso":
            bad += [("competitivity", v) for v in (-0.1, 2.1, -1e-9, 2.0000001, 3, np.inf)]
        if m == "na":
            bad += [("nrperc", v) for v in (0.0, -0.1, 1.1, 0, 1.0000001, 2)]
        if m in ("cmaes", "vdcma"):
            bad += [("sigma", v) for v in (0.0, -0.1, 0, -1)]
            bad += [("muperc", v) for v in (0.0, -0.1, 1.1, 0, 1.0000001, 2)]
            bad += [("constraints", v) for v in ("Random", "Shrink", "Reject", "penalize", "", 1)]
        if m == "vdcma":
            bad += [("popsize", v) for v in (1, 0, -3)]
        if m in tr.SAMPLERS:
            bad += [("stepsize", v) for v in ([0.1], [0.1] * 5, np.full(1, 0.1), [])]
            bad += [("constraints", v) for v in ("Random", "Shrink", "Penalize", "reject", "", 1)]
        if m == "mcmc":
            bad += [("perc", v) for v in (-0.1, 1.1, -1e-9, 1.0000001, 2)]
        if m == "hmc":
            bad += [("nleap", v) for v in (0, -1, -10)]
            bad += [("jac", v) for v in (3, "2-point", [0.0, 0.0], True, 0)]
        bad += [("option", v) for v in ("temperature", "Popsize", "max_iter")]
        bad += [("method", v) for v in ("nelder-mead", m.upper(), "", None, m + " ", 3)]
        BAD[m] = bad

        e = [("maxiter", 1), ("maxiter", 2), ("seed", 0), ("seed", 2**32 - 1), ("callback", None), ("x0", "list"), ("x0", "array")]
        if m in OPT:
            e += [("workers", 0), ("workers", 1), ("backend", None), ("backend", "threading"), ("backend", "loky"), ("verbosity", 0.0), ("verbosity", 1.0), ("xtol", 0.0), ("ftol", 0.0), ("return_all", True)]
        if m == "de":
            e += [("mutation", v) for v in (0.0, 2.0, 0, 2)] + [("recombination", v) for v in (0.0, 1.0, 0, 1)]
            e += [("pop/strategy", v) for v in (("rand1bin", 4), ("rand2bin", 6), ("best1bin", 3), ("best2bin", 5))]
            e += [("constraints", "Random"), ("constraints", None)]
        if m in ("de", "pso", "cpso"):
            e += [("updating", v) for v in ("immediate", "deferred")]
        if m in ("pso", "cpso"):
            e += [("inertia", v) for v in (0.0, 1.0, 0, 1)] + [(k, v) for k in ("cognitivity", "sociability") for v in (0.0, 4.0, 0, 4)]
            e += [("popsize", 2), ("constraints", "Shrink"), ("constraints", None)]
        if m == "cpso":
            e += [("competitivity", v) for v in (0.0, 2.0, None, 0, 2)]
        if m == "na":
            e += [("nrperc", v) for v in (1e-9, 1.0, 1)] + [("popsize", 2)]
        if m in ("cmaes", "vdcma"):
            e += [("sigma", v) for v in (1e-9, 10.0, 1)] + [("muperc", v) for v in (1e-9, 1.0, 1)] + [("popsize", 2), ("constraints", "Penalize"), ("constraints", None)]
        if m in tr.SAMPLERS:
            e += [("stepsize", v) for v in (0.1, 1, [0.1, 0.2], (1, 2), np.array([0.1, 0.2]))] + [("constraints", "Reject"), ("constraints", None), ("return_all", False)]
        if m == "mcmc":
            e += [("perc", v) for v in (0.0, 1.0, 0, 1)]
        if m == "hmc":
            e += [("nleap", 1), ("jac", None), ("jac", "pull")]
        EDGE[m] = e


_table()

BOX = [[-1.0, 3.0], [2.0, 10.0]]


def base(m):
    o = dict(maxiter=3, seed=7)
    if m in OPT:
        o["popsize"] = 6
    return o


def x0_value(m, kind, p):
    if m in POP:
        g = U.grid_x0(BOX, p)
        return {"1d": g[0], "cols+": np.hstack([g, g[:, :1]]), "cols-": g[:, :1], "rows+": np.vstack([g, g[:1]]), "rows-": g[:-1], "3d": g[None], "scalar": 1.0,
                "transposed": np.ascontiguousarray(g.T), "empty": [], "column": g[:, :, None], "cube": np.stack([g, g], axis=2), "deep": g[None, None], "ones": [1.0] * p, "list": g.tolist(), "array": g}[kind]
    x = np.array([1.0, 5.0])
    return {"long": np.array([1.0, 5.0, 2.0]), "short": np.array([1.0]), "2d": np.array([[1.0, 5.0], [0.0, 4.0], [0.5, 3.0]]), "scalar": 1.0, "empty": [], "square": np.array([[1.0, 5.0], [0.0, 4.0]]), "column": x[:, None], "row": x[None], "cube": np.ones((2, 2, 2)), "deep": x[None, :, None],
            "list": [1.0, 5.0], "array": x}[kind]


def call(m, mods, way):
    """Run method m with modifications; returns (calls of user code, exception)."""
    n = [0, 0]

    def obj(x):
        n[0] += 1
        if n[0] > 3000:
            raise tr.Runaway()
        return float(((x - 1.2) ** 2).sum()) + 1.0

    def cb(X, s):
        n[1] += 1

    kw = dict(fun=obj, bounds=BOX, x0=None, callback=cb)
    o = base(m)
    method = m
    x0kind = None
    for k, v in mods:
        if k in ("fun", "bounds", "callback"):
            kw[k] = v
        elif k == "x0":
            x0kind = v
        elif k == "method":
            method = v
        elif k == "option":
            o[v] = 1
        elif k == "pop/strategy":
            o["strategy"], o["popsize"] = v
        elif k == "jac" and v == "pull":
            o["jac"] = lambda x: 0.1 * x
        else:
            o[k] = v
    if x0kind is not None:
        kw["x0"] = x0_value(m, x0kind, max(2, o.get("popsize", 2)))
    try:
        if way == "front":
            f = runs.front(m)
            r = f(kw["fun"], kw["bounds"], x0=kw["x0"], method=method, options=o, callback=kw["callback"])
        else:
            r = runs.direct(m)(kw["fun"], kw["bounds"], x0=kw["x0"], callback=kw["callback"], **o)
        return n, None, r
    except (Exception, tr.Runaway) as e:
        return n, e, None


def slot(k):
    """Arguments that two modifications may not both set."""
    return {"pop/strategy": ("popsize", "strategy"), "option": ()}.get(k, (k,))


def tasks(tier):
    th = tier == "thorough"
    T = []
    for m in OPT + tr.SAMPLERS:
        for way in ("front", "direct"):
            T.append(dict(label=f"{m} {way} invalid singles", m=m, way=way, kind="bad1", weight=5))
            T.append(dict(label=f"{m} {way} invalid with valid", m=m, way=way, kind="badedge", weight=20))
            T.append(dict(label=f"{m} {way} invalid pairs", m=m, way=way, kind="bad2", weight=20))
            T.append(dict(label=f"{m} {way} edge pairs", m=m, way=way, kind="edge", weight=30))
            if th:
                T.append(dict(label=f"{m} {way} edge triples", m=m, way=way, kind="edge3", weight=300))
                T.append(dict(label=f"{m} {way} invalid with two valid", m=m, way=way, kind="badedge2", weight=300))
    return T


def run(task, st, tier):
    m, way = task["m"], task["way"]
    if task["kind"].startswith("bad"):
        bads = [b for b in BAD[m] if way == "front" or b[0] != "method"]
        if task["kind"] == "bad1":
            S = [(b,) for b in bads]
        elif task["kind"] == "bad2":
            S = [(a, b) for a, b in itertools.combinations(bads, 2) if not set(slot(a[0])) & set(slot(b[0]))]
        else:
            n = 2 if task["kind"] == "badedge2" else 1
            E = EDGE[m] + ([("workers", 2), ("workers", -1)] if m in OPT and n == 1 else [])
            S = [(b,) + e for b in bads for e in itertools.combinations(E, n) if disjoint((b,) + e)]
        # a square population has no wrong orientation
        S = [s for s in S if ("x0", "transposed") not in s or not any(k in ("popsize", "pop/strategy") for k, _ in s)]
        for mods in S:
            n, e, r = call(m, mods, way)
            st.runs += 1
            st.steps += 1
            st.checked += 1
            st.state(m, repr(mods))
            st.outcomes.add(type(e).__name__)
            what = f"{m} ({way}) with {show(mods)}"
            if n[0] or n[1]:
                st.violate(f"{what}: the objective was called {n[0]} times and the callback {n[1]} times (then {e!r})", {"task": task, "mods": repr(mods)})
            elif e is None:
                st.violate(f"{what}: accepted, returned {r!r}", {"task": task, "mods": repr(mods)})
            elif not isinstance(e, Exception):
                st.violate(f"{what}: raised {e!r}", {"task": task, "mods": repr(mods)})
            if len(st.violations) >= 3:
                return
    else:
        E = EDGE[m]
        n = 3 if task["kind"] == "edge3" else 2
        S = [(e,) for e in E] + [c for k in range(2, n + 1) for c in itertools.combinations(E, k) if disjoint(c)]
        for mods in S:
            n, e, r = call(m, mods, way)
            st.runs += 1
            st.steps += 1
            st.checked += 1
            st.state(m, repr(mods))
            d = dict(mods)
            p = d["pop/strategy"][1] if "pop/strategy" in d else d.get("popsize", 6)
            if m == "de" and p < U.DE_MIN[d["pop/strategy"][0] if "pop/strategy" in d else "best1bin"]:
                continue
            what = f"{m} ({way}) with the valid values {show(mods)}"
            if e is not None:
                st.violate(f"{what}: raised {type(e).__name__}: {e}", {"task": task, "mods": repr(mods)})
            elif not n[0] or (n[1] == 0) != ("callback" in d):
                st.violate(f"{what}: objective called {n[0]} times, callback {n[1]} times", {"task": task, "mods": repr(mods)})
            if len(st.violations) >= 3:
                return
    st.sample({"task": task["label"], "cases": st.runs, "first": show(S[0])})


def disjoint(mods):
    seen = set()
    for k, _ in mods:
        for s in slot(k):
            if s in seen:
                return False
            seen.add(s)
    return True


def show(mods):
    return ", ".join(f"{k}={v!r}" for k, v in mods)
