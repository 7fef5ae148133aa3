"""Oracles evaluated on every execution.  m(t, st, viol, task)"""
import numpy as np

import trace as tr
from trace import find, veq

BEST_SO_FAR = ("de", "pso", "cpso", "na")
LAST_GEN = ("cmaes", "vdcma")

MESSAGES = {
    -8: "TolX",
    -7: "TolFun",
    -6: "TolXUp",
    -5: "EqualFunValues",
    -4: "ConditionCov",
    -3: "NoEffectCoord",
    -2: "NoEffectAxis",
    -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol",
    1: "best solution value is lower than ftol",
}


def is_sync(o):
    return o.get("updating", "deferred") == "deferred" or o.get("workers", 1) not in (0, 1) or o.get("backend") == "mpi"


def default_sync(method, o):
    if method in ("de", "pso", "cpso"):
        return o.get("updating", "immediate") == "deferred" or o.get("workers", 1) not in (0, 1) or o.get("backend") == "mpi"
    return True


def close(a, b, scale=1.0, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= tol * max(scale, 1e-300))))


def sc(t):
    return t.scale


def vclose(a, b):
    """The same values, each to the last digits (also where they are tiny)."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= 1e-12 * np.maximum(np.abs(a), np.abs(b)))))


# ---------------------------------------------------------------- C01


def genuine(t, st, viol, task):
    pen = t.opts.get("constraints") == "Penalize"
    reports = [("callback %d" % (i + 1), c.state, c.n) for i, c in enumerate(t.cbs)] + [("result", t.res, len(t.xs))]
    A = np.array(t.xs)
    V = np.array([float(v) for v in t.vs])
    s = max(t.scale, float(np.abs(A).max()) if np.isfinite(A).all() else t.scale)
    for name, r, n in reports:
        x, f = r["x"], r["fun"]
        if not (isinstance(x, np.ndarray) and x.shape == (t.ndim,) and x.dtype.kind == "f"):
            viol(f"{t.method}: {name} x is {x!r}")
            return
        if np.ndim(f) != 0 or isinstance(f, (bool, np.bool_)) or not isinstance(f, (int, float, np.number)):
            viol(f"{t.method}: {name} fun is {f!r} ({type(f).__name__}), not a real scalar")
            return
        hit = np.all((np.abs(A[:n] - x) <= 1e-9 * s), axis=1)
        if not hit.any():
            viol(f"{t.method}: {name} x={x} was never evaluated before it was reported")
            return
        vals = V[:n][hit]
        if pen:
            inside = bool(np.all(x > t.lo + 1e-9 * s) and np.all(x < t.hi - 1e-9 * s))
            if inside:
                ok = any(veq(f, v) for v in vals)
            else:
                ok = any(f >= v - 1e-12 * abs(v) for v in vals)
        else:
            ok = any(veq(f, v) for v in vals)
        if not ok:
            viol(f"{t.method}: {name} fun={f!r} but the objective returned {vals[:5]} at x={x}")
            return


# ---------------------------------------------------------------- C02


def best(t, st, viol, task):
    pen = t.opts.get("constraints") == "Penalize"
    V = np.array([float(v) for v in t.vs])
    p = t.opts["popsize"]
    reports = [("callback %d" % (i + 1), c.state, c.n) for i, c in enumerate(t.cbs)] + [("result", t.res, len(t.xs))]
    prev = np.inf
    for name, r, n in reports:
        f = float(r["fun"])
        if t.method in BEST_SO_FAR:
            m = V[:n].min()
            if not veq(f, m):
                viol(f"{t.method}: {name} reports {f!r} but the best value evaluated so far is {m!r}")
                return
            if f > prev:
                viol(f"{t.method}: {name} reported best value increased from {prev!r} to {f!r}")
                return
            prev = f
        else:
            g = V[n - p : n]
            if pen:
                if f < g.min() - 1e-12 * abs(g.min()):
                    viol(f"{t.method}: {name} reports {f!r}, below the generation's best {g.min()!r}")
                    return
            elif not veq(f, g.min()):
                viol(f"{t.method}: {name} reports {f!r} but the generation's best value is {g.min()!r}")
                return
            if not find_in(t, r["x"], n - p, n):
                viol(f"{t.method}: {name} x is not a member of the current generation")
                return
            if pen and task["opts"].get("verbosity", 1.0) == 1.0 and "funall" in r:
                h = np.asarray(r["funall"])[-1]
                if h.size == p and not veq(f, h.min()):
                    viol(f"{t.method}: {name} reports {f!r} but the generation's best penalized value is {h.min()!r}")
                    return


def find_in(t, x, a, b):
    A = np.array(t.xs[a:b])
    s = max(t.scale, float(np.abs(A).max()))
    return bool(np.any(np.all(np.abs(A - x) <= 1e-9 * s, axis=1)))


# ---------------------------------------------------------------- C03


def accounting(t, st, viol, task):
    p, mx = t.opts["popsize"], t.opts["maxiter"]
    r = t.res
    n = len(t.xs)
    if r["nfev"] != n:
        viol(f"{t.method}: nfev={r['nfev']} but the objective was called {n} times")
        return
    if r["nit"] * p != n:
        viol(f"{t.method}: nit={r['nit']} with popsize={p} but {n} evaluations")
        return
    if not 1 <= r["nit"] <= mx:
        viol(f"{t.method}: nit={r['nit']} exceeds maxiter={mx}")
        return
    if len(t.cbs) != r["nit"]:
        viol(f"{t.method}: {len(t.cbs)} callbacks for nit={r['nit']}")
        return
    for k, c in enumerate(t.cbs, 1):
        if c.state["nit"] != k or c.state["nfev"] != k * p or c.n != k * p:
            viol(f"{t.method}: callback {k} reports nit={c.state['nit']} nfev={c.state['nfev']}, evaluated {c.n}")
            return


# ---------------------------------------------------------------- C04


def termination(t, st, viol, task):
    o = t.opts
    p, mx, ftol, xtol = o["popsize"], o["maxiter"], o.get("ftol", 1e-8), o.get("xtol", 1e-8)
    r = t.res
    s, G = r["status"], r["nit"]
    if r["message"] != MESSAGES.get(s) or bool(r["success"]) is not bool(s >= 0):
        viol(f"{t.method}: status={s} success={r['success']} message={r['message']!r}")
        return
    V = np.array([float(v) for v in t.vs]).reshape(-1, p)
    if len(V) != G or G > mx:
        viol(f"{t.method}: nit={G} (maxiter={mx}) but {len(V)} generations were evaluated")
        return
    if t.method in BEST_SO_FAR:
        b = np.minimum.accumulate(V.min(axis=1))
        if s not in (-1, 0, 1):
            viol(f"{t.method}: status {s}")
            return
        for g in range(2, G):
            if b[g - 1] <= ftol:
                viol(f"{t.method}: best value {b[g-1]!r} <= ftol={ftol} at iteration {g} but the run went on to {G}")
                return
        if b[-1] <= ftol:
            if s not in (0, 1):
                viol(f"{t.method}: best value {b[-1]!r} <= ftol={ftol} but status={s}")
                return
            exp = expected_success(t, G, p, ftol, xtol)
            if exp is not None and s != exp:
                viol(f"{t.method}: status={s} but the last improvement entails status {exp} (xtol={xtol})")
        else:
            if s != -1:
                viol(f"{t.method}: status={s} but best value {b[-1]!r} > ftol={ftol}")
            elif G != mx:
                viol(f"{t.method}: stopped at iteration {G} of {mx} without reaching ftol (status {s})")
        return
    # CMA-ES, VD-CMA: statuses refer to the current generation
    if (s == -1) != (G == mx):
        viol(f"{t.method}: status={s} at iteration {G} of {mx}")
        return
    if o.get("constraints") == "Penalize":
        b = np.array([float(c.state["fun"]) for c in t.cbs])
        gens = None
        if o.get("verbosity", 1.0) == 1.0 and "funall" in r:
            gens = np.asarray(r["funall"])
    else:
        b = V.min(axis=1)
        gens = V
    if len(b) != G:
        return
    for g in range(1, G):
        if b[g - 1] <= ftol:
            viol(f"{t.method}: generation {g} reached ftol={ftol} ({b[g-1]!r}) but the run went on to {G}")
            return
    if s in (0, 1) and b[-1] > ftol:
        viol(f"{t.method}: status={s} but the best value {b[-1]!r} > ftol={ftol}")
        return
    if G < mx and b[-1] <= ftol and s not in (0, 1):
        viol(f"{t.method}: best value {b[-1]!r} <= ftol={ftol} but status={s}")
        return
    ilim = int(10.0 + 30.0 * t.ndim / p)

    def equalfun(g):
        return g >= ilim and np.ptp(b[g - ilim : g]) < 1e-10

    def tolfun(g):
        if gens is None:
            return None
        a = np.append(gens[g - 1], b[:g])
        return bool(g > 2 and a.max() - a.min() < 1e-12)

    for g in range(1, G):
        if equalfun(g) or tolfun(g):
            viol(f"{t.method}: the objective was stagnant at iteration {g} but the run went on to {G}")
            return
    if s == -5 and not equalfun(G):
        viol(f"{t.method}: EqualFunValues reported at iteration {G} but the last {ilim} best values differ: {b[-ilim:]}")
    if s == -7 and tolfun(G) is False:
        viol(f"{t.method}: TolFun reported at iteration {G} but the values vary")


def expected_success(t, G, p, ftol, xtol):
    """Status of a successful DE/PSO/CPSO/NA run, from the evaluated candidates alone."""
    if G == 1:
        return 1
    if t.method == "na":
        d = np.where(t.hi > t.lo, t.hi - t.lo, np.inf)
    else:
        d = 1.0
    if t.method == "na" or default_sync(t.method, t.opts):
        if len(t.cbs) < 2:
            return None
        move = float(np.linalg.norm((np.asarray(t.cbs[-1].state["x"]) - np.asarray(t.cbs[-2].state["x"])) / d))
        return grade(move, xtol)
    if len(t.cbs) < 2:
        return None
    gx, gf = np.asarray(t.cbs[-2].state["x"]), float(t.cbs[-2].state["fun"])
    status = 1
    for x, v in zip(t.xs[(G - 1) * p :], t.vs[(G - 1) * p :]):
        if v <= gf:
            if v <= ftol:
                status = grade(float(np.linalg.norm(gx - x)), xtol)
                if status is None:
                    return None
            gx, gf = x, v
    return status


def grade(move, xtol):
    if move != xtol and abs(move - xtol) <= 1e-9 * max(abs(xtol), 1e-300) or (move > 0 and move < 1e-13):
        return None
    return 0 if move <= xtol else 1


# ---------------------------------------------------------------- C05


def nout_of(o):
    return int(np.ceil(o.get("verbosity", 1.0) * o["popsize"]))


def survivors(t, g):
    """DE population and values after generation g, reconstructed from the evaluations."""
    p = t.opts["popsize"]
    sync = default_sync("de", t.opts)
    X = [np.array(x) for x in t.xs[:p]]
    F = [float(v) for v in t.vs[:p]]
    out = [(np.array(X), np.array(F))]
    for k in range(2, g + 1):
        for i in range(p):
            x, v = t.xs[(k - 1) * p + i], float(t.vs[(k - 1) * p + i])
            if v < F[i] or (v == F[i] and not sync):
                X[i], F[i] = x, v
        out.append((np.array(X), np.array(F)))
    return out


def populations(t):
    p = t.opts["popsize"]
    G = len(t.xs) // p
    if t.method == "de":
        return survivors(t, G)
    return [(np.array(t.xs[g * p : (g + 1) * p]), np.array([float(v) for v in t.vs[g * p : (g + 1) * p]])) for g in range(G)]


def history(t, st, viol, task):
    o = t.opts
    p = o["popsize"]
    r = t.res
    G = r["nit"]
    if not o.get("return_all", False):
        for name, d in [("result", r)] + [("callback %d" % (i + 1), c.state) for i, c in enumerate(t.cbs)]:
            if "xall" in d or "funall" in d:
                viol(f"{t.method}: {name} carries xall/funall although return_all is False")
                return
        return
    nout = nout_of(o)
    xall, funall = np.asarray(r["xall"]), np.asarray(r["funall"])
    m = max(1, nout)
    if xall.shape != (G, m, t.ndim) or funall.shape != (G, m):
        viol(f"{t.method}: xall{xall.shape} funall{funall.shape}, expected {(G, m, t.ndim)} and {(G, m)}")
        return
    pops = populations(t)
    if len(pops) != G:
        viol(f"{t.method}: {len(pops)} generations evaluated, nit={G}")
        return
    pen = o.get("constraints") == "Penalize"
    s = max(t.scale, float(np.abs(np.array(t.xs)).max()))
    for g in range(G):
        X, F = pops[g]
        if nout > 0:
            if not close(xall[g], X[:nout], s):
                viol(f"{t.method}: xall[{g}] differs from the population of iteration {g + 1}")
                return
            if pen:
                out = (X[:nout] <= t.lo + 1e-9 * s).any(axis=1) | (X[:nout] >= t.hi - 1e-9 * s).any(axis=1)
                tol = 1e-12 * np.maximum(1.0, np.abs(F[:nout]))
                ok = np.where(out, funall[g] >= F[:nout] - tol, np.abs(funall[g] - F[:nout]) <= tol)
                if not ok.all():
                    viol(f"{t.method}: funall[{g}]={funall[g]} does not match the (penalized) values {F[:nout]}")
                    return
            elif not vclose(funall[g], F[:nout]):
                viol(f"{t.method}: funall[{g}]={funall[g]} but the population's values are {F[:nout]}")
                return
        else:
            if pen:
                if not find_in(t, xall[g, 0], g * p, (g + 1) * p):
                    viol(f"{t.method}: xall[{g}] is not a member of the population of iteration {g + 1}")
                    return
                if not veq(funall[g, 0], float(t.cbs[g].state["fun"])):
                    viol(f"{t.method}: funall[{g}] is not the best value of iteration {g + 1}")
                    return
                continue
            b = F.min()
            if not veq(funall[g, 0], b):
                viol(f"{t.method}: funall[{g}]={funall[g]} but the best value of the population is {b}")
                return
            hit = [close(xall[g, 0], x, s) for x, f in zip(X, F) if veq(f, b)]
            if not any(hit):
                viol(f"{t.method}: xall[{g}] is not the best member of the population of iteration {g + 1}")
                return
    for k, c in enumerate(t.cbs, 1):
        a, f = c.state["xall"], c.state["funall"]
        if not np.array_equal(a, xall[:k]) or not np.array_equal(f, funall[:k]):
            viol(f"{t.method}: the history given to callback {k} is not the first {k} rows of the final one")
            return


def callback_view(t, st, viol, task):
    """The population handed to the callback, and the stability of what was handed over."""
    pops = populations(t)
    s = max(t.scale, float(np.abs(np.array(t.xs)).max()))
    if len(pops) < len(t.cbs):
        viol(f"{t.method}: {len(t.cbs)} callbacks for {len(pops)} generations")
        return
    for g, c in enumerate(t.cbs):
        if not close(c.X, pops[g][0], s):
            viol(f"{t.method}: callback {g + 1} received a population that is not the one of iteration {g + 1}")
            return
        for k in ("x", "fun", "nit", "nfev", "xall", "funall"):
            if k in c.state and not np.array_equal(np.asarray(c.ref.get(k)), np.asarray(c.state[k])):
                viol(f"{t.method}: field {k!r} of the state given to callback {g + 1} changed after the callback returned")
                return


# ---------------------------------------------------------------- C06


def feasible(t, st, viol, task):
    o = t.opts
    cons = o.get("constraints")
    A = np.array(t.xs)
    p = o["popsize"]
    if cons is None and t.method != "na":
        if t.method in ("de", "pso", "cpso") and t.x0 is None:
            A = A[:p]
        else:
            return
    outside = t.x0 is not None and not ((np.asarray(t.x0) >= t.lo) & (np.asarray(t.x0) <= t.hi)).all()
    if outside:
        A = A[p:]
    if not np.isfinite(A).all():
        viol(f"{t.method} (constraints={cons}): a point that is not finite was evaluated")
        return
    ok = (A >= t.lo) & (A <= t.hi)
    if not ok.all():
        i = int(np.flatnonzero(~ok.all(axis=1))[0])
        viol(f"{t.method} (constraints={cons}): evaluation {i} at {A[i]} is outside of the bounds {t.lo}..{t.hi}")
        return
    if (cons is not None or t.method == "na") and not outside:
        for r in [t.res] + [c.state for c in t.cbs]:
            x = np.asarray(r["x"])
            if not ((x >= t.lo) & (x <= t.hi)).all():
                viol(f"{t.method} (constraints={cons}): reported solution {x} is outside of the bounds")
                return
