"""Closed sampler runs and their oracles."""
import numpy as np

import trace as tr
import universe as U
from engine import explore
from monitors import close, vclose
from trace import veq

BOUNDS = (
    "mcmc, hmc; ndim 1-48, 130 and 260, maxiter 1-301, 1100 and 4200, perc 0-1, scalar and per-variable step sizes, nleap 1-101 and 280, with and without jac / 'Reject'; objective answers: "
    "complete trees over 2-3 values (every new point), or every departure from a smooth function up to the bound; random stream: one fixed seed per task"
)
ASSUMPTIONS = U.ASSUMPTIONS


def _task(m, box, enum, x0=None, jac=None, **o):
    oo = dict(seed=5)
    oo.update(o)
    return dict(method=m, box=box, enum=enum, x0=x0, opts=oo, jac=jac, weight=(len(enum[1]) ** min(12, oo["maxiter"]) if enum[0] == "tree" else 50 * oo["maxiter"]),
                label=f"{m} {box} {enum} x0={x0} jac={jac} " + " ".join(f"{k}={v}" for k, v in oo.items()))


def arr_step(box, base):
    n = len(U.BOXES[box])
    return [base * (1.0 + 0.37 * j) for j in range(n)]


def tasks(tier, methods=tr.SAMPLERS):
    T = []
    th = tier == "thorough"
    if "mcmc" in methods:
        j = 0
        for box in ("B1", "B2", "B3", "B4", "B6"):
            for perc in (1.0, 0.0, 0.5, 0.67, 0.34, 0.8):
                for cons in (None, "Reject"):
                    for rep in range(3 if th else 1):
                        j += 1
                        step = (0.1, 0.6, 1, 2.5, arr_step(box, 0.4), arr_step(box, 1.1))[(j + rep) % 6]
                        o = dict(perc=perc, constraints=cons, stepsize=step, seed=(5, 0, 77)[j % 3])
                        x0 = (None, "in", "corner")[j % 3]
                        T.append(_task("mcmc", box, ("tree", (1.0, 0.4, 2.5)), x0, maxiter=6 + (1 if th else 0), **o))
                        T.append(_task("mcmc", box, ("tree", (1.0, 0.9, np.inf), 4), x0, maxiter=8, **o))
                        T.append(_task("mcmc", box, ("dev", ("in", "rosen", "out", "huge", "int", "mixed")[j % 6], 2), x0, maxiter=9, **o))
                        T.append(_task("mcmc", box, ("dev", ("rosen", "in", "lin")[j % 3], 0), x0, maxiter=(1, 2, 3, 40)[j % 4], return_all=bool(j % 4), **o))
    if "hmc" in methods:
        j = 0
        for box in ("B1", "B2", "B3", "S2", "B6"):
            for nleap in (1, 2, 5, 10):
                for cons in (None, "Reject"):
                    for rep in range(3 if th else 1):
                        j += 1
                        step = (0.05, 0.3, 1, arr_step(box, 0.2), arr_step(box, 0.05))[(j + rep) % 5]
                        o = dict(nleap=nleap, constraints=cons, stepsize=step, seed=(5, 0, 77)[j % 3])
                        x0 = (None, "in", "corner")[j % 3]
                        T.append(_task("hmc", box, ("tree", (1.0, 0.4, 2.5)), x0, jac=("zero", "pull", "const")[j % 3], maxiter=6, **o))
                        T.append(_task("hmc", box, ("tree", (1.0, 0.9, np.inf), 4), x0, jac=("zero", "pull", "const")[(j + 1) % 3], maxiter=7, **o))
                        T.append(_task("hmc", box, ("dev", ("in", "rosen", "lin", "in")[j % 4], 0), x0, maxiter=(3, 8, 20, 2, 1)[j % 5], finite_diff_abs_step=(1e-4, 1e-2)[j % 2], return_all=bool(j % 4), **o))
                        T.append(_task("hmc", box, ("dev", ("in", "lin")[j % 2], 0), x0, jac="true", maxiter=(3, 8, 20)[j % 3], **o))
    # many variables, long chains, long trajectories, tiny and huge values
    for j, box in enumerate(("B10", "N24", "N48")):
        for cons in (None, "Reject"):
            for kind in ("in", "rosen", "lin"):
                if "mcmc" in methods:
                    for perc in (1.0, 0.5, 0.1, 0.37):
                        T.append(_task("mcmc", box, ("dev", kind, 0), (None, "in")[j % 2], perc=perc, constraints=cons, stepsize=0.05, maxiter=30))
                if "hmc" in methods:
                    T.append(_task("hmc", box, ("dev", "in" if kind == "rosen" else kind, 0), "in", jac=(None, "true")[kind == "rosen"], nleap=(1, 4)[kind == "in"], constraints=cons, stepsize=0.02, maxiter=6))
    for j, (box, kind) in enumerate((("B2", "tiny14"), ("B2", "tiny300"), ("B2", "in20"), ("B3", "huge"), ("B1", "lin"), ("B2", "in"), ("B3", "rosen"))):
        for cons in (None, "Reject"):
            if "mcmc" in methods:
                T.append(_task("mcmc", box, ("dev", kind, 0), None, perc=(1.0, 0.5)[j % 2], constraints=cons, stepsize=0.3, maxiter=(150, 301)[j % 2]))
            if "hmc" in methods and kind not in ("in20", "huge", "rosen"):
                T.append(_task("hmc", box, ("dev", kind, 0), "in", nleap=(2, 5)[j % 2], constraints=cons, stepsize=0.1, maxiter=120))
                for nleap in (16, 25, 60, 101):
                    T.append(_task("hmc", box, ("dev", kind, 0), "in", nleap=nleap, constraints=cons, stepsize=0.02, maxiter=5))
    # proposals outside of the bounds by next to nothing
    for j, step in enumerate((1e-5, 1e-8, 1e-10, 1e-13)):
        for x0 in ("corner", "low0"):
            for box in ("B1", "B2", "I1"):
                if "mcmc" in methods:
                    T.append(_task("mcmc", box, ("dev", ("in", "lin")[j % 2], 0), x0, perc=(1.0, 0.5)[j % 2], constraints="Reject", stepsize=step, maxiter=40))
                if "hmc" in methods:
                    T.append(_task("hmc", box, ("dev", ("in", "lin")[j % 2], 0), x0, jac="true", nleap=2, constraints="Reject", stepsize=step, maxiter=25))
    # more than 2^10 (2^12, 2^15) samples, more than 2^7 and 2^8 variables and leapfrog steps
    for j, cons in enumerate((None, "Reject")):
        if "mcmc" in methods:
            for n in (1100, 4200) if not th else (1100, 4200, 33000):
                T.append(_task("mcmc", "B2", ("dev", "in", 0), (None, "in")[j], perc=(0.5, 1.0)[j], constraints=cons, stepsize=0.3, maxiter=n, return_all=bool((n + j) % 3 != 2)))
            T.append(_task("mcmc", "N130", ("dev", "in", 0), None, perc=0.3, constraints=cons, stepsize=0.05, maxiter=12))
            T.append(_task("mcmc", "N260", ("dev", "lin", 0), None, perc=1.0, constraints=cons, stepsize=0.02, maxiter=12))
        if "hmc" in methods:
            T.append(_task("hmc", "B2", ("dev", "in", 0), (None, "in")[j], jac="true", nleap=2, constraints=cons, stepsize=0.1, maxiter=1100 if not th else 4200))
            T.append(_task("hmc", "B2", ("dev", "in", 0), "in", jac="true", nleap=280, constraints=cons, stepsize=0.01, maxiter=4))
            T.append(_task("hmc", "N130", ("dev", "in", 0), None, jac="true", nleap=3, constraints=cons, stepsize=0.02, maxiter=6))
            T.append(_task("hmc", "N130", ("dev", "lin", 0), "in", nleap=1, constraints=cons, stepsize=0.02, maxiter=4))
    return T


def jacobian(task):
    k = task.get("jac")
    if k is None:
        return None
    b = np.array(U.BOXES[task["box"]], dtype=float)
    lo, hi = b[:, 0], b[:, 1]
    w = hi - lo
    n = len(b)
    if k == "zero":
        return lambda x, *a: np.zeros(n)
    if k == "const":
        return lambda x, *a: np.linspace(-1.0, 2.0, n) / w
    if k == "pull":
        return lambda x, *a: (x - (lo + 0.4 * w)) / w
    if k == "true":
        kind = task["enum"][1]
        if kind == "in":
            c = lo + 0.3 * w
            return lambda x, *a: 2.0 * (x - c) / w**2 * np.arange(1, n + 1)
        if kind == "lin":
            return lambda x, *a: 1.0 / w + 0.0 * x
    raise KeyError(k)


def execute(task, ctx, **kw):
    o = dict(task["opts"])
    j = jacobian(task)
    if j is not None:
        o["jac"] = j
    return tr.run(task["method"], U.BOXES[task["box"]], o, U.policy_for(task, ctx), x0=U.x0_of(task), **kw)


def drive(task, st, monitors):
    first = True
    for ctx, t, new in explore(lambda c: execute(task, c), U.bound_of(task)):
        st.runs += 1
        st.edges += new
        st.steps += len(t.cbs)
        for c in t.cbs:
            st.state(c.X, c.state.get("fun"), c.state.get("nit"), c.state.get("accept_ratio"))

        def viol(msg, key=None):
            st.violate(msg, {"task": {k: v for k, v in task.items() if k != "weight"}, "choices": list(ctx.choices), "trace": t.brief()}, key)

        bad = tr.crash(t)
        if bad:
            viol(bad)
            if len(st.violations) >= 3:
                return
            continue
        st.outcomes.add(hash((repr(t.res.get("x")), repr(t.res.get("fun")), t.res.get("accept_ratio"))))
        for m in monitors:
            try:
                m(t, st, viol, task)
            except (IndexError, KeyError, AttributeError, TypeError, ValueError):
                import traceback

                viol(f"{t.method}: malformed observation for {m.__name__}: {traceback.format_exc(limit=-2)}")
            st.checked += 1
        if first:
            first = False
            st.sample({"task": task["label"], "choices": list(ctx.choices)[:40], "trace": t.brief()})
        if len(st.violations) >= 3:
            return


def chain_of(t):
    """The chain as observed through the callbacks (always given): positions and values."""
    return [c.X for c in t.cbs]


def values_at(t, x):
    return tr.find(t, x)


def lookup(t):
    A = np.array(t.xs)
    V = [float(v) for v in t.vs]
    s = t.scale

    from refs.swarm import Mismatch

    def near(x):
        d = np.abs(A - x).max(axis=1)
        i = int(np.argmin(d))
        if not d[i] <= 1e-8 * s:
            raise Mismatch(-1, x, A[i])
        return i

    def value(x):
        return V[near(x)]

    value.snap = lambda x: A[near(x)].copy()

    return value


def reporting(t, st, viol, task):
    """C19"""
    o = t.opts
    mx = o["maxiter"]
    r = t.res
    m = t.method
    if len(t.cbs) != mx:
        viol(f"{m}: {len(t.cbs)} callbacks for maxiter={mx}")
        return
    chain = np.array([c.X for c in t.cbs])
    if chain.shape != (mx, t.ndim):
        viol(f"{m}: the callbacks received samples of shape {chain.shape}")
        return
    ra = o.get("return_all", True)
    vals = []
    for i, x in enumerate(chain):
        v = values_at(t, x)
        if not v:
            viol(f"{m}: sample {i} at {x} was never evaluated")
            return
        vals.append(float(v[0]))
    vals = np.array(vals)
    runmin = np.minimum.accumulate(vals)
    moved = 0
    for k, c in enumerate(t.cbs, 1):
        s = c.state
        if s["nit"] != k:
            viol(f"{m}: callback {k} reports nit={s['nit']}")
            return
        if not veq(s["fun"], runmin[k - 1]):
            viol(f"{m}: callback {k} reports fun={s['fun']!r}, the best of the {k} samples so far is {runmin[k-1]!r}")
            return
        fx = values_at(t, s["x"])
        if np.shape(s["x"]) != (t.ndim,) or not any(veq(v, s["fun"]) for v in fx) or not any(close(s["x"], y, t.scale) for y in chain[:k]):
            viol(f"{m}: callback {k} reports x={s['x']} which is not the sample with value {s['fun']!r}")
            return
        if ("xall" in s) != ra or ("funall" in s) != ra:
            viol(f"{m}: callback {k}: return_all={ra} but fields {c.keys}")
            return
        if ra:
            if np.shape(s["xall"]) != (k, t.ndim) or np.shape(s["funall"]) != (k,):
                viol(f"{m}: callback {k} received histories of shape {np.shape(s['xall'])} {np.shape(s['funall'])}")
                return
            if not close(s["xall"], chain[:k], t.scale) or not vclose(s["funall"], vals[:k]):
                viol(f"{m}: the history given to callback {k} is not the chain so far")
                return
        if k > 1:
            same = close(chain[k - 1], chain[k - 2], t.scale)
            moved += not same
            # an accepted proposal may coincide with the current sample only with zero momentum/step
            a = s["accept_ratio"]
            if not veq(a, moved / k, 1e-9):
                viol(f"{m}: callback {k} reports accept_ratio={a!r} but {moved} of {k} samples are accepted moves")
                return
        for key in ("x", "fun", "nit", "accept_ratio", "xall", "funall"):
            if key in c.state and not np.array_equal(np.asarray(c.ref.get(key)), np.asarray(c.state[key])):
                viol(f"{m}: field {key!r} of the state given to callback {k} changed afterwards")
                return
    if r["nit"] != mx:
        viol(f"{m}: nit={r['nit']} but maxiter={mx}")
        return
    if not veq(r["fun"], runmin[-1]) or not any(veq(v, r["fun"]) for v in values_at(t, r["x"])) or not any(close(r["x"], y, t.scale) for y in chain):
        viol(f"{m}: reported best x={r['x']} fun={r['fun']!r}; the best sample has value {runmin[-1]!r}")
        return
    if not veq(r["accept_ratio"], moved / mx, 1e-9):
        viol(f"{m}: accept_ratio={r['accept_ratio']!r}, {moved} accepted of {mx}")
        return
    if ("xall" in r) != ra or ("funall" in r) != ra:
        viol(f"{m}: return_all={ra} but result fields are {sorted(r.keys())}")
        return
    if ra:
        if not close(np.asarray(r["xall"]), chain, t.scale) or not vclose(np.asarray(r["funall"]), vals):
            viol(f"{m}: xall/funall of the result are not the chain seen by the callbacks")
            return
    if m == "hmc" and r.get("nfev") != len(t.xs):
        viol(f"{m}: nfev={r.get('nfev')} but the objective was called {len(t.xs)} times")


def feasible(t, st, viol, task):
    """C20"""
    if t.opts.get("constraints") != "Reject":
        return
    eps = 0.0

    def ok(x):
        return bool(np.all(x >= t.lo - eps) and np.all(x <= t.hi + eps))

    for k, c in enumerate(t.cbs, 1):
        if not ok(c.X):
            viol(f"{t.method} (Reject): sample {k} at {c.X} is outside of the bounds")
            return
        if not ok(c.state["x"]):
            viol(f"{t.method} (Reject): best sample {c.state['x']} reported to callback {k} is outside of the bounds")
            return
    if not ok(t.res["x"]) or ("xall" in t.res and not all(ok(x) for x in t.res["xall"])):
        viol(f"{t.method} (Reject): the result contains samples outside of the bounds")
        return
    if t.method == "mcmc":
        A = np.array(t.xs)
        bad = ~((A >= t.lo) & (A <= t.hi)).all(axis=1)
        if bad.any():
            viol(f"mcmc (Reject): the objective was evaluated at the infeasible point {A[np.flatnonzero(bad)[0]]}")
