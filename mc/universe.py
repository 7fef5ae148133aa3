"""The shared space of closed optimizer/sampler runs that the checks enumerate.

A task fixes the configuration; the decision tree of a task is the set of
objective-function answers:

  tree : every evaluation of a new point answers any value of a small alphabet
         (complete tree);
  dev  : the default answer is a smooth function, and up to `bound` evaluations
         depart from it: a new strict best, a tie with the best so far, a value
         worse than everything, +inf  (complete up to the bound).

Points that were evaluated before always get the value they got before.
"""
import itertools

import numpy as np

import trace as tr
from engine import explore

B1 = [[-2.0, 6.0]]
B2 = [[-1.0, 3.0], [2.0, 10.0]]
B3 = [[-1.0, 3.0], [2.0, 10.0], [-7.0, -6.5]]
TINY = [[0.99, 1.03], [-2.02, -1.99]]
B4 = [[-1.0, 3.0], [2.0, 10.0], [-7.0, -6.5], [100.0, 101.0]]
B6 = [[-1.0, 3.0], [2.0, 10.0], [-7.0, -6.5], [0.0, 1.0], [-3.0, 3.0], [5.0, 9.0]]
B7 = B6 + [[-0.5, 0.25]]
B10 = B7 + [[-1e3, 1e3], [1e-3, 2e-3], [-20.0, -10.0]]
# the middle plus half the width, and the lower bound plus the width, miss most of these upper bounds by a rounding error
ODD = [[-1.1, 0.3], [0.1, 0.7], [-4.6, 3.3], [-0.7, 0.1], [-2.9, 1.3], [0.3, 4.1]]
N24 = [[-1.0 - 0.25 * (k % 5), 2.0 + 0.5 * (k % 7)] for k in range(24)]
N48 = [[-1.0 - 0.25 * (k % 5), 2.0 + 0.5 * (k % 7)] for k in range(48)]
N130 = [[-0.5 * (i % 9) - 1.0, 0.25 * (i % 14) + 1.0] for i in range(130)]
N260 = [[-0.5 * (i % 9) - 1.0, 0.25 * (i % 14) + 1.0] for i in range(260)]
FIX = [[-1.0, 3.0], [4.0, 4.0], [2.0, 10.0]]  # one fixed variable (NA)
BOXES = {"S2": [[-1.0, 1.0]] * 2, "S3": [[-1.0, 1.0]] * 3, "S6": [[-1.0, 1.0]] * 6, "S10": [[-1.0, 1.0]] * 10, "B1": B1, "B2": B2, "B3": B3, "B4": B4, "TINY": TINY, "B6": B6, "B7": B7, "B10": B10, "FIX": FIX, "N24": N24, "N48": N48, "N130": N130, "N260": N260, "ODD2": ODD[:2], "ODD1": ODD[:1], "I1": [[0.0, 1.0]], "I2": [[0.0, 1.0]] * 2, "S1": [[-1.0, 1.0]], "ODD6": ODD}

OFF = -1e300  # ftol that is never reached


def grid_x0(box, p, kind="in"):
    """A fixed initial population (golden-ratio lattice); includes corners for p > 2."""
    b = np.array(box, dtype=float)
    n = len(b)
    k = np.arange(1, p + 1)[:, None]
    a = np.array([0.6180339887498949, 0.7548776662466927, 0.8191725133961644, 0.8566748838545029, 0.8812714616335696, 0.8986537126286992, 0.9115923534820549, 0.9217, 0.9301, 0.937])[:n]
    if n > len(a):
        a = np.mod(np.sqrt(np.arange(2, n + 2) * 1.618033988749895), 1.0)
    f = np.mod(0.5 + k * a, 1.0)
    if kind == "corner":
        f[0] = 0.0
        f[-1] = 1.0
    if kind == "out":  # members outside of the box, on either side, one of them far away
        f = 2.5 * f - 0.75
        f[0] = -3.0
        return b[:, 0] + f * (b[:, 1] - b[:, 0])
    x = b[:, 0] + f * (b[:, 1] - b[:, 0])
    return np.where(f == 1.0, b[:, 1], np.clip(x, b[:, 0], b[:, 1]))


def base_fun(kind, box):
    b = np.array(box, dtype=float)
    lo, hi = b[:, 0], b[:, 1]
    w = np.where(hi > lo, hi - lo, 1.0)
    n = len(b)
    if kind == "in":
        c = lo + 0.3 * (hi - lo)
        return lambda x: float((((x - c) / w) ** 2 * np.arange(1, n + 1)).sum())
    if kind == "out":  # optimum outside of the box, beyond a lower and an upper bound
        c = np.where(np.arange(n) % 2 == 0, hi + 0.7 * w, lo - 0.9 * w)
        return lambda x: float((((x - c) / w) ** 2).sum())
    if kind == "near":  # the optimum is the first member of the given initial population
        c = grid_x0(box, 2)[0]
        return lambda x: float((((x - c) / w) ** 2).sum())
    if kind == "low":
        c = lo - 0.6 * w
        return lambda x: float((((x - c) / w) ** 2).sum())
    if kind == "rosen":

        def f(x):
            z = 2.0 * (x - lo) / w - 1.0
            if n == 1:
                return float((1 - z[0]) ** 2)
            return float((100.0 * (z[1:] - z[:-1] ** 2) ** 2 + (1 - z[:-1]) ** 2).sum())

        return f
    if kind == "lin":
        return lambda x: float(10.0 + (x / w).sum())
    if kind == "int":  # integer-typed values
        c = lo + 0.3 * (hi - lo)
        return lambda x: int(20 * np.abs((x - c) / w).sum())
    if kind == "mixed":  # int or float depending on the region, like "return 0 if ... else ..."
        c = lo + 0.3 * (hi - lo)

        def g(x):
            v = float(np.abs((x - c) / w).sum())
            return 7 if v > 0.3 else 0.25 + v

        return g
    if kind[:4] == "tiny":  # differences far below the absolute tolerances
        c = lo + 0.3 * (hi - lo)
        sc = 10.0 ** -int(kind[4:])
        return lambda x: sc * (1.0 + float((((x - c) / w) ** 2).sum()))
    if kind == "huge":
        c = lo + 0.3 * (hi - lo)
        return lambda x: 1e31 * (1.0 + float((((x - c) / w) ** 2).sum()))
    if kind[0] == "q":
        c = np.linspace(-0.1, 0.3, n)
        sc = 1e20 * 10.0 ** np.linspace(0, int(kind[1:]), n)
        return lambda x: float((sc * (x - c) ** 2).sum())
    if kind in ("cond8", "cond17"):
        c = lo + 0.45 * (hi - lo)
        sc = 1e6 * 10.0 ** np.linspace(0, int(kind[4:]), n)
        return lambda x: float((sc * ((x - c) / w) ** 2).sum())
    if kind == "in12":
        c = lo + 0.3 * (hi - lo)
        return lambda x: float(1e12 * (((x - c) / w) ** 2).sum())
    if kind == "in20":
        c = lo + 0.3 * (hi - lo)
        return lambda x: float(1e20 * (((x - c) / w) ** 2).sum())
    if kind == "flat":
        return lambda x: 3.5
    if kind.startswith("turn"):  # grows steeper all the time, and from evaluation K on the optimum is outside of the box
        c = lo + 0.45 * (hi - lo)
        cnt = [0]

        def turn(x):
            cnt[0] += 1
            s = 1.01 ** cnt[0]
            if cnt[0] <= int(kind[4:]):
                return s * float((((x - c) / w) ** 2).sum())
            return s * float(30.0 - ((x - c) / w).sum())

        return turn
    if kind.startswith("noise"):  # without any trend up to evaluation K, then the optimum is outside of the box
        k = int(kind[5:])
        cnt = [0]

        def noise(x):
            cnt[0] += 1
            r = (cnt[0] * 7919 % 1009) / 1009.0
            return 40.0 + r if cnt[0] <= k else float(20.0 - 5.0 * ((x - lo) / w).sum())

        return noise
    if kind.startswith("creep"):  # approaches a tolerance in steps far below any absolute or relative one
        v, k = kind[5:].split("@")
        left = [int(k)]

        def creep(x):
            left[0] -= 1
            return float(v) + left[0] * (1e-13 * abs(float(v)) if float(v) else 1e-200)

        return creep
    if kind == "age":  # the older the better
        cnt = [0]

        def age(x):
            cnt[0] += 1
            return float(cnt[0])

        return age
    if kind.startswith("hush"):  # nearly constant up to evaluation K, without any trend afterwards
        k = int(kind[4:])
        cnt = [0]

        def hush(x):
            cnt[0] += 1
            r = (cnt[0] * 7919 % 1009) / 1009.0
            return 40.0 + (0.003 * r if cnt[0] <= k else r)

        return hush
    if kind == "step":
        c = lo + 0.45 * (hi - lo)
        return lambda x: float(np.floor(8.0 * (((x - c) / w) ** 2).sum()) + 1.0)
    if kind == "cond":  # ill-conditioned
        c = lo + 0.45 * (hi - lo)
        sc = 10.0 ** np.linspace(0, 14, n)
        return lambda x: float((sc * ((x - c) / w) ** 2).sum())
    if kind == "neg":
        c = lo + 0.6 * (hi - lo)
        return lambda x: -5.0 + float((((x - c) / w) ** 2).sum())
    raise KeyError(kind)


def policy_for(task, ctx):
    kind = task["enum"][0]
    if kind == "tree":
        alpha = task["enum"][1]
        n = len(alpha)
        return lambda x, k: alpha[ctx.choose(n)]
    if kind == "lev":
        _, spread, alpha, _ = task["enum"]
        p = task["opts"]["popsize"]
        state = {"n": 0, "base": 5.0, "now": 5.0}

        def lev(x, k):
            i = state["n"] % p
            state["n"] += 1
            if i == 0:
                c = ctx.choose(len(alpha) + 1)
                if c == 0:
                    state["now"] = state["base"]
                else:
                    d, sticky = alpha[c - 1]
                    state["now"] = state["base"] + d
                    if sticky:
                        state["base"] = state["now"]
            return state["now"] + spread * ((7 * i + 3) % p)

        return lev
    if kind == "dev":
        f = base_fun(task["enum"][1], BOXES[task["box"]])
        state = {"best": None}
        alts = task.get("alts", 4)

        def pol(x, k):
            v = f(x)
            c = ctx.choose(alts)
            best = state["best"]
            if c and best is not None:
                if c == 1:
                    v = best - 1.0
                elif c == 2:
                    v = best
                elif c == 3:
                    v = 1.0e4 + k
                elif c == 4:
                    v = np.inf
            elif c:
                v = {1: v - 1.0, 2: v, 3: 1.0e4, 4: np.inf}[c]
            state["best"] = v if best is None or v < best else best
            return v

        return pol
    raise KeyError(kind)


def bound_of(task):
    e = task["enum"]
    if e[0] == "lev":
        return e[3]
    return e[2] if len(e) > 2 else None


def x0_of(task):
    k = task.get("x0")
    if k is None:
        return None
    box = BOXES[task["box"]]
    if task["method"] in ("cmaes", "vdcma") or task["method"] in tr.SAMPLERS:
        b = np.array(box, dtype=float)
        f = {"in": 0.4, "corner": 1.0, "low": 0.02, "low0": 0.0}.get(k)
        if f is None:  # one variable far outside of its bounds
            f = np.where(np.arange(len(b)) == (0 if k == "far" else len(b) - 1), 3.0 if k == "far" else -2.0, 0.4)
            return b[:, 0] + f * (b[:, 1] - b[:, 0])
        return np.minimum(b[:, 0] + f * (b[:, 1] - b[:, 0]), b[:, 1])
    return grid_x0(box, task["opts"]["popsize"], k)


def execute(task, ctx, **kw):
    return tr.run(task["method"], BOXES[task["box"]], task["opts"], policy_for(task, ctx), x0=x0_of(task), **kw)


def drive(task, st, monitors, keyfun=None):
    """Enumerate the decision tree of a task; run every monitor on every execution."""
    if "subs" in task:
        for sub in task["subs"]:
            drive(sub, st, monitors)
            if len(st.violations) >= 3:
                return
        return

    def one(ctx):
        return execute(task, ctx)

    first = True
    for ctx, t, new in explore(one, bound_of(task)):
        st.runs += 1
        st.edges += new
        st.steps += len(t.cbs)
        for c in t.cbs:
            st.state(c.X, c.state.get("fun"), c.state.get("nit"))
        st.outcomes.add(hash((repr(t.res.get("x")), repr(t.res.get("fun")), t.res.get("status"))) if t.res is not None else 0)

        def viol(msg, key=None):
            st.violate(msg, {"task": strip(task), "choices": list(ctx.choices), "trace": t.brief()}, key)

        if t.res is not None:
            st.count("status", t.method, t.res.get("status"))
        bad = tr.crash(t)
        if bad:
            viol(bad)
            if len(st.violations) >= 3:
                return
            continue
        for m in monitors:
            try:
                m(t, st, viol, task)
            except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
                # the observation itself is malformed (missing field, wrong shape, ...)
                import traceback

                viol(f"{t.method}: malformed observation for {m.__name__}: {traceback.format_exc(limit=-2)}")
            st.checked += 1
        if first:
            first = False
            st.sample({"task": task["label"], "choices": list(ctx.choices)[:40], "trace": t.brief()})
        if len(st.violations) >= 3:
            return


def strip(task):
    return {k: v for k, v in task.items() if k not in ("weight",)}


# ------------------------------------------------------------------ configuration space

DE_MIN = {"rand1bin": 4, "best1bin": 3, "best2bin": 5, "rand2bin": 6}


def _mk(method, box, enum, x0=None, tag="", alts=4, **opts):
    o = {"seed": 3, "ftol": OFF, "return_all": True}
    o.update(opts)
    lab = f"{method} {box} {enum} x0={x0} " + " ".join(f"{k}={v}" for k, v in o.items() if k not in ("ftol",) or v != OFF)
    evals = o["popsize"] * o["maxiter"]
    w = {"na": 3.0, "cmaes": 2.0, "vdcma": 2.0}.get(method, 1.0)
    if enum[0] == "tree":
        n = len(enum[1])
        if len(enum) > 2 and enum[2] is not None:
            leaves = sum(_comb(evals, k) * (n - 1) ** k for k in range(enum[2] + 1))
        else:
            leaves = n ** min(evals, 14)
    elif enum[0] == "lev":
        leaves = sum(_comb(opts["maxiter"], k) * len(enum[2]) ** k for k in range(enum[3] + 1))
    else:
        leaves = sum(_comb(evals, k) * (alts - 1) ** k for k in range(enum[2] + 1))
    return {"label": lab, "method": method, "box": box, "enum": enum, "x0": x0, "opts": o, "alts": alts, "weight": w * leaves * o["maxiter"]}


def _comb(n, k):
    import math

    return math.comb(n, k)


VERB = (1.0, 0.0, 0.5, 0.3)


def optimizer_tasks(tier, methods=tr.OPTIMIZERS, kinds=("order", "ftol", "dev", "long", "wide", "stop", "many", "level")):
    T = []
    thorough = tier == "thorough"
    d2 = 2
    for m in methods:
        if m == "de":
            i = 0
            for strat, pmin in (("best1bin", 3), ("rand1bin", 4), ("best2bin", 5), ("rand2bin", 6)):
                for upd in ("immediate", "deferred"):
                    for cons in (None, "Random"):
                        for rep in range(3 if thorough else 1):
                            j = i + rep
                            o = dict(strategy=strat, updating=upd, constraints=cons, verbosity=VERB[j % 4],
                                     mutation=(0.5, 2.0, 0.8)[j % 3], recombination=(0.9, 0.1, 1.0, 0.0, 0.5)[j % 5])
                            box = ("B2", "B3", "B1")[j % 3]
                            x0 = (None, "in", "corner")[(j // 2) % 3]
                            if "order" in kinds:
                                if pmin <= 3:
                                    T.append(_mk(m, box, ("tree", (2.0, 1.0)), x0, popsize=3, maxiter=3, **o))
                                    T.append(_mk(m, box, ("tree", (2.0, 1.0, 3.0), 4 if thorough else 3), x0, popsize=3, maxiter=4, **o))
                                else:
                                    T.append(_mk(m, box, ("tree", (2.0, 1.0), 5 if thorough else 3), x0, popsize=pmin, maxiter=3, **o))
                            if "ftol" in kinds:
                                T.append(_mk(m, box, ("tree", (2.0, 0.0, 1.0), 3 if thorough else 2), x0, popsize=pmin, maxiter=3, **{**o, "ftol": 0.0, "xtol": (0.0, 1e9, 1.0)[j % 3]}))
                            if "dev" in kinds:
                                T.append(_mk(m, box, ("dev", ("in", "out", "rosen", "low")[j % 4], d2), x0, popsize=pmin, maxiter=4 if thorough else 3, alts=5 if thorough else 4, **o))
                            if "long" in kinds:
                                T.append(_mk(m, box, ("dev", ("out", "in", "rosen")[j % 3], 1), x0, popsize=pmin + 1, maxiter=25 if thorough else 12, **o))
                        i += 1
        elif m in ("pso", "cpso"):
            i = 0
            comps = (None,) if m == "pso" else (1.0, 2.0, 0.5, 0.0)
            for upd in ("immediate", "deferred"):
                for cons in (None, "Shrink"):
                    for comp in comps:
                        for rep in range(3 if thorough else 1):
                            j = i + rep
                            o = dict(updating=upd, constraints=cons, verbosity=VERB[j % 4],
                                     inertia=(0.7298, 1.0, 0.3, 0.0)[j % 4], cognitivity=(1.49618, 4.0, 0.5)[j % 3], sociability=(1.49618, 2.0, 4.0)[j % 3])
                            if m == "cpso":
                                o["competitivity"] = comp
                            box = ("B2", "B3", "B1", "TINY")[j % 4]
                            x0 = (None, "in", "corner")[j % 3]
                            if "order" in kinds:
                                T.append(_mk(m, box, ("tree", (2.0, 1.0)), x0, popsize=3, maxiter=3, **o))
                                T.append(_mk(m, "TINY", ("tree", (2.0, 1.0, 3.0)), None, popsize=2, maxiter=3, **o))
                                T.append(_mk(m, box, ("tree", (2.0, 1.0, 3.0), 4 if thorough else 3), x0, popsize=3, maxiter=4, **o))
                            if "ftol" in kinds:
                                T.append(_mk(m, box, ("tree", (2.0, 0.0, 1.0)), x0, popsize=2, maxiter=3, **{**o, "ftol": 0.0, "xtol": (0.0, 1e9, 1.0)[j % 3]}))
                                T.append(_mk(m, "TINY", ("tree", (2.0, 0.0), 3), None, popsize=4, maxiter=3, **{**o, "ftol": 0.0, "xtol": (1e9, 0.01, 0.0)[j % 3]}))
                            if "dev" in kinds:
                                T.append(_mk(m, box, ("dev", ("in", "out", "rosen", "low")[j % 4], d2), x0, popsize=4, maxiter=4, alts=5 if thorough else 4, **o))
                                T.append(_mk(m, "TINY", ("dev", ("rosen", "in", "out")[j % 3], d2), None, popsize=4, maxiter=4, alts=5 if thorough else 4, **o))
                                T.append(_mk(m, "B3", ("dev", "out", 1), "corner", popsize=5, maxiter=8, **{**o, "inertia": 1.0, "cognitivity": 4.0, "sociability": 4.0}))
                            if "long" in kinds:
                                T.append(_mk(m, box, ("dev", ("out", "in", "rosen")[j % 3], 1), x0, popsize=5, maxiter=40 if thorough else 15, **o))
                                T.append(_mk(m, "TINY", ("dev", ("int", "mixed", "huge", "neg")[j % 4], 1), None, popsize=5, maxiter=20 if thorough else 10, **o))
                        i += 1
        elif m == "na":
            i = 0
            for nr in (0.5, 1.0, 0.34, 0.01):
                for box in ("B2", "B1", "FIX", "B3"):
                    for rep in range(2 if thorough else 1):
                        j = i + rep
                        o = dict(nrperc=nr, verbosity=VERB[j % 4])
                        x0 = (None, "in", "corner")[j % 3]
                        if "order" in kinds:
                            T.append(_mk(m, box, ("tree", (2.0, 1.0), None if thorough else 4), x0, popsize=3, maxiter=3, **o))
                        if "ftol" in kinds:
                            T.append(_mk(m, box, ("tree", (2.0, 0.0, 1.0), 3 if thorough else 2), x0, popsize=3, maxiter=3, **{**o, "ftol": 0.0, "xtol": (0.0, 1e9, 0.3)[j % 3]}))
                        if "dev" in kinds:
                            T.append(_mk(m, box, ("dev", ("in", "out", "rosen", "low")[j % 4], d2 if thorough else 1), x0, popsize=4, maxiter=4, **o))
                        if "long" in kinds and i % 2 == 0:
                            T.append(_mk(m, box, ("dev", "in", 0 if not thorough else 1), x0, popsize=4, maxiter=15, **o))
                        i += 1
        else:
            i = 0
            boxes = ("B2", "B1", "B3") if m == "cmaes" else ("B2", "B6", "B7", "B1")
            for cons in (None, "Penalize"):
                for box in boxes:
                    for sig in (0.1, 0.6):
                        for rep in range(2 if thorough else 1):
                            j = i + rep
                            o = dict(constraints=cons, sigma=sig, muperc=(0.5, 1.0, 0.25)[j % 3], verbosity=VERB[j % 4])
                            x0 = (None, "corner", "in", "low")[j % 4]
                            if "order" in kinds:
                                T.append(_mk(m, box, ("tree", (2.0, 1.0), None if thorough else 4), x0, popsize=3, maxiter=3, **o))
                            if "ftol" in kinds:
                                T.append(_mk(m, box, ("tree", (2.0, 0.0, 1.0), 3 if thorough else 2), x0, popsize=3, maxiter=3, **{**o, "ftol": 0.0, "xtol": (0.0, 1e9, 0.05)[j % 3]}))
                            if "dev" in kinds:
                                T.append(_mk(m, box, ("dev", ("in", "out", "rosen", "low")[j % 4], d2 if thorough else 1), x0, popsize=5, maxiter=5, **o))
                            if "long" in kinds:
                                T.append(_mk(m, box, ("dev", ("out", "in", "low")[j % 3], 1 if thorough else 0), x0, popsize=6, maxiter=30, **o))
                                T.append(_mk(m, box, ("dev", ("int", "mixed", "neg", "low")[j % 4], 1 if thorough else 0), x0, popsize=4, maxiter=12, **{**o, "muperc": (0.1, 0.5)[j % 2]}))
                        i += 1
    if "wide" in kinds:
        for m in methods:
            T += wide_tasks(m, tier)
    if "stop" in kinds:
        for m in methods:
            T += stop_tasks(m, tier)
    if "many" in kinds:
        for m in methods:
            T += many_tasks(m, tier)
    if "level" in kinds:
        for m in methods:
            T += level_tasks(m, tier)
    return T


def _cycle(seq, j):
    return seq[j % len(seq)]


def wide_configs(m, tier):
    """Cross product popsize x maxiter x ndim; the remaining options cycle with coprime periods."""
    thorough = tier == "thorough"
    pops = (2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 21)
    iters = (1, 2, 3, 5, 8, 13) + ((30,) if not thorough else (30, 60))
    boxes = ("B1", "B2", "B3", "B6", "B7", "B10") if not thorough else ("B1", "B2", "B3", "B4", "B6", "B7", "B10")
    out = []
    j = 0
    for box in boxes:
        for p in pops:
            for it in iters:
                if it > 10 and (p > 11 or box == "B10") and m != "cmaes":
                    continue
                if m == "na" and (it > 13 or p > 11 and it > 5):
                    continue
                for rep in range(3 if thorough else 1):
                    j += 1
                    o = dict(popsize=p, maxiter=it, seed=_cycle((0, 3, 12345, 1, 2**31), j), verbosity=_cycle((1.0, 0.0, 0.5, 0.3, 0.99, 0.07, 1.0), j),
                             return_all=_cycle((True, True, False), j), ftol=_cycle((OFF, 0.05, OFF, 1e-8, OFF, 1.0, 0.3, 0.0, OFF, 0.12, 2.0), j),
                             xtol=_cycle((1e-8, 0.1, 1e9, 0.0, 1.0), j))
                    kind = _cycle(("in", "out", "rosen", "low", "lin", "in", "neg", "int", "mixed", "huge", "in", "rosen", "flat"), j)
                    x0 = _cycle((None, "in", "corner"), j // 2)
                    if m == "de":
                        ss = [s for s in ("rand1bin", "best1bin", "best2bin", "rand2bin") if DE_MIN[s] <= p]
                        if not ss:
                            continue
                        o.update(strategy=_cycle(ss, j), updating=_cycle(("immediate", "deferred"), j // 3), constraints=_cycle((None, "Random"), j // 2 + j // 7),
                                 mutation=_cycle((0.5, 2.0, 0.8, 0.0, 1.3), j // 5), recombination=_cycle((0.9, 0.1, 1.0, 0.0, 0.5), j // 4))
                    elif m in ("pso", "cpso"):
                        o.update(updating=_cycle(("immediate", "deferred"), j // 3), constraints=_cycle((None, "Shrink"), j // 2 + j // 7),
                                 inertia=_cycle((0.7298, 1.0, 0.3, 0.0, 0.9), j // 5), cognitivity=_cycle((1.49618, 4.0, 0.5, 0.0), j // 4), sociability=_cycle((1.49618, 2.0, 4.0, 0.0), j // 7))
                        if m == "cpso":
                            o.update(competitivity=_cycle((1.0, 2.0, 0.5, 0.0, None, 1.5), j // 6))
                            if j % 3 == 0 and box in ("B2",):
                                out.append(("TINY", kind, None, dict(o)))
                                continue
                    elif m == "na":
                        o.update(nrperc=_cycle((0.5, 1.0, 0.34, 0.01, 0.8), j // 2))
                        if j % 5 == 0 and box == "B3":
                            out.append(("FIX", kind, x0, dict(o)))
                            continue
                    else:
                        o.update(constraints=_cycle((None, "Penalize"), j // 2 + j // 7), sigma=_cycle((0.1, 0.6, 1.0, 0.3, 3.0), j // 3), muperc=_cycle((0.5, 1.0, 0.25, 0.1, 0.7), j // 4))
                        x0 = _cycle((None, "in", "corner", "low"), j // 2)
                    out.append((box, kind, x0, o))
    return out


def wide_tasks(m, tier):
    cs = wide_configs(m, tier)
    n = 12
    T = []
    for i in range(0, len(cs), n):
        subs = []
        for box, kind, x0, o in cs[i : i + n]:
            subs.append(_mk(m, box, ("dev", kind, 0), x0, **o))
        T.append({"label": f"{m} wide {i}..{i + n - 1} of {len(cs)}", "subs": subs, "method": m, "weight": sum(s["weight"] * s["opts"]["popsize"] * 0.7 for s in subs)})
    return T


def stop_tasks(m, tier):
    """Long single runs that end by one of the less common termination rules."""
    S = []
    thorough = tier == "thorough"
    if m in ("cmaes", "vdcma"):
        n = 500
        for j, (box, kind, p, sig) in enumerate((
            ("B1", "in", 4, 0.1), ("B2", "in", 6, 0.3), ("B3", "rosen", 7, 0.3), ("B2", "flat", 4, 0.1), ("B1", "flat", 3, 0.6), ("B2", "step", 6, 0.2), ("B1", "step", 5, 0.2),
            ("B3", "step", 8, 0.05), ("B2", "lin", 6, 0.02), ("B1", "lin", 5, 0.02), ("B3", "cond", 8, 0.5), ("B6", "in", 9, 0.3), ("B7", "step", 9, 0.3),
            ("B7", "flat", 5, 0.3), ("B10", "flat", 6, 0.3), ("B6", "lin", 9, 0.02),
            ("B2", "in12", 6, 0.3), ("B3", "in12", 7, 0.3), ("B1", "in12", 6, 0.2), ("B2", "in20", 6, 300.0), ("B3", "in20", 7, 400.0), ("B6", "in20", 9, 500.0), ("S6", "q6", 30, 0.3), ("S10", "q4", 40, 0.3), ("S2", "q14", 9, 3.0), ("S3", "q14", 8, 3.0), ("B1", "turn180", 6, 0.3), ("B2", "turn170", 6, 0.3), ("B3", "turn230", 7, 0.2), ("B6", "turn250", 8, 0.3), ("B2", "cond17", 8, 0.3), ("B2", "cond8", 8, 0.3), ("B3", "cond8", 9, 0.3),
        )):
            for cons in (None, "Penalize"):
                S.append(_mk(m, box, ("dev", kind, 0), None if kind[0] == "q" else (None, "in", "corner")[j % 3], popsize=p, seed=1 if kind[0] == "q" else 3, maxiter=n if not (m == "vdcma" and kind == "rosen") else 200, sigma=sig, constraints=cons,
                             verbosity=1.0 if j % 4 else 0.0, **({"ftol": 1e-6, "xtol": 1e-3} if j % 5 == 4 else {"xtol": 0.0})))
                if thorough:
                    S.append(_mk(m, box, ("dev", kind, 0), (None, "in", "corner")[(j + 1) % 3], popsize=p + 3, maxiter=n, sigma=sig * 2, constraints=cons, seed=9, xtol=0.0))
    else:
        for j, (box, kind, p) in enumerate((("B2", "in", 7), ("B1", "in", 6), ("B3", "rosen", 8), ("TINY", "in", 9), ("B2", "flat", 6))):
            for upd in ("immediate", "deferred"):
                if m == "na":
                    if upd == "immediate":
                        continue
                    S.append(_mk(m, box, ("dev", kind, 0), None, popsize=p, maxiter=60, xtol=(1e-2, 1e-8, 1.0)[j % 3], ftol=1e-3))
                else:
                    S.append(_mk(m, box, ("dev", kind, 0), None, popsize=p, maxiter=150, updating=upd, xtol=(1e-2, 1e-8, 1.0)[j % 3], ftol=(1e-3, 1e-6)[j % 2],
                                 **({"mutation": 0.7} if m == "de" else {})))
    if m in ("cmaes", "vdcma"):  # the mean leaves the box for the first time after more generations than the penalty remembers
        for j in range(72 if thorough else 36):
            p = (4, 5, 6, 7, 9)[j % 5]
            g = 14 + (j * 5) % 17
            S.append(_mk(m, ("B1", "B2", "B3")[j % 3], ("dev", f"{'turn' if m == 'vdcma' and j % 2 else 'noise'}{p * g}", 0), (None, "in")[j % 2], popsize=p, seed=3 + j, maxiter=g + 30, sigma=(0.05, 0.1, 0.2)[j // 2 % 3],
                         constraints="Penalize", verbosity=1.0, xtol=0.0, muperc=(0.5, 1.0, 0.3)[j // 3 % 3]))
        for j in range(64 if thorough else 32):  # the mean starts far outside, and goes back and forth there
            p = (6, 24, 60, 11, 120, 36, 9, 200)[j % 8]
            g = 9 if p > 100 else 16
            S.append(_mk(m, ("B2", "B3", "B2", "B6", "I2")[j % 5], ("dev", ("noise1000000", f"noise{p * 6}", "out", "lin")[(j // 2) % 4], 0), ("far", "farlow")[(j // 3) % 2], popsize=p, seed=5 + j, maxiter=g,
                         sigma=(0.02, 0.1, 0.3)[j % 3], constraints="Penalize", verbosity=1.0, xtol=0.0, muperc=(0.5, 1.0, 0.8)[(j // 2) % 3]))
        for j in range(48 if thorough else 16):  # the mean starts far outside, and drifts outwards too
            p = (40, 6, 120, 17)[j % 4]
            S.append(_mk(m, ("B1", "B2", "B3", "B6", "I2")[j % 5], ("dev", f"hush{p * 3}", 0), ("far", "farlow")[(j // 2) % 2], popsize=p, seed=60 + j, maxiter=10,
                         sigma=(0.05, 0.02, 0.1)[j % 3], constraints="Penalize", verbosity=1.0, xtol=0.0, muperc=(0.5, 1.0, 0.8)[(j // 2) % 3]))
    for j, v in enumerate((1.0, -1.0, 0.0, 100.0, -1e8)):
        for par in range(2 if m in ("de", "pso", "cpso") else 1):
            for p, k in ((4, 13), (5, 25)):
                S.append(_mk(m, ("B2", "B1", "B3")[j % 3], ("dev", f"creep{v}@{k}", 0), None, popsize=p, maxiter=12, ftol=v, xtol=(0.0, 1e9)[j % 2], **({"updating": ("immediate", "deferred")[par]} if m in ("de", "pso", "cpso") else {})))
    T = []
    for i in range(0, len(S), 3):
        subs = S[i : i + 3]
        T.append({"label": f"{m} stop {i}..{i + len(subs) - 1}", "subs": subs, "method": m, "weight": sum(s["weight"] for s in subs) * 8})
    return T


def _group(name, m, S, n):
    T = []
    for i in range(0, len(S), n):
        subs = S[i : i + n]
        T.append({"label": f"{m} {name} {i}..{i + len(subs) - 1}", "subs": subs, "method": m, "weight": sum(s["weight"] for s in subs) * 4})
    return T


def many_tasks(m, tier):
    """24 and 48 variables with small populations; objectives of tiny and huge magnitude."""
    thorough = tier == "thorough"
    S = []
    j = 0
    for box in ("N24", "N48"):
        for p in (2, 3, 4, 6, 9, 14) if thorough else (2, 4, 6, 14):
            for kind in ("in", "rosen", "lin"):
                for par in range(2):
                    j += 1
                    if m == "de" and p < 3:
                        continue
                    o = dict(popsize=p, maxiter=(14, 9)[box == "N48"] if m != "na" else 4, verbosity=_cycle((1.0, 0.5, 0.0, 0.3), j), seed=_cycle((3, 7, 0), j))
                    x0 = _cycle((None, "in", "corner"), j // 2)
                    if m == "de":
                        ss = [q for q in ("rand1bin", "best1bin", "best2bin", "rand2bin") if DE_MIN[q] <= p]
                        o.update(strategy=_cycle(ss, j), updating=("immediate", "deferred")[par], constraints=_cycle((None, "Random"), j // 2), recombination=_cycle((0.9, 0.1, 0.5), j))
                    elif m in ("pso", "cpso"):
                        o.update(updating=("immediate", "deferred")[par], constraints=_cycle((None, "Shrink"), j // 2))
                    elif m == "na":
                        if par:
                            continue
                        o.update(nrperc=_cycle((0.5, 1.0, 0.34), j))
                    else:
                        o.update(constraints=(None, "Penalize")[par], sigma=_cycle((0.1, 0.3, 0.6), j), muperc=_cycle((0.5, 1.0, 0.25), j // 2))
                    S.append(_mk(m, box, ("dev", kind, 0), x0, **o))
    j = 0
    for kind in ("tiny14", "tiny17", "tiny100", "tiny300", "in20", "huge"):
        for par in range(2):
            for box in ("B2", "B3"):
                j += 1
                o = dict(popsize=6, maxiter=12, verbosity=_cycle((1.0, 0.0), j))
                if m in ("de", "pso", "cpso"):
                    o.update(updating=("immediate", "deferred")[par])
                elif m != "na":
                    o.update(constraints=(None, "Penalize")[par])
                S.append(_mk(m, box, ("dev", kind, 0), None, **o))
    # crowds: many members, many of them restarted, selected or averaged at once
    j = 0
    for p in (33, 130, 257) if not thorough else (33, 64, 130, 257, 400):
        for box in ("B1", "B3", "N24"):
            if box == "N24" and p > 130:
                continue
            for par in range(2):
                j += 1
                big = p > 150
                o = dict(popsize=p, maxiter=(8, 5)[big] if m != "na" else (9, 5)[big], verbosity=_cycle((1.0, 0.3, 0.0), j), seed=_cycle((3, 7, 0), j))
                kind = _cycle(("in", "lin", "rosen"), j)
                x0 = _cycle((None, None, "in"), j)
                if m == "de":
                    o.update(strategy=_cycle(("rand1bin", "best1bin", "best2bin", "rand2bin"), j), updating=("immediate", "deferred")[par], constraints=_cycle((None, "Random"), j // 2))
                elif m in ("pso", "cpso"):
                    o.update(updating=("immediate", "deferred")[par], constraints=_cycle((None, "Shrink"), j // 2))
                    if m == "cpso":
                        o.update(competitivity=_cycle((1.0, 2.0, 0.6), j))
                elif m == "na":
                    if box != "B1" and p > 33:
                        continue
                    if box == "N24":
                        o["maxiter"] = 3
                    o.update(nrperc=(0.5, 1.0)[par])
                else:
                    o.update(constraints=(None, "Penalize")[par], sigma=_cycle((0.1, 0.4), j), muperc=_cycle((0.5, 1.0, 0.1), j // 2))
                S.append(_mk(m, box, ("dev", kind, 0), x0, **o))
    # marathons: many iterations, with the best models among the oldest or moving on for ever
    j = 0
    for p, it in ((3, 170), (5, 420), (6, 300)) if not thorough else ((3, 170), (5, 420), (6, 300), (8, 1100), (3, 1500)):
        for kind, x0 in (("near", "in"), ("in", None), ("lin", None)):
            for par in range(2):
                j += 1
                if m == "na" and (par or it > 500):
                    continue
                o = dict(popsize=p, maxiter=it if m != "na" else min(it, 150), verbosity=_cycle((1.0, 0.3, 0.0), j), seed=_cycle((3, 7, 0), j))
                if m == "de":
                    ss = [q for q in ("rand1bin", "best1bin", "best2bin", "rand2bin") if DE_MIN[q] <= p]
                    o.update(strategy=_cycle(ss, j), updating=("immediate", "deferred")[par], constraints=_cycle((None, "Random"), j // 2), mutation=_cycle((0.5, 1.0), j))
                elif m in ("pso", "cpso"):
                    o.update(updating=("immediate", "deferred")[par], constraints=_cycle((None, "Shrink"), j // 2))
                elif m == "na":
                    o.update(nrperc=_cycle((1.0, 0.5), j // 2))
                else:
                    o.update(constraints=(None, "Penalize")[par], sigma=_cycle((0.1, 0.4), j))
                # na: in few variables the cells soon are as small as the rounding
                S.append(_mk(m, "B6" if m == "na" else "B2", ("dev", kind, 0), x0, **o))
    # giants: more than 2^7 and 2^8 variables, more than 2^10 members and iterations
    for j, (box, p, it, x0) in enumerate((("N130", 6, 3, None), ("N260", 5, 3, "in"), ("N260", 270, 2, None), ("B2", 1030, 3, None), ("B2", 1100, 2, "in"), ("B1", 4, 1050, None), ("B2", 5, 1030, "in"))):
        if m == "na":
            if it > 1000:
                continue
            p = min(p, 12)
        if it > 1000 and m in ("cmaes", "vdcma"):
            it = 330
        for par in range(2 if m != "na" else 1):
            o = dict(popsize=p, maxiter=it, verbosity=_cycle((1.0, 0.0, 0.4), j), seed=_cycle((3, 7, 0), j))
            if m == "de":
                o.update(strategy=_cycle(("rand1bin", "best1bin"), j), updating=("immediate", "deferred")[par])
            elif m in ("pso", "cpso"):
                o.update(updating=("immediate", "deferred")[par], constraints=_cycle((None, "Shrink"), j))
            elif m != "na":
                o.update(constraints=(None, "Penalize")[par], sigma=_cycle((0.1, 0.4), j))
            S.append(_mk(m, box, ("dev", _cycle(("in", "lin", "rosen"), j), 0), x0, **o))
    if m == "na":
        for p, it, box in ((330, 14, "B2"), (6, 170, "B3"), (1030, 3, "B1"), (40, 30, "B2")) + (((700, 48, "B2"),) if thorough else ()):
            S.append(_mk(m, box, ("dev", "age", 0), None, popsize=p, maxiter=it, nrperc=1.0))
    elif m not in ("cmaes", "vdcma"):
        for j, (p, it) in enumerate(((6, 170), (40, 30), (300, 8))):
            S.append(_mk(m, "B2", ("dev", "age", 0), None, popsize=p, maxiter=it, updating=("immediate", "deferred")[j % 2]))
    return _group("many variables, members and magnitudes", m, S, 2)


def level_tasks(m, tier):
    """The best value of each generation is chosen: windows of the tests on values (CMA-ES, VD-CMA)."""
    if m not in ("cmaes", "vdcma"):
        return []
    thorough = tier == "thorough"
    S = []
    up, down, tick = (1.0, False), (-1.0, True), (1e-6, True)
    for cons in (None, "Penalize"):
        S.append(_mk(m, "B1", ("lev", 0.1, (up, down), 2 if thorough else 1), None, popsize=6, maxiter=40, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B1", ("lev", 0.1, (up, down), 2), None, popsize=15, maxiter=14 if not thorough else 28, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B2", ("lev", 0.1, (up, down, tick), 1), None, popsize=6, maxiter=45, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B3", ("lev", 0.1, (up, down), 1), None, popsize=7, maxiter=50, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B1", ("lev", 0.0, ((4e-12, False), (4e-13, True), (-4e-12, True)), 2), None, popsize=5, maxiter=8, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B2", ("lev", 0.0, ((4e-12, False), (4e-13, True), (3e-10, False)), 1), None, popsize=4, maxiter=40, constraints=cons, xtol=0.0))
        S.append(_mk(m, "B2", ("lev", 1.5e-13, ((4e-12, False), (4e-13, True), (3e-10, False)), 1), None, popsize=4, maxiter=40, constraints=cons, xtol=0.0))
    return [dict(s, label=f"{m} levels {i}: {s['label']}") for i, s in enumerate(S)]


OPT_BOUNDS = (
    "6 optimizers; popsize 2-21 and up to 1100, maxiter 1-500 and up to 1050, ndim 1-48, 130 and 260, asymmetric boxes; objective answers: complete "
    "trees over 2-3 values (small runs) or all departures (new best / tie / worst / inf) from a smooth "
    "function up to the deviation bound of the task label; random stream: one fixed seed per task"
)

ASSUMPTIONS = [
    "objective functions return finite numbers or +inf (NaN is outside of the properties)",
    "the tree of answers is closed by functionality: a point evaluated twice gets the same value",
    "numpy's legacy global generator is the only source of randomness",
]


def base_fun_policy(task):
    f = base_fun(task["enum"][1], BOXES[task["box"]])
    return lambda x, k: f(x)
