"""The first population is a Latin hypercube sample (or x0)."""
import math

import numpy as np

import rng
import runs
import trace as tr
import universe as U
from engine import Divergence, HarnessLimit, explore

BOUNDS = (
    "de, pso, cpso, na: every answer of the generator's permutations for popsize 2-4 (5) and 1-3 variables, every corner answer of its uniforms for popsize 2; all seeds 0..39 (thorough 0..399) "
    "for popsize 2-50 and 1-10 variables x options; popsize up to 2050 and up to 300 variables; joint slice orders over seeds 0..999, pairs of 24 variables over seeds 0..149; x0, inside of the box or not, given as is"
)
ASSUMPTIONS = ["numpy's legacy global generator is the only source of randomness"]

POP = ("de", "pso", "cpso", "na")
PMIN = {"de": 3}
VARIANTS = {
    "de": [{}, dict(updating="deferred", constraints="Random"), dict(strategy="rand1bin", mutation=1.5)],
    "pso": [{}, dict(updating="deferred", constraints="Shrink")],
    "cpso": [{}, dict(updating="deferred", constraints="Shrink", competitivity=2.0), dict(competitivity=None)],
    "na": [{}, dict(nrperc=1.0)],
}


def tasks(tier):
    th = tier == "thorough"
    T = []
    for m in POP:
        for p, n in [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1)] + ([(4, 3), (5, 2), (6, 1)] if th else []):
            if p < PMIN.get(m, 2):
                continue
            for u in ((0, 1, 2) if math.factorial(p) ** n < 2000 else (1,)):
                T.append(dict(kind="orders", m=m, p=p, n=n, u=u, weight=math.factorial(p) ** n))
        p = PMIN.get(m, 2)
        T.append(dict(kind="units", m=m, p=p, n=1, weight=30))
        T.append(dict(kind="units", m=m, p=p, n=2, weight=30 if p == 2 else 800))
        for v in range(len(VARIANTS[m])):
            T.append(dict(kind="seeds", m=m, v=v, seeds=400 if th else 40, weight=3000))
            T.append(dict(kind="x0", m=m, v=v, weight=100))
        T.append(dict(kind="large", m=m, weight=800))
        T.append(dict(kind="pairs", m=m, p=3, n=24, seeds=400 if th else 150, weight=1500))
        T.append(dict(kind="joint", m=m, p=3, n=2, seeds=1000, weight=1000))
        T.append(dict(kind="joint", m=m, p=3, n=1, seeds=300, weight=1000))
    for t in T:
        t["label"] = " ".join(f"{k}={v}" for k, v in t.items() if k != "weight")
    return T


BOX = np.array(U.B10)[:, :]


def first(m, p, n, seed, opts=None, x0=None, maxiter=1, box=None):
    o = dict(maxiter=maxiter, popsize=p, seed=seed, ftol=U.OFF)
    o.update(opts or {})
    if m == "de" and "strategy" in o and p < U.DE_MIN[o["strategy"]]:
        return None
    box = BOX[:n] if box is None else box
    r = runs.record(lambda x: float(x.sum()), lambda obj, cb: tr.so.minimize(obj, box, x0=x0, method=m, options=o, callback=cb))
    return r


def latin(X, p, box):
    """Text of the failure, or the slice order of each variable."""
    X = np.array(X)
    n = len(box)
    if X.shape != (p, n):
        return f"the first population has shape {X.shape}", None
    orders = []
    for j in range(n):
        lo, hi = box[j]
        w = hi - lo
        if w == 0:
            if np.any(X[:, j] != lo):
                return f"fixed variable {j} takes the values {X[:, j]}", None
            continue
        order = np.argsort(X[:, j], kind="stable")
        s = X[order, j]
        k = np.arange(p)
        eps = 1e-12 * max(abs(lo), abs(hi), w)
        if not (np.all(s >= lo + k * w / p - eps) and np.all(s <= lo + (k + 1) * w / p + eps)) or np.any(np.diff(s) <= 0):
            return f"variable {j} with bounds [{lo}, {hi}]: the values {sorted(X[:, j].tolist())} are not one per slice", None
        orders.append(tuple(order.tolist()))
    return None, tuple(orders)


def run(task, st, tier):
    m = task["m"]
    k = task["kind"]

    def fail(what, **kw):
        st.violate(f"{m}: {what}", {"task": task, **kw})

    if k in ("orders", "units"):
        p, n = task["p"], task["n"]
        seen = {}
        eps = 2.0**-53
        perms = None

        def one(ctx):
            if k == "orders":
                cm = rng.controlled(ctx, unit=(0.0, 0.5, 1 - eps), branch=("perm",), fixed=dict(unit=task["u"]))
            else:
                cm = rng.controlled(ctx, unit=(0.5, 0.0, 1 - eps), branch=("unit",))
            with cm as c:
                r = first(m, p, n, 0)
            return r, c

        for ctx, (r, c), new in explore(one):
            runs.cover(st, r)
            st.edges += new
            if isinstance(r.exc, HarnessLimit):
                raise r.exc
            if r.exc is not None:
                fail(f"popsize={p}, {n} variables: raised {r.exc!r}", choices=list(ctx.choices))
                return
            bad, orders = latin(r.xs[:p], p, BOX[:n])
            if bad:
                fail(f"popsize={p}, {n} variables: {bad}", choices=list(ctx.choices))
                return
            seen[orders] = seen.get(orders, 0) + 1
            perms = [e for e in c.log if e[0] == "p"]
        if k == "orders":
            if not perms:
                st.skip("the slice orders are not drawn with permutation()/shuffle()")
                return
            want = math.factorial(p) ** n
            if len(seen) != want or len(set(seen.values())) != 1:
                fail(f"popsize={p}, {n} variables: over all {st.runs} answers of the permutations {len(seen)} of {want} joint slice orders are reached, with frequencies {sorted(set(seen.values()))}")
        st.sample({"task": task["label"], "orders": len(seen)})
    elif k == "seeds":
        v = VARIANTS[m][task["v"]]
        for p in (2, 3, 4, 5, 7, 10, 13, 25, 50):
            if p < PMIN.get(m, 2):
                continue
            for n in (1, 2, 3, 6, 10):
                for s in range(task["seeds"]):
                    if (s + p + n) % 4 and p > 10:
                        continue
                    box = BOX[:n]
                    if s % 5 == 4 and m == "na" and n == 3:
                        box = np.array(U.FIX)
                    if s % 7 == 6:
                        r = None
                        np.random.seed(s)
                        r = first(m, p, n, None, v, box=box)
                    else:
                        r = first(m, p, n, s, v, box=box)
                    if r is None:
                        continue
                    runs.cover(st, r)
                    if r.exc is not None:
                        fail(f"popsize={p}, {n} variables, seed={s}, {v}: raised {r.exc!r}")
                        return
                    bad, _ = latin(r.xs[:p], p, box)
                    if bad:
                        fail(f"popsize={p}, {n} variables, seed={s}, {v}: {bad}")
                        return
        st.sample({"task": task["label"], "populations": st.runs})
    elif k == "large":
        for p, n in ((129, 2), (257, 3), (300, 1), (520, 2), (1030, 2), (2050, 1), (5, 130), (130, 40), (12, 300), (33, 70)):
            box = np.array([[-1.0 - 0.25 * (i % 9), 3.0 + 0.5 * (i % 14)] for i in range(n)])
            for s in range(3):
                r = first(m, p, n, s, box=box)
                runs.cover(st, r)
                if r.exc is not None:
                    fail(f"popsize={p}, {n} variables, seed={s}: raised {r.exc!r}")
                    return
                bad, _ = latin(r.xs[:p], p, box)
                if bad:
                    fail(f"popsize={p}, {n} variables, seed={s}: {bad}")
                    return
        st.sample({"task": task["label"], "populations": st.runs})
    elif k == "pairs":  # many variables: each pair of variables reaches each pair of slice orders
        p, n = task["p"], task["n"]
        box = np.array([[-1.0 - j, 3.0 + 0.5 * j] for j in range(n)])
        seen = {}
        for s in range(task["seeds"]):
            r = first(m, p, n, s, box=box)
            runs.cover(st, r)
            if r.exc is not None:
                fail(f"popsize={p}, {n} variables, seed={s}: raised {r.exc!r}")
                return
            bad, orders = latin(r.xs[:p], p, box)
            if bad:
                fail(f"popsize={p}, {n} variables, seed={s}: {bad}")
                return
            for a in range(n):
                for b in range(a):
                    # where the member of slice 0 of one variable is in the order of the other one
                    seen.setdefault((a, b), set()).add((orders[a][0], orders[b][0]))
        for ab, got in seen.items():
            if len(got) != p * p:
                fail(f"popsize={p}, {n} variables: over {task['seeds']} seeds only {sorted(got)} are reached as members of the lowest slices of variables {ab}")
                return
        st.sample({"task": task["label"], "pairs": len(seen)})
    elif k == "joint":
        p, n = task["p"], task["n"]
        seen = {}
        for s in range(task["seeds"]):
            r = first(m, p, n, s)
            runs.cover(st, r)
            if r.exc is not None:
                fail(f"popsize={p}, {n} variables, seed={s}: raised {r.exc!r}")
                return
            bad, orders = latin(r.xs[:p], p, BOX[:n])
            if bad:
                fail(f"popsize={p}, {n} variables, seed={s}: {bad}")
                return
            seen[orders] = seen.get(orders, 0) + 1
        want = math.factorial(p) ** n
        if len(seen) != want:
            fail(f"popsize={p}, {n} variables: the seeds 0..{task['seeds'] - 1} reach only {len(seen)} of the {want} joint slice orders")
        st.sample({"task": task["label"], "frequencies": sorted(seen.values())})
    else:
        v = VARIANTS[m][task["v"]]
        for box in ("B1", "B2", "B3", "FIX", "B7"):
            if box == "FIX" and m != "na":
                continue
            B = np.array(U.BOXES[box])
            for p in (2, 3, 4, 7, 12):
                if p < PMIN.get(m, 2) or (m == "de" and p < U.DE_MIN[v.get("strategy", "best1bin")]):
                    continue
                for kind in ("in", "corner") + (("out",) if m != "na" else ()):
                    x0 = U.grid_x0(B, p, kind)
                    for mi in (1, 3):
                        r = first(m, p, len(B), 5, v, x0=x0, maxiter=mi, box=B)
                        runs.cover(st, r)
                        if r.exc is not None:
                            fail(f"x0 of shape {x0.shape}, {v}: raised {r.exc!r}")
                            return
                        X = np.array(r.xs[:p])
                        if X.shape != x0.shape or not np.allclose(X, x0, rtol=0, atol=1e-12 * np.abs(B).max()):
                            fail(f"{v}: the first population evaluated is {X.tolist()}, x0 is {x0.tolist()}")
                            return
        st.sample({"task": task["label"], "runs": st.runs})
