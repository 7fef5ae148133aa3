"""Front ends, direct functions, defaults; pso as cpso without competition."""
import numpy as np

import runs
import trace as tr
import universe as U
from engine import Ctx, HarnessLimit, explore

BOUNDS = (
    "8 methods x all configurations x x0/args/callback given or not: minimize/sample by name, by position and with options None/{} against the direct function by keyword and by position; every "
    "documented default given and omitted in runs where another value is observable; pso against cpso(competitivity=None) on every execution of pso's answer trees"
)
ASSUMPTIONS = U.ASSUMPTIONS

COMMON = ["fun", "bounds", "x0", "args"]
TAIL = ["workers", "backend", "return_all", "verbosity", "callback"]
ORDER = {
    "de": COMMON + ["maxiter", "popsize", "mutation", "recombination", "strategy", "seed", "xtol", "ftol", "constraints", "updating"] + TAIL,
    "pso": COMMON + ["maxiter", "popsize", "inertia", "cognitivity", "sociability", "seed", "xtol", "ftol", "constraints", "updating"] + TAIL,
    "cpso": COMMON + ["maxiter", "popsize", "inertia", "cognitivity", "sociability", "competitivity", "seed", "xtol", "ftol", "constraints", "updating"] + TAIL,
    "na": COMMON + ["maxiter", "popsize", "nrperc", "seed", "xtol", "ftol"] + TAIL,
    "cmaes": COMMON + ["maxiter", "popsize", "sigma", "muperc", "seed", "xtol", "ftol", "constraints"] + TAIL,
    "vdcma": COMMON + ["maxiter", "popsize", "sigma", "muperc", "seed", "xtol", "ftol", "constraints"] + TAIL,
    "mcmc": COMMON + ["maxiter", "stepsize", "perc", "seed", "constraints", "return_all", "callback"],
    "hmc": COMMON + ["maxiter", "nleap", "stepsize", "seed", "jac", "finite_diff_abs_step", "constraints", "return_all", "callback"],
}
D = dict(x0=None, args=(), maxiter=100, popsize=10, mutation=0.5, recombination=0.9, strategy="best1bin", seed=None, xtol=1e-8, ftol=1e-8, constraints=None, updating="immediate", workers=1, backend=None,
         return_all=False, verbosity=1.0, callback=None, inertia=0.7298, cognitivity=1.49618, sociability=1.49618, competitivity=1.0, nrperc=0.5, sigma=0.1, muperc=0.5)
DEFAULT = {m: {k: D[k] for k in ORDER[m] if k in D} for m in tr.OPTIMIZERS}
DEFAULT["mcmc"] = dict(x0=None, args=(), maxiter=100, stepsize=0.1, perc=1.0, seed=None, constraints=None, return_all=True, callback=None)
DEFAULT["hmc"] = dict(x0=None, args=(), maxiter=100, nleap=10, stepsize=0.01, seed=None, jac=None, finite_diff_abs_step=1e-4, constraints=None, return_all=True, callback=None)

# another value of each option, close to the default, that must make a difference somewhere
OTHER = dict(maxiter=(99, 101), popsize=(9, 11), mutation=(0.5000001,), recombination=(0.85, 0.95), strategy=("rand1bin",), xtol=(0.8e-8, 1.25e-8, 0.0), ftol=(0.98e-8, 1.02e-8, 0.0), updating=("deferred",),
             return_all=(True,), verbosity=(0.9, 0.0), inertia=(0.73,), cognitivity=(1.5,), sociability=(1.5,), competitivity=(0.9, 1.1, None), nrperc=(0.4, 0.6), sigma=(0.1001,), muperc=(0.4, 0.6),
             stepsize=(0.1001,), perc=(0.99,), nleap=(9, 11), finite_diff_abs_step=(1.001e-4,))
OTHER_M = {("mcmc", "return_all"): (False,), ("hmc", "return_all"): (False,), ("hmc", "stepsize"): (0.01001,), ("mcmc", "perc"): (0.99, 0.5)}


def tasks(tier):
    T = []
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        T.append(dict(kind="front", cfg=k, label=f"front ends {m} {o}", weight=50))
    for m in ORDER:
        for k in DEFAULT[m]:
            T.append(dict(kind="default", m=m, opt=k, label=f"{m} default of {k}", weight=1000))
        T.append(dict(kind="all defaults", m=m, label=f"{m} all defaults", weight=1000))
    for t in U.optimizer_tasks(tier, ("pso",)):
        T.append(dict(kind="pso", sub=t, label="pso/cpso " + t["label"], weight=t["weight"]))
    return T


def run(task, st, tier):
    return {"front": fronts, "default": default, "all defaults": all_defaults, "pso": pso}[task["kind"]](task, st, tier)


def fronts(task, st, tier):
    m, box, o = runs.CONFIGS[task["cfg"]]
    B = U.BOXES[box]
    g = U.base_fun("in", B)

    def f(x, *a):
        return g(x) + sum(float(np.sum(v)) for v in a)

    for x0 in (None, "in"):
        for args in ((), (0.5,), (np.array([1.0, 2.0]), 3)):
            for cb in (True, False):
                oo = runs.resolve(m, box, runs.base_options(m, o))
                xv = U.x0_of(dict(method=m, box=box, x0=x0, opts=oo))
                fr, di = runs.front(m), runs.direct(m)
                ref = runs.record(f, lambda ob, c: di(ob, B, x0=xv, args=args, callback=c, **oo), callback=cb)

                def positional(ob, c):
                    full = dict(DEFAULT[m], **oo)
                    full.update(fun=ob, bounds=B, x0=xv, args=args, callback=c)
                    return di(*[full[k] for k in ORDER[m]])

                ways = {
                    "front end, keywords": lambda ob, c: fr(fun=ob, bounds=B, x0=xv, args=args, method=m, options=oo, callback=c),
                    "front end, positions": lambda ob, c: fr(ob, B, xv, args, m, oo, c),
                    "direct function, positions": positional,
                    "direct function, all keywords": lambda ob, c: di(**dict(DEFAULT[m], **oo, **{"fun": ob, "bounds": B}) | dict(x0=xv, args=args, callback=c)),
                    "direct function, keywords reversed": lambda ob, c: di(**dict(reversed(list(dict(oo, fun=ob, bounds=B, x0=xv, args=args, callback=c).items())))),
                }
                if ref.exc is not None:
                    st.violate(f"{m} called directly with {o} raised {ref.exc!r}", {"task": task})
                    return
                for w, call in ways.items():
                    r = runs.record(f, call, callback=cb)
                    runs.cover(st, r)
                    bad = runs.differ(r, ref)
                    if bad is None and type(r.raw) is not type(ref.raw):
                        bad = f"a {type(r.raw).__name__} instead of a {type(ref.raw).__name__}"
                    if bad:
                        st.violate(f"{m} {o} x0={x0} args={args}: {w}: {bad} (compared with the direct function called with keywords)", {"task": task})
                        return
    st.sample({"task": task["label"], "runs": st.runs})


def cases(m, opt=None):
    """(name, objective factory, bounds, seed): runs in which the defaults matter."""
    def smooth(b):
        return lambda: U.base_fun("in", b)

    def plateau(b):
        return lambda: (lambda x: 3.5)

    def lin(b):
        return lambda: U.base_fun("lin", b)

    def countdown(b, start=3e-8, step=0.01e-8):
        def make():
            n = [0]

            def f(x):
                n[0] += 1
                return start - n[0] * step * (1 if m in ("de", "pso", "cpso", "na") else 1)

            return f

        return make

    def drop(b, n0):
        def make():
            n = [0]
            g = U.base_fun("in", b)

            def f(x):
                n[0] += 1
                return 1e12 * g(x) + 1e-7 - (1e13 if n[0] > n0 else 0.0)

            return f

        return make

    out = []
    for s in (0, 1, 2):
        out += [("smooth", smooth(U.B2), U.B2, s), ("linear", lin(U.B3), U.B3, s)]
    out.append(("plateau", plateau(U.B2), U.B2, 4))
    if m in tr.OPTIMIZERS:
        out.append(("rugged", lambda: (lambda x: 2.0 + float(np.abs(np.modf(np.sin(x * 12.9898 + 1.0).sum() * 43758.5453)[0]))), U.B3, 6))
        if opt == "xtol":
            out = []
            for s in range(120):
                w = (2e-8, 3e-8, 5e-8, 8e-8)[s % 4] * (10 if m in ("cmaes", "vdcma") else 1)
                b = [[0.0, w], [0.0, w]]
                if m not in ("na", "cmaes", "vdcma"):
                    out.append(("tiny box", countdown(b, 2e-8, 0.05e-8), b, s))
            if m in ("na", "cmaes", "vdcma"):  # xtol is compared in normalized units there
                for g in range(30, 99, 1 if m != "na" else 3):
                    out.append(("late drop", drop(U.B2 if m != "na" else U.B1, g * 10), U.B2 if m != "na" else U.B1, g % 5))
                if m != "na":
                    for s in range(5, 9):
                        out += [("late drop", drop(U.B2, g * 10), U.B2, s) for g in range(25, 65)]
            return out
        w = 1.5e-8
        for s in range(16):
            out.append(("countdown", countdown(U.B2, 3e-8 + s * 0.001e-8, 0.01e-8 if m != "na" else 0.02e-8), U.B2, s))
            b = [[0.0, w * (1 + s)], [0.0, w]]
            out.append(("tiny box", countdown(b, 2e-8, 0.05e-8), b, s))
    return out


def pair(m, opts, case, seedless=False):
    name, make, b, s = case
    f0 = make()

    def f(x, *a):
        return f0(x) + sum(a)

    o = dict(opts)
    if seedless:
        np.random.seed(s)
    else:
        o["seed"] = s
    return runs.record(f, lambda ob, cb: runs.direct(m)(ob, b, callback=cb, **o))


def default(task, st, tier):
    m, k = task["m"], task["opt"]
    dv = DEFAULT[m][k]
    seen = set()
    others = OTHER_M.get((m, k), OTHER.get(k, ()))
    for case in cases(m, k):
        extra = {}
        if k == "verbosity":
            extra["return_all"] = True
        if m in ("na",) and k not in ("maxiter", "xtol"):
            extra["maxiter"] = 12
        if k == "seed":
            a = pair(m, extra, case, True)
            b = pair(m, dict(extra, seed=None), case, True)
        elif k == "callback":
            name, make, bb, s = case
            a = runs.record(make(), lambda ob, cb: runs.direct(m)(ob, bb, seed=s, **extra), callback=False)
            b = runs.record(make(), lambda ob, cb: runs.direct(m)(ob, bb, seed=s, callback=None, **extra), callback=False)
        elif k == "args":
            a, b = pair(m, extra, case), pair(m, dict(extra, args=()), case)
        else:
            a = pair(m, extra, case)
            b = pair(m, dict(extra, **{k: dv}), case)
        runs.cover(st, a)
        bad = runs.differ(a, b)
        if bad and a.exc is None and b.exc is None:
            # rounding-dependent ends recur only if real
            a = pair(m, extra, case) if k not in ("seed", "callback") else a
            bad = runs.differ(a, b)
        if bad:
            st.violate(f"{m}, {case[0]} (seed {case[3]}): leaving out {k} differs from the documented default {k}={dv!r}: {bad}", {"task": task})
            return
        if a.exc is not None:
            st.violate(f"{m}, {case[0]} (seed {case[3]}), default {k}: raised {a.exc!r}", {"task": task})
            return
        for v in others:
            if v not in seen and runs.differ(pair(m, dict(extra, **{k: v}), case), a):
                seen.add(v)
    for v in others:
        st.count(f"default of {k} told from {v!r}", "yes" if v in seen else "NO", m)
    if isinstance(dv, float):
        import inspect

        par = inspect.signature(runs.direct(m)).parameters.get(k)
        if par is not None and isinstance(par.default, (int, float)) and not isinstance(par.default, bool) and par.default != dv:
            st.violate(f"{m}: the default of {k} is {par.default!r}, documented is {dv!r}", {"task": task})
            return
    if k == "backend" and m in tr.OPTIMIZERS:
        n = [0]

        def f(x):
            n[0] += 1
            return float((x**2).sum())

        for b in ({}, {"backend": "threading"}, {"backend": None}):
            n[0] = 0
            r = runs.direct(m)(f, U.B2, seed=1, maxiter=2, workers=2, ftol=U.OFF, **b)
            if n[0] != r.nfev:
                st.violate(f"{m} with workers=2 and {b or 'no backend'}: {n[0]} of {r.nfev} evaluations ran in threads of this process", {"task": task})
                return
    st.sample({"task": task["label"], "cases": len(cases(m)), "observable against": sorted(map(repr, seen))})


def all_defaults(task, st, tier):
    m = task["m"]
    fr, di = runs.front(m), runs.direct(m)
    other = [x for x in ORDER if x != m and (x in tr.SAMPLERS) == (m in tr.SAMPLERS)]
    for case in cases(m)[:8]:
        name, make, b, s = case
        extra = {"maxiter": 15} if m == "na" else {}
        ways = {
            "all defaults given": lambda ob, cb: di(ob, b, callback=cb, **dict(DEFAULT[m], **extra, seed=s) | {"callback": cb}) if False else di(ob, b, **dict(DEFAULT[m], **extra) | {"callback": cb, "seed": s}),
            "front end, options": lambda ob, cb: fr(ob, b, method=m, options=dict(extra, seed=s), callback=cb),
        }
        if not extra:
            def seeded(opts):
                def call(ob, cb):
                    np.random.seed(s)
                    kw = {} if opts is Ellipsis else {"options": opts}
                    if m in ("de", "mcmc"):
                        return fr(ob, b, callback=cb, **kw)
                    return fr(ob, b, method=m, callback=cb, **kw)

                return call

            ways["front end, no options (default method)"] = seeded(Ellipsis)
            ways["front end, options=None"] = seeded(None)
            ways["front end, options={}"] = seeded({})
        ref = runs.record(make(), lambda ob, cb: di(ob, b, seed=s, callback=cb, **extra))
        if ref.exc is not None:
            st.violate(f"{m}, {name}: raised {ref.exc!r}", {"task": task})
            return
        for w, call in ways.items():
            r = runs.record(make(), call)
            runs.cover(st, r)
            bad = runs.differ(r, ref)
            if bad:
                st.violate(f"{m}, {name}, {w}: {bad} (compared with the direct function with its defaults)", {"task": task})
                return
        for x in other:
            q = runs.record(make(), lambda ob, cb: runs.front(x)(ob, b, method=x, options=dict(extra, seed=s), callback=cb))
            st.count("distinguishable methods", m, x, "yes" if runs.differ(q, ref) else "no")
    st.sample({"task": task["label"]})


def pso(task, st, tier):
    subs = task["sub"].get("subs") or [task["sub"]]
    for sub in subs:
        def one(ctx):
            return U.execute(sub, ctx)

        other = dict(sub, method="cpso", opts=dict(sub["opts"], competitivity=None))
        for ctx, t, new in explore(one, U.bound_of(sub)):
            st.runs += 1
            st.edges += new
            st.steps += len(t.cbs)
            st.checked += 1
            u = U.execute(other, Ctx(tuple(ctx.choices)))
            bad = pairs(t, u)
            for c in t.cbs:
                st.state(c.X, c.state.get("nit"))
            if bad:
                st.violate(f"pso {sub['opts']} compared with cpso, competitivity=None: {bad}", {"task": U.strip(sub), "choices": list(ctx.choices), "trace": t.brief()})
                return


def pairs(t, u):
    for a, n in ((t, "pso"), (u, "cpso")):
        bad = tr.crash(a)
        if bad:
            return bad
    if len(t.xs) != len(u.xs) or not all(runs.same(a, b) for a, b in zip(t.xs, u.xs)):
        k = next((i for i, (a, b) in enumerate(zip(t.xs, u.xs)) if not runs.same(a, b)), min(len(t.xs), len(u.xs)))
        return f"evaluation {k + 1} differs ({len(t.xs)} and {len(u.xs)} evaluations)"
    if len(t.cbs) != len(u.cbs):
        return f"{len(t.cbs)} and {len(u.cbs)} callbacks"
    for i, (a, b) in enumerate(zip(t.cbs, u.cbs), 1):
        if not runs.same(a.X, b.X):
            return f"population {i}: {a.X.tolist()} and {b.X.tolist()}"
        bad = runs.fields(a.state, b.state)
        if bad:
            return f"callback {i}: {bad}"
    return runs.fields(dict(t.res), dict(u.res))
