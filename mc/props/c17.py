"""MCMC: every transition is the random-walk Metropolis-Hastings step (exact kernel on a lattice)."""
from fractions import Fraction
import itertools
import math

import numpy as np

import samplers as S
import trace as tr
import universe as U
from engine import explore
from props._rule import conform
from refs import chain, swarm
from rng import controlled

BOUNDS = S.BOUNDS + "; exact transition kernels of 1-3 steps on 1-D and 2-D lattices, by enumerating every random answer (normals {-1,1}, uniforms on 8 or 16 cells)"
ASSUMPTIONS = S.ASSUMPTIONS


def predicted(t):
    return chain.mcmc(t, value=S.lookup(t))


def rule(t, st, viol, task):
    try:
        ch = predicted(t)
    except swarm.Mismatch as e:
        viol(f"mcmc {t.opts}: the rule proposes {e.want}, which the code never evaluated (nearest {e.got})")
        return
    except swarm.Ambiguous as e:
        st.skip(f"stopped comparing where a decision depends on rounding: {e}")
        return
    if len(ch) != len(t.cbs):
        viol(f"mcmc: {len(t.cbs)} samples, expected {len(ch)}")
        return
    for k, ((x, f, acc, y, ok), c) in enumerate(zip(ch, t.cbs)):
        if not S.close(c.X, x, t.scale):
            viol(f"mcmc {t.opts}: sample {k} is {c.X}, the rule gives {x} (proposal {y}, {'accepted' if acc else 'rejected'}, feasible={ok})")
            return


def tasks(tier):
    T = S.tasks(tier, ("mcmc",))
    T += [dict(tail=True, method="mcmc", cons=cons, label=f"extreme decisions {cons}", weight=300) for cons in (None, "Reject")]
    for cons in (None, "Reject"):
        for w in ((6, 8, 4, 8, 2), (8, 8, 1, 8, 8), (1, 2, 4, 8, 16)):
            T.append(dict(kernel="1d", cons=cons, w=w, K=16, steps=1, label=f"kernel 1d {cons} {w}", weight=3000))
            T.append(dict(kernel="1d", cons=cons, w=w, K=8 if max(w) <= 8 else 16, steps=2, label=f"kernel 1d 2 steps {cons} {w}", weight=9000))
        for perc in (1.0, 0.5):
            T.append(dict(kernel="2d", cons=cons, perc=perc, K=8, steps=1 if perc == 1.0 else 2, label=f"kernel 2d {cons} perc={perc}", weight=20000))
        T.append(dict(kernel="3d", cons=cons, perc=0.67, K=4, steps=2, label=f"kernel 3d {cons} perc=0.67", weight=20000))
    return T


def run(task, st, tier):
    if "tail" in task:
        return tail(task, st)
    if "kernel" in task:
        return kernel(task, st)
    S.drive(task, st, [rule])


DIFFS = (-math.inf, -1e5, -1.0, 0.0, 1e-17, 1e-9, 0.5, 7.0, 13.0, 14.5, 20.0, 27.0, 28.5, 36.0, 37.5, 45.0, 700.0, 1e5, 1e300, math.inf)
TAIL = (2.0**-53, 2.0**-40, 2.0**-20, 1e-3, 0.5, 1.0 - 2.0**-53)


def tail(task, st):
    """Single acceptance decisions, for the smallest and largest uniform numbers and all magnitudes of f(proposal) - f(previous)."""
    m, cons = task["method"], task["cons"]
    extra = dict(perc=1.0) if m == "mcmc" else dict(nleap=1, jac=lambda x, *a: np.zeros(len(x)))
    for n, d, base in itertools.product((1, 2), DIFFS, (0.0, 2.0, -64.0)):
        start = [0.0] * n

        def f(x, k):
            return base if not np.any(x) else base + d

        if not np.isfinite(d) and d < 0 or (base + d) - base != d:
            continue

        def one(ctx):
            with controlled(ctx, unit=TAIL, normal=(1.0,)) as c:
                t = tr.run(m, [[-8.0, 8.0]] * n, dict(maxiter=2, stepsize=0.125, constraints=cons, **extra), f, x0=start, callback=False)
            return t, [v for k, v in c.log if k == "u"]

        for ctx, (t, drawn), new in explore(one):
            st.runs += 1
            st.edges += new
            st.steps += 1
            st.checked += 1
            bad = tr.crash(t)
            if not bad and len(drawn) == 1:
                u = drawn[0]
                moved = bool(np.any(np.asarray(t.res["xall"])[1]))
                want = d <= 0 or -d > math.log(u)
                st.outcomes.add((moved, d, u))
                if moved != want:
                    bad = f"{m}: a proposal whose value is {d} higher is {'accepted' if moved else 'rejected'} for the uniform number {u}"
            if bad:
                st.violate(bad, {"task": task, "difference": d, "variables": n, "value of the start": base, "choices": list(ctx.choices)})
                return
        st.state(n, d, base)


def kernel(task, st):
    """Exact distribution of the chain after `steps` steps, compared with the published kernel."""
    K, steps, cons = task["K"], task["steps"], task["cons"]
    n = int(task["kernel"][0])
    if n == 1:
        wt = dict(zip([(-2,), (-1,), (0,), (1,), (2,)], task["w"]))
        states = list(wt)
        blocks = [[0]]
    else:
        states = list(itertools.product((-1, 0, 1), repeat=n))
        wt = {s: (1, 2, 4, 8)[(3 * s[0] + 5 * s[1] + (7 * s[2] if n > 2 else 0)) % 4] for s in states}
        nb = max(1, int(task["perc"] * n))
        blocks = [list(range(a, min(n, a + nb))) for a in range(0, n, nb)]
    R = 2 if n == 1 else 1
    box = [[-float(R), float(R)]] * n
    stepsize = 1.0 / R
    out_w = 4  # weight of the states outside of the box (unconstrained runs)

    def weight(s):
        return wt.get(tuple(s), out_w)

    def f(x, k):
        return -math.log(weight(tuple(int(round(a)) for a in x)))

    units = [(k + 0.5) / K for k in range(K)]

    def step_dist(s, block):
        d = {}
        for signs in itertools.product((-1, 1), repeat=len(block)):
            y = list(s)
            for j, g in zip(block, signs):
                y[j] += g
            y = tuple(y)
            pr = Fraction(1, 2 ** len(block))
            feas = cons != "Reject" or all(-R <= a <= R for a in y)
            a = Fraction(0)
            if feas:
                a = min(Fraction(1), Fraction(weight(y), weight(s)))
            # the grid answers exactly when weight ratios are multiples of 1/K
            cells = sum(1 for u in units if u < a)
            acc = Fraction(cells, K)
            d[y] = d.get(y, 0) + pr * acc
            d[s] = d.get(s, 0) + pr * (1 - acc)
        return {k: v for k, v in d.items() if v}

    flow = {}
    for s0 in states:
        want = {(s0,): Fraction(1)}
        for k in range(steps):
            block = blocks[k % len(blocks)]
            nxt = {}
            for path, pr in want.items():
                for y, q in step_dist(path[-1], block).items():
                    nxt[path + (y,)] = nxt.get(path + (y,), 0) + pr * q
            want = nxt
        got = {}
        total = 0

        def one(ctx):
            with controlled(ctx, unit=tuple(units), normal=(-1.0, 1.0)):
                t = tr.run("mcmc", box, dict(maxiter=steps + 1, stepsize=stepsize, perc=task.get("perc", 1.0), constraints=cons), f, x0=[float(a) for a in s0], callback=False)
            return t

        for ctx, t, new in explore(one):
            st.runs += 1
            st.edges += new
            st.steps += steps
            bad = tr.crash(t)
            if bad:
                st.violate(bad, {"task": task, "start": s0, "choices": list(ctx.choices)})
                return
            path = tuple(tuple(int(round(a)) for a in x) for x in np.asarray(t.res["xall"]))
            pr = Fraction(1)
            for a in ctx.arity:
                pr /= a
            got[path] = got.get(path, 0) + pr
            total += pr
            for s in path:
                st.state(s)
        st.checked += 1
        st.outcomes.add(hash(frozenset(got)))
        if got != want:
            diff = [(p, str(got.get(p, 0)), str(want.get(p, 0))) for p in sorted(set(got) | set(want)) if got.get(p, 0) != want.get(p, 0)]
            st.violate(f"mcmc constraints={cons} perc={task.get('perc', 1.0)}: from state {s0} path probabilities (observed over all random answers, published rule) differ: {diff[:4]}",
                       {"task": task, "start": s0, "difference": [list(map(str, d)) for d in diff[:10]]})
            return
        if steps == 1:
            for path, pr in got.items():
                flow[(s0, path[-1])] = pr
    if steps == 1 and len(blocks) == 1:
        # detailed balance of the observed kernel with respect to exp(-f)
        for (a, b), pr in flow.items():
            if b in wt and Fraction(wt[a]) * pr != Fraction(wt[b]) * flow.get((b, a), 0):
                st.violate(f"mcmc: detailed balance broken between {a} and {b}: {wt[a]}*{pr} != {wt[b]}*{flow.get((b, a), 0)}", {"task": task})
                return
        st.checked += 1
    st.sample({"task": task["label"], "paths from last state": {str(k): str(v) for k, v in list(got.items())[:8]}})
