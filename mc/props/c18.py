"""HMC: every transition is the leapfrog trajectory followed by the Metropolis test on the total energy."""
import math

import numpy as np

import samplers as S
import trace as tr
import universe as U
from engine import explore
from refs import chain, swarm
from props.c17 import tail
from rng import controlled

BOUNDS = S.BOUNDS + "; acceptance probability of single transitions, by enumerating momenta in {-1.3,0.4,2}^n and 64 cells of the uniform"
ASSUMPTIONS = S.ASSUMPTIONS


def gradient(t, task):
    jac = S.jacobian(task)
    if jac is not None:
        return lambda x: np.asarray(jac(x), dtype=float)
    f = U.base_fun(task["enum"][1], U.BOXES[task["box"]])
    h = t.opts.get("finite_diff_abs_step", 1e-4)
    return lambda x: chain.numgrad(f, x, h)


def rule(t, st, viol, task):
    try:
        ch = chain.hmc(t, gradient(t, task), value=S.lookup(t))
    except swarm.Mismatch as e:
        viol(f"hmc {t.opts}: the rule proposes {e.want}, which the code never evaluated (nearest {e.got})")
        return
    except swarm.Ambiguous as e:
        st.skip(f"stopped comparing where a decision depends on rounding: {e}")
        return
    if len(ch) != len(t.cbs):
        viol(f"hmc: {len(t.cbs)} samples, expected {len(ch)}")
        return
    for k, ((x, f, acc, y, ok), c) in enumerate(zip(ch, t.cbs)):
        if not S.close(c.X, x, max(t.scale, float(np.abs(x).max())), 1e-7):
            viol(f"hmc {t.opts}: sample {k} is {c.X}, the rule gives {x} (proposal {y}, {'accepted' if acc else 'rejected'}, feasible={ok})")
            return


def jac_equiv(t, st, viol, task):
    """With an exact gradient the chain is the one of the finite differences (exact for quadratics)."""
    if task["jac"] != "true":
        return
    o = {k: v for k, v in t.opts.items() if k != "jac"}
    u = tr.run("hmc", t.bounds, o, U.base_fun_policy(task), x0=t.x0)
    bad = tr.crash(u)
    if bad:
        viol(bad)
        return
    st.runs += 1
    a, b = np.array([c.X for c in t.cbs]), np.array([c.X for c in u.cbs])
    if a.shape != b.shape or not np.allclose(a, b, rtol=0, atol=1e-4 * max(t.scale, np.abs(a).max())):
        viol(f"hmc {o}: the chain with the exact jac differs from the finite-difference one: {a[-1]} / {b[-1]}")


def tasks(tier):
    T = S.tasks(tier, ("hmc",))
    for box in ("B1", "S2"):
        for nleap in (1, 3, 8):
            for step in (0.3, 1.0, 1.7):
                for cons in (None, "Reject"):
                    for jac in (None, "true"):
                        T.append(dict(accept=True, box=box, opts=dict(nleap=nleap, stepsize=step, constraints=cons), jac=jac, enum=("dev", "in", 0), label=f"acceptance {box} nleap={nleap} step={step} {cons} jac={jac}", weight=3000))
    T += [dict(tail=True, method="hmc", cons=cons, label=f"extreme decisions {cons}", weight=300) for cons in (None, "Reject")]
    return T


def run(task, st, tier):
    if task.get("tail"):
        return tail(task, st)
    if task.get("accept"):
        return acceptance(task, st)
    S.drive(task, st, [rule, jac_equiv])


def acceptance(task, st):
    K = 64
    units = tuple((k + 0.5) / K for k in range(K))
    moms = (-1.3, 0.4, 2.0)
    box = U.BOXES[task["box"]]
    n = len(box)
    base = U.base_fun(task["enum"][1], box)
    f = lambda x, k: 4.0 * base(x)
    o = dict(task["opts"], maxiter=2)
    j = S.jacobian(task)
    if j is not None:
        o["jac"] = lambda x, *a: 4.0 * j(x)
    b = np.array(box)
    for frac in (0.25, 0.5, 0.95):
        x0 = b[:, 0] + frac * (b[:, 1] - b[:, 0])
        table = {}

        def one(ctx):
            with controlled(ctx, unit=units, normal=moms) as c:
                t = tr.run("hmc", box, o, f, x0=x0, callback=False)
            return t, [v for k, v in c.log if k == "n"], [v for k, v in c.log if k == "u"]

        for ctx, (t, mom, u), new in explore(one):
            st.runs += 1
            st.edges += new
            st.steps += 1
            bad = tr.crash(t)
            if bad or len(mom) != n:
                st.violate(bad or f"hmc drew {len(mom)} momenta for {n} variables", {"task": task, "choices": list(ctx.choices)})
                return
            moved = not np.array_equal(t.res["xall"][0], t.res["xall"][1])
            table.setdefault(tuple(mom), []).append((u, moved, t))
        for mom, rows in table.items():
            t = rows[0][2]
            T = tr.Trace()
            T.method, T.opts, T.x0, T.lo, T.hi, T.scale, T.ndim = "hmc", o, x0, t.lo, t.hi, t.scale, n

            class Fixed:
                def randn(self, k):
                    return np.array(mom)

                def rand(self):
                    return 0.0

            val = lambda x: f(x, 0)
            grad = (lambda x: 4.0 * j(x)) if j is not None else (lambda x: chain.numgrad(val, x, 1e-4))
            try:
                ch = chain.hmc(T, grad, rng=Fixed(), value=val)
            except swarm.Ambiguous:
                st.skip("proposal on a bound")
                continue
            x, fx, acc, y, ok = ch[1]
            got = sum(m for _, m, _ in rows)
            st.state(mom, round(frac, 2), got)
            if np.allclose(y, x0, rtol=0, atol=1e-9):
                continue  # the trajectory returns to its start: acceptance is not observable
            st.checked += 1
            for _, m, tt in rows:
                if m and not S.close(tt.res["xall"][1], y, max(t.scale, np.abs(y).max()), 1e-6):
                    st.violate(f"hmc {o}: from {x0} with momentum {mom} the accepted proposal is {tt.res['xall'][1]}, leapfrog gives {y}", {"task": task, "momentum": mom})
                    return
            if not ok:
                if got:
                    st.violate(f"hmc {o}: infeasible proposal {y} accepted", {"task": task, "momentum": mom})
                    return
                continue
            # total energies along the reference trajectory
            p = reference_momentum(T, grad, x0, np.array(mom))
            dH = (val(y) + 0.5 * float(p @ p)) - (val(x0) + 0.5 * float(np.dot(mom, mom)))
            a = 1.0 if dH <= 0 else math.exp(-dH)
            lo, hi = sum(u < a - 1e-5 for u in units), sum(u < a + 1e-5 for u in units)
            frac_got = sum(1 for u, m, _ in rows if m)
            if len(rows) == 1 and not rows[0][0]:  # accepted without a draw
                continue
            if not lo <= frac_got <= hi:
                st.violate(f"hmc {o}: from {x0} with momentum {mom}, proposal {y} is accepted for {frac_got} of {len(rows)} uniforms; min(1, exp(-dH)) = {a:.6f} entails {lo}..{hi}", {"task": task, "momentum": mom})
                return
            st.outcomes.add((mom, frac_got))


def reference_momentum(T, grad, x0, mom):
    s = chain.steps(T)
    q, p = x0.copy(), mom.copy()
    g = grad(q)
    for _ in range(T.opts["nleap"] + 1):
        p = p - 0.5 * s * g
        q = q + s * p
        g = grad(q)
        p = p - 0.5 * s * g
    return p
