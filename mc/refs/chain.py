"""Reference models of the samplers (random-walk Metropolis-Hastings, Hamiltonian Monte Carlo)."""
import math

import numpy as np

from refs.swarm import Ambiguous, Mismatch


def steps(t):
    s = t.opts.get("stepsize", 0.1 if t.method == "mcmc" else 0.01)
    s = np.array([float(s)] * t.ndim) if np.ndim(s) == 0 else np.array([float(a) for a in s])
    return s * 0.5 * (t.hi - t.lo)


def inside(t, x):
    """Feasibility of a proposal; None on a rounding tie with a bound."""
    if t.opts.get("constraints") != "Reject":
        return True
    ok = True
    for a, l, h in zip(x, t.lo, t.hi):
        if 0 < abs(a - l) <= 1e-12 * t.scale or 0 < abs(a - h) <= 1e-12 * t.scale:
            raise Ambiguous("proposal on a bound")
        ok = ok and l <= a <= h
    return ok


def accepted(delta, u):
    """Metropolis rule: accept with probability min(1, exp(-delta))."""
    if math.isnan(delta):
        raise Ambiguous("undefined energy")
    if delta <= 0.0:
        if u >= 1.0 - 1e-12:
            raise Ambiguous("u at one")
        return True
    if delta == math.inf:
        return False
    a = math.exp(-delta) if delta < 745 else 0.0
    if abs(u - a) <= 1e-9 * max(a, 1e-300):
        raise Ambiguous("u at the acceptance probability")
    return u < a


def start(t, rng):
    if t.x0 is not None:
        return np.array([float(a) for a in t.x0])
    return rng.uniform(t.lo, t.hi)


def mcmc(t, rng=None, value=None):
    """Predicted chain: list of (x, f, accepted, proposal or None, feasible)."""
    o = t.opts
    rng = rng or np.random.RandomState(o["seed"])
    n, mx = t.ndim, o["maxiter"]
    s = steps(t)
    block = max(1, int(o.get("perc", 1.0) * n))
    x = start(t, rng)
    f = value(x)
    chain = [(x, f, True, x, True)]
    first = 0
    while len(chain) < mx:
        idx = list(range(first, min(n, first + block)))
        first = first + block if first + block < n else 0
        dz = rng.randn(len(idx))
        y = x.copy()
        for k, j in enumerate(idx):
            y[j] = y[j] + dz[k] * s[j]
        ok = inside(t, y)
        acc = False
        if ok:
            fy = value(y)
            acc = accepted(fy - f, rng.rand())
        if acc:
            x, f = getattr(value, "snap", lambda z: z)(y), fy
        chain.append((x, f, acc, y, ok))
    return chain


def numgrad(value, x, h):
    g = np.empty(len(x))
    for j in range(len(x)):
        a, b = x.copy(), x.copy()
        a[j] += h
        b[j] -= h
        g[j] = (value(a) - value(b)) / (2.0 * h)
    return g


def hmc(t, grad, rng=None, value=None):
    o = t.opts
    rng = rng or np.random.RandomState(o["seed"])
    n, mx, L = t.ndim, o["maxiter"], o.get("nleap", 10)
    s = steps(t)
    x = start(t, rng)
    f = value(x)
    chain = [(x, f, True, x, True)]
    while len(chain) < mx:
        p0 = rng.randn(n)
        q, p = x.copy(), p0.copy()
        # velocity Verlet: L + 1 position updates
        g = grad(q)
        for _ in range(L + 1):
            p = p - 0.5 * s * g
            q = q + s * p
            g = grad(q)
            p = p - 0.5 * s * g
            if not np.abs(q).max() <= 1e3 * t.scale:
                raise Ambiguous("diverging trajectory")
        ok = inside(t, q)
        acc = False
        if ok:
            fq = value(q)
            acc = accepted((fq + 0.5 * float(p @ p)) - (f + 0.5 * float(p0 @ p0)), rng.rand())
        if acc:
            x, f = getattr(value, "snap", lambda z: z)(q), fq
        chain.append((x, f, acc, q, ok))
    return chain
