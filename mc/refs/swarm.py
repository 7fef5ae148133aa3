"""Reference models of DE, PSO/CPSO and NA: plain loops over the published rules.

Each model predicts the next candidate(s) from the candidates and objective values
observed so far, and the numbers drawn from NumPy's (legacy) global stream.
"""
import math

import numpy as np


class Stop(Exception):
    pass


class Replay:
    """Feeds the recorded objective values; checks that the code asked for the predicted point."""

    def __init__(self, xs, vs, scale):
        self.xs, self.vs, self.k, self.scale = xs, vs, 0, scale
        self.worst = 0.0

    def __call__(self, x, tol=1e-9):
        if self.k >= len(self.xs):
            raise Stop()
        y = self.xs[self.k]
        d = float(np.max(np.abs(np.asarray(x) - y) / self.scale))
        if not d <= tol:
            raise Mismatch(self.k, x, y)
        v = self.vs[self.k]
        self.k += 1
        # resynchronize on the observed point: rounding cannot accumulate
        return y.copy(), float(v)


class Mismatch(Exception):
    def __init__(self, k, want, got):
        self.k, self.want, self.got = k, np.array(want), np.array(got)
        super().__init__(f"evaluation {k}: the rule gives {self.want}, the code evaluated {self.got}")


def lhs(rng, p, lo, hi):
    n = len(lo)
    u = rng.uniform(size=(p, n))
    cells = [[-1.0 + 2.0 * k / p + u[k][j] / p for j in range(n)] for k in range(p)]
    pop = np.empty((p, n))
    for j in range(n):
        perm = rng.permutation(p)
        for i in range(p):
            z = cells[perm[i]][j]
            pop[i][j] = z * 0.5 * (hi[j] - lo[j]) + 0.5 * (hi[j] + lo[j])
    return pop


def initial(rng, x0, p, lo, hi):
    return np.array(x0, dtype=float) if x0 is not None else lhs(rng, p, lo, hi)


def argmin(v):
    b = 0
    for i in range(1, len(v)):
        if v[i] < v[b]:
            b = i
    return b


def de(t, sync):
    o = t.opts
    p, n, mx = o["popsize"], t.ndim, o["maxiter"]
    F, CR, strat = o.get("mutation", 0.5), o.get("recombination", 0.9), o.get("strategy", "best1bin")
    cons, ftol, xtol = o.get("constraints"), o.get("ftol", 1e-8), o.get("xtol", 1e-8)
    rng = np.random.RandomState(o["seed"])
    lo, hi = t.lo, t.hi
    ask = Replay(t.xs, t.vs, t.scale)
    X = initial(rng, t.x0, p, lo, hi)
    fit = [0.0] * p
    for i in range(p):
        X[i], fit[i] = ask(X[i])
    b = argmin(fit)
    gx, gf = X[b].copy(), fit[b]
    it = 1
    while it < mx and not (it > 1 and gf <= ftol):
        if it == 1 and gf <= ftol and ask.k == len(t.xs):
            break
        it += 1
        R = rng.rand(p, n)

        def donors(i):
            others = [k for k in range(p) if k != i]
            return rng.permutation(np.array(others))

        def mutant(d):
            if strat == "rand1bin":
                return X[d[0]] + F * (X[d[1]] - X[d[2]])
            if strat == "rand2bin":
                return X[d[0]] + F * (X[d[1]] + X[d[2]] - X[d[3]] - X[d[4]])
            if strat == "best1bin":
                return gx + F * (X[d[0]] - X[d[1]])
            return gx + F * (X[d[0]] + X[d[1]] - X[d[2]] - X[d[3]])

        def cross(i, v, jr):
            return np.array([v[j] if (j == jr or R[i][j] <= CR) else X[i][j] for j in range(n)])

        def fix(u, w):
            if cons is None:
                return u
            return np.array([w[j] if (u[j] < lo[j] or u[j] > hi[j]) else u[j] for j in range(n)])

        if sync:
            V = [mutant(donors(i)) for i in range(p)]
            jr = rng.randint(n, size=p)
            W = rng.uniform(lo, hi, (p, n)) if cons else [None] * p
            U = [fix(cross(i, V[i], jr[i]), W[i]) for i in range(p)]
            new = [ask(u) for u in U]
            for i, (u, f) in enumerate(new):
                if f < fit[i]:
                    X[i], fit[i] = u, f
            b = argmin(fit)
            gx, gf = X[b].copy(), fit[b]
        else:
            for i in range(p):
                v = mutant(donors(i))
                jr = rng.randint(n)
                w = rng.uniform(lo, hi, n) if cons else None
                u, f = ask(fix(cross(i, v, jr), w))
                if f <= fit[i]:
                    X[i], fit[i] = u, f
                    if f <= gf:
                        gx, gf = u.copy(), f
    if ask.k != len(t.xs):
        raise Mismatch(ask.k, ["no further candidate"], t.xs[ask.k])
    return X, fit, gx, gf


def pso(t, sync, gamma):
    o = t.opts
    p, n, mx = o["popsize"], t.ndim, o["maxiter"]
    w, c1, c2 = o.get("inertia", 0.7298), o.get("cognitivity", 1.49618), o.get("sociability", 1.49618)
    cons, ftol = o.get("constraints"), o.get("ftol", 1e-8)
    rng = np.random.RandomState(o["seed"])
    lo, hi = t.lo, t.hi
    ask = Replay(t.xs, t.vs, t.scale)
    X = initial(rng, t.x0, p, lo, hi)
    fit = [0.0] * p
    for i in range(p):
        X[i], fit[i] = ask(X[i])
    V = np.zeros((p, n))
    P, pf = X.copy(), list(fit)
    b = argmin(pf)
    gx, gf = P[b].copy(), pf[b]
    it = 1

    def move(i, r1, r2):
        v = [w * V[i][j] + c1 * r1[j] * (P[i][j] - X[i][j]) + c2 * r2[j] * (gx[j] - X[i][j]) for j in range(n)]
        if cons == "Shrink":
            beta = 1.0
            for j in range(n):
                if v[j] == 0.0:
                    continue
                if X[i][j] + v[j] < lo[j]:
                    beta = min(beta, (lo[j] - X[i][j]) / v[j])
                elif X[i][j] + v[j] > hi[j]:
                    beta = min(beta, (hi[j] - X[i][j]) / v[j])
            v = [beta * a for a in v]
        x = [X[i][j] + v[j] for j in range(n)]
        if cons == "Shrink":
            x = [min(max(a, l), h) for a, l, h in zip(x, lo, hi)]
        return np.array(x), np.array(v)

    restarts = 0
    while it < mx and not (it > 1 and gf <= ftol):
        if it == 1 and gf <= ftol and ask.k == len(t.xs):
            break
        it += 1
        R1, R2 = rng.rand(p, n), rng.rand(p, n)
        if sync:
            new = [move(i, R1[i], R2[i]) for i in range(p)]
            for i in range(p):
                V[i] = new[i][1]
                X[i], fit[i] = ask(new[i][0])
            for i in range(p):
                if fit[i] < pf[i]:
                    P[i], pf[i] = X[i].copy(), fit[i]
            b = argmin(pf)
            gx, gf = P[b].copy(), pf[b]
        else:
            for i in range(p):
                x, V[i] = move(i, R1[i], R2[i])
                X[i], fit[i] = ask(x)
                if fit[i] <= pf[i]:
                    P[i], pf[i] = X[i].copy(), fit[i]
                    if fit[i] <= gf:
                        gx, gf = X[i].copy(), fit[i]
        if it >= mx or gf <= ftol:
            break
        if gamma:
            radius = max(math.sqrt(sum((a - b) ** 2 for a, b in zip(X[i], gx))) for i in range(p)) / math.sqrt(4.0 * n)
            delta = math.log(1.0 + 0.003 * p) / max(0.2, math.log(0.01 * mx))
            if abs(radius - delta) <= 1e-12 * delta:
                raise Ambiguous()
            if radius < delta:
                z = (p - 1.0) / (1.0 + math.exp(1.0 / 0.09 * (it / mx - gamma + 0.5)))
                if abs(z - round(z)) < 1e-9 and z > 0.5:
                    raise Ambiguous()
                nw = int(z)
                if nw > 0:
                    restarts += 1
                    order = np.array(pf).argsort()  # ties: numpy's order
                    worst = order[: -nw - 1 : -1]
                    vals = sorted(pf)
                    Y = rng.uniform(lo, hi, (nw, n))
                    for k, i in enumerate(worst):
                        V[i] = 0.0
                        X[i] = Y[k]
                        P[i] = Y[k]
                        pf[i] = math.inf
    if ask.k != len(t.xs):
        raise Mismatch(ask.k, ["no further candidate"], t.xs[ask.k])
    return X, fit, gx, gf, restarts


class Ambiguous(Exception):
    """A decision depends on rounding: the execution is not compared further."""


def na(t):
    """Gibbs walk in the Voronoi cells (normalized space)."""
    o = t.opts
    p, n, mx = o["popsize"], t.ndim, o["maxiter"]
    ftol = o.get("ftol", 1e-8)
    nr = max(1, int(o.get("nrperc", 0.5) * p))
    rng = np.random.RandomState(o["seed"])
    lo, hi = t.lo, t.hi
    span = hi - lo
    free = [span[j] > 0 for j in range(n)]

    def norm(x):
        return np.array([(x[j] - lo[j]) / span[j] if free[j] else 0.0 for j in range(n)])

    def unnorm(z):
        return np.array([z[j] * span[j] + lo[j] if free[j] else hi[j] for j in range(n)])

    ask = Replay(t.xs, t.vs, t.scale)
    X = initial(rng, t.x0, p, lo, hi)
    fit = [0.0] * p
    Z = []
    for i in range(p):
        x, fit[i] = ask(unnorm(norm(X[i])))
        Z.append(norm(x))
    gf = min(fit)
    A, AF = [z.copy() for z in Z], list(fit)  # all models, newest generation first
    it = 1
    while it < mx and not (it > 1 and gf <= ftol):
        if it == 1 and gf <= ftol and ask.k == len(t.xs):
            break
        it += 1
        order = np.array(AF).argsort()[:nr]
        if len(set(AF)) < len(AF):
            srt = sorted(AF)
            if len(srt) > nr and srt[nr - 1] == srt[nr] or len(set(srt[:nr])) < nr:
                pass  # ties: numpy's order
        gen, tols = [], []
        L = [a.tolist() for a in A]
        for i in range(p):
            tol = 1e-9
            k = order[i % nr]
            c = L[k]
            z = list(c)
            others = L[:k] + L[k + 1 :]
            for j in range(n):
                if not free[j]:
                    continue
                low, high = 0.0, 1.0
                dlow = dhigh = 1.0
                rest = [m for m in range(n) if m != j and free[m]]
                # points at equal distance of c and u along axis j through z
                dk = sum([(z[m] - c[m]) ** 2 for m in rest])
                for u in others:
                    den = 2.0 * (u[j] - c[j])
                    du = sum([(z[m] - u[m]) ** 2 for m in rest])
                    num = u[j] ** 2 - c[j] ** 2 + du - dk
                    if abs(den) < 1e-9:
                        if den != 0.0 or abs(num) < 1e-12:
                            if abs(den) > 0 or any(u[m] != c[m] for m in range(n)):
                                if abs(num) < 1e-7:
                                    raise Ambiguous()
                        continue
                    b = num / den
                    if abs(b - z[j]) < 1e-9:
                        raise Ambiguous()
                    if b <= z[j]:
                        if b > low:
                            low, dlow = b, abs(den)
                    elif b < high:
                        high, dhigh = b, abs(den)
                # rounding of a boundary between two models that are close along this axis
                tol = max(tol, 1e-14 * n / min(dlow, dhigh))
                z[j] = rng.uniform(low, high)
            gen.append(np.array(z))
            tols.append(tol)
        newz, newf = [], []
        for z, tol in zip(gen, tols):
            x, f = ask(unnorm(z), tol)
            newz.append(norm(x))
            newf.append(f)
        A, AF = newz + A, newf + AF
        gf = min(gf, min(newf))
    if ask.k != len(t.xs):
        raise Mismatch(ask.k, ["no further candidate"], t.xs[ask.k])
    return A, AF
