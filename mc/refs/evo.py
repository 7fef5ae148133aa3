"""Reference models of CMA-ES (Hansen's tutorial) and VD-CMA (Akimoto et al. 2014)."""
import math

import numpy as np

from refs.swarm import Ambiguous, Mismatch


class Model:
    """Feeds recorded values; compares every predicted candidate with the evaluated one."""

    def __init__(self, t):
        self.t = t
        o = t.opts
        self.n, self.p, self.mx = t.ndim, o.get("popsize", 10), o["maxiter"]
        self.sigma0 = o.get("sigma", 0.1)
        self.cons = o.get("constraints")
        self.xtol, self.ftol = o.get("xtol", 1e-8), o.get("ftol", 1e-8)
        self.mid, self.half = 0.5 * (t.hi + t.lo), 0.5 * (t.hi - t.lo)
        self.rng = np.random.RandomState(o["seed"])
        self.k = 0
        self.best = []  # best value of each generation
        # box penalty
        self.w = np.zeros(self.n)
        self.hist = [1.0]
        self.valid = False
        self.ini = True
        self.old_mean = None
        self.soft = None

        self.mu = max(1, int(o.get("muperc", 0.5) * self.p))
        raw = [math.log(self.mu + 0.5) - math.log(i) for i in range(1, self.mu + 1)]
        s = sum(raw)
        self.weights = np.array([r / s for r in raw])
        self.mueff = 1.0 / sum(a * a for a in self.weights)

    def mean0(self):
        x0 = self.t.x0
        if x0 is None:
            return self.rng.uniform(-1.0, 1.0, self.n)
        return (np.asarray(x0, dtype=float) - self.mid) / self.half

    def evaluate(self, pop, mean, sigma, diagC, g, basis=None):
        """Returns clipped population and (penalized) fitness.

        The algorithm determines the eigenvectors up to their signs, and up to a rotation where
        eigenvalues coincide: with `basis` given, a candidate that is not the predicted one is
        compared by its coordinates in the eigenspaces.
        """
        t = self.t
        if self.k + self.p > len(t.xs):
            if self.soft:
                raise Ambiguous(self.soft)
            raise Mismatch(self.k, pop[0], ["no evaluation"])
        clip = (lambda a: np.minimum(np.maximum(a, -1.0), 1.0)) if self.cons == "Penalize" else (lambda a: a)
        clipped = clip(pop)
        f = np.empty(self.p)
        for i in range(self.p):
            got = t.xs[self.k]

            def off(c):
                want = c * self.half + self.mid
                return np.max(np.abs(want - got) / (np.maximum(self.half, np.abs(got)) + np.abs(want)))

            d = off(clipped[i])
            std = (got - self.mid) / self.half
            free = np.abs(std) < 1.0 - 1e-9 if self.cons == "Penalize" else np.ones(self.n, dtype=bool)
            if not d <= 1e-6:
                want = clipped[i] * self.half + self.mid
                if self.soft:
                    raise Ambiguous(self.soft)
                if basis is None or not np.isfinite(std).all():
                    raise Mismatch(self.k, want, got)
                if free.all():
                    if not basis.rotated((std - mean) / sigma, i):
                        raise Mismatch(self.k, want, got)
                    pop[i] = clipped[i] = std
                elif basis.multiple():
                    raise Ambiguous("clipped candidate in a degenerate spectrum")
                elif not basis.signs(lambda y: off(clip(mean + sigma * y)) <= 1e-6, i):
                    if basis.guessed:
                        raise Ambiguous("signs of eigenvectors read off a clipped candidate")
                    raise Mismatch(self.k, want, got)
                # the later candidates are drawn in the same basis
                first = i if not free.all() else i + 1
                pop[first:] = basis.points(mean, sigma)[first:]
                clipped = np.vstack([clipped[:first], clip(pop[first:])])
            elif d > 1e-11:
                # rounding errors grow through near-degenerate spectra: go on from the evaluated point
                pop[i] = np.where(free, std, pop[i])
                clipped[i] = np.where(free, std, clipped[i])
            f[i] = t.vs[self.k]
            self.k += 1
        if self.cons == "Penalize":
            f = f + self.penalty(pop, clipped, f, mean, sigma, diagC, g)
        return clipped, f

    def penalty(self, pop, clipped, f, mean, sigma, diagC, g):
        n = self.n
        q = np.percentile(f, [25.0, 75.0])
        delta = (q[1] - q[0]) / n / (sum(diagC) / n) / sigma**2
        if delta == 0:
            delta = min(h for h in self.hist if h > 0)
        elif not self.valid:
            self.hist = []
            self.valid = True
        if not len(self.hist) < 20 + 3.0 * n / self.p:
            self.hist = self.hist[1:]
        self.hist = self.hist + [delta]
        out = (mean < -1.0) | (mean > 1.0)
        near = np.abs(np.abs(mean) - 1.0) < 1e-9
        if (near & ~((mean == 1.0) | (mean == -1.0))).any():
            raise Ambiguous("mean on the box")
        if self.ini and out.any():
            self.w = np.full(n, 2.0002 * float(np.median(self.hist)))
            if self.valid and g > 2:
                self.ini = False
        if out.any():
            away = mean - np.minimum(np.maximum(mean, -1.0), 1.0)
            drift = mean - self.old_mean if self.old_mean is not None else np.zeros(n)
            for j in range(n):
                lim = 3.0 * max(1.0, math.sqrt(n / self.mueff)) * sigma * math.sqrt(diagC[j])
                if abs(abs(away[j]) - lim) < 1e-9 * lim:
                    raise Ambiguous("decay limit")
                if out[j] and abs(away[j]) > lim:
                    if np.sign(away[j]) == np.sign(drift[j]):
                        self.w = self.w.copy()
                        self.w[j] *= 1.2 ** min(1.0, self.mueff / 10.0 / n)
        logs = [math.log(d) for d in diagC]
        m = sum(logs) / n
        scale = np.array([math.exp(0.9 * (a - m)) for a in logs])
        return ((clipped - pop) ** 2 * (self.w / scale)).sum(axis=1)

    def reported(self, g, clipped, f):
        """What the run says about generation g: the penalized values, and the best of them."""
        t = self.t
        if self.soft or t.res is None:
            return
        tol = 1e-6 * max(float(np.abs(f).max()), 1e-300)
        want = [("callback", t.cbs[g - 1].state["fun"], f.min())] if g <= len(t.cbs) else []
        if "funall" in t.res and g <= len(t.res["funall"]):
            row = np.asarray(t.res["funall"][g - 1], dtype=float)
            if row.shape == f.shape:
                want.append(("funall", row, f))
        for name, got, exp in want:
            if not np.allclose(np.asarray(got, dtype=float), exp, rtol=1e-6, atol=tol, equal_nan=True):
                raise Mismatch(self.k - self.p, f"{name} {np.asarray(exp).tolist()}", f"reported {np.asarray(got).tolist()}")

    def order(self, f, g, clipped):
        idx = np.argsort(f)
        self.reported(g, clipped, f)
        if self.cons == "Penalize":
            s = f[idx]
            d = np.diff(s)
            if ((d != 0) & (d < 1e-9 * np.maximum(1e-300, np.abs(s[1:])))).any():
                self.soft = "near ties"
            ties = np.flatnonzero(d == 0)
            if len(ties) and (self.w > 0).any():
                self.soft = "penalized ties"
        return idx

    def converged(self, g, f, mean, old, sigma, pc, diagC, B=None, D=None):
        """Status after generation g, in the documented order of the tests."""
        n = self.n
        b = f.min()
        self.best.append(b)
        sd = np.sqrt(diagC)
        ilim = int(10.0 + 30.0 * n / self.p)

        def lt(a, c, strict=True):
            a = np.asarray(a, dtype=float)
            if (np.abs(a - c) <= 1e-6 * abs(c)).any():
                raise Ambiguous("threshold")
            return a < c

        if g >= self.mx:
            return -1
        move = float(np.linalg.norm(old - mean))
        if b <= self.ftol:
            if b == self.ftol:
                return 1
            if move != self.xtol and abs(move - self.xtol) <= 1e-6 * self.xtol + 1e-15:
                raise Ambiguous("xtol")
            return 0 if move <= self.xtol else 1
        if B is not None:
            i = g % n
            if lt(np.abs(0.1 * sigma * B[:, i] * D[i]), 1e-10).all():
                return -2
        if lt(0.2 * sigma * sd, 1e-10).any():
            return -3
        if D is not None and lt(-D.max() / D.min(), -1e7).any():
            return -4
        if g >= ilim:
            r = max(self.best[g - ilim : g]) - min(self.best[g - ilim : g])
            if lt(r, 1e-10):
                return -5
        if lt(-sigma * sd, -1e3 * self.sigma0).any():
            return -6
        if g > 2:
            a = list(f) + self.best
            if lt(max(a) - min(a), 1e-12):
                return -7
        if lt(sigma * np.append(np.abs(pc), sd.max()), 1e-11 * self.sigma0).all():
            return -8
        return None

    def finish(self, status, clipped, f, idx, g):
        t = self.t
        if self.k != len(t.xs) and not self.soft:
            raise Mismatch(self.k, [f"no further candidate (status {status})"], t.xs[self.k])
        if self.soft:
            raise Ambiguous(self.soft)
        return status, clipped[idx[0]] * self.half + self.mid, float(f[idx[0]]), g


class Basis:
    """Eigenbasis of the covariance matrix, determined up to signs and rotations in eigenspaces."""

    def __init__(self, B, D):
        self.B, self.D, self.zs = B.copy(), D, None
        n = len(D)
        ev = D * D
        self.spaces = [[0]]
        for j in range(1, n):
            if ev[j] - ev[j - 1] < 1e-7 * ev[-1]:
                self.spaces[-1].append(j)
            else:
                self.spaces.append([j])
        self.guessed = False
        self.seen = set()  # eigenvectors whose sign is known

    def multiple(self):
        return any(len(s) > 1 for s in self.spaces)

    def points(self, mean, sigma):
        return np.array([mean + sigma * (self.B @ (self.D * z)) for z in self.zs])

    def rotated(self, y, i):
        """Whether y is candidate i in an equivalent basis; adopts the signs it shows."""
        z = self.zs[i]
        c = self.B.T @ y / self.D
        tol = 1e-5 * (1.0 + float(np.linalg.norm(z)))
        flip = []
        for s in self.spaces:
            if not abs(float(np.linalg.norm(c[s])) - float(np.linalg.norm(z[s]))) <= tol:
                return False
            if len(s) == 1 and abs(c[s[0]] - z[s[0]]) > tol:
                flip.append(s[0])
        if any(j in self.seen for j in flip):
            return False
        # a sign shown by one candidate holds for all of them
        self.seen |= {s[0] for s in self.spaces if len(s) == 1 and abs(z[s[0]]) > 10 * tol}
        self.B[:, flip] *= -1.0
        return True

    def signs(self, accept, i):
        """Looks for signs of the eigenvectors with which candidate i is accepted."""
        free = [j for j in range(len(self.D)) if j not in self.seen]
        if self.guessed or len(free) > 10:
            return False
        for m in range(2 ** len(free)):
            B = self.B.copy()
            B[:, [j for b, j in enumerate(free) if m >> b & 1]] *= -1.0
            if accept(B @ (self.D * self.zs[i])):
                self.B = B
                self.guessed = True
                return True
        return False


def cmaes(t):
    m = Model(t)
    n, p, mu, w, mueff = m.n, m.p, m.mu, m.weights, m.mueff
    mean = m.mean0()
    sigma = m.sigma0
    cc = (4.0 + mueff / n) / (n + 4.0 + 2.0 * mueff / n)
    cs = (mueff + 2.0) / (n + mueff + 5.0)
    c1 = 2.0 / ((n + 1.3) ** 2 + mueff)
    cmu = min(1.0 - c1, 2.0 * (mueff - 2.0 + 1.0 / mueff) / ((n + 2.0) ** 2 + mueff))
    damp = 1.0 + 2.0 * max(0.0, math.sqrt((mueff - 1.0) / (n + 1.0)) - 1.0) + cs
    chi = math.sqrt(n) * (1.0 - 1.0 / (4.0 * n) + 1.0 / (21.0 * n * n))
    pc, ps = np.zeros(n), np.zeros(n)
    C, B, D, R = np.eye(n), np.eye(n), np.ones(n), np.eye(n)
    last = 0
    g = 0
    basis = None
    while True:
        g += 1
        zs = [m.rng.randn(n) for _ in range(p)]
        if basis is not None:
            basis.zs = zs
            B = basis.B
        pop = np.array([mean + sigma * (B @ (D * z)) for z in zs])
        clipped, f = m.evaluate(pop, mean, sigma, np.diag(C).copy(), g, basis)
        if basis is not None:
            B = basis.B
        idx = m.order(f, g, clipped)
        sel = pop[idx[:mu]]
        old = mean
        m.old_mean = old
        mean = w @ sel
        y = (mean - old) / sigma
        ps = (1.0 - cs) * ps + math.sqrt(cs * (2.0 - cs) * mueff) * (R @ y)
        nps = float(np.linalg.norm(ps))
        lhs, rhs = nps / math.sqrt(1.0 - (1.0 - cs) ** (2.0 * g)) / chi, 1.4 + 2.0 / (n + 1.0)
        if abs(lhs - rhs) < 1e-9:
            raise Ambiguous("hsig")
        h = lhs < rhs
        pc = (1.0 - cc) * pc + (math.sqrt(cc * (2.0 - cc) * mueff) * y if h else 0.0)
        Z = (sel - old) / sigma
        C2 = (1.0 - c1 - cmu) * C + cmu * sum(w[i] * np.outer(Z[i], Z[i]) for i in range(mu)) + c1 * np.outer(pc, pc)
        if not h:
            C2 = C2 + c1 * cc * (2.0 - cc) * C
        C = C2
        sigma = sigma * math.exp((cs / damp) * (nps / chi - 1.0))
        if g * p - last > p / (c1 + cmu) / n / 10.0:
            last = g * p
            C = np.triu(C) + np.triu(C, 1).T
            ev, B = np.linalg.eigh(C)
            o = np.argsort(ev)
            ev, B = ev[o], B[:, o]
            D = np.sqrt(ev)
            if not (ev > 0).all():
                raise Ambiguous("not positive definite")
            R = B @ np.diag(1.0 / D) @ B.T
            basis = Basis(B, D)
        status = m.converged(g, f, mean, old, sigma, pc, np.diag(C).copy(), B, D)
        if status is not None:
            return m.finish(status, clipped, f, idx, g)


def vdcma(t):
    m = Model(t)
    n, p, mu, w, mueff = m.n, m.p, m.mu, m.weights, m.mueff
    mean = m.mean0()
    sigma = m.sigma0
    cc = (4.0 + mueff / n) / (n + 4.0 + 2.0 * mueff / n)
    cf = (n - 5.0) / 6.0
    c1 = cf * 2.0 / ((n + 1.3) ** 2 + mueff)
    cmu = min(1.0 - c1, cf * 2.0 * (mueff - 2.0 + 1.0 / mueff) / ((n + 2.0) ** 2 + mueff))
    d = np.ones(n)
    v = m.rng.normal(0.0, 1.0, n) / math.sqrt(n)
    pc = np.zeros(n)
    s = 0.0
    step = None
    g = 0
    while True:
        g += 1
        v2 = float(v @ v)
        nv = math.sqrt(v2)
        u = v / nv
        uu = u * u
        z = m.rng.randn(p, n)
        y = np.array([d * (z[i] + (math.sqrt(1.0 + v2) - 1.0) * float(z[i] @ u) * u) for i in range(p)])
        if step is not None:
            e = step / d
            maha = float(e @ e) - float(e @ v) ** 2 / (1.0 + v2)
            if not maha > 1e-12 * float(e @ e):
                raise Ambiguous("injection")
            inj = float(np.linalg.norm(m.rng.randn(n))) / math.sqrt(maha) * step
            y[0], y[1] = inj, -inj
        pop = mean + sigma * y
        diagC = d * d * (1.0 + v * v)
        clipped, f = m.evaluate(pop, mean, sigma, diagC, g)
        idx = m.order(f, g, clipped)
        old = mean
        m.old_mean = old
        first = step is None
        step = w @ pop[idx[:mu]] - old
        mean = old + step
        if first:
            h = True
        else:
            r0, r1 = list(idx).index(0), list(idx).index(1)
            s = (1 - 0.3) * s + 0.3 * (r1 - r0) / (p - 1.0)
            sigma = sigma * math.exp(s / math.sqrt(n))
            if abs(s - 0.5) < 1e-9:
                raise Ambiguous("hsig")
            h = s < 0.5
        pc = (1.0 - cc) * pc + (math.sqrt(cc * (2.0 - cc) * mueff) * (w @ y[idx[:mu]]) if h else 0.0)
        gam = 1.0 / math.sqrt(1.0 + v2)
        mx = float(uu.max())
        al = math.sqrt(v2 * v2 + (1.0 + v2) / mx * (2.0 - gam)) / (2.0 + v2)
        if abs(al - 1.0) < 1e-12:
            raise Ambiguous("alpha")
        if al < 1.0:
            be = (4.0 - (2.0 - gam) / mx) / (1.0 + 2.0 / v2) ** 2
        else:
            al, be = 1.0, 0.0
        b = 2.0 * al * al - be
        A = 2.0 - (b + 2.0 * al * al) * uu
        iA = uu / A

        def pq(yy):
            k = float(yy @ u)
            return yy * yy - v2 / (1.0 + v2) * (k * yy * u) - 1.0, k * yy - 0.5 * (k * k + 1.0 + v2) * u

        P, Q = np.zeros(n), np.zeros(n)
        if cmu != 0.0:
            for i in range(mu):
                a, c = pq(y[idx[i]] / d)
                P, Q = P + cmu * w[i] * a, Q + cmu * w[i] * c
        if c1 != 0.0 and h:
            a, c = pq(pc / d)
            P, Q = P + c1 * a, Q + c1 * c
        if abs(cmu + c1) < 1e-15 and cmu + c1 != 0.0:
            raise Ambiguous("cmu+c1")
        if cmu + c1 > 0.0:
            r = P - al / (1.0 + v2) * ((2.0 + v2) * (Q * u) - v2 * float(u @ Q) * uu)
            sv = r / A - b * float(r @ iA) / (1.0 + b * float(uu @ iA)) * iA
            gv = Q / nv - al / nv * ((2.0 + v2) * (u * sv) - float(sv @ uu) * u)
            gd = d * sv
            big = float(np.linalg.norm(gv))
            fac = min([1.0] + ([0.7 * nv / big] if big > 0 else []) + [0.7 * a / abs(c) for a, c in zip(d, gd) if c != 0.0])
            v = v + fac * gv
            d = d + fac * gd
        status = m.converged(g, f, mean, old, sigma, pc, diagC)
        if status is not None:
            return m.finish(status, clipped, f, idx, g)
