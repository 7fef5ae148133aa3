"""NumPy's global generator under the control of the explorer.

While `controlled(ctx, ...)` is active, every draw the code takes from `np.random`
is an environment choice: permutations and integers branch over all values, unit
uniforms over the cells of a grid (mid-points), normals over a given alphabet.
A distribution the harness does not model ends the execution with HarnessLimit.
"""
import contextlib
import itertools
import math

import numpy as np

from engine import HarnessLimit

DRAWS = [
    "beta", "binomial", "bytes", "chisquare", "choice", "dirichlet", "exponential", "f", "gamma", "geometric", "gumbel",
    "hypergeometric", "laplace", "logistic", "lognormal", "logseries", "multinomial", "multivariate_normal", "negative_binomial",
    "noncentral_chisquare", "noncentral_f", "normal", "pareto", "permutation", "poisson", "power", "rand", "randint", "randn",
    "random", "random_integers", "random_sample", "ranf", "rayleigh", "sample", "shuffle", "standard_cauchy", "standard_exponential",
    "standard_gamma", "standard_normal", "standard_t", "triangular", "uniform", "vonmises", "wald", "weibull", "zipf",
    "default_rng", "Generator", "RandomState",
]


def perm_of(n, code):
    """The code-th permutation of range(n); 0 is the identity."""
    items, out = list(range(n)), []
    for k in range(n, 0, -1):
        f = math.factorial(k - 1)
        out.append(items.pop(code // f))
        code %= f
    return out


class Control:
    def __init__(self, ctx, unit=(0.25, 0.75), normal=(-1.0, 1.0), branch=("perm", "int", "unit", "normal"), fixed=None):
        self.ctx, self.unit_alpha, self.normal_alpha = ctx, unit, normal
        self.branch = set(branch)
        self.fixed = fixed or {}
        self.log = []

    def pick(self, kind, n):
        if kind in self.branch:
            return self.ctx.choose(n, kind)
        return self.fixed.get(kind, 0) if n > 1 else 0

    def unit(self, size=None):
        def one():
            v = self.unit_alpha[self.pick("unit", len(self.unit_alpha))]
            self.log.append(("u", v))
            return v

        return self._fill(one, size)

    def norm(self, size=None):
        def one():
            v = self.normal_alpha[self.pick("normal", len(self.normal_alpha))]
            self.log.append(("n", v))
            return v

        return self._fill(one, size)

    @staticmethod
    def _fill(one, size):
        if size is None or size == ():
            return one()
        shape = (size,) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        n = int(np.prod(shape))
        return np.array([one() for _ in range(n)], dtype=float).reshape(shape)

    # --- numpy.random API
    def rand(self, *shape):
        return self.unit(shape if shape else None)

    def random_sample(self, size=None):
        return self.unit(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        u = self.unit(size)
        return low + (np.asarray(high) - np.asarray(low)) * u if np.ndim(u) or np.ndim(low) or np.ndim(high) else float(low + (high - low) * u)

    def randn(self, *shape):
        return self.norm(shape if shape else None)

    def standard_normal(self, size=None):
        return self.norm(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + np.asarray(scale) * self.norm(size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            raise HarnessLimit("randint with array bounds")
        n = int(high) - int(low)

        def one():
            v = int(low) + self.pick("int", n)
            self.log.append(("i", v))
            return v

        if size is None:
            return one()
        return self._fill(one, size).astype(int)

    def permutation(self, x):
        if np.ndim(x) == 0:
            x = np.arange(int(x))
        x = np.asarray(x)
        n = len(x)
        if n > 7:
            raise HarnessLimit("permutation of more than 7 elements")
        p = perm_of(n, self.pick("perm", math.factorial(n)))
        self.log.append(("p", tuple(p)))
        return x[p].copy()

    def shuffle(self, x):
        p = self.permutation(len(x))
        x[:] = np.array(x)[p]

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None:
            raise HarnessLimit("choice with weights")
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if size is None:
            return a[self.randint(len(a))]
        if replace:
            return a[self.randint(len(a), size=size)]
        if np.ndim(size):
            raise HarnessLimit("choice without replacement into an array")
        return self.permutation(a)[: int(size)]

    def seed(self, *a, **k):
        self.log.append(("seed", a))


@contextlib.contextmanager
def controlled(ctx, **kw):
    c = Control(ctx, **kw)
    mod = np.random
    saved = {}
    own = {
        "rand": c.rand, "random": c.random_sample, "random_sample": c.random_sample, "ranf": c.random_sample, "sample": c.random_sample,
        "uniform": c.uniform, "randn": c.randn, "standard_normal": c.standard_normal, "normal": c.normal, "randint": c.randint,
        "permutation": c.permutation, "shuffle": c.shuffle, "choice": c.choice, "seed": c.seed,
    }

    def refuse(name):
        def f(*a, **k):
            raise HarnessLimit(f"np.random.{name} is not modelled")

        return f

    for n in list(own) + [d for d in DRAWS if d not in own]:
        if hasattr(mod, n):
            saved[n] = getattr(mod, n)
            setattr(mod, n, own.get(n) or refuse(n))
    before = mod.get_state()
    try:
        yield c
        after = mod.get_state()
        if before[2:] != after[2:] or not np.array_equal(before[1], after[1]):
            raise HarnessLimit("random numbers were drawn around the controlled generator")
    finally:
        for n, f in saved.items():
            setattr(mod, n, f)
