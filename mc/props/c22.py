"""Benchmark functions: exhaustive grids against the published formulas."""
import itertools
import math
from fractions import Fraction

import numpy as np

BOUNDS = (
    "7 functions; all vectors over value grids (9 values up to dimension 4, 5 up to 6, 3 up to 9; thorough one more dimension each) including domain limits, one coordinate swept over [-1025, 1025], all pairs of magnitudes 2^-30 to 2^11 of both signs, minimizers and their "
    "neighbours, mixed magnitudes up to 1e30, dimensions up to 33000 on structured vectors; 14 array-like forms; exact or correctly summed reference values"
)
ASSUMPTIONS = ["values agree with the formula to 1e-9 relative to the magnitude of its terms"]

E = math.e
NAMES = ("ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang")
ST = -2.903534027771178


def ref(name, x):
    """(value, magnitude of the terms) from the published formula, with exactly rounded sums."""
    x = [float(v) for v in x]
    n = len(x)
    if name == "sphere":
        t = [v * v for v in x]
        return math.fsum(t), math.fsum(t)
    if name == "quartic":
        t = [i * v**4 for i, v in enumerate(x, 1)]
        return math.fsum(t), math.fsum(t)
    if name == "rastrigin":
        t = [10.0 * n] + [v * v for v in x] + [-10.0 * math.cos(2 * math.pi * v) for v in x]
        # cos(2 pi v) is sensitive to the rounding of its argument
        return math.fsum(t), math.fsum(map(abs, t)) + 1e7 * sum(_arg(2 * math.pi * v) for v in x)
    if name == "griewank":
        p, mag = 1.0, 1.0
        for i, v in enumerate(x, 1):
            p *= math.cos(v / math.sqrt(i))
        s = [v * v / 4000.0 for v in x]
        return math.fsum([1.0, -p] + s), 2.0 + math.fsum(s) + 1e6 * sum(_arg(v) for v in x)
    if name == "rosenbrock":
        t = []
        mag = []
        for a, b in zip(x[:-1], x[1:]):
            t += [100.0 * float((Fraction(b) - Fraction(a) ** 2) ** 2) if abs(a) < 1e60 and abs(b) < 1e60 else 100.0 * (b - a * a) ** 2, (1.0 - a) ** 2]
            mag += [100.0 * (abs(b) + a * a) ** 2 * 1e-3 if abs(b - a * a) < 1e-3 * (abs(b) + a * a) else 100.0 * (b - a * a) ** 2, (1.0 - a) ** 2]
        return math.fsum(t), math.fsum(mag) + math.fsum(t)
    if name == "styblinski_tang":
        t = []
        for v in x:
            t += [0.5 * v**4, -8.0 * v * v, 2.5 * v]
        t.append(39.16599 * n)
        return math.fsum(t), math.fsum(map(abs, t))
    if name == "ackley":
        s1 = math.sqrt(math.fsum(v * v for v in x) / n)
        s2 = math.fsum(math.cos(2 * math.pi * v) for v in x) / n
        return 20.0 + E - 20.0 * math.exp(-0.2 * s1) - math.exp(s2), 23.0 + 1e6 * sum(_arg(2 * math.pi * v) for v in x)
    raise KeyError(name)


def _arg(a):
    """Error of cos(a) due to one rounding of its argument (scaled by 1/tolerance elsewhere)."""
    return abs(a) * 2.3e-16


MIN = {"ackley": (0.0, 0.0), "griewank": (0.0, 0.0), "quartic": (0.0, 0.0), "rastrigin": (0.0, 0.0), "rosenbrock": (1.0, 0.0), "sphere": (0.0, 0.0), "styblinski_tang": (ST, 0.0)}

GRID = {
    9: (-5.12, -2.903534, -1.0, -0.25, 0.0, 0.5, 1.0, 2.048, 32.768),
    5: (-3.3, 0.0, 0.3, 1.0, 600.0),
    3: (0.0, 1.0, -2.903534),
}


def forms(x):
    """Every array-like form of the same numbers."""
    a = np.array(x, dtype=float)
    n = len(a)
    yield "list", list(x)
    yield "tuple", tuple(x)
    yield "array", a.copy()
    ro = a.copy()
    ro.setflags(write=False)
    yield "read-only array", ro
    big = np.zeros((n, 3))
    big[:, 1] = a
    yield "strided view", big[:, 1]
    yield "reversed view", a[::-1].copy()[::-1]
    yield "fortran row", np.asfortranarray(np.vstack([a, a]))[0]
    yield "big-endian array", a.astype(">f8")
    yield "object list of np.float64", [np.float64(v) for v in x]
    if np.all(a.astype(np.float32) == a):
        yield "float32", a.astype(np.float32)
    if np.all(a == np.round(a)) and np.all(np.abs(a) < 2**62):
        yield "int list", [int(v) for v in a]
        yield "int64", a.astype(np.int64)
        for dt in (np.int8, np.uint8, np.int16, np.int32, np.uint64):
            i = np.iinfo(dt)
            if np.all(a >= i.min) and np.all(a <= float(i.max) * (1 - 1e-9)):
                yield np.dtype(dt).name, a.astype(dt)


def tasks(tier):
    th = tier == "thorough"
    T = []
    for f in NAMES:
        for nv, dims in ((9, 5 if th else 4), (5, 7 if th else 6), (3, 10 if th else 9)):
            for n in range(1, dims + 1):
                T.append(dict(label=f"{f} grid {nv}^{n}", f=f, nv=nv, n=n, weight=nv**n))
        T.append(dict(label=f"{f} forms", f=f, kind="forms", weight=3000))
        T.append(dict(label=f"{f} one coordinate swept", f=f, kind="line", weight=12000))
        T.append(dict(label=f"{f} pairs of magnitudes", f=f, kind="ladder", weight=20000))
        T.append(dict(label=f"{f} near minimum", f=f, kind="near", weight=3000))
        T.append(dict(label=f"{f} high dimension and magnitude", f=f, kind="high", weight=3000))
    return T


def check(task, st, f, name, x, form, arg, fails):
    before = repr(arg)
    raw = arg.tobytes() if isinstance(arg, np.ndarray) else None
    try:
        v = f(arg)
    except Exception as e:
        return f"{name} on the {form} {x} raised {e!r}"
    st.runs += 1
    st.checked += 1
    st.steps += 1
    if repr(arg) != before or (raw is not None and arg.tobytes() != raw):
        return f"{name} modified its argument ({form} {x})"
    if np.ndim(v) != 0 or isinstance(v, (list, tuple, complex, str)) or not np.isreal(v):
        return f"{name} on the {form} {x} gives {v!r}, not a scalar"
    w, mag = ref(name, x)
    v = float(v)
    if not abs(v - w) <= 1e-9 * max(1.0 if mag < 1e9 else 0.0, mag):
        return f"{name} on the {form} {list(x)[:8]} (dimension {len(x)}) gives {v!r}, the formula {w!r}"
    lowest = MIN[name][1]
    if v < lowest - 2e-4 * len(x) * (name == "styblinski_tang") - 1e-9:
        return f"{name} at {x} is {v!r}, below its global minimum"
    st.outcomes.add(v) if len(st.outcomes) < 1000 else None
    return None


def run(task, st, tier):
    import stochopy.factory as factory

    name = task["f"]
    f = getattr(factory, name)
    kind = task.get("kind", "grid")

    def go(xs, allforms):
        for x in xs:
            for form, arg in forms(x) if allforms else [("array", np.array(x, dtype=float)), ("list", list(x))]:
                bad = check(task, st, f, name, x, form, arg, None)
                if bad:
                    st.violate(bad, {"task": task, "x": list(x), "form": form})
                    return
            st.extra_states += 1

    if kind == "grid":
        go(itertools.product(GRID[task["nv"]], repeat=task["n"]), False)
    elif kind == "forms":
        vals = (0.0, 1.0, -1.0, 2.0, 3.0, 16.0, 100.0, 200.0, 0.5, -2.25)
        go(itertools.product(vals, repeat=1), True)
        go(itertools.product(vals, repeat=2), True)
        go(itertools.product(vals[1:7], repeat=3), True)
        go([(100000.0,), (100000.0, 3.0), (2.0**40, 1.0), (3e9, -3e9), (-0.0, 0.0), (255.0,) * 5, (127.0,) * 3, (60000.0, 2.0)], True)
    elif kind == "line":
        step = 16 if tier == "thorough" else 8
        vals = [i / step for i in range(-40 * step, 40 * step + 1)] + [s * (40 + i * 15.625) for i in range(64) for s in (-1, 1)]
        for n in (1, 2, 3, 4):
            for k in range(n):
                for c in (0.3, 1.0) if n > 1 else (0.0,):
                    go([(c,) * k + (v,) + (c,) * (n - k - 1) for v in vals], False)
    elif kind == "ladder":
        steps = range(-30, 12 if tier == "thorough" else 11, 2 if tier == "thorough" else 3)
        vals = [s * m * 2.0**k for k in steps for m in (1.0, 1.37) for s in (-1, 1)] + [0.0]
        go(((v,) for v in vals), False)
        go(itertools.product(vals, repeat=2), False)
    elif kind == "near":
        x, w = MIN[name]
        for n in range(1, 9):
            p = (x,) * n
            v = f(list(p))
            st.runs += 1
            if abs(v - w) > (2e-4 * n if name == "styblinski_tang" else 1e-12):
                st.violate(f"{name} at its minimizer {p} is {v!r} instead of {w}", {"task": task})
                return
            for d in (1e-8, 1e-4, 0.01, 0.1, 0.5, 1.0):
                go([tuple(x + s * d for s in sg) for sg in itertools.product((-1, 0, 1), repeat=min(n, 5))] if n <= 5 else [tuple(x + (d if i == k else 0) for i in range(n)) for k in range(n)], False)
    else:
        for n in (1, 2, 3, 5, 10, 20, 37, 60, 129, 260, 500, 1030, 4100, 33000):
            xs = [(c,) * n for c in (0.0, 1.0, -1.5, 0.1, 5.0)]
            xs += [tuple(0.1 * i for i in range(n)), tuple((-1) ** i * (i % 7) / 3.0 for i in range(n)), tuple(1.0 if i == n - 1 else 0.0 for i in range(n)), tuple(10.0 ** (i % 5 - 2) for i in range(n))]
            if name in ("sphere", "quartic", "styblinski_tang", "rosenbrock"):
                xs += [(s * c,) * n for c in (1e3, 1e6, 1e10, 1e20, 1e30) for s in (1, -1)]
            go(xs, n <= 20 or n == 260)
    st.sample({"task": task["label"], "evaluations": st.runs})
