"""Arguments are left alone, and only the numbers in them matter."""
import copy
import itertools

import numpy as np

import runs
import trace as tr
import universe as U

BOUNDS = (
    "31 configurations of 8 methods x every container form (list, tuple, lists of arrays, C/Fortran/strided/reversed/read-only float and integer arrays) of bounds, x0, stepsize and args, "
    "alone and in pairs; x0 inside, at the bounds and outside; a read-only or shared object is passed wherever possible and compared bit by bit afterwards; "
    "arrays of 12 number types whose range or precision is exhausted; every option as every equal Python or NumPy scalar, 0-d array, string of another type, alone and together"
)
ASSUMPTIONS = ["the containers hold exactly the same numbers"]

IBOX = {"I1": [[0, 1]], "I2": [[0, 1], [0, 1]], "S1": [[-1, 1]], "S2": [[-1, 1], [-1, 1]], "B1": [[-2, 6]], "B2": [[-1, 3], [2, 10]], "B3": [[-1, 3], [2, 10], [-8, -6]], "TINY": [[-1, 1], [-2, 0]], "FIX": [[-1, 3], [4, 4], [2, 10]], "B7": [[-1, 3], [2, 10], [-8, -6], [0, 1], [-3, 3], [5, 9], [-1, 2]]}


def forms(a, kind="float"):
    """All containers of the numbers in the (1- or 2-dimensional) array a."""
    a = np.array(a, dtype=float)
    two = a.ndim == 2
    yield "list", a.tolist()
    yield "tuple", tuple(map(tuple, a.tolist())) if two else tuple(a.tolist())
    if two:
        yield "list of tuples", [tuple(r) for r in a.tolist()]
        yield "list of arrays", [np.array(r) for r in a]
        yield "fortran", np.asfortranarray(a)
        b = np.zeros((a.shape[0] * 2, a.shape[1] + 2))
        b[::2, 1:-1] = a
        yield "strided view", b[::2, 1:-1]
        yield "transposed view", np.ascontiguousarray(a.T).T
    else:
        b = np.zeros((len(a), 3))
        b[:, 1] = a
        yield "column view", b[:, 1]
    yield "reversed view", a[::-1].copy()[::-1]
    yield "array", a.copy()
    r = a.copy()
    r.setflags(write=False)
    yield "read-only", r
    yield "list of np.float64", [[np.float64(v) for v in r] for r in a] if two else [np.float64(v) for v in a]
    if np.all(a == np.round(a)):
        i = a.astype(np.int64)
        yield "int list", i.tolist()
        yield "int64", i
        yield "int32", i.astype(np.int32)
        r = i.copy()
        r.setflags(write=False)
        yield "read-only int64", r
        yield "int tuple", tuple(map(tuple, i.tolist())) if two else tuple(i.tolist())


def frozen(v):
    """A comparable image of everything reachable from an argument."""
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.tobytes(), frozen(v.base) if isinstance(v.base, np.ndarray) else None)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(frozen(i) for i in v))
    if isinstance(v, dict):
        return ("d", tuple((k, id(x) if callable(x) else frozen(x)) for k, x in v.items()))
    return (type(v).__name__, repr(v))


def x0s(m, box, o):
    """None and integer-valued initial guesses inside, at the edge of, and outside of the box."""
    b = np.array(box, dtype=float)
    n = len(b)
    out = [None]
    mid = np.round(b.mean(axis=1))
    if m in ("de", "pso", "cpso", "na"):
        p = o["popsize"]
        g = np.array([[np.clip(mid[j] + ((i * (j + 2)) % 5 - 2), b[j, 0], b[j, 1]) for j in range(n)] for i in range(p)])
        out.append(g)
        if m != "na":
            g2 = g.copy()
            g2[0] = b[:, 1] + 2.0
            g2[-1] = b[:, 0] - 3.0
            out.append(g2)
    else:
        out += [mid, b[:, 1].copy()]
    return out


ARGS = [(), (2.0,), (np.array([1.0, 2.0]), {"k": [1, 2]}, "s")]


def tasks(tier):
    T = []
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        for x in range(3 if m not in ("na",) else 2):
            T.append(dict(label=f"{m} {o} x0 #{x}", cfg=k, x=x, weight=o["maxiter"] * o.get("popsize", 3)))
        T.append(dict(label=f"{m} {o} types of the options", cfg=k, kind="options", x=0, weight=20))
        T.append(dict(label=f"{m} {o} narrow and wide number types", cfg=k, kind="numbers", x=0, weight=20))
    return T


def fun_of(box):
    b = np.array(box, dtype=float)
    c = b[:, 0] + 0.3 * (b[:, 1] - b[:, 0])

    def f(x, *a):
        s = float(a[0].sum()) if a and isinstance(a[0], np.ndarray) else float(a[0]) if a else 0.0
        return float(((x - c) ** 2 * np.arange(1, len(b) + 1)).sum()) + s

    return f


class Name(str):
    """A string of another type, never the same object as a literal."""


def retyped(v):
    """The same option value, as every other type a user may have at hand."""
    if isinstance(v, bool):
        return [("np.bool_", np.bool_(v)), ("int", int(v)), ("np.int64", np.int64(v))]
    if isinstance(v, int):
        return [("np.int64", np.int64(v)), ("np.int32", np.int32(v)), ("np.int16", np.int16(v)), ("np.uint64 in Python form", int(np.uint64(v)))]
    if isinstance(v, float):
        out = [("np.float64", np.float64(v)), ("0-d array", np.array(v)), ("np.longdouble", np.longdouble(v))]
        if float(np.float32(v)) == v:
            out.append(("np.float32", np.float32(v)))
        if abs(v) < 1e6 and v == int(v):
            out += [("int", int(v)), ("np.int64", np.int64(v))]
        return out
    if isinstance(v, str):
        return [("a copy", "".join(list(v))), ("np.str_", np.str_(v)), ("a subclass", Name(v))]
    return []


MORE = dict(
    de=[dict(mutation=1.0, recombination=1.0, xtol=0.25), dict(mutation=0.25, recombination=0.0, verbosity=0.5, workers=1)],
    pso=[dict(inertia=0.5, cognitivity=2.0, sociability=1.0), dict(xtol=0.25, verbosity=0.5, workers=1)],
    cpso=[dict(inertia=0.5, cognitivity=2.0, sociability=1.0), dict(xtol=0.25, competitivity=1.5, verbosity=0.0, workers=0)],
    na=[dict(nrperc=0.5, xtol=0.25), dict(verbosity=0.5, workers=1)],
    cmaes=[dict(sigma=0.5, muperc=0.5, xtol=1e-9), dict(sigma=1.0, verbosity=0.0, workers=1)],
    vdcma=[dict(sigma=0.5, muperc=0.5, xtol=1e-9), dict(sigma=1.0, verbosity=0.5, workers=1)],
    mcmc=[dict(perc=0.5), dict(perc=1.0)],
    hmc=[dict(finite_diff_abs_step=0.125), dict(nleap=2)],
)
FTOL = (0.5, 2.0)


def options(task, st, tier):
    """Equal option values of other types, one at a time, all at once, and in another kind of dictionary."""
    import collections

    m, bx, o = runs.CONFIGS[task["cfg"]]
    box = IBOX[bx]
    f = fun_of(box)
    for more in [{}] + MORE[m] + ([dict(ftol=t) for t in FTOL] if m in tr.OPTIMIZERS else []):
        base = dict(runs.resolve(m, bx, runs.base_options(m, o)), **more)
        cases = [("plain", base), ("OrderedDict", collections.OrderedDict(base)), ("reversed order", dict(reversed(list(base.items()))))]
        most = {}
        for k, v in base.items():
            for n, w in retyped(v):
                cases.append((f"{k} as {n}", dict(base, **{k: w})))
                most.setdefault(n, {})[k] = w
        cases += [(f"everything possible as {n}", dict(base, **d)) for n, d in most.items()]
        ref = None
        for label, oo in cases:
            for name in (m, Name(m)) if label == "plain" else (m,):
                before = frozen(dict(oo))
                r = runs.record(f, lambda obj, cb: runs.front(m)(obj, box, method=name, options=oo, callback=cb))
                runs.cover(st, r)
                bad = f"raised {r.exc!r}" if r.exc is not None else None
                if not bad and frozen(dict(oo)) != before:
                    bad = "the value of an option was modified by the run"
                if not bad:
                    ref = ref or r
                    bad = runs.differ(r, ref)
                if bad:
                    st.violate(f"{m} {base} with {label}: {bad}", {"task": task, "case": label})
                    return
    st.sample({"task": task["label"], "runs": st.runs})


# Boxes whose numbers fit in a type while the numbers computed from them need not.
WIDE = {
    np.int8: [[-100, 100], [-128, 127], [1, 120]],
    np.uint8: [[10, 250], [0, 255], [3, 7]],
    np.int16: [[-32768, 32767], [0, 1000], [-30000, 30000]],
    np.uint16: [[2, 65535], [40000, 40001], [3, 7]],
    np.int32: [[-(2 ** 31), 2 ** 31 - 1], [0, 4], [-(2 ** 31), 5]],
    np.uint32: [[1, 2 ** 32 - 1], [5, 6], [0, 2 ** 31]],
    np.uint64: [[1, 2 ** 40], [5, 6], [0, 3]],
    np.float16: [[-0.1, 2.7], [0.3, 9.9], [-60000.0, 60000.0]],
    np.float32: [[-0.1, 2.7], [0.3, 9.9], [-1e-3, 1e7]],
    np.longdouble: [[-0.1, 2.7], [0.3, 9.9], [-1e-3, 1e7]],
    object: [[-0.1, 2.7], [0.3, 9.9], [-1e-3, 1e7]],
    bool: [[0, 1], [0, 1], [0, 1]],
}
PLACES = (0.3, 0.6, 0.1, 0.9, 0.5, 0.0, 1.0, 0.25)


def numbers(task, st, tier):
    """Arrays of every number type against the same numbers as floats."""
    m, bx, o = runs.CONFIGS[task["cfg"]]
    n = len(IBOX[bx])
    o = runs.resolve(m, bx, runs.base_options(m, o))
    for typ, rows in WIDE.items():
        B = np.array([rows[j % 3] for j in range(n)]).astype(typ)
        F = B.astype(float)
        f = fun_of(F)
        lo, hi = F[:, 0], F[:, 1]
        if m in ("de", "pso", "cpso", "na"):
            p = np.array([[PLACES[(i * 3 + j) % 8] for j in range(n)] for i in range(o["popsize"])])
        else:
            p = np.array([PLACES[j % 8] for j in range(n)])
        X = lo + p * (hi - lo)
        if np.issubdtype(typ, np.integer):
            X = np.clip(np.round(X), lo, hi)
        elif typ is bool:
            X = np.round(X)
        X = X.astype(typ)
        XF = np.clip(X.astype(float), lo, hi)
        X = XF.astype(typ)
        # a user's step of the same type
        variants = [{}]
        if m in tr.SAMPLERS:
            S = np.array([0.25, 0.5, 0.75]).astype(typ if typ in (np.float16, np.float32, np.longdouble) else np.float32)[np.arange(n) % 3]
            variants = [{}, dict(stepsize=(S, S.astype(float)))]
        for v in variants:
            oo = [dict(o, **{k: t[i] for k, t in v.items()}) for i in (0, 1)]
            for x, xf, b in ((None, None, B), (X, XF, B), (X, XF, F), (XF, XF, B)):
                got = []
                for bb, xx, op in ((b, x, oo[0]), (F, xf, oo[1])):
                    op = dict(op)
                    if m == "hmc" and "jac" in op:
                        op["jac"] = lambda z, *a: 0.05 * (z - F.mean(axis=1)) / (hi - lo) ** 2
                    passed = dict(bounds=bb, x0=xx, options=op)
                    before = frozen(passed)
                    r = runs.record(f, lambda obj, cb: runs.front(m)(obj, bb, x0=xx, method=m, options=op, callback=cb))
                    runs.cover(st, r)
                    bad = f"raised {r.exc!r}" if r.exc is not None else "an argument was modified by the run" if frozen(passed) != before else None
                    bad = bad or next((f"an evaluated point has the type {p.dtype}" for p in r.xs if getattr(p, "dtype", None) != np.float64), None)
                    bad = bad or (f"the solution has the type {np.asarray(r.res['x']).dtype}" if np.asarray(r.res["x"]).dtype != np.float64 else None)
                    got.append(r)
                    if bad:
                        break
                bad = bad or runs.differ(*got)
                if bad:
                    st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} with bounds {getattr(b, 'dtype', None)} {b.tolist()}, x0 {getattr(x, 'dtype', None)}: {bad} (compared with floats)", {"task": task})
                    return
    st.sample({"task": task["label"], "runs": st.runs})


def run(task, st, tier):
    if task.get("kind") == "numbers":
        return numbers(task, st, tier)
    if task.get("kind") == "options":
        return options(task, st, tier)
    m, bx, o = runs.CONFIGS[task["cfg"]]
    th = tier == "thorough"
    box = IBOX[bx]
    o = runs.resolve(m, bx, runs.base_options(m, o))
    x0 = x0s(m, box, o)[task["x"]]
    f = fun_of(box)
    step = o.get("stepsize")
    steps = [("as is", step)]
    if m in tr.SAMPLERS:
        n = len(box)
        num = [1.0 + j % 2 for j in range(n)]
        steps = [("as is", step)] + list(forms(num)) + [("scalar int", 1), ("scalar", 1.0), ("0-d", np.array(1.0)), ("np.float64", np.float64(1.0))]
    refs = {}

    def go(label, bounds, x, stp, args, front=True):
        oo = dict(o)
        if stp is not None:
            oo["stepsize"] = stp
        if m == "hmc" and "jac" in oo:
            j = oo["jac"]
            oo["jac"] = lambda z, *a: 0.05 * (z - np.array(box, dtype=float).mean(axis=1))
        passed = dict(bounds=bounds, x0=x, args=args, options=oo)
        before = frozen(passed)
        if front:
            call = lambda obj, cb: runs.front(m)(obj, bounds, x0=x, args=args, method=m, options=oo, callback=cb)
        else:
            call = lambda obj, cb: runs.direct(m)(obj, bounds, x0=x, args=args, callback=cb, **oo)
        r = runs.record(f, call)
        runs.cover(st, r)
        if r.exc is not None:
            return r, f"raised {type(r.exc).__name__}: {r.exc}"
        after = frozen(passed)
        if before != after:
            which = [k for k in passed if frozen({k: passed[k]}) not in [frozen({k: v}) for v in ()]]
            diff = [k for (k, a), (_, b) in zip(before[1], after[1]) if a != b]
            return r, f"the argument {diff or which} was modified by the run"
        if any(len(a) != len(args) or any(p is not q for p, q in zip(a, args)) for a in r.as_):
            return r, "the objective did not receive the objects in args"
        return r, None

    def case(label, bounds, x, stp, args, key):
        r, bad = go(label, bounds, x, stp, args)
        if bad is None and key in refs:
            bad = runs.differ(r, refs[key])
            if bad:
                bad = "differs from the run with plain arrays: " + bad
        elif bad is None:
            refs[key] = r
        if bad:
            st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} with {label}: {bad}", {"task": task, "case": label})
        return bad

    fb = np.array(box, dtype=float)
    fx = None if x0 is None else np.array(x0, dtype=float)
    bforms = list(forms(fb))
    xforms = [("none", None)] if x0 is None else list(forms(fx))
    # reference
    def skey(lab):
        return "s" if lab == "as is" else "1" if lab in ("scalar int", "scalar", "0-d", "np.float64") else "v"

    for sl, sv in steps:
        for ai, args in enumerate(ARGS):
            base = (skey(sl), ai)
            if base not in refs:
                if case(f"plain arrays, stepsize {sl}", fb.copy(), None if fx is None else fx.copy(), sv, args, base):
                    return
    for bl, bv in bforms:
        for xl, xv in xforms:
            if case(f"bounds as {bl}, x0 as {xl}", copy.deepcopy(bv) if isinstance(bv, list) else bv, xv, step, (), ("s", 0)):
                return
    for i, (sl, sv) in enumerate(steps):
        for j, (bl, bv) in enumerate(bforms):
            xl, xv = xforms[(i + j) % len(xforms)]
            if case(f"stepsize as {sl}, bounds as {bl}, x0 as {xl}", bv, xv, sv, ARGS[(i + j) % 3], (skey(sl), (i + j) % 3)):
                return
    # the very same objects, used again
    xl, xv = xforms[-1]
    bl, bv = bforms[-1]
    for _ in range(2):
        if case(f"the same objects again ({bl}, {xl})", bv, xv, step, ARGS[2], ("s", 2)):
            return
    # options left to their defaults: nothing is added to the dictionary
    for drop in [None] + sorted(o):
        oo = {} if drop is None and m != "na" else {k: v for k, v in o.items() if k != drop and k != "seed"}
        if drop is None:
            oo = {k: o[k] for k in ("maxiter", "popsize") if k in o}
        elif drop in ("maxiter", "popsize"):
            continue
        passed = dict(bounds=fb, x0=fx, args=(), options=oo)
        before = frozen(passed)
        np.random.seed(5)
        r = runs.record(f, lambda obj, cb: runs.front(m)(obj, fb, x0=fx, method=m, options=oo, callback=cb))
        runs.cover(st, r)
        if r.exc is not None or frozen(passed) != before:
            st.violate(f"{m} with the options {oo}: " + (f"raised {r.exc!r}" if r.exc is not None else "an argument was modified by the run"), {"task": task})
            return
    # direct call
    r, bad = go("direct", bv, xv, step, ARGS[1], front=False)
    bad = bad or runs.differ(r, refs[("s", 1)])
    if bad:
        st.violate(f"{m} called directly: {bad}", {"task": task})
    st.sample({"task": task["label"], "runs": st.runs})
