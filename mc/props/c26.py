"""The objective's calling convention and the values it may return."""
import itertools

import numpy as np

import mpi_sim
import pools
import runs
import trace as tr
import universe as U
from engine import Ctx, HarnessLimit, explore

BOUNDS = (
    "19 configurations of 8 methods x serial / threads / process pools (controlled and real) / MPI ranks x 6 args tuples x every integer-valued answer given as 14 numeric types and as mixtures; "
    "answers: smooth integer functions and all departures (new best, tie, worst) of one evaluation"
)
ASSUMPTIONS = ["the numbers returned are the same; only their type differs"]

TYPES = {
    "float": float,
    "int": int,
    "np.float64": np.float64,
    "np.float32": np.float32,
    "np.float16": np.float16,
    "np.longdouble": np.longdouble,
    "np.int64": np.int64,
    "np.int32": np.int32,
    "np.int16": np.int16,
    "np.int8": np.int8,
    "np.uint8": np.uint8,
    "np.uint16": np.uint16,
    "np.uint64": np.uint64,
    "0-d float": lambda v: np.array(float(v)),
    "0-d int": lambda v: np.array(int(v)),
    "Fraction": lambda v: __import__("fractions").Fraction(int(v)),
}
MIX = [("float", "int"), ("int", "np.float32", "np.uint8"), ("np.uint8", "np.int64", "0-d int"), ("0-d float", "float", "np.uint64")]


class Thing:
    pass


THING = Thing()
ARR = np.arange(3)
ARGS = [(), (1,), (1.5, "two"), (ARR, THING), (None,), ({"k": [1]}, (1, 2), lambda v: v)]


def tasks(tier):
    th = tier == "thorough"
    T = []
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        T.append(dict(label=f"types {m} {o}", cfg=k, kind="types", dev=1 if th else 0, weight=100))
        T.append(dict(label=f"protocol {m} {o}", cfg=k, kind="protocol", weight=30))
        T.append(dict(label=f"callables {m} {o}", cfg=k, kind="callables", weight=30))
        if m in tr.OPTIMIZERS:
            T.append(dict(label=f"pools {m} {o}", cfg=k, kind="pools", weight=60))
            T.append(dict(label=f"ranks {m} {o}", cfg=k, kind="ranks", weight=60))
        T.append(dict(label=f"types with departures {m} {o}", cfg=k, kind="types", dev=2 if th else 1, weight=1000 if th else 500))
    if th:
        for k in (0, 9, 11):
            T.append(dict(label=f"real pools {runs.CONFIGS[k]}", cfg=k, kind="real", weight=2000))
    return T


def intfun(box):
    """Values 0..100, dependent on the point; exactly representable in every type of the table."""
    b = np.array(box, dtype=float)
    w = np.where(b[:, 1] > b[:, 0], b[:, 1] - b[:, 0], 1.0)
    c = b[:, 0] + 0.3 * w

    def f(x):
        return int(min(100, 1 + np.floor(20 * np.abs((x - c) / w).sum())))

    return f


def run(task, st, tier):
    return dict(types=types, protocol=protocol, callables=callables, pools=pooled, ranks=ranks, real=real)[task["kind"]](task, st, tier)


def opts_of(task):
    m, box, o = runs.CONFIGS[task["cfg"]]
    oo = runs.resolve(m, box, runs.base_options(m, o))
    if m == "hmc":
        oo["stepsize"] = 0.02  # integer steps of the objective give huge finite differences
        oo["finite_diff_abs_step"] = 0.5
    return m, box, oo


def types(task, st, tier):
    m, box, oo = opts_of(task)
    f = intfun(U.BOXES[box])
    dev = task["dev"]
    # every answer as each type, and rotating through mixtures of types
    convs = [(n, [c]) for n, c in TYPES.items()] + [("mixture of " + ", ".join(mx), [TYPES[n] for n in mx]) for mx in MIX]

    def values(ctx):
        memo, best = {}, [None]

        def g(x):
            key = x.tobytes()
            if key not in memo:
                v = f(x)
                c = ctx.choose(4 if dev else 1)
                if c:
                    b = best[0] if best[0] is not None else v
                    v = (None, max(0, b - 1), b, 120)[c]
                best[0] = v if best[0] is None else min(v, best[0])
                memo[key] = v
            return memo[key]

        return g

    if dev:
        convs = convs[1:] if tier == "thorough" else [convs[i] for i in (1, 10, 13, 14, 16, 18, 19)]

    def one(ctx):
        return runs.record(values(ctx), runs.through_front(m, box, oo))

    for ctx, ref, new in explore(one, dev):
        runs.cover(st, ref)
        st.edges += new
        if ref.exc is not None:
            st.violate(f"{m} {oo}: raised {ref.exc!r} on float values", {"task": task, "choices": list(ctx.choices)})
            return
        for name, cs in convs:
            n = [0]
            g = values(Ctx(tuple(ctx.choices)))

            def h(x):
                n[0] += 1
                return cs[n[0] % len(cs)](g(x))

            r = runs.record(h, runs.through_front(m, box, oo))
            runs.cover(st, r)
            bad = diff_values(r, ref)
            if bad:
                st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]}: with the values given as {name}: {bad} (compared with floats)", {"task": task, "choices": list(ctx.choices), "type": name})
                return
    st.sample({"task": task["label"], "runs": st.runs})


def diff_values(a, b):
    """Like runs.differ, values compared as numbers."""
    bad = None
    for r in (a, b):
        r.vs = [float(v) for v in r.vs]
        for c in r.cbs:
            norm(c[1])
        if r.res is not None:
            norm(r.res)
    return runs.differ(a, b)


def norm(d):
    if "fun" in d and np.ndim(d["fun"]) == 0:
        d["fun"] = float(d["fun"])


def checker(args, ndim, faults, what="the objective"):
    def chk(x, a):
        if not isinstance(x, np.ndarray) or x.ndim != 1 or len(x) != ndim or x.dtype != np.float64:
            faults.append(f"{what} was called with a {type(x).__name__} of shape {np.shape(x)} and type {getattr(x, 'dtype', None)}")
        elif len(a) != len(args) or any(p is not q for p, q in zip(a, args)):
            faults.append(f"{what} was called with the extra arguments {a!r} instead of {args!r}")

    return chk


def protocol(task, st, tier):
    m, box, oo = opts_of(task)
    B = U.BOXES[box]
    f = intfun(B)
    x0s = [None]
    intb = [[int(np.floor(lo)), int(np.ceil(hi)) + 1] for lo, hi in B]
    for args in ARGS:
        for bounds, x0k in itertools.product((B, intb), ("none", "int", "float", "list")):
            o2 = dict(oo)
            if x0k == "none":
                x0 = None
            else:
                xb = np.array(bounds, dtype=float)
                if m in ("de", "pso", "cpso", "na"):
                    x0 = np.array([np.round(xb.mean(axis=1) + (i % 3 - 1)) for i in range(o2["popsize"])])
                    x0 = np.clip(x0, xb[:, 0], xb[:, 1])
                else:
                    x0 = np.round(xb.mean(axis=1))
                x0 = x0.astype(int) if x0k == "int" else x0.tolist() if x0k == "list" else x0
            faults = []
            chk = checker(args, len(B), faults)

            def g(x, *a):
                return float(f(x))

            def call(obj, cb):
                def outer(x, *a):
                    chk(x, a)
                    return obj(x, *a)

                o3 = dict(o2)
                if "jac" in o3:
                    jchk = checker(args, len(B), faults, "jac")
                    j = o3["jac"]

                    def jac(x, *a):
                        jchk(x, a)
                        return j(x)

                    o3["jac"] = jac
                return runs.front(m)(outer, bounds, x0=x0, args=args, method=m, options=o3, callback=cb)

            r = runs.record(g, call)
            runs.cover(st, r)
            if r.exc is not None:
                faults.insert(0, f"raised {r.exc!r}")
            if faults:
                st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} bounds={bounds} x0 {x0k}: {faults[0]}", {"task": task})
                return
    st.sample({"task": task["label"], "runs": st.runs})


class Recorder(list):
    """A callable list, empty (false) when the run begins, and unhashable."""

    def __init__(self, f):
        super().__init__()
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


class Filling(Recorder):
    def __call__(self, *a):
        self.append(1)
        return self.f(*a)


class Strange:
    """No truth value, no order, no hash, no attributes of functions."""

    __slots__ = ("f",)
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def __bool__(self):
        raise AssertionError("the truth value of a callable was asked for")

    def __eq__(self, other):
        raise AssertionError("a callable was compared")

    def run(self, *a):
        return self.f(*a)


class Negative(Strange):
    __slots__ = ()

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


def kinds():
    import functools

    return {
        "an empty callable list": Recorder,
        "a callable list that fills": Filling,
        "a false object equal to everything": Negative,
        "a bound method": lambda f: Negative(f).run,
        "a partial": lambda f: functools.partial(lambda z, *a: f(*a), None),
        "a lambda with defaults": lambda f: lambda *a, _f=f, **kw: _f(*a),
        "a class with static call": lambda f: type("K", (), {"__call__": staticmethod(f)})(),
    }


def callables(task, st, tier):
    """Whatever kind of callable fun, jac and callback are, the run is the same."""
    m, box, oo = opts_of(task)
    B = U.BOXES[box]
    f = intfun(B)
    K = kinds()
    modes = [("serial", {})]
    if m in tr.OPTIMIZERS:
        modes.append(("threads", dict(workers=2, backend="threading")))
    for mode, extra in modes:
        ref = None
        base = dict(oo, **extra)
        if extra and m in ("de", "pso", "cpso"):
            base["updating"] = "deferred"
        for kf, kj, kc in [(None,) * 3] + [(k, None, None) for k in K] + [(None, k, None) for k in K if "jac" in oo] + [(None, None, k) for k in K] + [(k, k, k) for k in K]:
            o2 = dict(base)
            if "jac" in o2 and kj:
                o2["jac"] = K[kj](o2["jac"])
            wrap = lambda k, g: K[k](g) if k else g

            def call(obj, cb):
                return runs.front(m)(wrap(kf, obj), B, method=m, options=o2, callback=wrap(kc, cb))

            with pools.pools(Ctx(), batch=1, cpus=3) as s:
                try:
                    r = runs.record(lambda x, *a: float(f(x)), call)
                finally:
                    s.drop()
            if isinstance(r.exc, HarnessLimit):
                raise r.exc
            runs.cover(st, r)
            bad = f"raised {r.exc!r}" if r.exc is not None else None
            if not bad:
                ref = ref or r
                bad = runs.differ(r, ref) or (f"{len(r.cbs)} callbacks instead of {len(ref.cbs)}" if len(r.cbs) != len(ref.cbs) else None)
            if bad:
                st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} {mode}, objective: {kf or 'function'}, jac: {kj or 'function'}, callback: {kc or 'function'}: {bad}", {"task": task})
                return
    st.sample({"task": task["label"], "runs": st.runs})


def pooled(task, st, tier):
    m, box, oo = opts_of(task)
    B = U.BOXES[box]
    f = intfun(B)
    if m in ("de", "pso", "cpso"):
        oo["updating"] = "deferred"
    ref = runs.record(lambda x, *a: float(f(x)), runs.through_front(m, box, oo))
    for backend, w in itertools.product(("threading", "loky"), (2, 3, -1)):
        for args in ARGS:
            if backend == "loky" and any(callable(a) or isinstance(a, Thing) for a in args):
                args = (ARR, {"k": [1]}, "s")
            for conv in (float, np.uint8, lambda v: np.array(v)):
                faults = []
                ident = backend == "threading"

                def obj(x, *a):
                    if not isinstance(x, np.ndarray) or x.ndim != 1 or len(x) != len(B) or x.dtype != np.float64:
                        faults.append(f"the objective was called with a {type(x).__name__} of shape {np.shape(x)} and type {getattr(x, 'dtype', None)}")
                    elif len(a) != len(args) or not all((p is q) if ident else (type(p) is type(q) and runs.same(p, q, False)) for p, q in zip(a, args)):
                        faults.append(f"the objective was called with the extra arguments {a!r} instead of {args!r}")
                    return conv(f(x))

                O = Shared(obj)
                cbs = []
                with pools.pools(Ctx(), batch=1, cpus=3) as s:
                    try:
                        r = runs.record(None, lambda _, cb: runs.front(m)(O, B, args=args, method=m, options=dict(oo, workers=w, backend=backend), callback=cb))
                    finally:
                        s.drop()
                runs.cover(st, r)
                bad = None
                if isinstance(r.exc, HarnessLimit):
                    raise r.exc
                if r.exc is not None:
                    bad = f"raised {r.exc!r}"
                elif faults:
                    bad = faults[0]
                else:
                    norm(r.res)
                    norm(ref.res)
                    bad = runs.fields(r.res, ref.res)
                if bad:
                    st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} {backend} workers={w} args={args!r}: {bad}", {"task": task})
                    return
    st.sample({"task": task["label"], "runs": st.runs})


class Shared:
    """An objective that survives the pickle round trip of the process pool model by reference."""

    table = {}

    def __init__(self, f):
        self.key = id(self)
        Shared.table[self.key] = f

    def __call__(self, x, *a):
        return Shared.table[self.key](x, *a)


def ranks(task, st, tier):
    m, box, oo = opts_of(task)
    B = U.BOXES[box]
    f = intfun(B)
    try:
        mpi_sim._mpi()
    except Exception as e:
        st.skip(f"mpi4py cannot be imported: {e}")
        return
    from props import c08

    for size in (1, 2, 3):
        for args in ARGS:
            for conv in (float, np.uint8, lambda v: np.array(v)):
                faults = []
                chk = checker(args, len(B), faults)

                def obj(x, *a):
                    chk(x, a)
                    return conv(f(x))

                with mpi_sim.world(Ctx(), size, c08.states(size)) as w:
                    out = w.run(lambda r: runs.front(m)(obj, B, args=args, method=m, options=dict(oo, workers=1, backend="mpi")))
                st.runs += 1
                st.checked += 1
                st.steps += sum(w.seq)
                st.state(size, repr(args)[:20], m)
                bad = w.problem
                for v, e in out:
                    if isinstance(e, HarnessLimit):
                        raise e
                    if e is not None:
                        bad = bad or f"raised {e!r}"
                bad = bad or (faults[0] if faults else None)
                if bad:
                    st.violate(f"{m} {runs.CONFIGS[task['cfg']][2]} on {size} ranks args={args!r}: {bad}", {"task": task})
                    return
    st.sample({"task": task["label"], "runs": st.runs})


def real(task, st, tier):
    from props import c07

    m, box, oo = opts_of(task)
    B = U.BOXES[box]
    f = intfun(B)
    for backend in ("threading", "loky"):
        if not c07.pool_works(backend):
            st.skip(f"joblib's own {backend} pool does not work here")
            continue
        ref = None
        for conv in (float, np.float32, np.uint8):
            args = (ARR, 2.5)

            def obj(x, *a):
                ok = isinstance(x, np.ndarray) and x.ndim == 1 and x.dtype == np.float64 and len(a) == 2 and np.array_equal(a[0], np.arange(3)) and a[1] == 2.5
                if not ok:
                    raise AssertionError(f"called with {x!r} {a!r}")
                return conv(f(x))

            try:
                r = runs.record(None, lambda _, cb: runs.front(m)(obj, B, args=args, method=m, options=dict(oo, workers=2, backend=backend), callback=cb), timeout=120)
            finally:
                c07.stop_processes()
            runs.cover(st, r)
            bad = f"raised {r.exc!r}" if r.exc is not None else None
            if not bad:
                norm(r.res)
                ref = ref or r
                bad = runs.fields(r.res, ref.res)
            if bad:
                st.violate(f"{m} real {backend} pool: {bad}", {"task": task})
                return
