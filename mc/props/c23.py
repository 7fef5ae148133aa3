"""Result objects: every bounded sequence of operations, in lockstep with a plain dictionary model."""
import copy
import itertools
import pickle

import numpy as np

import runs
import trace as tr
from engine import explore

BOUNDS = (
    "OptimizeResult and SampleResult: every sequence of up to 3 (thorough: 4) operations from an alphabet of writes, deletions and updates through attributes, items and dict "
    "methods on 4 fields and on 2 predefined contents; every pair of 50 field names; all observations after every operation; results of runs of all 8 methods"
)
ASSUMPTIONS = ["field names are strings that are not names of dict methods"]

ARR = np.arange(3.0)
VALS = {"x": ARR, "fun": 1.5, "xall": np.zeros((2, 3)), "foo_": "text"}
KEYS = ("x", "fun", "xall", "foo_")
MISSING = ("status", "zz", "funall")


def alphabet(extended):
    A = []
    for k in KEYS:
        A.append(("setattr", k, 0))
        A.append(("setitem", k, 1))
        A.append(("delattr", k))
        A.append(("delitem", k))
    A += [("update",), ("clear",), ("popkey", "fun"), ("setdefault", "foo_"), ("none", "fun"), ("copy",), ("deepcopy",), ("pickle",)]
    if extended:
        A += [("popitem",), ("updatekw",), ("long",), ("ior",)]
    return A


def value(k, i):
    return VALS[k] if i == 0 else (k, i)


def apply(cls, r, d, op):
    """Perform op on the real result r and on the model d; returns (r, text of a discrepancy)."""
    name = op[0]
    if name in ("setattr", "setitem"):
        v = value(op[1], op[2])
        if name == "setattr":
            setattr(r, op[1], v)
        else:
            r[op[1]] = v
        d[op[1]] = v
    elif name in ("delattr", "delitem"):
        k = op[1]
        present = k in d
        try:
            if name == "delattr":
                delattr(r, k)
            else:
                del r[k]
        except (KeyError, AttributeError) as e:
            if present:
                return r, f"{name} of the present field {k!r} raised {e!r}"
            if name == "delitem" and not isinstance(e, KeyError):
                return r, f"del r[{k!r}] of a missing field raised {e!r}"
        else:
            if not present:
                return r, f"{name} of the missing field {k!r} did not raise"
        d.pop(k, None)
    elif name == "update":
        new = {"x": ARR, "xall": VALS["xall"]}
        r.update(new)
        d.update(new)
    elif name == "updatekw":
        r.update(fun=2.5, foo_=None)
        d.update(fun=2.5, foo_=None)
    elif name == "ior":
        r |= {"x": ARR, "nit": 3}
        d |= {"x": ARR, "nit": 3}
    elif name == "long":
        r["a_rather_long_field_name"] = 1
        d["a_rather_long_field_name"] = 1
    elif name == "clear":
        r.clear()
        d.clear()
    elif name == "popkey":
        a, b = r.pop(op[1], "gone"), d.pop(op[1], "gone")
        if a is not b:
            return r, f"pop gives {a!r} instead of {b!r}"
    elif name == "popitem":
        if d:
            a, b = r.popitem(), d.popitem()
            if a[0] != b[0] or a[1] is not b[1]:
                return r, f"popitem gives {a!r} instead of {b!r}"
    elif name == "setdefault":
        a, b = r.setdefault(op[1], ARR), d.setdefault(op[1], ARR)
        if a is not b:
            return r, f"setdefault gives {a!r} instead of {b!r}"
    elif name == "none":
        r[op[1]] = None
        d[op[1]] = None
    else:
        old = r
        r = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o))}[name](r)
        if type(r) is not cls or r is old:
            return r, f"{name} gives a {type(r).__name__}"
        if set(r) != set(d) or any(not eq(r[k], d[k]) for k in d):
            return r, f"{name} gives {r!r}"
        if list(r) != list(d):
            return r, f"{name} changes the order of the fields"
        # continue with identical objects
        for k in d:
            d[k] = dict.__getitem__(r, k)
    return r, None


def eq(a, b):
    return np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object))


def observe(cls, r, d, keys=None):
    if not isinstance(r, dict) or type(r) is not cls:
        return f"it is a {type(r).__name__}"
    if len(r) != len(d) or bool(r) != bool(d):
        return f"len/bool: {len(r)} fields, the model has {len(d)}"
    if list(r) != list(d) or list(r.keys()) != list(d) or [k for k, _ in r.items()] != list(d) or any(a is not b for a, b in zip(r.values(), d.values())):
        return f"iteration gives {list(r)} instead of {list(d)}"
    if sorted(dir(r)) != sorted(d):
        return f"dir() gives {dir(r)} instead of {sorted(d)}"
    for k in keys or KEYS + MISSING:
        if k in d:
            try:
                a, b = getattr(r, k), r[k]
            except Exception as e:
                return f"reading the present field {k!r} raised {e!r}"
            if a is not d[k] or b is not d[k] or r.get(k, 0) is not d[k]:
                return f"field {k!r}: attribute {a!r}, item {b!r}, expected {d[k]!r}"
            if k not in r or not hasattr(r, k):
                return f"present field {k!r}: in/hasattr false"
        else:
            try:
                v = getattr(r, k)
                return f"missing attribute {k!r} gives {v!r}"
            except AttributeError as e:
                pass
            except Exception as e:
                return f"missing attribute {k!r} raised {e!r} instead of AttributeError"
            try:
                v = r[k]
                return f"missing item {k!r} gives {v!r}"
            except KeyError:
                pass
            except Exception as e:
                return f"missing item {k!r} raised {e!r} instead of KeyError"
            if k in r or hasattr(r, k) or getattr(r, k, "dflt") != "dflt" or r.get(k, "dflt") != "dflt":
                return f"missing field {k!r}: in/hasattr/defaults are wrong"
    try:
        s, t = repr(r), str(r)
    except Exception as e:
        return f"repr failed with {e!r} on the fields {sorted(d)}"
    lines = s.splitlines()
    for k in d:
        shown = any(l.strip().startswith(k + ":") for l in lines)
        if shown != (k not in ("xall", "funall")):
            return f"repr {'shows' if shown else 'does not show'} the field {k!r}: {s!r}"
        if shown and "\n" not in repr(d[k]) and repr(d[k]) not in s:
            return f"repr does not show the value of {k!r}: {s!r}"
    if not d and not s:
        return "repr of an empty result is empty"
    try:
        simple = {k: v for k, v in d.items() if not isinstance(v, np.ndarray)}
        if len(simple) == len(d) and (not (r == d) or r != d or r == {**d, "extra": 1} or (d and r == {})):
            return "equality does not reflect the fields"
    except ValueError:
        pass
    return None


INIT = ({}, {"x": ARR, "fun": 1.5, "nit": 2, "xall": VALS["xall"], "funall": np.zeros(2)})


def tasks(tier):
    T = []
    for cls in ("OptimizeResult", "SampleResult"):
        for i in range(len(INIT)):
            n = len(alphabet(tier == "thorough"))
            for a in range(n):
                T.append(dict(label=f"{cls} content {i} first {a}", cls=cls, init=i, first=a, depth=3 if tier == "thorough" else 2, weight=10))
    for cls in ("OptimizeResult", "SampleResult"):
        T.append(dict(label=f"{cls} names", cls=cls, names=True, weight=500))
    for k, (m, box, o) in enumerate(runs.CONFIGS):
        T.append(dict(label=f"finished run {m} {o}", cfg=k, weight=20))
    return T


FIELDS = {m: {"x", "fun", "nit", "nfev", "status", "success", "message"} for m in tr.OPTIMIZERS}
FIELDS.update(mcmc={"x", "fun", "nit", "accept_ratio"}, hmc={"x", "fun", "nit", "accept_ratio"})


NAMES = (
    "x", "fun", "xall", "funall", "nit", "nfev", "status", "success", "message", "accept_ratio", "all", "ball", "xal", "xalll", "Xall", "xall_", "_xall", "x_all", "allx", "fun_all", "funal", "funalls", "Funall", "xallfunall", "fu",
    "jac", "xopt", "_", "_x", "__x", "__x__", "x_", "self", "name", "f", "F", "X", "n", "a_rather_long_field_name_that_goes_on", "for", "None", "x1", "\u03c3", "data", "shape", "T", "method", "seed", "best", "popsize",
)


def names(task, st):
    """Every pair of names, as attributes and as items."""
    cls = getattr(tr.so if task["cls"] == "OptimizeResult" else tr.ss, task["cls"])
    for a, b in itertools.product(NAMES, repeat=2):
        r, d = cls(), {}
        bad = None
        for k, v in ((a, 1.5), (b, "two")):
            if k == a:
                setattr(r, k, v)
            else:
                r[k] = v
            d[k] = v
            bad = bad or observe(cls, r, d, NAMES[:12] + (a, b, a + "_", "no" + b))
        if a != b:
            delattr(r, b)
            d.pop(b)
            bad = bad or observe(cls, r, d, (a, b))
        st.runs += 1
        st.checked += 1
        st.state(a, b)
        if bad:
            st.violate(f"{task['cls']} with the fields {a!r} and {b!r}: {bad}", {"task": task})
            return


def run(task, st, tier):
    if "cfg" in task:
        return finished(task, st)
    if "names" in task:
        return names(task, st)
    cls = getattr(tr.so if task["cls"] == "OptimizeResult" else tr.ss, task["cls"])
    A = alphabet(tier == "thorough")

    def one(ctx):
        d = dict(INIT[task["init"]])
        r = cls(d)
        bad = observe(cls, r, d)
        ops = []
        if bad:
            return ops, bad, 0
        for i in range(task["depth"] + 1):
            op = A[task["first"]] if i == 0 else A[ctx.choose(len(A))]
            ops.append(op)
            try:
                r, bad = apply(cls, r, d, op)
            except Exception as e:
                bad = f"{op} raised {e!r}"
            bad = bad or observe(cls, r, d)
            st.state(list(d), [v is ARR or v is VALS["xall"] or str(type(v)) for v in d.values()])
            if bad:
                return ops, bad, i
        return ops, None, len(ops)

    for ctx, (ops, bad, n), new in explore(one):
        st.runs += 1
        st.edges += new
        st.steps += n
        st.checked += n
        if bad:
            st.violate(f"{task['cls']} starting with fields {sorted(INIT[task['init']])}, after {ops}: {bad}", {"task": task, "choices": list(ctx.choices)})
            return
    st.sample({"task": task["label"], "last sequence": ops})


def finished(task, st):
    m, box, o = runs.CONFIGS[task["cfg"]]
    f = U_fun(box)
    for mode in ("all", "none"):
        oo = runs.resolve(m, box, runs.base_options(m, o))
        oo["return_all"] = mode == "all"
        raw = []

        def call(obj, cb):
            def cb2(X, s):
                raw.append(s)
                cb(X, s)

            return runs.through_front(m, box, oo)(obj, cb2)

        r = runs.record(f, call)
        runs.cover(st, r)
        if r.exc is not None:
            st.violate(f"{m} {oo} raised {r.exc!r}", {"task": task})
            return
        want = FIELDS[m] | ({"xall", "funall"} if mode == "all" else set())
        cls = tr.ss.SampleResult if m in tr.SAMPLERS else tr.so.OptimizeResult
        bad = None
        if not want <= set(r.raw):
            bad = f"fields {sorted(want - set(r.raw))} are missing"
        elif mode == "none" and {"xall", "funall"} & set(r.raw):
            bad = "histories although return_all is false"
        for what, res in [("result", r.raw)] + [(f"state of callback {i + 1}", s) for i, s in enumerate(raw)]:
            bad = bad or observe(cls, res, dict(res))
            if bad:
                st.violate(f"{m} {o}: {what}: {bad}", {"task": task})
                return
        need = (want - {"status", "success", "message", "nfev"}) | ({"nfev"} if m in tr.OPTIMIZERS else set())
        for i, s in enumerate(raw):
            if not need <= set(s):
                st.violate(f"{m} {o}: state of callback {i + 1} lacks {sorted(need - set(s))}", {"task": task})
                return


def U_fun(box):
    import universe as U

    f = U.base_fun("in", U.BOXES[box])
    return lambda x: f(x)
