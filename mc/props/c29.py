"""Runs that overlap - nested in one another, or taking turns in threads - do not interfere."""
import os
import signal
import sys
import threading
import warnings

import numpy as np

import runs
import trace as tr
import universe as U
from engine import HarnessLimit, explore

BOUNDS = (
    "nested: all ordered pairs of 31 configurations (every optimizer and sampler, one to seven variables), the inner run performed completely inside every objective call, every callback and every jac call "
    "of the outer one (quick: every call of the outer run for pairs that share a module, every third call and the callbacks for the others), also inner runs with two worker threads, and three levels deep; "
    "interleaved: two runs in two threads that take turns at their objective calls and callbacks, all schedules with at most 2 (thorough: 3) switches for pairs that share a module, 1 (thorough: 2) for the others; "
    "the random generator is handed over at each switch, so that each run sees the random numbers it sees alone"
)
ASSUMPTIONS = [
    "NumPy's global generator is the one thing that runs share; the harness saves and restores its state at each switch",
    "runs switch only in user code (objective, jac, callback)",
    "values are compared up to the last bits",
]
FAMILY = {"de": "d", "pso": "p", "cpso": "p", "na": "n", "cmaes": "c", "vdcma": "c", "mcmc": "s", "hmc": "s"}
PATIENCE = 20.0  # a run that has the turn and does nothing for so long waits for the other one


def setting(k, who):
    """Configuration k as run by the outer/first (0) or the inner/second (1, 2) party."""
    m, box, o = runs.CONFIGS[k]
    oo = runs.base_options(m, o, (11, 5, 23)[who])
    oo.setdefault("return_all", True)
    return m, box, runs.resolve(m, box, oo), U.base_fun(("in", "step", "out")[who], U.BOXES[box])


def perform(k, who, hook, workers=0):
    """One run; hook(where) is called inside each call of user code. Exceptions are recorded."""
    m, box, oo, f = setting(k, who)
    r = runs.Rec()

    def obj(x):
        if len(r.xs) > 5000:
            raise tr.Runaway("more than 5000 evaluations")
        x = np.array(x, copy=True)
        v = f(x)
        r.xs.append(x)
        r.vs.append(v)
        hook("objective")
        return v

    def cb(X, state):
        r.cbs.append((np.array(X, copy=True), {a: runs.snap(b) for a, b in state.items()}, len(r.xs)))
        hook("callback")

    if oo.get("jac") is not None:
        j = oo["jac"]

        def jac(x, *a):
            g = j(x, *a)
            hook("jac")
            return g

        oo["jac"] = jac
    before = environment()
    if workers:
        oo.update(workers=workers, backend="threading")
        oo.pop("updating", None)
    try:
        r.raw = runs.front(m)(obj, U.BOXES[box], method=m, options=oo, callback=cb)
        r.res = {a: runs.snap(b) for a, b in r.raw.items()}
    except HarnessLimit:
        raise
    except (Exception, tr.Runaway) as e:
        r.exc = e
    after = environment()
    if after != before and not r.exc:
        r.exc = Left(f"the run leaves the process changed: {[(p, q) for p, q in zip(before, after) if p != q]}")
    return r


class Left(Exception):
    pass


def environment():
    return (tuple(sorted(np.geterr().items())), np.geterrcall(), len(warnings.filters), repr(sorted(np.get_printoptions().items(), key=str)), os.getcwd(), signal.getsignal(signal.SIGINT), sys.getrecursionlimit(), len(os.environ))


def nothing(where):
    pass


def alone(k, who, workers=0):
    """The run by itself, and how many calls of user code it makes."""
    n = [0]

    def count(where):
        n[0] += 1

    r = perform(k, who, count if not workers else nothing, workers)
    r.as_ = n[0]
    return r


def order_free(r):
    """Evaluations of a threaded run come in any order within an iteration."""
    z = sorted(zip([x.tobytes() for x in r.xs], range(len(r.xs))))
    r.vs = [r.vs[i] for _, i in z]
    r.xs = [r.xs[i] for _, i in z]
    r.cbs = [(c[0], c[1], 0) for c in r.cbs]
    return r


# ---------------------------------------------------------------- tasks
def tasks(tier):
    th = tier == "thorough"
    N = range(len(runs.CONFIGS))
    T = []
    for a in N:
        ma = runs.CONFIGS[a][0]
        T.append(dict(kind="nested", a=a, all=th, label=f"nested in {runs.CONFIGS[a]}", weight=60))
        for b in N:
            mb = runs.CONFIGS[b][0]
            close = ma == mb or (a < runs.CORE and b < runs.CORE and FAMILY[ma] == FAMILY[mb])
            if b < a:
                continue
            T.append(dict(kind="turns", a=a, b=b, bound=(3 if th else 2) if close else (2 if th else 1), label=f"interleaved {runs.CONFIGS[a]} and {runs.CONFIGS[b]}", weight=40 if close else 2))
    return T


def run(task, st, tier):
    return dict(nested=nested, turns=turns)[task["kind"]](task, st)


def compare(st, task, what, r, ref, replay):
    runs.cover(st, r)
    bad = runs.differ(r, ref)
    if bad:
        st.violate(f"{what}: {bad}", dict(replay, task=task, difference=bad))
        return True
    return False


def guard(fn, timeout=60):
    old = signal.signal(signal.SIGALRM, tr._alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def inside(fn):
    """fn() with the generator as it is, which then continues as if nothing had been drawn."""
    s = np.random.get_state()
    try:
        return fn()
    finally:
        np.random.set_state(s)


def nested(task, st):
    a = task["a"]
    ma = runs.CONFIGS[a][0]
    ref_a = alone(a, 0)
    n = ref_a.as_
    refs = {}
    if isinstance(ref_a.exc, Left):
        st.violate(f"{runs.CONFIGS[a]}: {ref_a.exc}", {"task": task})
        return

    def ref(b, who, w):
        if (b, who, w) not in refs:
            refs[b, who, w] = alone(b, who, w)
        return refs[b, who, w]

    inner = [(b, 0) for b in range(len(runs.CONFIGS))] + [(b, 2) for b in (1, 5, 9, 11, 13)]
    for b, w in inner:
        mb = runs.CONFIGS[b][0]
        close = FAMILY[ma] == FAMILY[mb]
        want = ref(b, 1, w)
        at = range(1, n + 1) if (task["all"] or close) and not w else range(1 + (a + b) % 3, n + 1, 3 if not w else 7)
        for k in at:
            got = []
            c = [0]

            def hook(where):
                c[0] += 1
                if c[0] == k:
                    got.append(inside(lambda: perform(b, 1, nothing, w)))

            try:
                r = guard(lambda: perform(a, 0, hook))
            except tr.Runaway as e:
                st.violate(f"{runs.CONFIGS[b]} run inside call {k} of user code of {runs.CONFIGS[a]}: {e}", {"task": task, "inner": runs.CONFIGS[b], "call": k})
                return
            what = f"{runs.CONFIGS[b]}{' with two threads' if w else ''} run inside call {k} of user code of {runs.CONFIGS[a]}"
            rep = {"outer": runs.CONFIGS[a], "inner": runs.CONFIGS[b], "call": k}
            if not got:
                st.violate(f"{what}: the outer run makes fewer than {k} calls", dict(rep, task=task))
                return
            if w:
                order_free(got[0])
                want_ = order_free(alone_copy(want))
            else:
                want_ = want
            if compare(st, task, f"{what}: the inner run differs from the one alone", got[0], want_, rep):
                return
            if compare(st, task, f"{what}: the outer run differs from the one alone", r, ref_a, rep):
                return
    # an outer run with worker threads, the inner one in its callbacks
    if ma in tr.OPTIMIZERS and a < runs.CORE:
        want_a = order_free(alone(a, 0, 2))
        for b in {a, 1, 9, 13, 15}:
            want = ref(b, 1, 0)
            got = []

            def hook(where):
                if where == "callback":
                    got.append(inside(lambda: perform(b, 1, nothing)))

            r = order_free(guard(lambda: perform(a, 0, hook, 2)))
            rep = {"outer": runs.CONFIGS[a], "inner": runs.CONFIGS[b], "call": "every callback, two threads"}
            for g in got:
                if compare(st, task, f"{runs.CONFIGS[b]} run inside the callback of {runs.CONFIGS[a]} with two threads: the inner run differs from the one alone", g, want, rep):
                    return
            if compare(st, task, f"{runs.CONFIGS[b]} run inside the callback of {runs.CONFIGS[a]} with two threads: the outer run differs from the one alone", r, want_a, rep):
                return
    # three levels: the same configuration inside itself inside itself, at each pair of calls
    r1, r2 = ref(a, 1, 0), ref(a, 2, 0)
    step = 1 if task["all"] else max(1, n // 8)
    for k in range(1, n + 1, step):
        for j in range(1, r1.as_ + 1, step):
            got = {}

            def at_call(i, fn):
                c = [0]

                def hook(where):
                    c[0] += 1
                    if c[0] == i:
                        fn()

                return hook

            def third():
                got[2] = inside(lambda: perform(a, 2, nothing))

            def second():
                got[1] = inside(lambda: perform(a, 1, at_call(j, third)))

            r = guard(lambda: perform(a, 0, at_call(k, second)))
            rep = {"configuration": runs.CONFIGS[a], "calls": [k, j]}
            for what, g, w in (("outer", r, ref_a), ("middle", got.get(1), r1), ("inner", got.get(2), r2)):
                if g is None:
                    st.violate(f"{runs.CONFIGS[a]} three levels deep, at calls {k} and {j}: the {what} run did not take place", dict(rep, task=task))
                    return
                if compare(st, task, f"{runs.CONFIGS[a]} three levels deep, at calls {k} and {j}: the {what} run differs from the one alone", g, w, rep):
                    return
    st.sample({"task": task["label"], "calls of the outer run": n, "runs": st.runs})


def alone_copy(r):
    c = runs.Rec()
    for k in r.__slots__:
        setattr(c, k, getattr(r, k))
    return c


# ---------------------------------------------------------------- two threads that take turns
class Turns:
    """Two runs in two threads, exactly one of which advances; switches are decided by ctx."""

    def __init__(self, ctx, a, b):
        self.ctx = ctx
        self.cond = threading.Condition()
        self.turn = 0
        self.done = [False, False]
        self.waiting = [True, True]
        self.beat = 0
        self.rec = [None, None]
        self.rng = [None, None]
        self.trail = []
        self.blocked = False
        self.threads = [threading.Thread(target=self.body, args=(i, k), daemon=True) for i, k in ((0, a), (1, b))]

    def body(self, i, k):
        self.wait(i)
        try:
            self.rec[i] = perform(k, i, lambda where: self.point(i))
        except BaseException as e:  # noqa: B036
            self.rec[i] = runs.Rec()
            self.rec[i].exc = e
        with self.cond:
            self.done[i] = True
            self.give(1 - i)

    def give(self, j):
        if not self.done[j]:
            self.turn = j
        self.beat += 1
        self.cond.notify_all()

    def wait(self, i):
        with self.cond:
            self.waiting[i] = True
            self.cond.wait_for(lambda: self.turn == i)
            self.waiting[i] = False
            if self.rng[i] is not None:
                np.random.set_state(self.rng[i])

    def point(self, i):
        """A call of user code of run i."""
        self.beat += 1
        if self.turn != i:  # it went on after it had been waiting for the other one
            self.wait(i)
        if self.done[1 - i] or not self.ctx.choose(2):
            return
        with self.cond:
            self.rng[i] = np.random.get_state()
            self.trail.append((i, len(self.trail)))
            self.give(1 - i)
        self.wait(i)

    def go(self):
        for t in self.threads:
            t.start()
        beat = -1
        with self.cond:
            while not all(self.done):
                self.cond.wait(PATIENCE)
                if all(self.done):
                    break
                if self.beat == beat:
                    # the one whose turn it is does not advance: let the other one
                    if self.blocked:
                        return False
                    self.blocked = True
                    self.give(1 - self.turn)
                beat = self.beat
        for t in self.threads:
            t.join()
        return True


def turns(task, st):
    a, b = task["a"], task["b"]
    ref = [alone(a, 0), alone(b, 1)]

    def once(ctx):
        s = np.random.get_state()
        t = Turns(ctx, a, b)
        ok = t.go()
        np.random.set_state(s)
        return ok, t

    for ctx, (ok, t), edges in explore(once, bound=task["bound"]):
        st.edges += edges
        rep = {"runs": [runs.CONFIGS[a], runs.CONFIGS[b]], "schedule": list(ctx.choices)}
        if not ok:
            st.violate(f"{runs.CONFIGS[a]} and {runs.CONFIGS[b]} in two threads block each other", dict(rep, task=task))
            return
        if t.blocked:
            st.skip("runs wait for each other")
            return
        for i, k in ((0, a), (1, b)):
            if compare(st, task, f"{runs.CONFIGS[k]} taking turns with {runs.CONFIGS[(b, a)[i]]} (switches at calls {[n + 1 for n, c in enumerate(ctx.choices) if c]}) differs from the run alone", t.rec[i], ref[i], rep):
                return
    st.sample({"task": task["label"], "schedules": st.runs // 2})
