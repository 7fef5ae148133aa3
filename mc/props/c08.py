"""MPI evaluation is invisible on every rank, for every number of ranks and every progress order."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import mpi_sim
import universe as U
from engine import Ctx, Divergence, HarnessLimit, explore
from props import c07
from props.c07 import compare, match, objective_of, run_one, snapshot
from trace import OPTIMIZERS

BOUNDS = (
    "6 optimizers x 1..popsize+2 ranks, seeded and unseeded (different initial random state on every rank), popsize 3-4 (7 in long runs), maxiter 1-3 (12): "
    "all orders of the ranks' progress for one-iteration runs of 2 (thorough: 3) ranks, up to the stated number of departures from the default order otherwise; "
    "real mpirun on the same drivers"
)
ASSUMPTIONS = ["MPI is replaced by a model of its collectives (matching by order, value semantics, standard's minimal synchronisation)", "every rank is started with the same arguments"]


def tasks(tier):
    th = tier == "thorough"
    T = []
    j = 0
    for m, box, o in c07.cfgs():
        p = o["popsize"]
        for size in range(1, p + 3):
            for seed in (11, None):
                j += 1
                base = dict(method=m, box=box, fun=c07.FUNS[j % 6], x0=(None, "in")[j % 2], size=size, seed=seed, workers=(1, 2, 0)[j % 3])
                if th:
                    T.append(dict(base, opts=dict(o, maxiter=1), bound=None if size <= 2 or (size == 3 and m in ("de", "na", "cmaes") and seed is None) else 3))
                    T.append(dict(base, opts=dict(o, maxiter=2), bound=3))
                    T.append(dict(base, opts=dict(o, maxiter=3), bound=2))
                else:
                    # alternating, so that every optimizer sees every kind of run
                    T.append(dict(base, opts=dict(o, maxiter=1), bound=None if size <= 2 else 2 if size <= 3 and seed is None else 1))
                    T.append(dict(base, opts=dict(o, maxiter=2 + j // 2 % 2), bound=1))
        T.append(dict(method=m, box=box, fun=c07.FUNS[j % 6], x0=None, size=3, seed=None, workers=1, opts=dict(o, maxiter=12, popsize=7), bound=1))
        T.append(dict(method=m, box=box, fun="in", x0=None, size=2, seed=(0, None)[j % 2], workers=1, opts=dict(o, maxiter=4, ftol=0.3, xtol=(0.0, 1e9)[j % 2]), bound=2))
    for i, t in enumerate(T):
        # values of either sign
        t["shift"] = (0.0, -7.0, -40.0)[i % 3] if "ftol" not in t["opts"] else 0.0
        t["watch"] = c07.WATCH[i // 3 % 4]
        if t["opts"].get("constraints") == "Penalize":
            t["fun"] = c07.SMOOTH[c07.FUNS.index(t["fun"]) % 3]
        t["label"] = " ".join(f"{k}={v}" for k, v in t.items())
        t["weight"] = t["size"] * 5 ** (t["bound"] or 4) * t["opts"]["maxiter"]
    for size in (2,) if not th else (1, 2, 3, 5, 8):
        T.append(dict(label=f"mpirun -n {size}", mpirun=size, weight=1e6, tier=tier))
    return T


def options(task):
    o = c07.options(task)
    o["seed"] = task["seed"]
    return o


class Obj:
    """Deterministic objective; records its calls per iteration."""

    def __init__(self, f):
        self.f, self.log, self.stamp, self.running = f, [], 0, 0

    def __call__(self, x, a):
        x = np.array(x, copy=True)
        v = self.f(x, a)
        self.log.append((self.stamp, self.stamp, x, v))
        return v


def rank_run(task):
    """What one rank does; returns plain data."""
    obj = Obj(objective_of(task))
    t = run_one(task, obj, dict(options(task), workers=task["workers"], backend="mpi"), timeout=0)
    return dict(cbs=[(a, b) for a, b, _, _ in t.cbs], res=None if t.res is None else snapshot(t.res), exc=None if t.exc is None else f"{type(t.exc).__name__}: {t.exc}", log=[(s, x) for s, _, x, _ in obj.log])


def reference(task):
    o = options(task)
    if task["method"] in ("de", "pso", "cpso"):
        o["updating"] = "deferred"
    obj = Obj(objective_of(task))
    np.random.seed(1000)  # the state of the root process
    return run_one(task, obj, o), obj


class View:
    pass


def judge(ref, robj, recs):
    for r, rec in enumerate(recs):
        t = View()
        t.exc = None
        if rec["exc"]:
            return f"rank {r} raised {rec['exc']}"
        t.cbs = [(a, b, None, None) for a, b in rec["cbs"]]
        t.res = rec["res"]
        bad = compare(ref, t)
        if bad:
            return f"rank {r}: {bad}"
    for g in range(len(ref.cbs)):
        want = [x for s, _, x, _ in robj.log if s == g]
        got = [x for rec in recs for s, x in rec["log"] if s == g]
        if not match(got, want):
            return f"the ranks together evaluated {len(got)} points in iteration {g + 1} which are not, once each, the {len(want)} candidates of the serial run"
    extra = [x for rec in recs for s, x in rec["log"] if s >= len(ref.cbs)]
    if extra:
        return f"{len(extra)} evaluations after the last iteration"
    return None


_states = {}


def states(size):
    for r in range(size):
        if r not in _states:
            _states[r] = np.random.RandomState(1000 + r).get_state()
    return [_states[r] for r in range(size)]


_ready = False


def run(task, st, tier):
    if "mpirun" in task:
        return mpirun(task, st)
    try:
        mpi_sim._mpi()
    except Exception as e:
        st.skip(f"mpi4py cannot be imported: {e}")
        return
    ref, robj = reference(task)
    if ref.exc is not None:
        st.violate(f"the serial deferred run raised {ref.exc!r}", {"task": task})
        return

    def one(ctx):
        with mpi_sim.world(ctx, task["size"], states(task["size"])) as w:
            out = w.run(lambda r: rank_run(task))
        return out, w

    def verdict(out, w):
        for v, e in out:
            if isinstance(e, HarnessLimit):
                raise e
        if w.problem:
            return w.problem
        for r, (v, e) in enumerate(out):
            if e is not None:
                return f"rank {r} raised {type(e).__name__}: {e}"
        return judge(ref, robj, [v for v, _ in out])

    try:
        for ctx, (out, w), new in explore(one, task["bound"]):
            st.runs += 1
            st.edges += new
            st.steps += sum(w.seq)
            st.checked += 1
            st.state(tuple(ctx.choices))
            st.outcomes.add(hash((w.switches, tuple(map(tuple, w.ops)))))
            bad = verdict(out, w)
            if bad:
                bad = verdict(*one(Ctx(tuple(ctx.choices))))
            if bad:
                st.violate(f"{task['method']} {task['opts']} on {task['size']} ranks (seed={task['seed']}): {bad}", {"task": task, "choices": list(ctx.choices)})
                return
            if not w.touched and task["size"] > 1:
                raise HarnessLimit("the code does not use mpi4py's COMM_WORLD")
    except Divergence as e:
        st.skip(f"uncontrolled nondeterminism: {e}")
        return
    st.count("ranks", task["size"])
    st.sample({"task": task["label"], "orders": st.runs, "collectives of rank 0": w.ops[0][:12]})


def mpirun(task, st):
    """Conformance of the model: the same drivers on the real MPI."""
    size = task["mpirun"]
    exe = shutil.which("mpirun") or shutil.which("mpiexec")
    if not exe:
        st.skip("no mpirun")
        return
    ds = []
    for k, (m, box, o) in enumerate(c07.cfgs()):
        for seed in (None, 11):
            ds.append(dict(method=m, box=box, fun="in", x0=None, size=size, seed=seed, workers=1, opts=dict(o, maxiter=4)))
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl_vader_single_copy_mechanism="none")
    worker = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mpi_worker.py")
    with tempfile.TemporaryDirectory(prefix="vf-mpi-") as d:
        def launch(script, *a):
            return subprocess.run([exe, "--oversubscribe", "-n", str(size), sys.executable, "-B", script, *a], env=env, cwd=d, capture_output=True, timeout=200)

        probe = os.path.join(d, "probe.py")
        with open(probe, "w") as fh:
            fh.write("from mpi4py import MPI\nimport numpy as np\na = np.ones(1)\nb = np.zeros(1)\nMPI.COMM_WORLD.Allreduce([a, MPI.DOUBLE], [b, MPI.DOUBLE], op=MPI.SUM)\nassert b[0] == MPI.COMM_WORLD.Get_size()\n")
        try:
            ok = launch(probe).returncode == 0
        except Exception:
            ok = False
        if not ok:
            st.skip("mpirun does not work here")
            return
        spec = os.path.join(d, "spec")
        with open(spec, "wb") as fh:
            pickle.dump(ds, fh)
        try:
            p = launch(worker, spec, os.path.join(d, "out"))
            txt = p.stderr.decode(errors="replace")[-500:]
        except subprocess.TimeoutExpired:
            st.violate(f"mpirun -n {size}: the ranks did not finish (deadlock)", {"task": task})
            return
        recs = []
        for r in range(size):
            f = os.path.join(d, f"out.{r}")
            if not os.path.exists(f):
                st.violate(f"mpirun -n {size}: rank {r} did not finish: {txt}", {"task": task})
                return
            with open(f, "rb") as fh:
                n, rec = pickle.load(fh)
            if n != size:
                st.skip("mpirun started independent processes")
                return
            recs.append(rec)
    for i, dr in enumerate(ds):
        ref, robj = reference(dr)
        st.runs += 1
        st.steps += len(ref.cbs)
        st.checked += 1
        st.state(i)
        bad = judge(ref, robj, [rec[i] for rec in recs])
        if bad:
            st.violate(f"mpirun -n {size}, {dr['method']} {dr['opts']} seed={dr['seed']}: {bad}", {"task": task, "driver": dr})
            return
    st.count("real mpirun ranks", size)
