"""Stateless, exhaustive exploration of the real code.

A *scenario* closes the system under test with every environment answer decided
by the harness: objective values, random draws, thread/process schedule, faults.
The code asks `ctx.choose(n, tag)` at each such point; the explorer re-executes
the scenario once per leaf of the resulting decision tree.  `bound` limits the
number of departures from the default answer (choice 0): None means that the
whole tree is enumerated.  Nothing is ever sampled.
"""
import hashlib
import json
import os
import sys
import time
import traceback


class Divergence(Exception):
    """The execution did not follow the recorded prefix (uncaptured nondeterminism)."""


class HarnessLimit(Exception):
    """The code under test uses something the harness does not model: no verdict."""


class Ctx:
    __slots__ = ("prefix", "choices", "arity", "cost")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.choices = []
        self.arity = []

    def choose(self, n, tag=None):
        i = len(self.choices)
        if n <= 1:
            return 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at point {i} ({tag})")
        else:
            c = 0
        self.choices.append(c)
        self.arity.append(n)
        return c


def explore(run, bound=None, cap=None):
    """Enumerate every leaf of the decision tree with at most `bound` deviations.

    `run(ctx)` executes the scenario once. Yields (ctx, outcome, n_new_edges).
    """
    stack = [()]
    done = 0
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix)
        out = run(ctx)
        if len(ctx.choices) < len(prefix):
            raise Divergence(f"run ended after {len(ctx.choices)} of {len(prefix)} choices")
        yield ctx, out, len(ctx.choices) - max(0, len(prefix) - 1)
        done += 1
        if cap is not None and done >= cap:
            return
        cost = sum(1 for c in prefix if c)
        if bound is not None and cost >= bound:
            continue
        base = list(ctx.choices)
        for i in range(len(ctx.choices) - 1, len(prefix) - 1, -1):
            for alt in range(ctx.arity[i] - 1, 0, -1):
                stack.append(tuple(base[:i]) + (alt,))


class Stats:
    """What one task of a check covered."""

    def __init__(self):
        self.runs = 0
        self.edges = 0
        self.steps = 0
        self.states = set()
        self.extra_states = 0
        self.outcomes = set()
        self.checked = 0
        self.skipped = {}
        self.violations = []
        self.known = []
        self.samples = []
        self.notes = []
        self.counts = {}

    def state(self, *parts):
        self.states.add(digest(*parts))

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def violate(self, what, replay, key=None):
        """Report a violation; `key` identifies the failing input for known findings."""
        if len(self.violations) < 5 or (key is None and all(v["key"] for v in self.violations)):
            self.violations.append({"what": what, "replay": replay, "key": key})

    def count(self, *key):
        key = " ".join(str(k) for k in key)
        self.counts[key] = self.counts.get(key, 0) + 1

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s)


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if hasattr(p, "tobytes"):
            h.update(p.tobytes())
        elif isinstance(p, bytes):
            h.update(p)
        else:
            h.update(repr(p).encode())
        h.update(b"|")
    return h.digest()


# --------------------------------------------------------------------------- running


def _fresh():
    """What an earlier task in the same worker may have left behind must not hide anything."""
    import warnings

    import numpy as np

    np.seterr(all="ignore")
    np.seterrcall(None)
    warnings.resetwarnings()
    warnings.simplefilter("ignore")


def _call(payload):
    prop, idx, tier = payload
    import importlib

    mod = importlib.import_module(f"props.{prop.lower()}")
    tasks = _tasks(mod, tier)
    st = Stats()
    t0 = time.time()
    _fresh()
    try:
        mod.run(tasks[idx], st, tier)
        err = None
    except HarnessLimit as e:
        st.skip(f"harness limit: {e}")
        err = None
    except Exception:
        err = traceback.format_exc()
    return idx, {
        "runs": st.runs,
        "edges": st.edges,
        "steps": st.steps,
        "states": len(st.states) + st.extra_states,
        "outcomes": len(st.outcomes),
        "checked": st.checked,
        "skipped": st.skipped,
        "violations": st.violations,
        "samples": st.samples,
        "notes": st.notes,
        "counts": st.counts,
        "err": err,
        "wall": time.time() - t0,
        "label": str(tasks[idx].get("label", idx)),
    }


_cache = {}


def _tasks(mod, tier):
    k = (mod.__name__, tier)
    if k not in _cache:
        _cache[k] = mod.tasks(tier)
    return _cache[k]


def known_findings(root):
    """Entries `KNOWN property=<id> key=<key> <text>` of known_findings.txt."""
    out = {}
    p = os.path.join(root, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(w.split("=", 1) for w in line.split()[1:3])
                out.setdefault(f["property"], {})[f["key"]] = line.split(None, 3)[3]
    return out


def _die_with_parent():
    """A worker never outlives the check."""
    import ctypes

    try:
        ctypes.CDLL(None).prctl(1, 9)  # PR_SET_PDEATHSIG, SIGKILL
    except (OSError, AttributeError):
        pass


def main(prop, tier, root):
    import importlib
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"props.{prop.lower()}")
    tasks = _tasks(mod, tier)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1))
    results = {}
    nproc = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    budget = 840 if tier == "quick" else None
    capped = []
    if nproc == 1 or len(tasks) == 1:
        for i in order:
            results[i] = _call((prop, i, tier))[1]
    else:
        ex = ProcessPoolExecutor(
            max_workers=min(nproc, len(tasks)), mp_context=mp.get_context("fork"), initializer=_die_with_parent
        )
        futs = {ex.submit(_call, (prop, i, tier)): i for i in order}
        try:
            for f in as_completed(futs, timeout=budget):
                i, r = f.result()
                results[i] = r
        except TimeoutError:
            capped = [tasks[i].get("label", i) for i in order if i not in results]
            for p in list(ex._processes.values()):
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)

    known = known_findings(root).get(prop, {})
    tot = dict(runs=0, edges=0, steps=0, states=0, outcomes=0, checked=0)
    skipped, samples, errs, viols, seen_known, notes = {}, [], [], [], {}, []
    per_task, counts = [], {}
    for i in sorted(results):
        r = results[i]
        for k in tot:
            tot[k] += r[k]
        for k, v in r["skipped"].items():
            skipped[k] = skipped.get(k, 0) + v
        if len(samples) < 6:
            samples += r["samples"]
        notes += r["notes"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        if r["err"]:
            errs.append((r["label"], r["err"]))
        for v in r["violations"]:
            if v["key"] is not None and v["key"] in known:
                seen_known.setdefault(v["key"], v)
            else:
                viols.append(dict(v, label=r["label"]))
        per_task.append([r["label"], r["runs"], r["edges"], r["states"], round(r["wall"], 2)])

    cov = {
        "states": tot["states"],
        "transitions": tot["steps"] + tot["edges"],
        "traces_validated_against_impl": tot["runs"],
        "decision_edges": tot["edges"],
        "system_steps": tot["steps"],
        "oracle_evaluations": tot["checked"],
        "distinct_outcomes": tot["outcomes"],
        "tasks": len(tasks),
        "tasks_completed": len(results),
        "exhaustive": not capped and not errs,
        "bounds": getattr(mod, "BOUNDS", ""),
        "skipped": skipped,
        "samples": samples[:6] or ["none"],
        "per_task[label,executions,edges,states,s]": per_task[:400],
    }
    if counts:
        cov["observed"] = dict(sorted(counts.items()))
    if capped:
        cov["capped_tasks_not_completed"] = capped[:50]
    if notes:
        cov["notes"] = sorted(set(notes))[:40]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    with open(os.path.join(root, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)

    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} key={k} {known[k]}")
    print(
        f"{prop} [{tier}] tasks={len(results)}/{len(tasks)} executions={tot['runs']} "
        f"states={tot['states']} transitions={cov['transitions']} oracle={tot['checked']} "
        f"outcomes={tot['outcomes']} skipped={skipped} wall={ev['wall_s']}s"
    )
    if viols:
        d = os.path.join(root, "out")
        os.makedirs(d, exist_ok=True)
        viols.sort(key=lambda v: len(json.dumps(v, default=str)))
        for n, v in enumerate(viols[:3]):
            path = os.path.join(d, f"{prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "tier": tier, **v}, fh, indent=1, default=str)
            print("  " + str(v["what"])[:600])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for lab, e in errs[:3]:
            print(f"ERROR in task {lab}:\n{e}", file=sys.stderr)
        return 2
    if tot["runs"] == 0 and not skipped:
        print("ERROR: nothing was executed", file=sys.stderr)
        return 2
    if capped:
        print(f"note: {len(capped)} tasks not completed within {budget}s (reported as capped)")
    return 0
