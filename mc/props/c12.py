"""DE: every candidate is the published mutation + binomial crossover of the current population."""
from collections import Counter
import itertools

import numpy as np

import monitors as M
import trace as tr
import universe as U
from engine import explore
from props._rule import conform
from refs import swarm
from rng import controlled

BOUNDS = U.OPT_BOUNDS + (
    "; plus the complete tree of random answers (donor permutations x forced coordinates x crossover cells) of one generation"
)
ASSUMPTIONS = U.ASSUMPTIONS

rule = conform(lambda t: swarm.de(t, M.default_sync("de", t.opts)))

NDON = {"rand1bin": 3, "best1bin": 2, "best2bin": 4, "rand2bin": 5}


def tasks(tier):
    T = U.optimizer_tasks(tier, ("de",))
    for upd in ("immediate", "deferred"):
        for strat, p, n, branch, bound, CR in (
            ("best1bin", 3, 2, ("perm", "int", "unit"), None, 0.5),
            ("best1bin", 3, 1, ("perm", "int"), None, 0.1),
            ("best1bin", 4, 2, ("perm",), None, 0.9),
            ("rand1bin", 4, 1, ("perm",), None, 0.5),
            ("rand1bin", 4, 2, ("int", "unit"), None, 0.5),
            ("rand1bin", 4, 3, ("int", "unit"), 3, 0.5),
            ("best2bin", 5, 1, ("perm",), 1, 0.5),
            ("rand2bin", 6, 1, ("perm",), 1, 0.5),
            ("rand2bin", 6, 2, ("perm",), 1, 1.0),
            ("rand1bin", 5, 2, ("perm",), 2 if tier == "thorough" else 1, 1.0),
        ):
            T.append(dict(label=f"random tree {upd} {strat} p={p} n={n} branch={branch} bound={bound}", rng=True, upd=upd, strat=strat, p=p, n=n,
                          branch=branch, bound=bound, CR=CR, weight=30000))
    return T


def run(task, st, tier):
    if task.get("rng"):
        return random_tree(task, st)
    U.drive(task, st, [rule])


def random_tree(task, st):
    p, n, CR, F = task["p"], task["n"], task["CR"], 0.5
    box = U.BOXES["B3"][:n]
    # positions without additive coincidences: distinct donors give distinct mutants
    b = np.array(box, dtype=float)
    x0 = np.array([[b[j, 0] + (b[j, 1] - b[j, 0]) * (np.sqrt((2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61)[i + 6 * j]) % 1.0) for j in range(n)] for i in range(p)])
    for gi in (0, p - 1):  # which individual is the best one
        per_target = [Counter() for _ in range(p)]
        joint = Counter()
        runs = 0

        def one(ctx):
            with controlled(ctx, unit=(0.25, 0.75), branch=task["branch"]):
                # nothing the first generation proposes is accepted: population and best stay put
                return tr.run("de", box, dict(popsize=p, maxiter=2, strategy=task["strat"], mutation=F, recombination=CR, updating=task["upd"], ftol=U.OFF, seed=None),
                              lambda x, k: (-1.0 if k == gi else float(k)) if k < p else 1e6, x0=x0)

        for ctx, t, new in explore(one, task["bound"]):
            runs += 1
            st.runs += 1
            st.edges += new
            st.steps += p
            bad = tr.crash(t)
            if bad or len(t.xs) != 2 * p:
                st.violate(bad or f"de: {len(t.xs)} evaluations in two iterations of {p}", {"task": task, "choices": list(ctx.choices)})
                return
            U_ = [tuple(np.round(x, 7)) for x in t.xs[p:]]
            joint[tuple(U_)] += 1
            for i in range(p):
                per_target[i][U_[i]] += 1
                st.state(i, U_[i])
        st.checked += 1
        # the published distribution of the candidate of each target
        masks_free = "unit" in task["branch"]
        want = []
        for i in range(p):
            c = Counter()
            others = [k for k in range(p) if k != i]
            for d in itertools.permutations(others, NDON[task["strat"]]):
                s = task["strat"]
                if s == "rand1bin":
                    v = x0[d[0]] + F * (x0[d[1]] - x0[d[2]])
                elif s == "best1bin":
                    v = x0[gi] + F * (x0[d[0]] - x0[d[1]])
                elif s == "best2bin":
                    v = x0[gi] + F * (x0[d[0]] + x0[d[1]] - x0[d[2]] - x0[d[3]])
                else:
                    v = x0[d[0]] + F * (x0[d[1]] + x0[d[2]] - x0[d[3]] - x0[d[4]])
                for jr in range(n):
                    cells = itertools.product((0.25, 0.75), repeat=n) if masks_free else [(0.25,) * n]
                    for r in cells:
                        c[tuple(np.round([v[j] if (j == jr or r[j] <= CR) else x0[i][j] for j in range(n)], 7))] += 1
            want.append(c)
        for i in range(p):
            got = per_target[i]
            if task["bound"] is None and "perm" in task["branch"] or task["bound"] is None and not ("perm" in task["branch"]):
                if "perm" not in task["branch"]:
                    # donors are one fixed draw: condition the expected support on what was seen
                    ok = set(got) <= set(want[i]) and len(got) > (1 if masks_free and n > 1 else 0)
                    # proportions of the crossover masks
                    if ok and masks_free:
                        tot = sum(got.values())
                        frm = Counter()
                        for u, k in got.items():
                            for j in range(n):
                                frm[j] += k * (abs(u[j] - x0[i][j]) > 1e-6)
                        exp = (1.0 / n) + (1 - 1.0 / n) * (0.5 if 0.25 <= CR < 0.75 else (1.0 if CR >= 0.75 else 0.0))
                        ok = all(abs(frm[j] / tot - exp) < 1e-9 for j in range(n))
                else:
                    tw, tg = sum(want[i].values()), sum(got.values())
                    ok = set(want[i]) == set(got) and all(want[i][u] * tg == got[u] * tw for u in want[i])
            else:
                ok = set(got) <= set(want[i])
                if ok and task["branch"] == ("perm",):
                    ok = len(set(got)) == len(set(want[i])) or CR < 1 and n > 1
            if not ok:
                st.violate(
                    f"de {task['strat']} {task['upd']} popsize={p} ndim={n} CR={CR}: over all random answers target {i} (best={gi}) gets candidates {sorted(got.items())[:6]} "
                    f"({len(got)} distinct), the rule gives {sorted(want[i].items())[:6]} ({len(want[i])} distinct)", {"task": task, "best": gi, "target": i})
                return
        st.outcomes.add(hash(frozenset(joint)))
        if task["bound"] is None and set(task["branch"]) >= {"perm"}:
            # the targets' draws are independent: the joint distribution is the product
            exp = 1
            for c in per_target:
                exp *= len(c)
            if len(joint) != exp:
                st.violate(f"de {task['strat']} {task['upd']}: {len(joint)} joint outcomes, {exp} expected from independent targets", {"task": task})
                return
    st.sample({"task": task["label"], "joint outcomes": len(joint), "executions": runs})
