import monitors as M
import universe as U

BOUNDS = U.OPT_BOUNDS + "; initial guesses inside, at the corners and outside of the box"
ASSUMPTIONS = U.ASSUMPTIONS


def tasks(tier):
    th = tier == "thorough"
    T = U.optimizer_tasks(tier)
    j = 0
    for box in ("B1", "B2", "B3", "B6"):
        for upd in ("immediate", "deferred"):
            for kind in ("in", "out", "low", "flat", "lin"):
                for m in ("de", "pso", "cpso"):
                    j += 1
                    o = dict(popsize=7, maxiter=6, updating=upd)
                    if m == "de":
                        o.update(constraints="Random", strategy=U._cycle(("best1bin", "rand1bin", "best2bin", "rand2bin"), j), mutation=U._cycle((0.5, 2.0), j), recombination=U._cycle((0.9, 0.1, 0.0), j))
                    else:
                        o.update(constraints="Shrink", inertia=U._cycle((0.7298, 1.0, 0.0), j), cognitivity=U._cycle((1.49618, 4.0, 0.0), j), sociability=U._cycle((1.49618, 4.0), j))
                    T.append(U._mk(m, box, ("dev", kind, 1), "out", **o))
                    if th:
                        T.append(U._mk(m, box, ("dev", kind, 2), "out", **dict(o, maxiter=4)))
    j = 0
    for m in ("cmaes", "vdcma", "na", "de", "pso", "cpso"):
        for box in ("ODD1", "ODD2", "ODD6"):
            if (m == "vdcma") > (box == "ODD6"):
                continue
            for kind in ("lin", "low", "out"):
                for x0 in (None, "corner"):
                    j += 1
                    o = dict(popsize=6, maxiter=6)
                    if m != "na":
                        o["constraints"] = {"de": "Random", "pso": "Shrink", "cpso": "Shrink"}.get(m, "Penalize")
                    if m in ("pso", "cpso"):
                        o.update(inertia=1.0, cognitivity=4.0, sociability=4.0, updating=U._cycle(("immediate", "deferred"), j))
                    if m == "de":
                        o.update(updating=U._cycle(("immediate", "deferred"), j))
                    T.append(U._mk(m, box, ("dev", kind, 2 if th else 1), x0, **o))
    return T


def run(task, st, tier):
    U.drive(task, st, [M.feasible])
