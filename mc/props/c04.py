import monitors as M
import universe as U
from refs import evo, swarm

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS + ["CMA-ES/VD-CMA: the tests on internal quantities are compared as long as the candidates follow the published update (C15, C16) and the outcome does not depend on rounding"]


def tasks(tier):
    return U.optimizer_tasks(tier)


def documented_tests(t, st, viol, task):
    """cmaes, vdcma: stops exactly when one of the documented tests holds, in their order."""
    model = {"cmaes": evo.cmaes, "vdcma": evo.vdcma}.get(t.method)
    if model is None:
        return
    p = t.opts["popsize"]
    try:
        status, x, f, g = model(t)
    except swarm.Mismatch as e:
        if e.want.dtype.kind == "U":
            viol(f"{t.method} {t.opts}: went on after generation {e.k // p}: {e.want[0]}")
        elif e.got.dtype.kind == "U":
            viol(f"{t.method} {t.opts}: stopped at generation {t.res['nit']} with status {t.res['status']} although no test holds")
        else:
            st.skip("the candidates do not follow the published update")
        return
    except swarm.Ambiguous as e:
        st.skip(f"stopped comparing where a decision depends on rounding: {e}")
        return
    if t.res["status"] != status or t.res["nit"] != g:
        viol(f"{t.method} {t.opts}: stopped at iteration {t.res['nit']} with status {t.res['status']}; the documented tests give iteration {g} and status {status}")


def run(task, st, tier):
    U.drive(task, st, [M.termination, documented_tests])
