import monitors as M
import universe as U
from refs import swarm
from props._rule import conform

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS


def tasks(tier):
    return U.optimizer_tasks(tier, ("pso", "cpso"))


rule = conform(lambda t: swarm.pso(t, M.default_sync(t.method, t.opts), t.opts.get("competitivity", 1.0) if t.method == "cpso" else None))


def run(task, st, tier):
    U.drive(task, st, [rule])
