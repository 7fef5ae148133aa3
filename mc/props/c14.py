import monitors as M
import universe as U
from refs import swarm
from props._rule import conform

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS


def tasks(tier):
    return U.optimizer_tasks(tier, ("na",))


rule = conform(swarm.na)


def run(task, st, tier):
    U.drive(task, st, [rule])
