import monitors as M
import universe as U

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS


def tasks(tier):
    return U.optimizer_tasks(tier)


def run(task, st, tier):
    U.drive(task, st, [M.best])
