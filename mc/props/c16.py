import universe as U
from props._rule import conform_evo
from refs import evo

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS + [
    "VD-CMA: the comparison stops where a decision depends on rounding"
]


def tasks(tier):
    return U.optimizer_tasks(tier, ("vdcma",))


rule = conform_evo(evo.vdcma)


def run(task, st, tier):
    U.drive(task, st, [rule])
