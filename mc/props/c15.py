import universe as U
from props._rule import conform_evo
from refs import evo

BOUNDS = U.OPT_BOUNDS
ASSUMPTIONS = U.ASSUMPTIONS + [
    "CMA-ES: the comparison of one execution stops when two eigenvalues coincide (the eigenbasis is then not determined by the algorithm)"
]


def tasks(tier):
    return U.optimizer_tasks(tier, ("cmaes",))


rule = conform_evo(evo.cmaes)


def run(task, st, tier):
    U.drive(task, st, [rule])
