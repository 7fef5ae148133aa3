import samplers as S

BOUNDS = S.BOUNDS
ASSUMPTIONS = S.ASSUMPTIONS


def tasks(tier):
    return S.tasks(tier)


def run(task, st, tier):
    S.drive(task, st, [S.feasible])
