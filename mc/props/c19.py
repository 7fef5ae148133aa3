import numpy as np

import samplers as S

BOUNDS = S.BOUNDS
ASSUMPTIONS = S.ASSUMPTIONS


def tasks(tier):
    # moves far below the tolerance of the comparisons belong to C20
    return [t for t in S.tasks(tier) if np.ndim(t["opts"].get("stepsize", 1.0)) or t["opts"].get("stepsize", 1.0) > 1e-7]


def run(task, st, tier):
    S.drive(task, st, [S.reporting])
