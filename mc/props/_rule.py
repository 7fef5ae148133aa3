"""Shared by the rule-conformance checks: compare an execution with a reference model."""
import numpy as np

from refs import swarm


def conform(model):
    def conformance(t, st, viol, task):
        try:
            r = model(t)
        except swarm.Mismatch as e:
            p = t.opts.get("popsize", 1)
            viol(f"{t.method} {t.opts}: iteration {e.k // p + 1}, candidate {e.k % p}: the rule gives {e.want} but the code evaluated {e.got}")
        except swarm.Ambiguous as e:
            st.skip(f"stopped comparing where a decision depends on rounding: {e}")
        except swarm.Stop:
            p = t.opts.get("popsize", 1)
            viol(f"{t.method} {t.opts}: stopped after {len(t.xs) // p} iterations, the rule goes on")
        else:
            return r

    return conformance


def conform_evo(model):
    base = conform(model)

    def conformance(t, st, viol, task):
        r = base(t, st, viol, task)
        if r is None:
            return
        st.extra = None
        status, x, f, g = r
        if t.res["status"] != status or t.res["nit"] != g:
            viol(f"{t.method} {t.opts}: stopped at iteration {t.res['nit']} with status {t.res['status']}; the rule stops at {g} with status {status}")
            return
        s = max(t.scale, float(np.abs(x).max()))
        if not np.allclose(t.res["x"], x, rtol=0, atol=1e-6 * s):
            viol(f"{t.method} {t.opts}: reported x={t.res['x']}, the best of the last generation is {x}")
        elif not (t.res["fun"] == f or abs(t.res["fun"] - f) <= 1e-6 * max(1.0, abs(f))):
            viol(f"{t.method} {t.opts}: reported fun={t.res['fun']!r}, the (penalized) best of the last generation is {f!r}")

    return conformance
