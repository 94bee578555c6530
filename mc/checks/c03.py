"""C03: forward mode products are the exact tangent of the integration."""

import numpy as np

from mc import common as cm
from mc.core import require_close
from mc.models import ref_jacobian, ref_run
from mc.omsys import Driver

ID = "C03"
ASSUMPTIONS = [
    "complex-step differentiation of the reference recurrence is exact to machine precision",
    "floating point agreement up to 1e-8 relative counts as equal",
]
TOL = dict(rtol=1e-8, atol=1e-10)


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} runs with all unit seeds and one mixed seed each: all 24 shipped tableaux, coefficient "
            "grids with 1-3 (thorough: 4) stages, 7 specifications, 5 layouts, step counts 0-3 (0-6), start times and points varied")


def cases(tier):
    thorough = tier == "thorough"
    for name in cm.SHIPPED:
        yield dict(tab=name, spec="vec_scalar", layout="mono", n=2, dt=0.25, t0=0.6, v=0)
    for spec in cm.SPECS:
        for layout in cm.LAYOUTS:
            for n in ([0, 1, 3] if not thorough else range(7)):
                for dt in (0.1, 1.2) if not thorough else (0.02, 0.1, 0.6, 1.2):
                    for tab in (cm.ODD3,) if not thorough else (cm.ODD2, cm.ODD3, cm.ODD3E, cm.ODD4):
                        yield dict(tab=tab, spec=spec, layout=layout, n=n, dt=dt, t0=-0.4, v=1)
    for tab in (cm.ODD2, cm.ODD3E, cm.ODD4) + tuple(cm.SHIPPED):
        yield dict(tab=tab, spec="mixed", layout="split", n=1, dt=0.5, t0=1.5, v=0)
    for tab in cm.grid_tableaux(tier):
        yield dict(tab=tab, spec="scalar_tp", layout="mono", n=2, dt=0.4, t0=0.3, v=0)
    for cp in ("all", ["pyrevolve", "Memory", None]):
        for n in (0, 1, 2, 4):
            yield dict(tab=cm.ODD3, spec="vec_scalar", layout="mono", n=n, dt=0.3, t0=0.2, v=1, cp=cp)
    for spec in cm.SPECS:  # everything zero, alternating signs
        for v in (-1, -2):
            for tab in (cm.ODD2, cm.ODD3E, "runge_kutta_four", "embedded_third_order_three_stage_esdirk"):
                yield dict(tab=tab, spec=spec, layout="mono", n=2, dt=0.3, t0=0.0, v=v)


def run_case(case, rec):
    bt, ref = cm.tableau(case["tab"])
    drv = Driver(cm.SPECS[case["spec"]], bt, n_steps=case["n"], dt=case["dt"], layout=case["layout"],
                 **cm.checkpointing(case.get("cp", "none")), **cm.QUIET)
    m = drv.model
    t0, x0, p = case["t0"], m.x0(case["v"]), m.p0(case["v"])
    dts = [case["dt"]] * case["n"]
    J = ref_jacobian(ref, m, t0, x0, p, dts)
    t1, x1 = drv.compute(t0, x0, p)
    N = m.n + m.np + 1
    seeds = [("unit", c, np.eye(N)[c]) for c in range(N)]
    seeds.append(("mixed", -1, 0.7 * np.cos(np.arange(N) + 0.3)))
    seeds.append(("scaled", -1, -13.0 * np.cos(np.arange(N) + 0.3)))
    for kind, c, s in seeds:
        d = drv.fwd(s[:m.n], s[m.n:m.n + m.np], s[-1])
        require_close(d, J @ s, "forward product differs from the tangent of the recurrence", seed=kind, entry=c, **TOL)
        rec.state(d)
        rec.transition(case["n"] * len(ref["b"]) + 1)
        rec.trace()
    tn, xn = ref_run(ref, m, t0, x0, p, dts)[-1]
    t2, x2 = drv.get()
    require_close(np.append(x2, t2), np.append(xn, tn), "forward products changed the primal results")
    require_close(np.append(x1, t1), np.append(xn, tn), "primal result wrong")
    rec.outcome("agree")
