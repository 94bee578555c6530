"""C04: reverse mode products are the exact transpose, for every checkpointing."""

import numpy as np

from mc import common as cm
from mc.core import Violation, require_close
from mc.models import ref_jacobian, ref_run
from mc.omsys import Driver

ID = "C04"
ASSUMPTIONS = [
    "complex-step differentiation of the reference recurrence is exact to machine precision",
    "floating point agreement up to 1e-8 relative counts as equal",
    "the revolver types Base (abstract) and MultiLevel (documented by the package as broken upstream) are outside the claim",
]
TOL = dict(rtol=1e-8, atol=1e-10)


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} runs with all unit output seeds and one mixed seed: all 24 shipped tableaux, coefficient grids, "
            "7 specifications, 5 layouts, every step count 0-13 (0-40) x all checkpointing types x checkpoint counts")


def strategies(n, thorough):
    yield "all"
    for typ in ("Memory", "SingleLevel", "Disk"):
        yield ["pyrevolve", typ, None]
        for k in range(1, max(2, n)):
            if thorough or k <= 3 or k == n - 1:
                if typ == "SingleLevel" or (typ == "Memory" and (k in (1, n - 1) or thorough)):
                    yield ["pyrevolve", typ, k]


def cases(tier):
    thorough = tier == "thorough"
    for name in cm.SHIPPED:
        yield dict(tab=name, spec="vec_scalar", layout="mono", n=2, dt=0.25, t0=0.6, v=0, cp="all")
    for n in range(0, 14 if not thorough else 41):
        for cp in strategies(n, thorough):
            yield dict(tab=cm.ODD2, spec="scalar_tp", layout="mono", n=n, dt=0.07, t0=0.4, v=1, cp=cp)
    for n in range(0, 6):
        for cp in strategies(n, False):
            yield dict(tab=cm.ODD3, spec="vec_scalar", layout="mono", n=n, dt=0.3, t0=0.4, v=1, cp=cp)
    for spec in cm.SPECS:
        for layout in cm.LAYOUTS:
            for n in ([0, 1, 3] if not thorough else range(7)):
                for dt in (0.1, 1.2) if not thorough else (0.02, 0.1, 0.6, 1.2):
                    for tab in (cm.ODD3,) if not thorough else (cm.ODD2, cm.ODD3, cm.ODD3E, cm.ODD4):
                        yield dict(tab=tab, spec=spec, layout=layout, n=n, dt=dt, t0=-0.4, v=1, cp="all")
    for tab in (cm.ODD2, cm.ODD3E, cm.ODD4) + tuple(cm.SHIPPED):
        yield dict(tab=tab, spec="mixed", layout="split", n=3, dt=0.5, t0=1.5, v=0, cp=["pyrevolve", "SingleLevel", 1])
    for tab in cm.grid_tableaux(tier):
        yield dict(tab=tab, spec="scalar_tp", layout="mono", n=2, dt=0.4, t0=0.3, v=0, cp="all")
    for n in (0, 1, 2):
        yield dict(tab=cm.ODD2, spec="scalar_tp", layout="mono", n=n, dt=0.4, t0=0.3, v=0, cp="none")
    for spec in cm.SPECS:  # everything zero, alternating signs
        for v in (-1, -2):
            for tab in (cm.ODD2, cm.ODD3E, "runge_kutta_four", "embedded_third_order_three_stage_esdirk"):
                for cp in ("all", ["pyrevolve", "Memory", 1]):
                    yield dict(tab=tab, spec=spec, layout="mono", n=2, dt=0.3, t0=0.0, v=v, cp=cp)


def run_case(case, rec):
    bt, ref = cm.tableau(case["tab"])
    drv = Driver(cm.SPECS[case["spec"]], bt, n_steps=case["n"], dt=case["dt"], layout=case["layout"],
                 **cm.checkpointing(case["cp"]), **cm.QUIET)
    m = drv.model
    t0, x0, p = case["t0"], m.x0(case["v"]), m.p0(case["v"])
    dts = [case["dt"]] * case["n"]
    J = ref_jacobian(ref, m, t0, x0, p, dts)
    drv.compute(t0, x0, p)
    if case["cp"] == "none":
        try:
            drv.rev(np.ones(m.n), 0.0)
        except NotImplementedError:
            rec.outcome("refused")
            rec.transition()
            rec.trace()
            return
        raise Violation("reverse mode without checkpoints returned a result instead of refusing")
    N = m.n + 1
    seeds = [("unit", c, np.eye(N)[c]) for c in range(N)]
    seeds.append(("mixed", -1, 0.7 * np.cos(np.arange(N) + 0.3)))
    seeds.append(("scaled", -1, -13.0 * np.cos(np.arange(N) + 0.3)))
    if case["n"] > 8:
        seeds = [seeds[0], seeds[-2]]
    for kind, c, s in seeds:
        d = drv.rev(s[:m.n], s[-1])
        require_close(d, J.T @ s, "reverse product differs from the transposed derivative", seed=kind, entry=c, **TOL)
        rec.state(d, case["cp"])
        rec.transition(case["n"] * len(ref["b"]) + 1)
        rec.trace()
    tn, xn = ref_run(ref, m, t0, x0, p, dts)[-1]
    t2, x2 = drv.get()
    require_close(np.append(x2, t2), np.append(xn, tn), "reverse products changed the primal results")
    rec.outcome("agree")
