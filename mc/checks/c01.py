"""C01: the integration result is the Runge-Kutta recurrence of the tableau."""

from mc import common as cm
from mc.core import close, require_close, digest
from mc.models import ref_run
from mc.omsys import Driver

ID = "C01"
ASSUMPTIONS = [
    "the reference recurrence and the closed-form stage solutions in mc/models.py are right",
    "floating point agreement up to 1e-9 relative counts as equal",
]
T0 = [0.0, -0.7, 2.5]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} runs: all 24 shipped tableaux, every tableau of the 1-3 stage coefficient grids "
            "(4 stages in thorough), 7 model specifications, 5 layouts, step counts 0-5 (0-9), step sizes 0.03-1.5, "
            "3 start times x 4 initial points each (also zero and alternating signs), all checkpointing forward loops")


def cases(tier):
    thorough = tier == "thorough"
    for name in cm.SHIPPED:
        for spec in ("vec_scalar", "mixed"):
            yield dict(tab=name, spec=spec, layout="mono", n=2, dt=0.2, cp="none")
    for spec in cm.SPECS:
        for layout in cm.LAYOUTS:
            for n in ([0, 1, 2, 3, 5] if not thorough else list(range(10))):
                for dt in (0.03, 0.5, 1.5):
                    for tab in (cm.ODD3, "runge_kutta_four") if not thorough else (
                            cm.ODD2, cm.ODD3, cm.ODD3E, cm.ODD4, "runge_kutta_four", "embedded_third_order_four_stage_esdirk"):
                        yield dict(tab=tab, spec=spec, layout=layout, n=n, dt=dt, cp="none")
    for cp in ("all", ["pyrevolve", "Memory", None], ["pyrevolve", "SingleLevel", 2]):
        for n in range(0, 7 if not thorough else 14):
            for tab in ("embedded_second_order_three_stage_esdirk", cm.ODD4):
                yield dict(tab=tab, spec="vec_scalar", layout="mono", n=n, dt=0.3, cp=cp)
    for tab in (cm.ODD2, cm.ODD3E, cm.ODD4) + tuple(cm.SHIPPED):
        yield dict(tab=tab, spec="tensor", layout="split", n=1, dt=0.7, cp="none")
    for tab in cm.grid_tableaux(tier):
        yield dict(tab=tab, spec="scalar_tp", layout="mono", n=2, dt=0.4, cp="none")
        if thorough:
            yield dict(tab=tab, spec="mixed", layout="implicit", n=3, dt=0.25, cp="none")


def run_case(case, rec):
    bt, ref = cm.tableau(case["tab"])
    drv = Driver(cm.SPECS[case["spec"]], bt, n_steps=case["n"], dt=case["dt"], layout=case["layout"],
                 **cm.checkpointing(case["cp"]), **cm.QUIET)
    m = drv.model
    for t0 in T0:
        for variant in (0, 1, -1, -2):
            x0, p = m.x0(variant), m.p0(variant)
            traj = ref_run(ref, m, t0, x0, p, [case["dt"]] * case["n"])
            t, x = drv.compute(t0, x0, p)
            require_close(x, traj[-1][1], "final values differ from the Runge-Kutta recurrence", t0=t0, variant=variant)
            require_close([t], [traj[-1][0]], "final time differs from the Runge-Kutta recurrence", t0=t0)
            rec.state(x, t)
            rec.transition(case["n"] * len(ref["b"]) + 1)
            rec.trace()
            rec.outcome("agree" if close(x, x) else "nonfinite")
