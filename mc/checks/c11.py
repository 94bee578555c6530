"""C11: derivatives of adaptive runs differentiate exactly the accepted steps.

Real error measures; the accepted steps of the primal, forward and reverse run are
observed by callbacks and compared; the complete Jacobians of both modes are compared
with the reference over those steps."""

import itertools

import numpy as np

from rkopenmdao import error_controllers as ecs
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.adaptive import CONTROLLERS, CONTROLLER_ERRORS
from mc.core import HorizonExceeded, require, require_close
from mc.models import ref_jacobian, ref_run, ref_step
from mc.omsys import Driver, full_jacobian_fwd, full_jacobian_rev

ID = "C11"
ASSUMPTIONS = [
    "the step sizes are held fixed in the derivative, as the package documents",
    "settings which a controller answers with an explicit error are not part of the claim",
]
LIMIT = 150


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations of embedded tableaux, stage models and layouts, controllers and chains, tolerances, "
            "bounds, first step sizes, final times or step counts, error measures and checkpointing strategies; complete Jacobians")


CPS = ["none", "all", ["pyrevolve", "SingleLevel", 1], ["pyrevolve", "SingleLevel", 2], ["pyrevolve", "Memory", None], ["pyrevolve", "Disk", None]]
CHAINS = [["pid", "integral"], ["h0_321", "h_211"], ["h0_330", "pc", "integral"]]


def cases(tier):
    full = tier == "thorough"
    base = dict(tab="embedded_heun_euler", spec="scalar_tp", chain=["integral"], tol=1e-2, dt0=0.3, n=4, T=None, meas="simple", cp="all",
                low=0.0, layout="mono")
    for chain in [[c] for c in CONTROLLERS] + CHAINS:
        for tol, dt0 in itertools.product((1e-1, 1e-2, 1e-3) if not full else (1e-1, 1e-2, 1e-3, 1e-4), (0.02, 0.3, 2.0)):
            for meas in ("simple", "improved"):
                for n, T, cp in ((4, None, "all"), (None, 0.8, "all"), (5, None, ["pyrevolve", "SingleLevel", 1]), (3, None, ["pyrevolve", "Memory", None])):
                    if not full and meas == "improved" and (n != 4 or tol != 1e-2):
                        continue
                    yield dict(base, chain=chain, tol=tol, dt0=dt0, meas=meas, n=n, T=T, cp=cp, low=6e-3 if T else 0.0)
    for tab in cm.EMBEDDED + ["ODD3E", "ODD3", "ODD4"]:
        for spec in ("vec_scalar", "mixed") if not full else ("vec_scalar", "mixed", "tensor", "outs", "scalar"):
            for cp in CPS if full else ("all", ["pyrevolve", "SingleLevel", 1]):
                for n, T in ((3, None), (None, 0.7)) if not isinstance(cp, list) else ((3, None),):
                    for chain in (["integral"], ["pid", "integral"]) if full else (["integral"],):
                        yield dict(base, tab=tab, spec=spec, cp=cp, n=n, T=T, chain=chain, tol=1e-3, dt0=0.8, low=6e-3)
    for n in range(1, 9 if not full else 16):
        for cp in CPS:
            yield dict(base, n=n, cp=cp, tol=1e-3, chain=["h_211"])
    for layout in cm.LAYOUTS:  # an equilibrium: nothing but the step size changes between the steps
        for tab in ("embedded_heun_euler", "embedded_third_order_three_stage_sdirk1", "ODD4"):
            yield dict(base, spec="rest", tab=tab, layout=layout, n=None, T=0.7)
    for layout in cm.LAYOUTS:
        for cp in ("all", ["pyrevolve", "SingleLevel", 2]):
            yield dict(base, spec="mixed", layout=layout, cp=cp, tol=1e-3, dt0=0.8)


class Steps(Callback):
    def __init__(self):
        self.reset()

    def reset(self):
        self.rows = []

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        s = time_integration_state
        self.rows.append((iteration, float(s.discretization_state.final_time[0]), float(s.step_size_history[0]), s.discretization_state.final_state.copy()))
        if len(self.rows) > 40 * LIMIT:
            raise HorizonExceeded("endless adaptive integration")


def agree(r, e):
    return r[0] == e[0] and abs(r[1] - e[1]) < 1e-10 and abs(r[2] - e[2]) < 1e-10 and np.allclose(r[3], e[3], rtol=1e-10, atol=1e-12)


def run_case(case, rec):
    bt, ref = cm.tableau(getattr(cm, case["tab"]) if case["tab"].startswith("ODD") else case["tab"])
    cfg = ErrorControllerConfig(tol=case["tol"], lower_bound=case["low"], upper_bound=2.5, max_iter=2)
    prim, fwd, rev = Steps(), Steps(), Steps()
    meas = SimpleErrorMeasurer() if case["meas"] == "simple" else ImprovedErrorMeasurer(eta=1e-3, eps=1e-2)
    drv = Driver(cm.SPECS[case["spec"]], bt, n_steps=case["n"], term=None if case["T"] is None else PredefinedFinalTime(case["T"]),
                 dt=case["dt0"], adaptive=True, layout=case["layout"], error_measurer=meas,
                 error_controller=[getattr(ecs, c) for c in case["chain"]], error_controller_options=dict(config=cfg),
                 compute_callbacks=[prim], compute_jacvec_product_fwd_callbacks=[fwd], compute_jacvec_product_rev_callbacks=[rev],
                 **cm.checkpointing(case["cp"]))
    m = drv.model
    point = (0.05, m.x0(2), m.p0(2))
    try:
        t, x = drv.compute(*point)
    except CONTROLLER_ERRORS:
        rec.outcome("failed explicitly")
        return
    steps = list(prim.rows)
    ts = [point[0]] + [r[1] for r in steps]
    dts = [r[2] for r in steps]
    info = dict(dts=dts[:12], n=len(dts))
    require_close(np.diff(ts), dts, "recorded step sizes are not the differences of the times", rtol=1e-7, **info)
    require_close(x, ref_run(ref, m, *point, dts)[-1][1], "final values are not those of the accepted steps", **info)
    # accepted steps satisfy the tolerance in terms of the reference error (or sit at the lower bound)
    tt, xx = point[0], point[1]
    for k, dt in enumerate(dts):
        new, _, emb = ref_step(ref, m, tt, xx, point[2], dt)
        e = np.linalg.norm(new - emb)
        if case["meas"] == "improved":
            e = e / (np.linalg.norm(new) + 0.1)
        require(e <= case["tol"] * (1 + 1e-7) or dt <= case["low"] + 1e-9, "accepted step violates the tolerance", step=k + 1, error=e, **info)
        tt, xx = tt + dt, new
        rec.state(case["tab"], case["spec"], round(tt, 8), xx)
    rec.transition(len(dts))
    if len(dts) > LIMIT:
        rec.outcome("more than 150 steps, primal only")
        return
    J = ref_jacobian(ref, m, *point, dts)
    N = m.n + m.np + 1
    require_close(full_jacobian_fwd(drv), J, "forward derivative is not that of the accepted steps", **info)
    require(len(fwd.rows) == N * len(steps), "forward runs take another number of steps", got=len(fwd.rows), expected=N * len(steps))
    for k, r in enumerate(fwd.rows):
        e = steps[k % len(steps)]
        require(agree(r, e), "forward run takes other steps than the primal run", got=r[:3], expected=e[:3])
    if case["cp"] != "none":
        require_close(full_jacobian_rev(drv), J, "reverse derivative is not that of the accepted steps", **info)
        require(len(rev.rows) == (m.n + 1) * len(steps), "reverse runs take another number of steps", got=len(rev.rows))
        for k, r in enumerate(rev.rows):
            e = steps[len(steps) - 1 - k % len(steps)]
            require(agree(r, e), "reverse run takes other steps than the primal run", got=r[:3], expected=e[:3])
    rec.trace()
    rec.outcome("completed")
