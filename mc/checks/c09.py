"""C09: rejected attempts leave no trace in the result.

All acceptance/rejection patterns to a depth are produced by the error measure (the
environment); final values, times, recorded histories and all derivatives have to be
those of the accepted steps alone."""

import numpy as np

from rkopenmdao.callback import Callback

from mc.adaptive import CONTROLLER_ERRORS, build
from mc import common as cm
from mc.core import require, require_close
from mc.explore import Choices
from mc.models import ref_jacobian, ref_run
from mc.omsys import full_jacobian_fwd, full_jacobian_rev

ID = "C09"
TOL = 1e-3
ASSUMPTIONS = [
    "error measures are a function of time and step size of the attempt, as in every deterministic model",
    "patterns which a controller answers with an explicit error are not part of the claim",
]
CPS = ["none", "all", ["pyrevolve", "SingleLevel", 1], ["pyrevolve", "Memory", None], ["pyrevolve", "Disk", None]]
TABS = ["embedded_heun_euler", "ODD3", "embedded_second_order_three_stage_esdirk", "ODD4", "embedded_runge_kutta_fehlberg"]
CHAINS = [["integral"], ["h_211"], ["pid", "integral"]]
RUNS = [dict(n=3, T=None), dict(n=None, T=0.45), dict(n=1, T=None), dict(n=5, T=None)]


def BOUNDS(tier):
    return (f"all accept/reject patterns of {5 if tier == 'quick' else 8} attempts (then acceptance) for {len(list(cases(tier)))} "
            "combinations of embedded tableaux, stage models, controller chains, checkpointing strategies, step counts and final times; "
            "primal results, histories and complete Jacobians in both modes")


def cases(tier):
    depth = 5 if tier == "quick" else 8
    full = tier == "thorough"
    for tab in TABS:
        for spec in ("scalar_tp", "vec_scalar", "mixed"):
            for cp in CPS:
                for c, chain in enumerate(CHAINS):
                    for r, run in enumerate(RUNS):
                        if run["T"] is not None and isinstance(cp, list):
                            continue  # needs a predefined number of steps
                        if not full and tab != TABS[0] and (spec == "mixed" and tab != "ODD3" or c != 0 or r > 1):
                            continue
                        if not full and tab == TABS[0] and (r == 3 or (spec != "scalar_tp" and c)):
                            continue
                        yield dict(tab=tab, spec=spec, cp=cp, chain=chain, run=r, depth=depth)


class History(Callback):
    def __init__(self):
        self.rows = []

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        s = time_integration_state
        self.rows.append((iteration, float(s.discretization_state.final_time[0]), s.discretization_state.final_state.copy(),
                          s.step_size_history.copy(), s.error_history.copy()))


def run_case(case, rec):
    run = RUNS[case["run"]]
    ch = Choices(case["depth"])
    memo, order = {}, []
    phase = ["primal"]

    def answer(i, a):
        key = (round(a.t, 11), round(a.dt, 12))
        if key not in memo:
            require(phase[0] == "primal", "a derivative run attempts a step the primal run did not", phase=phase[0], attempt=key, known=list(memo))
            c = ch.choose(i, 2)
            memo[key] = TOL * (0.02 if c is None else 6.0 + i if c == 1 else 0.15 + 0.07 * (i % 5))
        return memo[key]

    tab = getattr(cm, case["tab"]) if case["tab"].startswith("ODD") else case["tab"]
    hist = History()
    drv, mon, ref = build(tab, case["spec"], case["chain"], answer, tol=TOL, lower=1e-9, upper=0.4, safety=0.9, max_iter=2, dt0=0.2,
                          n=run["n"], T=run["T"], cp=case["cp"])
    drv.comp.options["compute_callbacks"].append(hist)
    drv.comp.options["compute_jacvec_product_fwd_callbacks"].append(mon)
    m = drv.model
    point = (0.1, m.x0(1), m.p0(1))
    while True:
        ch.begin()
        memo.clear()
        mon.reset()
        hist.rows.clear()
        phase[0] = "primal"
        try:
            t, x = drv.compute(*point)
        except CONTROLLER_ERRORS:
            rec.outcome("failed explicitly")
            if not ch.advance():
                break
            continue
        acc = [a for a in mon.attempts if a.accepted]
        info = dict(pattern=list(ch.path), dts=[a.dt for a in mon.attempts], accepted=[a.accepted for a in mon.attempts])
        # float bookkeeping of the accepted steps, independent of the attempts seen
        dts = [a.dt for a in acc]
        path = ref_run(ref, m, *point, dts)
        require(abs(t - path[-1][0]) < 1e-10, "final time is not start time plus accepted steps", got=t, expected=path[-1][0], **info)
        require_close(x, path[-1][1], "final values differ from those of the accepted steps", **info)
        require(len(hist.rows) == len(acc), "number of completed steps differs from accepted attempts", **info)
        for k, (it, tk, xk, sh, eh) in enumerate(hist.rows):
            require(it == k + 1, "completed step has a wrong number", got=it, **info)
            require(abs(tk - path[k + 1][0]) < 1e-10, "time after a step", step=it, got=tk, **info)
            require_close(xk, path[k + 1][1], "state after a step differs from that of the accepted steps", step=it, **info)
            require_close(sh[:min(2, k + 1)], dts[::-1][len(dts) - k - 1:][:2], "recorded step sizes are not the accepted ones", step=it, **info)
            require_close(eh[:min(2, k + 1)], [a.error for a in acc[:k + 1]][::-1][:2], "recorded errors are not those of the accepted steps",
                          step=it, **info)
            rec.state(case["tab"], case["spec"], round(tk, 9), xk)
        rec.transition(len(mon.attempts))
        rejected = len(acc) < len(mon.attempts)
        J = ref_jacobian(ref, m, *point, dts)
        phase[0] = "forward"
        mon.reset()
        Jf = drv.fwd(np.cos(np.arange(m.n)), np.sin(np.arange(m.np)), 0.7) if ch.path.count(1) not in (0, 1) else None
        seed = np.concatenate([np.cos(np.arange(m.n)), np.sin(np.arange(m.np)), [0.7]])
        if Jf is None:
            Jf = full_jacobian_fwd(drv)
            require_close(Jf, J, "forward derivative is not that of the accepted steps", **info)
        else:
            require_close(Jf, J @ seed, "forward derivative is not that of the accepted steps", **info)
        if case["cp"] != "none":
            phase[0] = "reverse"
            mon.reset()
            if ch.path.count(1) in (0, 1):
                require_close(full_jacobian_rev(drv), J, "reverse derivative is not that of the accepted steps", **info)
            else:
                w = np.cos(1.0 + np.arange(m.n + 1))
                require_close(drv.rev(w[:-1], w[-1]), w @ J, "reverse derivative is not that of the accepted steps", **info)
        rec.trace()
        rec.outcome("with rejections" if rejected else "all accepted")
        if not ch.advance():
            break
