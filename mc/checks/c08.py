"""C08: the integration stops exactly at the requested step or time."""

from fractions import Fraction
import math

import numpy as np

from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import integral, pid
from rkopenmdao.error_measurer import ErrorMeasurer
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from mc import common as cm
from mc.core import HorizonExceeded, require, require_close
from mc.models import ref_run
from mc.omsys import Driver

ID = "C08"
ASSUMPTIONS = [
    "accumulated rounding errors of the time stay below 1e-9 of the step size (otherwise float time can not tell the steps apart)",
    "final times are multiples of the step size up to such rounding, or at least a millionth of a step away from a multiple",
]
T0 = [0.0, -1.0, 0.1, 7.3, 100.0]
DT = [0.1, 0.01, 1 / 3, 0.7, 0.25, 1e-3, 1e-6]
FRACTIONS = {"quarter": 0.25, "before": 0.985, "after": 0.015, "just_before": 1 - 2e-6, "just_after": 2e-6}
FORMS = ["product", "accumulated", "decimal", *FRACTIONS]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} configurations: 5 start times x 7 step sizes x step counts "
            f"{'1-12,20,37,64' if tier == 'quick' else '1-40,64,100,137,200'} x 8 ways to state the final time; all step counts "
            f"0-{30 if tier == 'quick' else 80} x checkpointing; primal, forward and reverse; adaptive end times")


def counts(tier):
    return list(range(1, 13)) + [20, 37, 64] if tier == "quick" else list(range(1, 41)) + [64, 100, 137, 200]


def cases(tier):
    for t0 in T0:
        for dt in DT:
            yield dict(kind="time", t0=t0, dt=dt, T=t0, modes=True)
            yield dict(kind="time", t0=t0, dt=dt, T=t0 - 3.7 * dt, modes=True)
            for n in counts(tier):
                if (abs(t0) + n * dt) * 2.3e-16 * (n + 2) > 1e-9 * dt:
                    continue  # float time can't resolve this
                for form in FORMS:
                    if form == "product":
                        T = t0 + n * dt
                    elif form == "accumulated":
                        T = t0
                        for _ in range(n):
                            T = T + dt
                    elif form == "decimal":
                        T = float(f"{t0 + n * dt:.11g}")
                        if abs(T - (t0 + n * dt)) > 1e-10 * dt:
                            continue
                    else:
                        T = t0 + (n - 1 + FRACTIONS[form]) * dt
                    yield dict(kind="time", t0=t0, dt=dt, T=T, modes=n in (1, 3, 10) or (tier == "thorough" and n <= 20))
    for n in range(0, 31 if tier == "quick" else 81):
        for cp in ("none", "all", ["pyrevolve", "Memory", None], ["pyrevolve", "SingleLevel", 2], ["pyrevolve", "Disk", None]):
            yield dict(kind="steps", n=n, dt=0.1, t0=0.3, cp=cp)
            if n in (0, 1, 2, 5, 11):
                yield dict(kind="steps", n=n, dt=0.1, t0=-50.0, cp=cp)
    for t0 in T0:
        for span in (0.05, 0.1, 0.3, 1.0, 0.77, 1 / 3, 0.3 + 1e-7, 0.3 - 1e-7, 1e-10):
            for dt in (0.05, 0.1, 0.3, 1 / 3, 2.0):
                for err in (1e-3, 0.5, 1.0, 0.0):
                    for ctrl in ("integral", "pid"):
                        for bounds in ((0.0, None), (0.02, 0.15)):
                            yield dict(kind="adaptive", t0=t0, T=t0 + span, dt=dt, err=err, ctrl=ctrl, bounds=bounds)


class Count(Callback):
    def __init__(self, limit):
        self.n = 0
        self.limit = limit

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.n += 1
        if self.n > self.limit:
            raise HorizonExceeded(f"more than {self.limit} steps")


class Constant(ErrorMeasurer):
    def __init__(self, value):
        self.value = value

    def get_measure(self, state_error_estimate, state, ode):
        return self.value


def callbacks(limit):
    c, f, r = Count(limit), Count(limit), Count(limit)
    return (c, f, r), dict(compute_callbacks=[c], compute_jacvec_product_fwd_callbacks=[f], compute_jacvec_product_rev_callbacks=[r])


def expected_steps(t0, dt, T):
    q = (Fraction(T) - Fraction(t0)) / Fraction(dt)
    if q <= 0:
        return 0
    near = round(q)
    if abs(q - near) < Fraction(1, 10 ** 9):
        return int(near)
    frac = q - math.floor(q)
    assert Fraction(1, 10 ** 6) < frac < 1 - Fraction(1, 10 ** 6), "grid outside of the stated bounds"
    return int(math.ceil(q))


def check_all(drv, cnt, n, t0, dts, ref, rec, modes, cp, tt):
    m = drv.model
    x0, p = m.x0(0), m.p0(0)
    t, x = drv.compute(t0, x0, p)
    require(cnt[0].n == n, "primal run performed a wrong number of steps", got=cnt[0].n, expected=n)
    tr, xr = ref_run(ref, m, t0, x0, p, dts)[-1]
    require(abs(t - tr) <= tt, "final time is not start time plus steps", got=t, expected=tr)
    require_close(x, xr, "final values differ", rtol=1e-9)
    if n == 0:
        require(np.array_equal(x, x0) and t == t0, "no step, but results differ from the initial values", got=x, t=t)
    rec.state(t0, n, t)
    rec.transition(n + 1)
    if modes:
        d = drv.fwd(np.ones(m.n), np.ones(m.np), 1.0)
        require(cnt[1].n == n, "forward run performed a wrong number of steps", got=cnt[1].n, expected=n)
        require(abs(d[-1] - 1.0) < 1e-12, "final time does not depend on the initial time with slope 1", got=d[-1])
        rec.transition(n)
        if cp != "none":
            drv.rev(np.ones(m.n), 0.0)
            require(cnt[2].n == n, "reverse run performed a wrong number of steps", got=cnt[2].n, expected=n)
            rec.transition(n)
    rec.trace()


def run_case(case, rec):
    bt, ref = cm.tableau("explicit_euler")
    if case["kind"] == "time":
        n = expected_steps(case["t0"], case["dt"], case["T"])
        cnt, cb = callbacks(2 * n + 3)
        cp = "all" if case["modes"] else "none"
        drv = Driver(cm.SPECS["scalar_tp"], bt, term=PredefinedFinalTime(case["T"]), dt=case["dt"], **cm.checkpointing(cp), **cb)
        check_all(drv, cnt, n, case["t0"], [case["dt"]] * n, ref, rec, case["modes"], cp, 1e-8 * case["dt"])
        rec.outcome("multiple" if n else "nothing to do")
    elif case["kind"] == "steps":
        n = case["n"]
        cnt, cb = callbacks(10 ** 6)
        drv = Driver(cm.SPECS["scalar_tp"], bt, term=PredefinedNumberOfSteps(n), dt=case["dt"], **cm.checkpointing(case["cp"]), **cb)
        check_all(drv, cnt, n, case["t0"], [case["dt"]] * n, ref, rec, True, case["cp"], 1e-9)
        rec.outcome("steps")
    else:
        cnt, cb = callbacks(400)
        low, up = case["bounds"]
        cfg = ErrorControllerConfig(tol=1.0, lower_bound=low, upper_bound=np.inf if up is None else up, safety_factor=1.0)
        emb, _ = cm.tableau("embedded_heun_euler")
        drv = Driver(cm.SPECS["scalar_tp"], emb, term=PredefinedFinalTime(case["T"]), dt=case["dt"], adaptive=True,
                     error_measurer=Constant(case["err"]), error_controller=[dict(integral=integral, pid=pid)[case["ctrl"]]],
                     error_controller_options=dict(config=cfg), **cm.checkpointing("all"), **cb)
        m = drv.model
        t, x = drv.compute(case["t0"], m.x0(0), m.p0(0))
        n = cnt[0].n
        require(abs(t - case["T"]) <= 1e-9 * max(1.0, abs(case["T"])), "adaptive integration does not end at the final time", got=t, steps=n)
        require(n >= 1, "no step performed")
        drv.fwd(np.ones(m.n), np.ones(m.np), 1.0)
        require(cnt[1].n == n, "forward run takes another number of steps", got=cnt[1].n, expected=n)
        drv.rev(np.ones(m.n), 0.0)
        require(cnt[2].n == n, "reverse run takes another number of steps", got=cnt[2].n, expected=n)
        rec.state(case["t0"], case["T"], n)
        rec.transition(3 * n)
        rec.trace()
        rec.outcome("adaptive")
