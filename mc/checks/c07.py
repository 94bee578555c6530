"""C07: adaptive steps respect tolerance, bounds and final time.

The error measure of each attempted step is an answer of the environment; all answer
sequences up to a depth are explored on the real integrator (stateless search)."""

import itertools

import numpy as np

from rkopenmdao import error_controllers as ecs
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from mc import common as cm
from mc.adaptive import CONTROLLERS, CONTROLLER_ERRORS, build
from mc.core import require, require_close
from mc.explore import Choices
from mc.omsys import Driver, full_jacobian_fwd, full_jacobian_rev

ID = "C07"
TOL = 1e-3
ANSWERS = [0.0, 0.01, 1.0, 1.2, 1e3]
TAIL = 1e-4
ASSUMPTIONS = [
    "the explored environment answers are error measures 0, 0.01, 1, 1.2 and 1000 times the tolerance; after the depth bound 0.0001",
    "step sizes closer than 1e-9 (relative) to the lower bound may count as being at the bound",
    "an explicit controller error is a legal end of a rejected attempt",
]
RUNS = [  # lower, upper, dt0, n, T, safety
    dict(lower=0.0, upper=None, dt0=0.1, n=3, T=None, safety=0.95),
    dict(lower=0.05, upper=0.2, dt0=0.1, n=4, T=None, safety=0.95),
    dict(lower=0.02, upper=0.1, dt0=0.1, n=None, T=0.25, safety=1.0),
    dict(lower=0.0, upper=0.3, dt0=0.3, n=None, T=0.3, safety=0.9),
    dict(lower=0.1, upper=0.1, dt0=0.1, n=None, T=0.35, safety=0.95),
    dict(lower=0.05, upper=0.4, dt0=1.0, n=None, T=0.7, safety=0.95),
    dict(lower=0.05, upper=0.4, dt0=0.01, n=3, T=None, safety=0.95),
    dict(lower=0.0, upper=None, dt0=5.0, n=None, T=1.0, safety=0.95),
    # fast processes: nothing may depend on the unit of time
    dict(lower=0.0, upper=None, dt0=2e-11, n=3, T=None, safety=0.95),
    dict(lower=1e-12, upper=4e-11, dt0=2e-11, n=None, T=7e-11, safety=0.95),
    dict(lower=3e-7, upper=None, dt0=3.00001e-7, n=2, T=None, safety=0.95),
]
CHAINS = [[c] for c in CONTROLLERS] + [["pid", "integral"], ["h0_321", "h_211"], ["pc", "h0_330"], ["h_211", "pid", "integral"]]


# whole numbers, given in different types; the results are those of the floats
TYPES = [int, np.int64, np.float32, np.int8]
NUMBERS = [
    dict(dt0=1, T=3, tol=1, lower=0, upper=2),
    dict(dt0=1, T=5, tol=None, lower=0, upper=None),
    dict(dt0=2, n=3, tol=None, lower=0, upper=2),
    dict(dt0=1, n=4, tol=1, lower=1, upper=3),
    dict(dt0=3, T=4, tol=None, lower=0, upper=3),
]


def BOUNDS(tier):
    return (f"all answer sequences of length {4 if tier == 'quick' else 5} over 5 error measures (then small errors until the end) for "
            f"{len(list(cases(tier)))} combinations of controller chains, step size bounds, first step sizes, step counts and final times (or of numeric types of these settings)")


def cases(tier):
    depth = 4 if tier == "quick" else 5
    for r, run in enumerate(RUNS):
        for chain in CHAINS:
            for mi in ((1,) if len(chain) > 1 and tier == "quick" else (0, 1, 5) if len(chain) > 1 else (5,)):
                if tier == "quick" and len(chain) == 1 and r in (4, 6, 7) and chain[0] not in ("integral", "pid", "h0_330"):
                    continue
                yield dict(run=r, chain=chain, max_iter=mi, depth=depth)
    for k in range(len(NUMBERS)):
        for chain in CHAINS if tier == "thorough" else [["integral"], ["pid"], ["h_211"], ["h0_321", "h_211"]]:
            yield dict(kind="types", numbers=k, chain=chain)


def judge(mon, run, t0, x0, failed, rec):
    lower, upper, T = run["lower"], np.inf if run["upper"] is None else run["upper"], run["T"]
    t, x = t0, x0
    unit = min(1.0, run["dt0"] * 10)
    eps = 1e-9 * unit
    for k, a in enumerate(mon.attempts):
        info = dict(attempt=k, dt=a.dt, error=a.error, t=a.t, run=run, all_dt=[b.dt for b in mon.attempts][:12],
                    errors=[b.error for b in mon.attempts][:12])
        rec.transition()
        rec.state(round(a.t / unit, 9), round(a.dt / unit, 12), a.error, a.accepted)
        require(abs(a.t - t) <= eps and np.allclose(a.x, x, rtol=1e-12, atol=1e-12), "attempt does not start from the last accepted state", **info)
        require(a.dt > 0 or (T is not None and T - a.t <= 1e-8 * unit), "step size not positive", **info)
        require(a.dt <= upper * (1 + 1e-12) + 1e-14, "attempted step size above the upper bound", **info)
        to_end = T is not None and abs(a.t + a.dt - T) <= 1e-12 * max(unit, abs(T))
        if T is not None:
            require(a.t + a.dt <= T + 1e-12 * max(unit, abs(T)), "attempt reaches beyond the final time", **info)
        require(a.dt >= lower * (1 - 1e-12) or to_end, "attempted step size below the lower bound", **info)
        last = k == len(mon.attempts) - 1
        if last and failed and a.dt < 1e-30:
            rec.outcome("vanishing step size reported")
            continue
        if a.error <= TOL:
            require(a.accepted, "step within the tolerance was not accepted", failed=failed, **info)
        elif a.dt <= lower:
            require(a.accepted, "step at the lower bound was not accepted", failed=failed, **info)
        elif a.dt > lower * (1 + 1e-9):
            require(not a.accepted, "step violating the tolerance was accepted", **info)
        if not a.accepted:
            if last:
                require(failed, "the run ended with a rejected attempt", **info)
            else:
                require(mon.attempts[k + 1].dt < a.dt, "rejected attempt repeated without a smaller step size",
                        next=mon.attempts[k + 1].dt, **info)
        else:
            j = len([b for b in mon.attempts[:k] if b.accepted])
            it, tf, xf = mon.after[j]
            require(abs(tf - (a.t + a.dt)) <= eps, "time after the accepted step is wrong", got=tf, **info)
            t, x = tf, xf
    return t


def numbers_run(numbers, chain, types):
    """All results of an adaptive run with the settings given in these types."""
    v = {k: t(numbers[k]) for k, t in types.items()}
    lim = {k + "_bound": v[k] for k in ("lower", "upper") if k in v}
    config = ErrorControllerConfig(tol=v.get("tol", 0.1), **lim)
    term = PredefinedFinalTime(v["T"]) if "T" in v else PredefinedNumberOfSteps(v["n"])
    drv = Driver(cm.SPECS["scalar_tp"], cm.tableau("embedded_heun_euler")[0], dt=v["dt0"], term=term, adaptive=True, error_controller=[getattr(ecs, c) for c in chain],
                 error_controller_options=dict(config=config), **cm.QUIET, **cm.checkpointing("all"))
    m = drv.model
    t, x = drv.compute(0.0, m.x0(0), m.p0(0))
    return np.concatenate([[t], x, full_jacobian_rev(drv).ravel(), full_jacobian_fwd(drv).ravel()])


def run_types(case, rec):
    numbers = {k: v for k, v in NUMBERS[case["numbers"]].items() if v is not None}
    steps = {k: float for k in numbers if k != "n"}
    if "n" in numbers:
        steps["n"] = int
    try:
        want = numbers_run(numbers, case["chain"], steps)
    except CONTROLLER_ERRORS:
        rec.outcome("controller error")
        return
    for kind in TYPES:
        for chosen in itertools.product((False, True), repeat=len(numbers)):
            types = {k: kind if c else steps[k] for k, c in zip(numbers, chosen)}
            got = numbers_run(numbers, case["chain"], types)
            require_close(got, want, "the result depends on the type of a number", types={k: t.__name__ for k, t in types.items()}, rtol=1e-10, atol=1e-12)
            rec.transition()
            rec.state("types", case["numbers"], case["chain"], kind.__name__, chosen)
    rec.trace()
    rec.outcome("types of numbers")


def run_case(case, rec):
    if case.get("kind") == "types":
        run_types(case, rec)
        return
    run = RUNS[case["run"]]
    ch = Choices(case["depth"])

    def answer(i, a):
        c = ch.choose(i, len(ANSWERS))
        return TOL * (TAIL if c is None else ANSWERS[c])

    kw = {k: run[k] for k in ("lower", "upper", "safety", "dt0", "n", "T")}
    drv, mon, _ = build("embedded_heun_euler", "scalar_tp", case["chain"], answer, tol=TOL, max_iter=case["max_iter"], **kw)
    m = drv.model
    while True:
        ch.begin()
        mon.reset()
        failed = None
        t0, x0 = 0.0, m.x0(0)
        try:
            t, _ = drv.compute(t0, x0, m.p0(0))
        except CONTROLLER_ERRORS as e:
            failed = type(e).__name__
        except RecursionError:
            require(False, "a rejected step is retried without end", path=[TOL * ANSWERS[c] for c in ch.path],
                    last_step_sizes=[a.dt for a in mon.attempts[-3:]])
        tl = judge(mon, run, t0, x0, failed, rec)
        if failed is None:
            n = sum(a.accepted for a in mon.attempts)
            if run["n"] is not None:
                require(n == run["n"], "wrong number of accepted steps", got=n)
            else:
                require(max(abs(t - run["T"]), abs(tl - run["T"])) <= 1e-8 * min(1.0, run["dt0"] * 10), "adaptive run did not end at the final time", got=t)
        rec.trace()
        rec.outcome("failed explicitly" if failed else "completed")
        if not ch.advance():
            break
