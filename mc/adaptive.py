"""Adaptive integrations with the error measure as environment, and their monitor."""

import numpy as np

from rkopenmdao import error_controllers as ecs
from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ErrorMeasurer
from rkopenmdao.errors import InnerErrorControllerError, OuterErrorControllerError
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.core import HorizonExceeded
from mc.omsys import Driver

CONTROLLERS = ["integral", "h0_110", "h_211", "h0_211", "pc", "h0_220", "pid", "h_312", "h0_312", "ppid", "h_321", "h0_321", "h0_330"]
CONTROLLER_ERRORS = (OuterErrorControllerError, InnerErrorControllerError)
MAX_ATTEMPTS = 400


class Attempt:
    __slots__ = ("t", "x", "dt", "error", "accepted", "step")

    def __init__(self, t, x, dt):
        self.t, self.x, self.dt = t, x, dt
        self.error = None
        self.accepted = False
        self.step = None


class Monitor(ErrorMeasurer, Callback):
    """Observes attempts (through the stage evaluations), answers error measures by
    script and notes which attempt each completed step ended with."""

    def __init__(self, stages, answer):
        self.stages = stages
        self.answer = answer  # answer(index of attempt, attempt) -> error measure
        self.reset()

    def reset(self):
        self.attempts = []
        self.count = 0
        self.steps = []
        self.after = []

    def observe(self, kind, d):
        if kind != "compute":
            return
        if self.count % self.stages == 0:
            self.attempts.append(Attempt(d["t"], d["x"].copy(), d["dt"]))
            if len(self.attempts) > MAX_ATTEMPTS:
                raise HorizonExceeded(f"more than {MAX_ATTEMPTS} attempts, last step sizes "
                                      f"{[a.dt for a in self.attempts[-3:]]}")
        self.count += 1

    def get_measure(self, state_error_estimate, state, ode):
        a = self.attempts[-1]
        if a.error is None:
            a.error = self.answer(len(self.attempts) - 1, a)
        return a.error

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.attempts[-1].accepted = True
        self.attempts[-1].step = iteration
        d = time_integration_state.discretization_state
        self.after.append((iteration, float(d.final_time[0]), d.final_state.copy()))


def build(tab, spec, chain, answer, *, tol, lower, upper, safety, max_iter, dt0, n=None, T=None, cp="none", layout="mono", **kw):
    bt, ref = cm.tableau(tab)
    mon = Monitor(len(ref["b"]), answer)
    opts = dict(cm.QUIET)
    opts["compute_callbacks"] = [mon]
    opts.update(kw)
    cfg = ErrorControllerConfig(tol=tol, lower_bound=lower, upper_bound=np.inf if upper is None else upper, safety_factor=safety,
                                max_iter=max_iter)
    drv = Driver(cm.SPECS[spec], bt, n_steps=n, term=None if T is None else PredefinedFinalTime(T), dt=dt0, adaptive=True, layout=layout,
                 observer=mon.observe, error_measurer=mon, error_controller=[getattr(ecs, c) for c in chain],
                 error_controller_options=dict(config=cfg), **cm.checkpointing(cp), **opts)
    return drv, mon, ref
