"""C12: callbacks see every step once, in order, with consistent states."""

import contextlib
import io
import itertools
import re
import time

import numpy as np

from rkopenmdao.callback import Callback, WallClockMeasurement
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ErrorMeasurer
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.core import require
from mc.models import ref_run
from mc.omsys import Driver, VecDriver

ID = "C12"
ASSUMPTIONS = [
    "in reverse mode the state passed to callbacks is the forward state the step ended with",
    "callbacks of the primal list are called for steps recomputed from checkpoints and for the preparation of checkpoints",
]
OPS = [["c"], ["f"], ["r"], ["c", "f"], ["c", "r"], ["c", "r", "r"], ["c", "f", "r"], ["c", "c", "r"], ["f", "r", "f"], ["c1", "r"], ["c", "r1", "r"]]
LISTS = [(1, 1, 1), (3, 2, 3), (0, 2, 1), (2, 0, 0)]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations: step counts 0-{7 if tier == 'quick' else 14}, all checkpointing strategies and counts, "
            f"{len(OPS)} operation sequences, callback lists of 0-3 entries, fixed and adaptive with rejections; default callbacks")


def strategies(n):
    yield "none"
    yield "all"
    for typ in ("Memory", "SingleLevel", "Disk"):
        yield ["pyrevolve", typ, None]
        for k in range(1, max(n, 2)):
            yield ["pyrevolve", typ, k]


def cases(tier):
    nmax = 7 if tier == "quick" else 14
    for n in range(0, nmax + 1):
        for cp in strategies(n):
            for ops in OPS:
                if cp == "none" and any(o[0] == "r" for o in ops):
                    continue
                if tier == "quick" and isinstance(cp, list) and cp[2] is not None and len(ops) > 2 and n > 4:
                    continue
                for lists in [x for x in LISTS if x[2] or "r" not in ops] if ops in (["c", "r"], ["c", "f"]) else (LISTS[1],):
                    for adaptive in (False, True) if lists == LISTS[1] else (False,):
                        yield dict(n=n, cp=cp, ops=ops, lists=list(lists), adaptive=adaptive)
    for n in (0, 1, 4):
        for cp in ("none", "all"):
            yield dict(n=n, cp=cp, ops=["default"], lists=[0, 0, 0], adaptive=False)
            yield dict(n=n, cp=cp, ops=["clock"], lists=[0, 0, 0], adaptive=False)


class Spy(Callback):
    def __init__(self, log, mode, idx, env):
        self.log, self.mode, self.idx, self.env = log, mode, idx, env

    def _note(self, when, it, s, ode, scheme):
        d = s.discretization_state
        require(ode is not None and ode.get_state_size() == self.env["n"], "callback got a wrong ODE")
        require(scheme.butcher_tableau is self.env["bt"], "callback got a wrong discretization")
        self.log.append((self.mode, self.idx, when, it, float(d.final_time[0]), d.final_state.copy(), float(d.start_time[0]), d.start_state.copy(),
                         float(s.step_size_history[0])))

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self._note("before", iteration, time_integration_state, ode, discretization_scheme)

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self._note("after", iteration, time_integration_state, ode, discretization_scheme)


class Pattern(ErrorMeasurer):
    """Rejects attempts with a step size above 0.25, a deterministic function of the step."""

    def __init__(self, env):
        self.env = env

    def get_measure(self, state_error_estimate, state, ode):
        dt = self.env["dt"]
        return 20.0 if dt > 0.25 else 0.3 if dt > 0.1 else 0.01


def near(a, b):
    return np.allclose(a, b, rtol=1e-10, atol=1e-12)


def consume(log, pos, mode, count, when, k, t, x, start=None, dt=None):
    """The callbacks of one list for one event, in order of the list."""
    for i in range(count):
        require(pos < len(log), "a callback was not called", mode=mode, when=when, step=k, callback=i)
        e = log[pos]
        require(e[:4] == (mode, i, when, k), "callbacks are called in a wrong order or for a wrong step", got=e[:4], expected=(mode, i, when, k),
                preceding=[v[:4] for v in log[max(0, pos - 6):pos]])
        require(near(e[4], t) and near(e[5], x), "callback sees a wrong state", mode=mode, when=when, step=k, time=e[4], expected_time=t,
                state=e[5], expected=x)
        if start is not None:
            require(near(e[6], start[0]) and near(e[7], start[1]), "callback sees a wrong start of the step", mode=mode, when=when, step=k)
            require(near(e[8], dt), "callback sees a wrong step size", mode=mode, when=when, step=k, got=e[8], expected=dt)
        pos += 1
    return pos


def one_step(log, pos, mode, count, k, path, dts):
    pos = consume(log, pos, mode, count, "before", k, *path[k - 1])
    return consume(log, pos, mode, count, "after", k, *path[k], start=path[k - 1], dt=dts[k - 1])


def run_default(case, rec):
    bt, _ = cm.tableau(cm.ODD2)
    n = case["n"]
    drv = Driver(cm.SPECS["scalar_tp"], bt, n_steps=n, dt=0.1, **cm.checkpointing(case["cp"]))
    m = drv.model
    for op, name, order in (("c", "compute", range(1, n + 1)), ("f", "compute_jacvec_product_fwd", range(1, n + 1)),
                            ("r", "compute_jacvec_product_rev", range(n, 0, -1))):
        if op == "r" and case["cp"] == "none":
            continue
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if op == "c":
                drv.compute(0.0, m.x0(0), m.p0(0))
            elif op == "f":
                drv.fwd(np.ones(m.n), np.ones(m.np), 1.0)
                drv_text = buf.getvalue()
            else:
                drv.compute(0.0, m.x0(0), m.p0(0))
                buf.truncate(0)
                buf.seek(0)
                drv.rev(np.ones(m.n), 1.0)
        lines = [s.strip() for s in buf.getvalue().splitlines() if "step <" in s]
        exp = [f"{w} step <{k}> of {name}." for k in order for w in ("Starting", "Finishing")]
        require(lines == exp, "default logging does not report each step once and in order", op=op, got=lines[:20], expected=exp[:20])
        took = [s for s in buf.getvalue().splitlines() if "Iteration took" in s]
        require(len(took) == n, "default time measurement does not report each step once", got=len(took))
        rec.transition(n + 1)
        rec.state(name, n, case["cp"])
    rec.trace()
    rec.outcome("default")


class Bracket(Callback):
    """Reads the clock around each step."""

    def __init__(self):
        self.before, self.after = [], []

    def before_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.before.append(time.perf_counter())

    def after_iteration(self, iteration, time_integration_state, ode, discretization_scheme):
        self.after.append(time.perf_counter())


def run_clock(case, rec):
    """The time measurement of the package lies between the times measured within and around it."""
    bt, _ = cm.tableau(cm.ODD2)
    n = case["n"]
    lists = {}
    for op in "cfr":
        lists[op] = [Bracket(), WallClockMeasurement(), Bracket()]
    drv = Driver(cm.SPECS["scalar_tp"], bt, n_steps=n, dt=0.1, compute_callbacks=lists["c"], compute_jacvec_product_fwd_callbacks=lists["f"],
                 compute_jacvec_product_rev_callbacks=lists["r"], **cm.checkpointing(case["cp"]))
    m = drv.model
    for op in "cfr":
        if op == "r" and case["cp"] == "none":
            continue
        if op == "r":
            with contextlib.redirect_stdout(io.StringIO()):
                drv.compute(0.0, m.x0(0), m.p0(0))
        for b in lists[op][::2]:
            b.before, b.after = [], []
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if op == "c":
                drv.compute(0.0, m.x0(0), m.p0(0))
            elif op == "f":
                drv.fwd(np.ones(m.n), np.ones(m.np), 1.0)
            else:
                drv.rev(np.ones(m.n), 1.0)
        got = [float(v) for v in re.findall(r"([-+0-9.eE]+) seconds", buf.getvalue())]
        first, last = lists[op][0], lists[op][2]
        require(len(got) == len(first.before) == len(last.after) == n, "time measurement does not report each step once", op=op, got=len(got), steps=n)
        for k in range(n):
            inner, outer = first.after[k] - last.before[k], last.after[k] - first.before[k]
            require(inner - 1e-9 <= got[k] <= outer + 1e-9, "time measurement reports a wrong duration", op=op, step=k, got=got[k], least=inner, most=outer)
        rec.transition(n + 1)
        rec.state("clock", op, n, case["cp"])
    rec.trace()
    rec.outcome("clock")


def run_case(case, rec):
    if case["ops"] == ["default"]:
        return run_default(case, rec)
    if case["ops"] == ["clock"]:
        return run_clock(case, rec)
    n, counts = case["n"], case["lists"]
    bt, ref = cm.tableau("embedded_heun_euler") if case["adaptive"] else cm.tableau(cm.ODD2)
    log = []
    env = dict(bt=bt)
    spies = {mode: [Spy(log, mode, i, env) for i in range(c)] for mode, c in zip("cfr", counts)}
    opts = dict(compute_callbacks=spies["c"], compute_jacvec_product_fwd_callbacks=spies["f"], compute_jacvec_product_rev_callbacks=spies["r"])
    opts.update(cm.checkpointing(case["cp"]))
    attempts = []

    def observe(kind, d):
        env["dt"] = d["dt"]
        if kind == "compute":
            attempts.append(d["dt"])

    if case["adaptive"]:
        opts.update(adaptive=True, error_measurer=Pattern(env), error_controller=[integral],
                    error_controller_options=dict(config=ErrorControllerConfig(tol=1.0, safety_factor=0.9)), observer=observe)
    drv = VecDriver(cm.SPECS["vec_scalar"], bt, n_steps=n, dt=0.3 if case["adaptive"] else 0.1, **opts)
    m = drv.model
    env["n"] = m.n
    points = {"": (0.2, m.x0(0), m.p0(0)), "1": (0.4, m.x0(1), m.p0(0))}
    paths = {}

    def reference(key):
        """Accepted step sizes follow from the control law and the step size dependent errors."""
        if key not in paths:
            dts = [0.1] * n
            if case["adaptive"]:
                dts, dt, p = [], 0.3, bt.min_p_order()
                for _ in range(n):
                    while True:
                        e = 20.0 if dt > 0.25 else 0.3 if dt > 0.1 else 0.01
                        new = 0.9 * dt * (1.0 / e) ** (1 / (1 + p))
                        if e <= 1.0:
                            dts.append(dt)
                            dt = new
                            break
                        dt = new
            paths[key] = (ref_run(ref, m, *points[key], dts), dts)
        return paths[key]

    cached = None
    for op in case["ops"]:
        kind, key = op[0], op[1:]
        path, dts = reference(key)
        log.clear()
        if kind == "c":
            drv.compute(*points[key])
        elif kind == "f":
            drv.fwd_at(points[key], np.ones(m.n + m.np + 1))
        else:
            drv.rev_at(points[key], np.ones(m.n + 1))
        pos = 0
        if kind in "cf":
            for k in range(1, n + 1):
                pos = one_step(log, pos, kind, counts["cf".index(kind)], k, path, dts)
            cached = key if kind == "c" else None
        else:
            if cached != key:
                # the checkpoints have to be prepared at this point first
                for k in range(1, n + 1):
                    pos = one_step(log, pos, "c", counts[0], k, path, dts)
            for k in range(n, 0, -1):
                last = None
                while pos < len(log) and log[pos][0] == "c" and counts[0]:
                    # steps recomputed from a checkpoint, up to the step to be reversed at most
                    kk = log[pos][3]
                    require(1 <= kk <= k and (last is None or kk == last + 1), "recomputed steps are numbered wrongly", step=kk, reversing=k, last=last)
                    pos = one_step(log, pos, "c", counts[0], kk, path, dts)
                    last = kk
                    rec.count("recomputed_steps")
                    if kk == k:
                        last = None
                pos = consume(log, pos, "r", counts[2], "before", k, *path[k], start=path[k - 1], dt=dts[k - 1])
                pos = consume(log, pos, "r", counts[2], "after", k, *path[k], start=path[k - 1], dt=dts[k - 1])
            cached = None
        require(pos == len(log), "additional callbacks were called", extra=[e[:4] for e in log[pos:pos + 6]], op=op)
        rec.transition(len(log) + 1)
        rec.state(n, case["cp"], op, [e[:4] for e in log][-8:])
    rec.trace()
    rec.outcome("adaptive" if case["adaptive"] else "fixed")
