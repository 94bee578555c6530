"""C06: checkpointing reverses each step exactly once with its own state.

The checkpointers are driven directly through their interface with an instrumented
step function.  Forward step k maps the state to a full pattern (every array of the
state depends on k, the start state and the initial variant), so the only legal
argument of every call is known, and every call is compared with it."""

import copy
import itertools

import numpy as np

from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState, RungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState

from mc.core import Violation, require

ID = "C06"
ASSUMPTIONS = [
    "the step function may be any deterministic function of step number and state; one that writes every field is used",
    "each forward iteration is preceded by create_checkpointer(), as the interface prescribes",
    "the revolver types Base (abstract) and MultiLevel (documented by the package as broken upstream) are outside the claim",
]
FIELDS = ["start_state", "stage_states", "stage_updates", "final_state", "independent_inputs", "stage_independent_outputs",
          "final_independent_outputs", "start_time", "stage_times", "final_time", "step_size", "linearization_points"]
EMB = ["embedded_state", "error_estimate"]
OWN = ["step_size_suggestion", "step_size_history", "error_history"]
HISTORIES = ["FR", "F", "FFR", "FRFR", "FRFFR", "FFRFR", "FRFRFR"]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations: all step counts 0-{16 if tier == 'quick' else 48} x all strategies x all "
            "checkpoint counts 1..N-1 x plain/embedded states x in-place/fresh step results x aliased/distinct initial state, "
            "all histories of up to three forward/reverse pairs for N <= 6 (10), and long runs up to N = "
            f"{4097 if tier == 'quick' else 32769}")


def strategies(n):
    yield ["all"]
    yield ["none"]
    for typ in ("Memory", "SingleLevel", "Disk"):
        yield ["pyrevolve", typ, None]
        for k in range(1, max(n, 2)):
            yield ["pyrevolve", typ, k]


def cases(tier):
    thorough = tier == "thorough"
    for n in range(0, 17 if not thorough else 49):
        for st in strategies(n):
            yield dict(n=n, st=st, emb=n % 2 == 0, inplace=True, alias=True, hist="FR", term="steps")
    for n in range(0, 7 if not thorough else 11):
        for st in strategies(n):
            for emb, inplace, alias in itertools.product((False, True), repeat=3):
                for hist in HISTORIES:
                    yield dict(n=n, st=st, emb=emb, inplace=inplace, alias=alias, hist=hist, term="steps")
    for n in range(0, 12 if not thorough else 30):
        for st in (["all"], ["none"]):
            for hist in HISTORIES:
                yield dict(n=n, st=st, emb=True, inplace=n % 2 == 1, alias=True, hist=hist, term="time")


    # long runs: sizes around every power of two and ten that bookkeeping could be limited to
    for n in (33, 64, 65, 100, 127, 129, 255, 257, 500, 513, 1000, 1001, 1025, 2049, 4097) + ((8193, 10001, 16385, 32769) if thorough else ()):
        for term in ("steps", "time"):
            for hist in ("FR", "FFR"):
                yield dict(n=n, st=["all"], emb=n % 2 == 0, inplace=True, alias=True, hist=hist, term=term)
        for typ in ("Memory", "SingleLevel") + (("Disk",) if n < 300 else ()):
            for k in [None, 2, 7, 40] + ([n - 1] if n < 300 else []):
                if k != 2 or n <= (130 if thorough else 65):
                    yield dict(n=n, st=["pyrevolve", typ, k], emb=n % 2 == 0, inplace=True, alias=True, hist="FR", term="steps")


def new_state(emb, hist=True):
    cls = EmbeddedRungeKuttaDiscretizationState if emb else RungeKuttaDiscretizationState
    d = cls(ode_state_size=2, independent_input_size=1, independent_output_size=1, number_of_stages=2, linearization_point_size=3)
    if hist:
        return TimeIntegrationState(d, np.zeros(1), np.zeros(2), np.zeros(2))
    return TimeIntegrationState(d, np.zeros(0), np.zeros(0), np.zeros(0))


def arrays(state):
    d = state.discretization_state
    out = {f: getattr(d, f) for f in FIELDS + (EMB if hasattr(d, "embedded_state") else [])}
    out.update({f: getattr(state, f) for f in OWN})
    return out


def fill(state, step, variant):
    """Content after `step` (0: initial) of variant; distinct in every entry."""
    for i, (name, a) in enumerate(sorted(arrays(state).items())):
        a[...] = (np.arange(a.size).reshape(a.shape) + 1) * 0.01 + i + 100.0 * step + 10000.0 * variant
    state.discretization_state.final_time[...] = 0.125 * step + 1.0
    if state.step_size_history.size:
        state.step_size_history[...] = 0.125


def same(state, step, variant):
    ref = copy.deepcopy(state)
    fill(ref, step, variant)
    a, b = arrays(state), arrays(ref)
    return [n for n in a if not np.array_equal(a[n], b[n])]


def adj(seed, k):
    return seed * 0.5 + k


def run_case(case, rec):
    n = case["n"]
    st = case["st"]
    state, pert = new_state(case["emb"]), new_state(case["emb"], hist=False)
    ctx = dict(variant=None, phase=None, log=[])

    def fwd(step, s):
        v = ctx["variant"]
        require(1 <= step <= n, "a forward step outside of 1..N was requested", step=step, N=n, phase=ctx["phase"])
        bad = same(s, step - 1, v)
        require(not bad, "a forward step got a state which is not the state before that step", step=step, fields=bad, phase=ctx["phase"])
        ctx["log"].append((ctx["phase"], step))
        r = s if case["inplace"] else copy.deepcopy(s)
        fill(r, step, v)
        return r

    def rev(step, s, pt):
        v = ctx["variant"]
        require(ctx["phase"] == "R", "reverse step during forward iteration", step=step)
        require(step == ctx["next"], "reverse steps are not N, N-1, ..., 1", got=step, expected=ctx["next"])
        bad = same(s, step, v)
        require(not bad, "reverse step got a state different from the forward state after that step", step=step, fields=bad)
        require(np.array_equal(pt.discretization_state.final_state, ctx["seed"]), "reverse step got a wrong perturbation", step=step,
                got=pt.discretization_state.final_state, expected=ctx["seed"])
        ctx["log"].append(("r", step))
        ctx["next"] -= 1
        ctx["seed"] = adj(ctx["seed"], step)
        r = pt if case["inplace"] else copy.deepcopy(pt)
        r.discretization_state.final_state[:] = ctx["seed"]
        rec.state(case["n"], case["st"], step, tuple(ctx["log"][-3:]))
        return r

    term = PredefinedNumberOfSteps(n) if case["term"] == "steps" else PredefinedFinalTime(1.0 + 0.125 * n)
    cls = {"all": AllCheckpointer, "none": NoCheckpointer, "pyrevolve": PyrevolveCheckpointer}[st[0]]
    opts = {}
    if st[0] == "pyrevolve":
        opts["revolver_type"] = st[1]
        if st[2] is not None:
            opts["revolver_options"] = dict(n_checkpoints=st[2])
    cp = cls(termination_criterion=term, run_step_func=fwd, run_step_jacvec_rev_func=rev, state=state, state_perturbation=pert, **opts)
    for pos, op in enumerate(case["hist"]):
        rec.transition(n + 1)
        if op == "F":
            ctx.update(variant=pos, phase="F", log=[])
            initial = state if case["alias"] else new_state(case["emb"])
            fill(initial, 0, pos)
            if n and initial.step_size_history.size:
                pass
            cp.create_checkpointer()
            out = cp.iterate_forward(initial)
            steps = [s for ph, s in ctx["log"]]
            require(steps == list(range(1, n + 1)), "forward iteration did not perform steps 1..N once and in order", steps=steps)
            bad = same(out, n, pos)
            require(not bad, "forward iteration did not return the state after the last step", fields=bad)
        else:
            seed0 = np.array([1.0, -2.0])
            ctx.update(phase="R", log=[], next=n, seed=seed0.copy())
            seed_state = pert if case["alias"] else new_state(case["emb"], hist=False)
            seed_state.discretization_state.final_state[:] = seed0
            if st[0] == "none":
                try:
                    cp.iterate_reverse(seed_state)
                except NotImplementedError:
                    rec.outcome("refused")
                    continue
                raise Violation("reverse iteration without checkpoints did not refuse")
            out = cp.iterate_reverse(seed_state)
            require(ctx["next"] == 0, "reverse iteration left out steps", remaining=ctx["next"])
            require(np.array_equal(out.discretization_state.final_state, ctx["seed"]), "reverse iteration returned a wrong perturbation")
            rec.count("recomputed_steps", sum(1 for p, _ in ctx["log"] if p == "R"))
    rec.trace()
    rec.outcome("legal")
