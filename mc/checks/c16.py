"""C16: integration state containers copy completely and never alias.

Two integration states, a dictionary slot and a checkpoint slot are driven through every
sequence of operations up to the bound; the model is one label per slot, and after each
operation every array of every slot is compared with the content its label stands for."""

import copy
import itertools

import numpy as np

from rkopenmdao.checkpoint_interface.runge_kutta_integrator_pyrevolve_classes import RungeKuttaCheckpoint
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState, RungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState

from mc.checks.c06 import EMB, FIELDS, OWN
from mc.core import require

ID = "C16"
ASSUMPTIONS = [
    "a dictionary made by to_dict may refer to the arrays of its state (it is copied here before it is kept)",
    "states have at least one stage",
]
OPS = ["fill a1", "fill a2", "fill b1", "fill b2", "a=b", "b=a", "export a", "export b", "import a", "import b", "save a", "load a",
       "save b", "load b"]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} size combinations x all sequences of up to {2 if tier == 'quick' else 3} of {len(OPS)} operations (up to "
            f"{3 if tier == 'quick' else 4} for the largest sizes); every array of every slot compared after each operation; per field independence both ways")


def cases(tier):
    mx = 3 if tier == "thorough" else 2
    big = 3
    for size, inp, out, stages, lin, emb, hist in itertools.product(
            range(mx + 1), range(mx), range(mx), range(1, mx + 1), range(mx), (False, True), ((0, 0), (1, 2))):
        yield dict(sz=[size, inp, out, stages, lin], emb=emb, hist=list(hist), depth=2 if tier == "quick" else 3)
    for emb in (False, True):
        yield dict(sz=[2, 2, 2, big, 4], emb=emb, hist=[1, 2], depth=3 if tier == "quick" else 4)


def make(case):
    size, inp, out, stages, lin = case["sz"]
    cls = EmbeddedRungeKuttaDiscretizationState if case["emb"] else RungeKuttaDiscretizationState
    d = cls(ode_state_size=size, independent_input_size=inp, independent_output_size=out, number_of_stages=stages,
            linearization_point_size=lin)
    return TimeIntegrationState(d, np.zeros(case["hist"][0]), np.zeros(case["hist"][1]), np.zeros(case["hist"][1]))


def arrays(state):
    d = state.discretization_state
    out = {f: getattr(d, f) for f in FIELDS + (EMB if type(d) is EmbeddedRungeKuttaDiscretizationState else [])}
    out.update({f: getattr(state, f) for f in OWN})
    return out


def content(case, label):
    """Content a label stands for: array per field, all entries different."""
    ref = make(case)
    out = {}
    for i, (name, a) in enumerate(sorted(arrays(ref).items())):
        c = np.zeros(a.shape)
        if label:
            c = (np.arange(a.size).reshape(a.shape) + 1.0) * 0.01 + i + 100.0 * label
            if label == 2 and a.size:
                c.ravel()[-1] = (np.nan, np.inf, -np.inf)[i % 3]
        out[name] = c
    return out


def equal(st, ref, what, **d):
    got = arrays(st)
    for n, r in ref.items():
        require(got[n].shape == r.shape, "array of a state changed its shape", field=n, got=got[n].shape, expected=r.shape, at=what, **d)
        require(np.array_equal(got[n], r, equal_nan=True), "content of a state is not the expected one", field=n, got=got[n], expected=r, at=what, **d)


def run_sequence(case, seq, ref, rec):
    st = {"a": make(case), "b": make(case)}
    cp = {"a": RungeKuttaCheckpoint(st["a"]), "b": RungeKuttaCheckpoint(st["b"])}
    lab = {"a": 0, "b": 0}
    slot = {"d": None, "c": None}
    data = {}
    for k, op in enumerate(seq):
        w, arg = op.split(" ") if " " in op else (op, None)
        if w == "fill":
            s, l = arg[0], int(arg[1])
            for n, a in arrays(st[s]).items():
                a[...] = ref[l][n]
            lab[s] = l
        elif "=" in w:
            x, y = w.split("=")
            st[x].set(st[y])
            lab[x] = lab[y]
        elif w == "export":
            data["d"] = copy.deepcopy(st[arg].to_dict())
            slot["d"] = lab[arg]
        elif w == "import":
            if slot["d"] is None:
                continue
            new = TimeIntegrationState.from_dict(copy.deepcopy(data["d"]))
            require(type(new) is type(st[arg]) and type(new.discretization_state) is type(st[arg].discretization_state),
                    "state created from a dictionary is of another kind", got=type(new.discretization_state).__name__, seq=seq)
            st[arg] = new
            cp[arg] = RungeKuttaCheckpoint(new)
            lab[arg] = slot["d"]
        elif w == "save":
            data["c"] = cp[arg].get_data(k)
            slot["c"] = lab[arg]
        elif w == "load":
            if slot["c"] is None:
                continue
            loc = cp[arg].get_data_location(k)
            require(len(loc) == len(data["c"]), "checkpoint data and locations do not match in number")
            for to, fr in zip(loc, data["c"]):
                require(to.shape == fr.shape, "checkpoint data and locations do not match in shape")
                to[...] = fr
            lab[arg] = slot["c"]
        rec.transition()
        for s in "ab":
            equal(st[s], ref[lab[s]], op, seq=seq, state=s)
            require(cp[s].size == sum(a.size for a in arrays(st[s]).values()), "size of a checkpoint is not that of its state", got=cp[s].size)
        rec.state(case["sz"], case["emb"], case["hist"], lab["a"], lab["b"], slot["d"], slot["c"])
    rec.trace()


def run_case(case, rec):
    ref = {l: content(case, l) for l in (0, 1, 2)}
    for depth in range(1, case["depth"] + 1):
        for seq in itertools.product(OPS, repeat=depth):
            run_sequence(case, list(seq), ref, rec)
    # single fields: a copy carries over a change in just one of them, both stay independent
    for name in ref[0]:
        for idx in np.ndindex(ref[0][name].shape):
            a, b = make(case), make(case)
            arrays(a)[name][idx] = 7.5
            b.set(a)
            want = {n: v.copy() for n, v in ref[0].items()}
            want[name][idx] = 7.5
            equal(b, want, "set", changed=name)
            arrays(a)[name][idx] = 1.25
            equal(b, want, "change of the source", changed=name)
            b.set(a)
            arrays(b)[name][idx] = -2.0
            want[name][idx] = 1.25
            equal(a, want, "change of the copy", changed=name)
            c = TimeIntegrationState.from_dict(copy.deepcopy(a.to_dict()))
            equal(c, want, "export and import", changed=name)
            rec.trace()
    rec.outcome("equal")
