"""C15: quantities never mix: results are equivariant under renaming and reordering."""

import copy
import itertools

import numpy as np

from mc import common as cm
from mc.common import PR, Q
from mc.core import require, require_close
from mc.models import Model, ref_jacobian, ref_run
from mc.omsys import Driver, full_jacobian_fwd, full_jacobian_rev

ID = "C15"
ASSUMPTIONS = ["names of quantities do not collide with the names the integrator derives from other quantities"]
SHAPES = [(6,), (2, 3), (3, 2), (1, 6), (6, 1), (1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 1, 6), (2, 3, 1)]
ONES = [(), (1,), (1, 1)]
NAMES = {"plain": ["x", "y", "z", "w"], "reversed": ["z", "y", "x", "a"], "prefix": ["q", "q1", "q11", "q_"], "roles": ["step_input", "stage_output", "acc", "stage"],
         "final": ["a_final", "a", "b_initial", "b"],
         "suffix": ["b", "ab", "cab", "_b"], "case": ["q", "Q", "qQ", "Qq"]}
PNAMES = {"plain": ["p", "r", "s"], "reversed": ["s", "r", "p"], "prefix": ["par", "par1", "par_1"], "roles": ["independent", "independent_input", "input"],
          "final": ["c_final", "c", "c_initial"], "suffix": ["e", "de", "cde"], "case": ["p", "P", "pP"]}
SPECS = {
    "three": dict(quantities=[Q("0", 2), Q("1", 1), Q("2", 3)], params=[PR("0", 2), PR("1", 1)], time=True),
    "kinds": dict(quantities=[Q("0", 2, kind="out"), Q("1", 2), Q("2", 2)], params=[PR("0", 1), PR("1", 1), PR("2", 1)], time=True),
    "equal": dict(quantities=[Q("0", 1), Q("1", 1), Q("2", 1, kind="out")], params=[PR("0", 1), PR("1", 1)], time=False),
    "four": dict(quantities=[Q("0", 1), Q("1", 2), Q("2", 1), Q("3", 1, 2, kind="out")], params=[PR("0", 2)], time=True),
    "nopar": dict(quantities=[Q("0", 1), Q("1", 1)], params=[], time=False),
}


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations: all permutations of 2-4 requested quantities and 0-3 parameters, all component orders, "
            "7 naming schemes, 10 shapes, single values of 0-2 dimensions for every kind of variable, nestings, explicit/implicit models; complete Jacobians in both modes")


def layouts(n, tier):
    yield from ("mono", "implicit", "nested", "split")
    for perm in itertools.permutations(range(n)):
        s = "".join(map(str, perm))
        yield "perm:" + s
        if n > 1:
            for cut in range(1, n):
                yield "perm:" + s[:cut] + "|" + s[cut:]


def cases(tier):
    full = tier == "thorough"
    for name, spec in SPECS.items():
        nq, npar = len(spec["quantities"]), len(spec["params"])
        for qp in itertools.permutations(range(nq)):
            for pp in itertools.permutations(range(npar)):
                for nm in NAMES:
                    if not full and nq == 4 and nm not in ("plain", "final"):
                        continue
                    yield dict(spec=name, qp=list(qp), pp=list(pp), names=nm, layout="mono", tab="ODD2", shape=None)
        for lay in layouts(nq, tier):
            for qp in itertools.permutations(range(nq)) if full or nq < 3 else (tuple(range(nq)), tuple(range(nq))[::-1]):
                if not full and nq == 4 and "|" in lay:
                    continue
                yield dict(spec=name, qp=list(qp), pp=list(range(npar))[::-1], names="reversed", layout=lay, tab="ODD2", shape=None)
    for s1, s2 in itertools.product(SHAPES, repeat=2):
        if not full and s1 != SHAPES[0] and s2 != SHAPES[1] and s1 != s2:
            continue
        for lay in ("mono", "split", "implicit") if full else ("mono",):
            yield dict(spec="shape", qp=[1, 0], pp=[0], names="plain", layout=lay, tab="ODD3", shape=[list(s1), list(s2)])
    # single values of every number of dimensions, down to none
    for s in itertools.product(ONES, repeat=4):
        for lay in ("mono", "implicit", "split"):
            if full or lay == "mono" or len(set(map(len, s[:3]))) == 1:
                yield dict(spec="ones", qp=[1, 2, 0], pp=[0], names="plain", layout=lay, tab="ODD3", shape=[list(e) for e in s])


def run_case(case, rec):
    if case["spec"] == "shape":
        a, b = case["shape"]
        spec = dict(quantities=[Q("0", *a), Q("1", *b, kind="out")], params=[PR("0", *b)], time=True)
    elif case["spec"] == "ones":
        a, b, c, d = case["shape"]
        spec = dict(quantities=[Q("0", *a), Q("1", *b, kind="out"), Q("2", 2)], params=[PR("0", *c)], time=True, time_shape=d)
    else:
        spec = copy.deepcopy(SPECS[case["spec"]])
    for i, q in enumerate(spec["quantities"]):
        q["name"] = NAMES[case["names"]][i]
    for i, p in enumerate(spec["params"]):
        p["name"] = PNAMES[case["names"]][i]
    bt, ref = cm.tableau(getattr(cm, case["tab"]))
    qn = [spec["quantities"][i]["name"] for i in case["qp"]]
    pn = [spec["params"][i]["name"] for i in case["pp"]]
    drv = Driver(spec, bt, n_steps=2, dt=0.2, layout=case["layout"], quantities=qn, params=pn, **cm.checkpointing("all"), **cm.QUIET)
    m = drv.model
    pt = (0.3, m.x0(0), m.p0(0))
    t, x = drv.compute(*pt)
    dts = [0.2, 0.2]
    require_close(x, ref_run(ref, m, *pt, dts)[-1][1], "final values depend on order, names, nesting or shape")
    J = ref_jacobian(ref, m, *pt, dts)
    require_close(full_jacobian_fwd(drv), J, "forward derivatives depend on order, names, nesting or shape")
    require_close(full_jacobian_rev(drv), J, "reverse derivatives depend on order, names, nesting or shape")
    io = {k: tuple(v["shape"]) for k, v in drv.comp.get_io_metadata(metadata_keys=["shape"]).items()}
    exp = {"time_initial": (1,), "time_final": (1,)}
    for q in spec["quantities"]:
        exp[q["name"] + "_initial"] = exp[q["name"] + "_final"] = tuple(q["shape"])
    for p in spec["params"]:
        exp[p["name"]] = tuple(p["shape"])
    require(io == exp, "interface shapes differ from those of the stage model", got=io, expected=exp)
    rec.state(case["spec"], case["names"], case["layout"], case["shape"], x)
    rec.transition(2 + m.n + m.np + 2 + m.n)
    rec.trace()
    rec.outcome(case["spec"])
