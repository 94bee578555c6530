"""C14: tags are either interpreted correctly or rejected at setup.

Every assignment of tag sets (from a finite alphabet) to the variables of small stage
models, for every requested quantity list; a reference classifier decides which must be
accepted; accepted ones are evaluated to see which variable plays which role."""

import itertools

import numpy as np
import openmdao.api as om

from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

from mc import common as cm
from mc.core import require, require_close

ID = "C14"
ASSUMPTIONS = [
    "any exception raised by the setup counts as rejection",
    "variables tagged with a quantity but without a role may be ignored or rejected",
]
S, A, O, I, T = "step_input_var", "accumulated_stage_var", "stage_output_var", "time_independent_input_var", "time_variable"
IN = {
    "-": (), "x": ("x",), "xs": ("x", S), "xa": ("x", A), "ys": ("y", S), "ya": ("y", A), "pi": ("p", I), "p": ("p",), "t": (T,), "tv": (T,), "tr": (T,), "tc": (T,), "t11": (T,),
    "xys": ("x", "y", S), "xo": ("x", O), "xpsi": ("x", "p", S, I), "xsa": ("x", S, A), "ri": ("r", I), "s": (S,), "pri": ("p", "r", I),
    "u": ("unrelated",),
}
OUT = {
    "-": (), "xo": ("x", O), "yo": ("y", O), "x": ("x",), "xyo": ("x", "y", O), "xs": ("x", S), "xos": ("x", O, S), "pi": ("p", I), "o": (O,),
    "xou": ("x", O, "unrelated"), "xpo": ("x", "p", O, I),
}
REQ = [(["x"], []), (["x"], ["p"]), (["x", "y"], []), (["y", "x"], ["p"]), (["x"], ["p", "r"]), (["y"], ["r", "p"])]
TIME_SHAPES = {"tv": (2,), "tr": (1, 2), "tc": (2, 1), "t11": (1, 1)}  # only the last is one number
SHAPE = {"x": (2,), "y": (1,), "p": (3,), "r": (1, 2)}
# variables of a quantity with other shapes, of the same size or not
OWN_SHAPES = {"xs2": (1, 2), "xs3": (2, 1), "xs4": (1,), "xs5": (3,), "xs6": (4, 2), "xa2": (2, 1), "xa3": (1, 1, 2), "xa4": (1,), "xa5": (5,), "xa6": (3, 2),
              "ys2": (1, 1), "ys4": (2,), "ya2": (1, 1), "ya4": (4,)}
IN.update({k: IN[k[:2]] for k in OWN_SHAPES})


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} tag assignments ({len(IN)} input and {len(OUT)} output tag sets; up to "
            f"{'2 inputs + 2 outputs, 3 to 6 inputs of a reduced alphabet' if tier == 'quick' else '3 inputs + 2 outputs, 4 to 6 inputs of a reduced alphabet'}) "
            f"x {len(REQ)} request lists x 2 nestings; other shapes of the inputs of a quantity; shared, computed, partial, permuted, unit converted and own sources of the inputs")


GOOD = ["xs", "xa", "ys", "ya", "pi", "t"]


def cases(tier):
    ins = [k for k in IN if k not in OWN_SHAPES]
    outs = list(OUT)
    pairs = [(a, b) for a in outs for b in outs]
    for o in outs:
        yield dict(ins=[], outs=[o])
    for i in ins:
        for o in outs:
            yield dict(ins=[i], outs=[o])
    # two inputs with everything else
    for combo in itertools.product(ins, repeat=2):
        for o in ("xo", "xyo", "xou", "yo") if tier == "quick" else outs:
            yield dict(ins=list(combo), outs=[o])
    for combo in itertools.combinations_with_replacement(ins, 2):
        for o in itertools.combinations_with_replacement(outs, 2):
            if tier == "thorough" or combo in (("xs", "xa"), ("-", "-"), ("ys", "ya"), ("x", "t"), ("pi", "ri")):
                yield dict(ins=list(combo), outs=list(o))
    # a complete quantity and one or two further variables
    for extra in itertools.product(ins, repeat=2):
        for o in (("xo", "yo"),) if tier == "quick" else (("xo", "yo"), ("xo",), ("yo", "xo"), ("xo", "-"), ("xo", "o")):
            yield dict(ins=["xs", "xa"] + list(extra), outs=list(o))
    for extra in itertools.combinations_with_replacement(ins, 3) if tier == "thorough" else [(e, "ri", "pi") for e in ins]:
        yield dict(ins=["xs", "xa"] + list(extra), outs=["xo", "yo"])
    # all orders of complete models and all single omissions and duplications
    for n in range(0, 7):
        for combo in itertools.combinations(GOOD, n):
            perms = itertools.permutations(combo) if tier == "thorough" and n < 6 else (combo, combo[::-1])
            for perm in perms:
                yield dict(ins=list(perm), outs=["xo", "yo"])
                yield dict(ins=list(perm), outs=["yo", "xo"])
    for st, ac in itertools.product(("xs", "xs2", "xs3", "xs4", "xs5", "xs6"), ("xa", "xa2", "xa3", "xa4", "xa5", "xa6")):
        for front in ([], ["ys", "ya"]):
            for back in (["t"], ["pi", "ys2", "ya2"]) if not front else ([],):
                yield dict(ins=front + [st, ac] + back, outs=["xo", "yo"])
                yield dict(ins=[ac] + front + [st] + back, outs=["xo"])
    for st, ac in itertools.product(("ys", "ys2", "ys4"), ("ya", "ya2", "ya4")):
        yield dict(ins=[st, ac], outs=["yo"])
        yield dict(ins=["xa2", st, "t", ac, "xs"], outs=["yo", "xo"])
    for dup in GOOD:
        yield dict(ins=GOOD + [dup], outs=["xo", "yo"])
    yield from wirings(tier)


WIRED = ["xs", "xa", "ys", "ya", "pi", "t", "-", "x", "p", "ri", "u"]


def wirings(tier):
    """Correctly tagged models whose inputs get their values from elsewhere."""
    shapes = [shape_of(k, IN[k], list(SHAPE)) for k in WIRED]
    for front in (0, 4) if tier == "quick" else range(len(WIRED)):
        ins = WIRED[front:] + WIRED[:front]
        shp = shapes[front:] + shapes[:front]
        for i in range(len(ins)):
            for kind in ("computed", "ivc", "same", "units", "alias"):
                yield dict(ins=ins, outs=["xo", "yo"], wire=[kind, i])
            for kind in ("perm", "ident", "part"):
                if np.prod(shp[i]) > 1 or kind != "perm":
                    yield dict(ins=ins, outs=["xo", "yo"], wire=[kind, i])
            for j in range(i):
                if shp[i] == shp[j]:
                    yield dict(ins=ins, outs=["xo", "yo"], wire=["share", i, j])
                    yield dict(ins=ins, outs=["xo", "yo"], wire=["sharedivc", i, j])


def shape_of(key, tags, names):
    if key in OWN_SHAPES:
        return OWN_SHAPES[key]
    if key in TIME_SHAPES:
        return TIME_SHAPES[key]
    for q in names:
        if q in tags:
            return SHAPE[q]
    return (1,)


class Stage(om.ExplicitComponent):
    """out_k = w_k + sum_i c_ki * sum(weights * in_i), unlike for all pairs."""

    def initialize(self):
        self.options.declare("ins")
        self.options.declare("outs")
        self.options.declare("names")
        self.options.declare("units", default={})

    def setup(self):
        for k, key in enumerate(self.options["ins"]):
            self.add_input(f"i{k}", shape=shape_of(key, IN[key], self.options["names"]), val=0.25 + 0.5 * k, tags=list(IN[key]) or None,
                           units=self.options["units"].get(k))
        for k, key in enumerate(self.options["outs"]):
            self.add_output(f"o{k}", shape=shape_of(key, OUT[key], self.options["names"]), val=0.1, tags=list(OUT[key]) or None)

    def compute(self, inputs, outputs, *_):
        res = formula([np.array(inputs[f"i{k}"]) for k in range(len(self.options["ins"]))], [outputs[f"o{k}"].shape for k in range(len(self.options["outs"]))])
        for k, r in enumerate(res):
            outputs[f"o{k}"] = r


def formula(ins, out_shapes):
    res = []
    for k, s in enumerate(out_shapes):
        v = np.arange(np.prod(s)).reshape(s) * 0.3 + 0.2 * (k + 1)
        for j, a in enumerate(ins):
            w = np.cos(np.arange(a.size) + 1.3 * j).reshape(a.shape)
            v = v + (0.31 + 0.17 * j - 0.23 * k) * np.sum(w * a) * (1 + 0.1 * np.arange(np.prod(s)).reshape(s))
        res.append(v)
    return res


def classify(ins, outs, Q, P, wire=None):
    """('accept'|'reject'|'either', roles or reason)"""
    verdict, roles = classify_tags(ins, outs, Q, P)
    if verdict != "reject" and wire:
        used = {i for q in Q for i in roles[q][1:] if i is not None} | {roles[p] for p in P} | {roles["time"]}
        if wire[0] in ("computed", "perm", "part", "units") and wire[1] in used:
            return "reject", f"an input does not see the value of an own source: {wire}"
        if wire[0] in ("share", "sharedivc") and {*wire[1:]} <= used:
            return "reject", f"two inputs share a source: {wire}"
    return verdict, roles


def classify_tags(ins, outs, Q, P):
    names = set(Q) | set(P)
    either = False
    for tags in [IN[k] for k in ins] + [OUT[k] for k in outs]:
        if len(names & set(tags)) > 1:
            return "reject", "variable of two quantities"
    roles = {}
    for q in Q:
        o = [k for k, key in enumerate(outs) if {q, O} <= set(OUT[key])]
        st = [k for k, key in enumerate(ins) if {q, S} <= set(IN[key])]
        ac = [k for k, key in enumerate(ins) if {q, A} <= set(IN[key])]
        if any({q, O} <= set(IN[k]) for k in ins) or any(q in OUT[k] and {S, A} & set(OUT[k]) for k in outs):
            return "reject", "role of an input on an output or vice versa"
        if len(o) != 1 or (len(st), len(ac)) not in ((0, 0), (1, 1)) or set(st) & set(ac):
            return "reject", f"roles of {q} not complete and unique"
        if any(q in IN[k] and not {S, A} & set(IN[k]) for k in ins) or any(q in OUT[k] and O not in OUT[k] for k in outs):
            either = True
        if any(np.prod(shape_of(ins[k], IN[ins[k]], [q])) != np.prod(SHAPE[q]) for k in st + ac):
            return "reject", f"variables of {q} have different sizes"
        roles[q] = (o[0], st[0] if st else None, ac[0] if ac else None)
    for p in P:
        i = [k for k, key in enumerate(ins) if {p, I} <= set(IN[key])]
        if any({p, I} <= set(OUT[k]) for k in outs):
            return "reject", "role of an input on an output"
        if len(i) != 1:
            return "reject", f"inputs of {p} not unique"
        if any(p in IN[k] and I not in IN[k] for k in ins) or any(p in OUT[k] for k in outs):
            either = True
        roles[p] = i[0]
    t = [(k, key) for k, key in enumerate(ins) if T in IN[key]]
    if len(t) > 1 or (t and t[0][1] in ("tv", "tr", "tc")):
        return "reject", "time variable not unique and scalar"
    roles["time"] = t[0][0] if t else None
    return ("either" if either else "accept"), roles


TAB = dict(A=[[0.0, 0.0], [0.7, 0.0]], b=[0.4, 0.6], c=[0.1, 0.7])
N_STEPS, DT = 2, 0.3


def reference(ins, outs, Q, P, roles, t0, x, p, wire=None):
    """Two steps of the tableau with the given roles; x, p by name."""
    x = {q: v.copy() for q, v in x.items()}
    A_, b, c = TAB["A"], TAB["b"], TAB["c"]
    base = [np.full(shape_of(k, IN[k], Q + P), 0.25 + 0.5 * j) for j, k in enumerate(ins)]
    if wire and wire[0] in ("computed", "ivc"):
        base[wire[1]] = np.full_like(base[wire[1]], 0.7)
    if wire and wire[0] == "units":
        base[wire[1]] *= 1000
    shapes = [shape_of(k, OUT[k], Q + P) for k in outs]
    t = t0
    for _ in range(N_STEPS):
        ks = []
        for i in range(2):
            v = [a.copy() for a in base]
            for q in Q:
                _, st, ac = roles[q]
                if st is not None:
                    v[st] = x[q].reshape(base[st].shape)
                    v[ac] = sum((A_[i][j] * ks[j][q] for j in range(i)), 0.0 * x[q]).reshape(base[ac].shape)
            for nm in P:
                v[roles[nm]] = p[nm]
            if roles["time"] is not None:
                v[roles["time"]] = np.array([t + c[i] * DT]).reshape(base[roles["time"]].shape)
            if wire and wire[0] in ("share", "sharedivc"):
                i1, j1 = wire[1:]
                used = {k for q in Q for k in roles[q][1:]} | {roles[nm] for nm in P} | {roles["time"]}
                v[i1] = v[j1] = v[i1] if i1 in used else v[j1]
            r = formula(v, shapes)
            ks.append({q: r[roles[q][0]] for q in Q})
        for q in Q:
            x[q] = x[q] + DT * sum(b[i] * ks[i][q] for i in range(2))
        t += DT
    return t, x


def attempt(ins, outs, Q, P, nested, wire=None):
    stage = om.Problem(reports=False)
    model = stage.model.add_subsystem("g", om.Group()) if nested else stage.model
    names = Q + P
    kind, i, j = (list(wire) + [None, None])[:3] if wire else (None, None, None)
    comp = Stage(ins=ins, outs=outs, names=names, units={"units": {i: "m"}, "same": {i: "m/s"}}.get(kind, {}))
    if wire:
        shape, val = shape_of(ins[i], IN[ins[i]], names), 0.25 + 0.5 * i
        size = int(np.prod(shape))
        if kind == "computed":
            model.add_subsystem("e", om.ExecComp("v = 0.2 + w", w=dict(shape=shape, val=0.5), v=dict(shape=shape, val=9.0)))
            model.add_subsystem("s", comp)
            model.connect("e.v", f"s.i{i}")
        elif kind in ("ivc", "sharedivc"):
            # the value of the independent variable is that of the input j if there is one
            model.add_subsystem("e", om.IndepVarComp("v", val=np.full(shape, 0.7 if j is None else 0.25 + 0.5 * j)))
            model.add_subsystem("s", comp)
            for k in (i, j):
                if k is not None:
                    model.connect("e.v", f"s.i{k}")
        elif kind == "share":
            model.add_subsystem("s", comp, promotes_inputs=[(f"i{i}", "w"), (f"i{j}", "w")])
            model.set_input_defaults("w", val=np.full(shape, 0.25 + 0.5 * j))
        elif kind in ("same", "units"):
            model.add_subsystem("s", comp, promotes_inputs=[(f"i{i}", "w")])
            model.set_input_defaults("w", val=np.full(shape, val), units={"same": "m*s**-1", "units": "km"}[kind])
        elif kind == "alias":
            model.add_subsystem("s", comp, promotes_inputs=[(f"i{i}", "w")])
        else:
            n, idx = {"perm": (size, range(size)[::-1]), "ident": (size, range(size)), "part": (size + 2, range(1, size + 1))}[kind]
            model.add_subsystem("s", comp)
            model.promotes("s", inputs=[(f"i{i}", "w")], src_indices=np.array(idx).reshape(shape), flat_src_indices=True, src_shape=(n,))
            model.set_input_defaults("w", val=np.full((n,), val))
    else:
        model.add_subsystem("s", comp, promotes=[] if nested else ["*"])
    bt, _ = cm.tableau(TAB)
    comp = RungeKuttaIntegrator(time_stage_problem=stage, butcher_tableau=bt, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(N_STEPS), DT),
                                time_integration_quantities=list(Q), time_independent_input_quantities=list(P), **cm.QUIET)
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("rk", comp)
    prob.setup()
    prob.final_setup()
    return prob, comp


def run_case(case, rec):
    ins, outs, wire = case["ins"], case["outs"], case.get("wire")
    for (Q, P), nested in itertools.product(REQ, (False, True)):
        if nested and (len(ins) + len(outs)) % 2:
            continue
        verdict, roles = classify(ins, outs, Q, P, wire)
        rec.transition()
        try:
            prob, comp = attempt(ins, outs, Q, P, nested, wire)
        except Exception as e:  # rejected
            require(verdict != "accept", "a correctly tagged model is rejected", quantities=Q, parameters=P, error=f"{type(e).__name__}: {str(e)[:300]}")
            rec.outcome("rejected")
            rec.state(ins, outs, Q, P, wire, "rejected")
            continue
        require(verdict != "reject", "a wrongly tagged model is accepted", reason=roles, quantities=Q, parameters=P)
        io = comp.get_io_metadata(metadata_keys=["shape"])
        shapes = {k: tuple(v["shape"]) for k, v in io.items()}
        exp = {"time_initial": (1,), "time_final": (1,)}
        for q in Q:
            exp[q + "_initial"] = exp[q + "_final"] = SHAPE[q]
        for p in P:
            exp[p] = SHAPE[p]
        require(shapes == exp, "the integrator has other inputs and outputs than those of the requested quantities", got=shapes, expected=exp)
        for q in Q:
            if roles[q][1] is not None and not wire:
                require_close(prob.get_val(f"rk.{q}_initial"), np.full(SHAPE[q], 0.25 + 0.5 * roles[q][1]), "default initial value is not that of the stage model")
        for p in P if not wire else ():
            require_close(prob.get_val(f"rk.{p}"), np.full(SHAPE[p], 0.25 + 0.5 * roles[p]), "default parameter value is not that of the stage model")
        x = {q: 0.5 + np.arange(np.prod(SHAPE[q])).reshape(SHAPE[q]) * 0.7 + ord(q) % 5 for q in Q}
        pv = {p: 0.3 - np.arange(np.prod(SHAPE[p])).reshape(SHAPE[p]) * 0.4 + ord(p) % 3 for p in P}
        prob.set_val("rk.time_initial", 0.4)
        for k, v in x.items():
            prob.set_val(f"rk.{k}_initial", v)
        for k, v in pv.items():
            prob.set_val(f"rk.{k}", v)
        prob.run_model()
        t, ref = reference(ins, outs, Q, P, roles, 0.4, x, pv, wire)
        require(abs(prob.get_val("rk.time_final")[0] - t) < 1e-12, "wrong final time")
        for q in Q:
            require_close(prob.get_val(f"rk.{q}_final"), ref[q], "a variable is used in a wrong role", quantity=q, quantities=Q, parameters=P)
        rec.state(ins, outs, Q, P, wire, "accepted")
        rec.outcome("accepted")
        rec.trace()
