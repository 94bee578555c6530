"""C05: results never depend on the history of calls.

Every sequence (to a depth) of operations over
    c<i>  primal evaluation at point i          f<i>  forward product at point i
    r<i>  reverse product at point i            S     repeated setup of the problem
with points that differ from point 0 in exactly the start time (1), a time independent
input (2) or one initial value (3), and N = values/seeds that are NaN.

`constants`: the same with changes of the stage model's own (untagged) values.
`options`: operations, then other options (every ordered pair of settings of an alphabet,
each option is varied) and a repeated setup, or the same component in another problem."""

import itertools

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, integral, pid
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from mc import common as cm
from mc.core import require, require_close
from mc.models import Model, ref_jacobian, ref_run
from mc.omsys import VecDriver, stage_problem

ID = "C05"
ASSUMPTIONS = [
    "operations are requested through the component's own vectors, as OpenMDAO's solvers, drivers and partial checks do",
    "the stage model's solution does not depend on the initial guess of its own iterative solvers",
    "reverse products after a change of the stage model's own values are requested after an evaluation",
    "the values returned for invalid (NaN) inputs or seeds are not part of the claim, only that they do not influence later calls",
    "configuration objects (step size, termination) are not modified after the setup without another one",
    "adaptive configurations are compared with a fresh integrator performing only that operation; fixed ones with the reference",
]
# options of a component; every entry changes one of them (or a few)
SETTINGS = {
    "base": {},
    "steps": dict(n=4),
    "time": dict(T=0.75),
    "dt": dict(dt=0.2),
    "four": dict(tab="runge_kutta_four"),
    "embedded": dict(tab="ODD3"),
    "adaptive": dict(tab="embedded_heun_euler", dt=0.8, T=1.1, chain="two"),
    "adaptive_n": dict(tab="embedded_heun_euler", dt=0.8, chain="one", n=2),
    "no_parameters": dict(params=0),
    "fewer_quantities": dict(quantities=1),
    "reversed": dict(reverse=True),
    "single": dict(cp=["pyrevolve", "SingleLevel", 1], n=3),
    "disk": dict(cp=["pyrevolve", "Disk", 2], n=3),
    "memory": dict(cp=["pyrevolve", "Memory", None]),
    "stage": dict(layout="implicit"),
    "other_model": dict(spec="tensor"),
}
TOL = dict(rtol=1e-9, atol=1e-11)
FULL = ["c0", "c1", "c2", "c3", "f0", "f1", "f2", "f3", "r0", "r1", "r2", "r3", "cN", "fN", "rN", "S"]
MID = ["c0", "c1", "c3", "f0", "f2", "r0", "r1", "r2", "cN", "rN", "S"]
SMALL = ["c0", "c1", "c2", "f0", "f1", "r0", "r1", "r2", "cN", "rN"]
CONFIGS = {
    "none": dict(cp="none", tab="ODD2", spec="scalar_tp", n=2),
    "all": dict(cp="all", tab="ODD2", spec="scalar_tp", n=2),
    "memory": dict(cp=["pyrevolve", "Memory", None], tab="ODD2", spec="scalar_tp", n=3),
    "single1": dict(cp=["pyrevolve", "SingleLevel", 1], tab="ODD2", spec="scalar_tp", n=3),
    "disk": dict(cp=["pyrevolve", "Disk", None], tab="ODD2", spec="scalar_tp", n=3),
    "all_emb": dict(cp="all", tab="ODD3", spec="vec_scalar", n=2),
    "implicit": dict(cp="all", tab="ODD2", spec="scalar_tp", n=2, layout="implicit"),
    "loop": dict(cp=["pyrevolve", "SingleLevel", 2], tab="ODD2", spec="mixed", n=4, layout="loop"),
    "adaptive_time": dict(cp="all", tab="embedded_heun_euler", spec="scalar_tp", T=0.7, chain="one"),
    "adaptive_chain": dict(cp="all", tab="embedded_heun_euler", spec="scalar_tp", n=3, chain="three"),
    "adaptive_pyrevolve": dict(cp=["pyrevolve", "SingleLevel", 1], tab="embedded_second_order_two_stage_sdirk", spec="scalar_tp",
                               n=3, chain="two"),
}


def BOUNDS(tier):
    d = 3 if tier == "quick" else 4
    return (f"all sequences of length 3 over 16 (11) operations for 1 (6) integrator configurations and of length 2 over 16 operations for 4 others, all sequences of length 2 over 11 operations at nearly equal points; all ordered pairs of {len(SETTINGS)} settings of the options (each option varied) with a repeated setup or another problem in between, before and after operations in all modes; all sequences of {d + 1} changes of untagged stage model values and operations"
            + ("" if d == 3 else "; all sequences of length 3 over 16 operations and of length 4 over 10 operations for all 11 configurations"))


def alphabet(which, cfg):
    """Reverse mode needs checkpoints; iterating stage solvers can't leave NaN (their own
    initial guess is the last iterate), so that a NaN state is not used with them."""
    return [o for o in which if not (cfg["cp"] == "none" and o[0] == "r") and not (cfg.get("layout") == "loop" and o == "cN")]


# points 4, 5, 6 differ from point 0 by only 3e-6 in initial value, parameter, time
NEAR = ["c0", "c4", "c5", "c6", "f4", "f5", "f6", "r0", "r4", "r5", "r6"]
ALPH = dict(full=FULL, mid=MID, small=SMALL, near=NEAR)


def cases(tier):
    for name in CONFIGS:
        size = "full" if tier == "thorough" or name in ("all", "none", "disk", "implicit", "loop") else "mid"
        alph = alphabet(ALPH[size], CONFIGS[name])
        if name in ("none", "disk", "implicit", "loop"):
            for a in alph:
                yield dict(cfg=name, prefix=[a], alphabet=size, depth=2)
            if tier == "thorough":
                for a, b in itertools.product(alph, repeat=2):
                    yield dict(cfg=name, prefix=[a, b], alphabet=size, depth=3)
        else:
            for a, b in itertools.product(alph, repeat=2):
                yield dict(cfg=name, prefix=[a, b], alphabet=size, depth=3)
    for name in CONFIGS:
        alph = alphabet(NEAR, CONFIGS[name])
        for a in alph:
            if name not in ("none", "adaptive_time") or tier == "thorough":
                yield dict(cfg=name, prefix=[a], alphabet="near", depth=2)
    for cp in ("none", "all", ["pyrevolve", "SingleLevel", 1], ["pyrevolve", "Memory", None]):
        for first in CONSTANT_OPS:
            if not (cp == "none" and first[0] == "r"):
                yield dict(kind="constants", cp=cp, prefix=[first], depth=4 if tier == "quick" else 5)
    for a, b in itertools.product(SETTINGS, repeat=2):
        for how in ("setup", "problem"):
            if a != b or how == "problem":
                yield dict(kind="options", a=a, b=b, how=how, pre=["c0", "r0"] if tier == "quick" else ["c0", "r0", "f0", "-"],
                           post=["c0", "r0", "f1"] if tier == "quick" else ["c0", "c1", "r0", "r1", "f0", "f1"])
    if tier == "thorough":
        for name in CONFIGS:
            alph = alphabet(SMALL, CONFIGS[name])
            for a, b, c in itertools.product(alph, repeat=3):
                yield dict(cfg=name, prefix=[a, b, c], alphabet="small", depth=4)


def make(cfg):
    tab = getattr(cm, cfg["tab"]) if cfg["tab"].startswith("ODD") else cfg["tab"]
    bt, ref = cm.tableau(tab)
    opts = dict(cm.checkpointing(cfg["cp"]), **cm.QUIET)
    if "chain" in cfg:
        opts["error_controller"] = {"one": [integral], "two": [h_211, integral], "three": [pid, h_211, integral]}[cfg["chain"]]
        opts["error_controller_options"] = dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-3, max_iter=2))
        opts["adaptive"] = True
    kw = dict(dt=0.8 if "chain" in cfg else 0.3, layout=cfg.get("layout", "mono"))
    if "T" in cfg:
        kw["term"] = PredefinedFinalTime(cfg["T"])
    else:
        kw["n_steps"] = cfg["n"]
    return VecDriver(cm.SPECS[cfg["spec"]], bt, **kw, **opts), ref


class Changing(VecDriver):
    """One component whose options are changed between setups."""

    def __init__(self, setting):
        # pylint: disable=super-init-not-called
        self.comp = RungeKuttaIntegrator(**self.options_of(setting))
        self.setup(True)

    def options_of(self, setting):
        s = dict(dict(cp="all", tab="ODD2", spec="vec_scalar", n=2, dt=0.3, layout="mono"), **SETTINGS[setting])
        self.model = m = Model(cm.SPECS[s["spec"]])
        self.names = [q["name"] for q in m.q][:s.get("quantities")]
        self.pnames = [q["name"] for q in m.params][:s.get("params")]
        bt, _ = cm.tableau(getattr(cm, s["tab"]) if s["tab"].startswith("ODD") else s["tab"])
        term = PredefinedFinalTime(s["T"]) if "T" in s else PredefinedNumberOfSteps(s["n"])
        opts = dict(checkpoint_options={})
        opts.update(cm.checkpointing(s["cp"]))
        opts.update(cm.QUIET, time_stage_problem=stage_problem(m, s["layout"]), butcher_tableau=bt, integration_config=IntegrationConfig("chain" in s, term, s["dt"]),
                    time_integration_quantities=self.names[::-1] if s.get("reverse") else list(self.names), time_independent_input_quantities=list(self.pnames),
                    error_controller={"one": [integral], "two": [h_211, integral]}[s.get("chain", "one")],
                    error_controller_options=dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-3)) if "chain" in s else {})
        return opts

    def setup(self, new):
        if new:
            self.prob = om.Problem(reports=False)
            self.prob.model.add_subsystem("rk", self.comp)
        self.prob.setup()
        self.prob.final_setup()

    def change(self, setting, new):
        for k, v in self.options_of(setting).items():
            self.comp.options[k] = v
        self.setup(new)


CONSTANT_OPS = ["K0", "K1", "k0", "k1", "c0", "c1", "f0", "f1", "r0", "r1"]


class Constants(ExplicitUnsteadyComponent):
    """Slope -(c + w) * sin(x_s) + p * c; the untagged input c has no source, w has one."""

    def setup(self):
        for name, tags in (("x", ["x", "step_input_var"]), ("a", ["x", "accumulated_stage_var"]), ("p", ["p", "time_independent_input_var"]), ("c", None), ("w", None)):
            self.add_input(name, shape=1, tags=tags, val=0.5)
        self.add_output("k", shape=1, tags=["x", "stage_output_var"])
        self.declare_partials("*", "*")

    def stage(self, inputs):
        return inputs["x"] + self.om_data_exchange.step_size * inputs["a"]

    def compute(self, inputs, outputs, *_):
        outputs["k"] = -(inputs["c"] + inputs["w"]) * np.sin(self.stage(inputs)) + inputs["p"] * inputs["c"]

    def compute_partials(self, inputs, partials, *_):
        partials["k", "x"] = -(inputs["c"] + inputs["w"]) * np.cos(self.stage(inputs))
        partials["k", "a"] = self.om_data_exchange.step_size * partials["k", "x"]
        partials["k", "p"] = inputs["c"]
        partials["k", "c"] = -np.sin(self.stage(inputs)) + inputs["p"]
        partials["k", "w"] = -np.sin(self.stage(inputs))


class ConstantsDriver(VecDriver):
    def __init__(self, cp):
        # pylint: disable=super-init-not-called
        self.model = Model(dict(quantities=[cm.Q("x", 1)], params=[cm.PR("p", 1)], time=False))
        self.names, self.pnames = ["x"], ["p"]
        self.stage = om.Problem(reports=False)
        self.stage.model.add_subsystem("source", om.IndepVarComp("w", val=0.25), promotes=["*"])
        self.stage.model.add_subsystem("sys", Constants(), promotes=["*"])
        self.comp = RungeKuttaIntegrator(time_stage_problem=self.stage, butcher_tableau=cm.tableau("runge_kutta_four")[0], time_integration_quantities=["x"],
                                         integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(2), 0.4), time_independent_input_quantities=["p"],
                                         **cm.checkpointing(cp), **cm.QUIET)
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.comp)
        self.prob.setup()
        self.prob.final_setup()
        self.constants = dict(c=0.5, w=0.25)

    def closed(self, t0, x0, p):
        """Value by the classical scheme (complex arguments allowed)."""
        c, w = self.constants["c"], self.constants["w"]

        def slope(x):
            return -(c + w) * np.sin(x) + p * c

        x, h = x0, 0.4
        for _ in range(2):
            k1 = slope(x)
            k2 = slope(x + h / 2 * k1)
            k3 = slope(x + h / 2 * k2)
            k4 = slope(x + h * k3)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return np.concatenate([x, t0 + 2 * h + 0 * x])

    def expected(self, op, pt, f, r):
        t0, x0, p = pt
        if op[0] == "c":
            return self.closed(t0, x0, p)
        e = 1e-30
        J = np.array([np.imag(self.closed(t0, x0 + 1j * e, p)), np.imag(self.closed(t0, x0, p + 1j * e)), np.imag(self.closed(t0 + 1j * e, x0, p))]).T / e
        return J @ f if op[0] == "f" else J.T @ r


def run_constants(case, rec):
    """Untagged values of the stage model may be changed; each run uses the current ones.
    Reverse products are requested after an evaluation, as OpenMDAO does."""
    alph = [o for o in CONSTANT_OPS if not (case["cp"] == "none" and o[0] == "r")]
    drv = ConstantsDriver(case["cp"])
    pts = points(drv.model)
    trace = []
    for tail in itertools.product(alph, repeat=case["depth"] - 1):
        for op in case["prefix"] + list(tail):
            trace.append(op)
            rec.transition()
            if op[0] in "Kk":
                name, value = {"K": "c", "k": "w"}[op[0]], 0.5 + 0.75 * int(op[1])
                drv.constants[name] = value
                drv.stage.set_val(name, value)
                continue
            if op[0] == "r":
                do(drv, "c" + op[1], pts)
            require_close(do(drv, op, pts), drv.expected(op, pts[op[1]], *seeds(drv.model, op[1])), "result does not follow from the current values of the stage model",
                          sequence=trace[-40:], **TOL)
        rec.state("constants", case["cp"], case["prefix"], tail)
        rec.trace()
    rec.outcome("constants of the stage model changed")


_FRESH = {}


def fresh(setting, op):
    if (setting, op) not in _FRESH:
        drv = Changing(setting)
        _FRESH[setting, op] = do(drv, op, points(drv.model))
    return _FRESH[setting, op]


def run_options(case, rec):
    for pre, post, last in itertools.product(case["pre"], case["post"], case["pre"]):
        drv = Changing(case["a"])
        seq = []
        for setting, op in ((case["a"], pre), (case["b"], post), (case["a"], last)):
            if seq:
                drv.change(setting, case["how"] == "problem")
            seq.append([setting, op])
            if op == "-":
                continue
            require_close(do(drv, op, points(drv.model)), fresh(setting, op), "result depends on earlier options", sequence=seq, how=case["how"], **TOL)
            rec.transition(2)
        rec.state("options", case["how"], seq)
        rec.trace()
    rec.outcome("options changed")


def points(m):
    base = (0.1, m.x0(0), m.p0(0))
    x3 = m.x0(0).copy()
    x3[-1] += 0.2
    xn = m.x0(0).copy()
    xn[0] = np.nan
    return {"0": base, "1": (0.35, base[1], base[2]), "2": (0.1, base[1], m.p0(1)), "3": (0.1, x3, base[2]), "N": (0.1, xn, base[2]), "4": (0.1, base[1] + 3e-6, base[2]), "5": (0.1, base[1], base[2] + 3e-6), "6": (0.1 + 3e-6, base[1], base[2])}


def seeds(m, i):
    k = "0123N".find(i)
    f = np.cos(np.arange(m.n + m.np + 1) * 1.3 + k)
    r = np.sin(np.arange(m.n + 1) * 1.7 + 1 + k)
    if i == "N":
        f[0] = r[0] = np.nan
    return f, r


def do(drv, op, pts):
    if op == "S":
        drv.prob.setup()
        drv.prob.final_setup()
        return None
    kind, i = op[0], op[1]
    f, r = seeds(drv.model, i)
    if kind == "c":
        t, x = drv.compute(*pts[i])
        return np.append(x, t)
    pt = pts["0"] if i == "N" else pts[i]
    return drv.fwd_at(pt, f) if kind == "f" else drv.rev_at(pt, r)


_REF = {}


def reference(name, op):
    key = (name, op)
    if key not in _REF:
        cfg = CONFIGS[name]
        drv, ref = make(cfg)
        m = drv.model
        pts = points(m)
        if "chain" in cfg:
            _REF[key] = do(drv, op, pts)
        else:
            f, r = seeds(m, op[1])
            dts = [0.3] * cfg["n"]
            if op[0] == "c":
                t, x = ref_run(ref, m, *pts[op[1]], dts)[-1]
                _REF[key] = np.append(x, t)
            else:
                J = ref_jacobian(ref, m, *pts[op[1]], dts)
                _REF[key] = J @ f if op[0] == "f" else J.T @ r
    return _REF[key]


def run_case(case, rec):
    if "kind" in case:
        globals()["run_" + case["kind"]](case, rec)
        return
    cfg = CONFIGS[case["cfg"]]
    alph = alphabet(ALPH[case["alphabet"]], cfg)
    tails = itertools.product(alph, repeat=case["depth"] - len(case["prefix"]))
    for tail in tails:
        seq = list(case["prefix"]) + list(tail)
        drv, _ = make(cfg)
        pts = points(drv.model)
        for k, op in enumerate(seq):
            rec.transition()
            try:
                got = do(drv, op, pts)
            except Exception as e:  # an invalid input may be refused, nothing else
                require(op.endswith("N"), f"{op} failed after {seq[:k]}: {type(e).__name__}: {str(e)[:200]}", sequence=seq)
                rec.outcome("invalid input refused")
                continue
            if op == "S" or op.endswith("N"):
                continue
            require_close(got, reference(case["cfg"], op), "result depends on preceding calls", sequence=seq, position=k, op=op, **TOL)
            rec.state(case["cfg"], op, got)
        rec.trace()
    rec.outcome("prefix explored")
