"""C21: integrators do not influence each other.

Two integrators, created from shared or separate option objects.  `interleave`: every
sequence of operations of the two up to the depth bound.  `preempt`: every operation of
one is interrupted at every stage evaluation, linearization and callback to run every
operation of the other.  `nested`: one integrator inside the stage model of another.
Every result is compared with the one of an undisturbed integrator with own objects."""

import itertools
import os
import pickle
import signal

import numpy as np
import openmdao.api as om

from rkopenmdao import butcher_tableaux as bts
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.callback import Callback
from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h0_110, h_211, pid, pseudo
from rkopenmdao.error_measurer import ImprovedErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback, read_hdf5_file
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from mc import common as cm
from mc.core import require, require_close
from mc.models import Model, ref_jacobian, ref_run
from mc.omsys import Mono, VecDriver, _add_io, full_jacobian_fwd, full_jacobian_rev, stage_problem

ID = "C21"
cm.standing_clock()
ASSUMPTIONS = [
    "every integrator has its own stage problem; one integrator is not called again from inside of its own run",
    "error measurers and callbacks of the user that keep state are not part of the package",
]
TWIN = dict(A=[[0.35, 0.0], [0.28, 0.17]], b=[0.55, 0.45], c=[0.3, 0.6])
CONFIGS = {
    "all": dict(tab="odd", n=3, cp="all"),
    "none": dict(tab="odd", n=2, cp="none"),
    "memory": dict(tab="odd", n=4, cp=["pyrevolve", "Memory", None]),
    "single": dict(tab="odd", n=4, cp=["pyrevolve", "SingleLevel", 1]),
    "disk": dict(tab="odd", n=4, cp=["pyrevolve", "Disk", 2]),
    "disk_files": dict(tab="odd", n=4, cp=["pyrevolve", "Disk", 2, dict(singlefile=False)]),
    "adaptive": dict(tab="embedded_heun_euler", n=3, cp="all", chain=[h_211, h0_110], dt=0.7),
    "until": dict(tab="embedded_second_order_three_stage_esdirk", T=1.4, cp="all", chain=[pid], dt=0.5),
    "pseudo": dict(tab="embedded_heun_euler", n=3, cp="all", chain=[pseudo], dt=0.2),
    "file": dict(tab="odd", n=3, cp="all", file=True),
    # same name, number of stages, orders and step sizes as "all", other coefficients
    "twin": dict(tab=TWIN, n=3, cp="all"),
    "twin_weights": dict(tab=dict(cm.ODD2, b=[0.71, 0.29]), n=3, cp="all"),
    "adaptive_twin": dict(tab="twin_heun", n=3, cp="all", chain=[h_211, h0_110], dt=0.7),
}
PAIRS = [(c, c, s) for c in CONFIGS for s in ("own", "shared") if "twin" not in c] + [
    ("all", "twin", "own"), ("all", "twin_weights", "own"), ("adaptive", "adaptive_twin", "own"),
    ("all", "adaptive", "own"), ("memory", "single", "own"), ("disk", "memory", "own"), ("adaptive", "until", "own"), ("none", "disk", "own")]
SPECS = ("vec_scalar", "scalar_tp")
OPS = ["c0", "c1", "f0", "r0", "r1", "s"]


def ops_of(cfg):
    return [o for o in OPS if not (CONFIGS[cfg]["cp"] == "none" and o[0] == "r")]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} groups: {len(PAIRS)} pairs of configurations (all checkpointing strategies, fixed and adaptive, files; tableaux which differ in the coefficients only; own and shared option objects) x "
            f"all sequences of {3 if tier == 'quick' else 4} operations of the two; every operation interrupted at every stage evaluation, linearization and callback by every operation of the "
            f"other{'' if tier == 'quick' else ', also twice'}; construction of further integrators in between; nested integrators x checkpointing x schemes")


def cases(tier):
    for a, b, share in PAIRS:
        for who in "XY":
            for op in ops_of(a if who == "X" else b) + ["n"]:
                if tier == "quick":
                    yield dict(kind="interleave", a=a, b=b, share=share, first=[who + op], depth=3)
                else:
                    for w2 in "XY":
                        for op2 in ops_of(a if w2 == "X" else b) + ["n"]:
                            yield dict(kind="interleave", a=a, b=b, share=share, first=[who + op, w2 + op2], depth=4)
        for op in ops_of(a):
            if op in ("s", "c1", "r1") and tier == "quick":
                continue
            for inner in ops_of(b) + ["n"]:
                if inner in ("c1", "r1") and tier == "quick":
                    continue
                yield dict(kind="preempt", a=a, b=b, share=share, op=op, inner=[inner])
        if tier == "thorough":
            for op in ("c0", "f0", "r0"):
                for inner in itertools.product(("c1", "f0", "r1", "s"), repeat=2):
                    if op in ops_of(a) and all(i in ops_of(b) for i in inner):
                        yield dict(kind="preempt", a=a, b=b, share=share, op=op, inner=list(inner))
    cps = ["all", ["pyrevolve", "Memory", None], ["pyrevolve", "SingleLevel", 1], ["pyrevolve", "Disk", 1]]
    for outer in cps:
        for inner in cps:
            for to in ("odd", "runge_kutta_four"):
                for ti in ("odd", "implicit_midpoint"):
                    for n in ((1, 1), (2, 3), (3, 2)) if tier == "quick" else itertools.product(range(1, 5), repeat=2):
                        yield dict(kind="nested", outer=outer, inner=inner, to=to, ti=ti, n=list(n))


# ---------------------------------------------------------------- objects of the user


class Counting(Callback):
    """Callbacks of the user: here points at which a run can be interrupted."""

    def __init__(self, hook):
        self.hook = hook

    def before_iteration(self, *_):
        self.hook()

    def after_iteration(self, *_):
        self.hook()


class Objects:
    """Everything a user passes to an integrator besides the stage problem."""

    def __init__(self, cfg, hook):
        c = CONFIGS[cfg]
        if c["tab"] == "twin_heun":
            heun = bts.embedded_heun_euler
            self.tab = EmbeddedButcherTableau(butcher_matrix=np.array([[0.0, 0.0], [0.5, 0.0]]), butcher_weight_vector=np.array([0.0, 1.0]),
                                              butcher_adaptive_weights=heun.butcher_adaptive_weights.copy(), butcher_time_stages=None, p=heun.p, phat=heun.phat, name=heun.name)
        else:
            self.tab = cm.tableau(cm.ODD2 if c["tab"] == "odd" else c["tab"])[0]
        term = PredefinedFinalTime(c["T"]) if "T" in c else PredefinedNumberOfSteps(c["n"])
        opts = dict(butcher_tableau=self.tab, integration_config=IntegrationConfig("chain" in c and c["chain"] != [pseudo], term, c.get("dt", 0.1)),
                    compute_callbacks=[Counting(hook)], compute_jacvec_product_fwd_callbacks=[Counting(hook)],
                    compute_jacvec_product_rev_callbacks=[Counting(hook)])
        opts.update(cm.checkpointing(c["cp"]))
        if "chain" in c:
            opts.update(error_controller=list(c["chain"]), error_measurer=ImprovedErrorMeasurer(eta=0.1, eps=1e-3))
            if c["chain"] != [pseudo]:
                opts["error_controller_options"] = dict(config=ErrorControllerConfig(tol=3e-3, lower_bound=1e-3))
        self.opts = opts
        self.before = print_of(opts)

    def check(self):
        after = print_of(self.opts)
        require(same(self.before, after), "objects passed by the user were modified", before=repr(self.before)[:1500], after=repr(after)[:1500])


def print_of(v, depth=0):
    """Value of an object as nested plain data (identities for opaque objects)."""
    if isinstance(v, dict):
        return {k: print_of(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, [(id(x), print_of(x, depth + 1)) for x in v]]
    if isinstance(v, np.ndarray):
        return ("array", v.shape, v.dtype.str, v.tobytes())
    if isinstance(v, (str, int, float, bool, type(None), type)):
        return v
    if isinstance(v, Counting) or depth > 6:
        return id(v)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("rkopenmdao") and not callable(v):
        return {"id": id(v), "attributes": {k: print_of(x, depth + 1) for k, x in vars(v).items()}}
    return id(v)


def same(before, after):
    """Equal, apart from new attributes of objects (not entries of containers)."""
    if isinstance(before, dict) and isinstance(after, dict):
        if set(before) == {"id", "attributes"} == set(after):
            return before["id"] == after["id"] and all(k in after["attributes"] and same(v, after["attributes"][k]) for k, v in before["attributes"].items())
        return set(before) == set(after) and all(same(v, after[k]) for k, v in before.items())
    if isinstance(before, (list, tuple)) and isinstance(after, (list, tuple)):
        return len(before) == len(after) and all(same(x, y) for x, y in zip(before, after))
    return type(before) is type(after) and before == after


def shipped_print():
    return {k: print_of(v) for k, v in vars(bts).items() if isinstance(v, ButcherTableau)}


SHIPPED_BEFORE = shipped_print()


class Subject(VecDriver):
    """One integrator with the operations of the exploration."""

    def __init__(self, spec, cfg, objects, hook, name):
        # pylint: disable=super-init-not-called
        self.cfg = cfg
        self.model = m = Model(cm.SPECS[spec])
        self.names = [q["name"] for q in m.q]
        self.pnames = [p["name"] for p in m.params]
        self.file = None
        self.hook = hook
        opts = dict(objects.opts)
        if CONFIGS[cfg].get("file"):
            self.file = os.path.join(os.getcwd(), f"c21_{name}.h5")
            opts["compute_callbacks"] = opts["compute_callbacks"] + [OpenMDAOHDF5Callback(self.file)]
        self.comp = RungeKuttaIntegrator(time_stage_problem=stage_problem(m, "mono", lambda *_: self.hook()), time_integration_quantities=list(self.names),
                                         time_independent_input_quantities=list(self.pnames), **opts)
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.comp)
        self.setup()

    def setup(self):
        self.prob.setup()
        self.prob.final_setup()

    def point(self, key):
        m = self.model
        return (0.2 - 0.5 * int(key), m.x0(int(key)) * (1 + 0.4 * int(key)), m.p0(int(key)))

    def op(self, op):
        m = self.model
        if op == "s":
            self.setup()
            return np.zeros(0)
        pt = self.point(op[1])
        if op[0] == "c":
            t, x = self.compute(*pt)
            r = np.append(x, t)
            if self.file:
                tt, _, res = read_hdf5_file(self.file, self.names, lambda *a: [0.0 * np.asarray(v) for v in a[1]] if len(self.names) > 1 else 0.0 * np.asarray(a[1]))
                r = np.concatenate([r] + [np.append(np.concatenate([np.ravel(res[q][k]) for q in self.names]), tt[k]) for k in sorted(tt)])
            return r
        if op[0] == "f":
            return self.fwd_at(pt, np.cos(1.0 + np.arange(m.n + m.np + 1)))
        return self.rev_at(pt, np.sin(2.0 + np.arange(m.n + 1)))


def nothing():
    return None


EXPECTED = {}


def alone(cfg, spec, op):
    sub = Subject(spec, cfg, Objects(cfg, nothing), nothing, f"alone{os.getpid()}")
    try:
        return sub.op(op)
    finally:
        if sub.file and os.path.exists(sub.file):
            os.remove(sub.file)


def untouched():
    """A process in which no integrator was ever created or run; answers every request
    (configuration, model, operation) in a new copy of itself."""
    down, up = os.pipe(), os.pipe()
    if os.fork() == 0:
        os.close(down[1])
        os.close(up[0])
        with os.fdopen(down[0], "rb") as requests:
            while True:
                try:
                    cwd, args = pickle.load(requests)
                except EOFError:
                    os._exit(0)
                child = os.fork()
                if child == 0:
                    signal.alarm(120)
                    try:
                        os.chdir(cwd)
                        answer = alone(*args)
                    except BaseException as exc:  # pylint: disable=broad-except
                        answer = repr(exc)
                    with os.fdopen(up[1], "wb") as f:
                        pickle.dump(answer, f)
                    os._exit(0)
                if os.waitpid(child, 0)[1] != 0:
                    with os.fdopen(os.dup(up[1]), "wb") as f:
                        pickle.dump("no answer", f)
    os.close(down[0])
    os.close(up[1])
    return os.fdopen(down[1], "wb"), os.fdopen(up[0], "rb")


UNTOUCHED = untouched()


def expected(cfg, spec):
    """Results of an undisturbed integrator with own objects, the only one of its process
    and fresh for every operation."""
    if (cfg, spec) not in EXPECTED:
        res = {}
        for op in ops_of(cfg):
            pickle.dump((os.getcwd(), (cfg, spec, op)), UNTOUCHED[0])
            UNTOUCHED[0].flush()
            res[op] = pickle.load(UNTOUCHED[1])
            require(not isinstance(res[op], str), "an undisturbed integrator does not work", configuration=cfg, operation=op, error=res[op])
        EXPECTED[(cfg, spec)] = res
    return EXPECTED[(cfg, spec)]


class Pair:
    def __init__(self, case, hook=nothing):
        self.cfg = dict(X=case["a"], Y=case["b"])
        self.hook = hook
        ox = Objects(case["a"], self.call)
        self.objects = dict(X=ox, Y=ox if case["share"] == "shared" else Objects(case["b"], self.call))
        self.spec = dict(zip("XY", SPECS))
        self.sub = {w: self.make(w) for w in "XY"}

    def call(self):
        self.hook()

    def make(self, w):
        return Subject(self.spec[w], self.cfg[w], self.objects[w], self.call, w)

    def run(self, letter, trace):
        w, op = letter[0], letter[1:]
        trace.append(letter)
        if op == "n":
            self.sub[w] = self.make(w)
            return
        got = self.sub[w].op(op)
        ref = expected(self.cfg[w], self.spec[w])[op]
        require_close(got, ref, "result depends on another integrator", rtol=1e-11, atol=1e-13, operations=list(trace), integrator=w)

    def finish(self):
        for o in set(self.objects.values()):
            o.check()
        require(same(SHIPPED_BEFORE, shipped_print()), "shipped tableaux were modified")
        for s in self.sub.values():
            if s.file and os.path.exists(s.file):
                os.remove(s.file)


def run_interleave(case, rec):
    pair = Pair(case)
    alphabet = ["X" + o for o in ops_of(case["a"])] + ["Y" + o for o in ops_of(case["b"])]
    trace = []
    for rest in itertools.product(alphabet, repeat=case["depth"] - len(case["first"])):
        for letter in case["first"] + list(rest):
            pair.run(letter, trace)
            rec.transition()
        rec.state(case["a"], case["b"], case["share"], case["first"], rest)
        rec.trace()
        del trace[:-60]
    pair.finish()
    rec.outcome("interleaved " + case["share"])


def run_preempt(case, rec):
    """Interrupt at every position; a second interruption at every later one."""
    pair = Pair(case)
    state = dict(count=0, at=(), inside=False, trace=[])

    def hook():
        if state["inside"]:
            return
        k = state["count"]
        state["count"] += 1
        for pos, op in zip(state["at"], case["inner"]):
            if pos == k:
                state["inside"] = True
                pair.run("Y" + op, state["trace"])
                state["inside"] = False

    pair.hook = hook

    def go(at):
        state.update(count=0, at=at, trace=[f"X{case['op']} interrupted at {at}"])
        pair.run("X" + case["op"], state["trace"])
        total = state["count"]
        state["at"] = ()
        for letter in ("X", "Y"):
            # reverse first: uses what the interrupted operation left behind
            follow = [o for o in ("r0", "c0") if o in ops_of(pair.cfg[letter])]
            for o in follow[:1]:
                pair.run(letter + o, state["trace"])
                rec.transition()
        rec.transition(2)
        rec.state(case["a"], case["b"], case["share"], case["op"], case["inner"], at)
        rec.trace()
        return total

    total = go(())
    require(total > 0, "no positions to interrupt")
    many = len(case["inner"])
    for at in itertools.combinations(range(total), many):
        if many == 2 and at[0] % 2 and at[1] - at[0] > 6:
            # two interruptions: all close ones and every second of the others
            continue
        go(at)
    pair.finish()
    rec.count("interruptions", total)
    rec.outcome("interrupted " + case["share"])


# ---------------------------------------------------------------- nested integrators


class Feed(ExplicitUnsteadyComponent):
    """Passes time independent input and time on to the inner integrator."""

    def setup(self):
        self.add_input("w", shape=(1,), tags=["w", "time_independent_input_var"])
        self.add_input("time", shape=(1,), tags=["time_variable"])
        self.add_output("u", shape=(1,))
        self.declare_partials("u", "w", val=1.0)
        self.declare_partials("u", "time", val=0.3)

    def compute(self, inputs, outputs, *_):
        outputs["u"] = inputs["w"] + 0.3 * inputs["time"]

    def compute_partials(self, inputs, partials, *_):
        pass


class Untagged(Mono):
    """Stage model whose parameter is the result of the inner integrator."""

    def setup(self):
        m = self.options["model"]
        _add_io(self, m, range(len(m.q)), set(), False)
        for q in m.q:
            self.add_output(q["name"] + "_k", shape=q["shape"], val=0.1, tags=[q["name"], "stage_output_var"])
        self.declare_partials("*", "*")


OUTER = dict(quantities=[cm.Q("x", 2)], params=[cm.PR("v", 1)], time=False)
INNER = dict(quantities=[cm.Q("z", 1)], params=[cm.PR("p", 1)], time=True)


class Composite:
    """Closed form of the outer model with the inner recurrence in its stages."""

    def __init__(self, inner_ref, n):
        self.outer, self.inner, self.ref, self.steps = Model(OUTER), Model(INNER), inner_ref, n
        self.n, self.np = self.outer.n, 1

    def stage(self, t, x, acc, p, dt, aii):
        u = p[0] + 0.3 * t
        _, z = ref_run(self.ref, self.inner, 0.1 + 0.0 * u, np.stack([u]), np.stack([u]), [0.15] * self.steps)[-1]
        return self.outer.stage(t, x, acc, z, dt, aii)


class NestedDriver(VecDriver):
    def __init__(self, case):
        # pylint: disable=super-init-not-called
        tabs = {k: cm.tableau(cm.ODD2 if case[k] == "odd" else case[k]) for k in ("to", "ti")}
        n_out, n_in = case["n"]
        self.ref = tabs["to"][1]
        self.composite = Composite(tabs["ti"][1], n_in)
        inner = RungeKuttaIntegrator(time_stage_problem=stage_problem(Model(INNER), "mono"), butcher_tableau=tabs["ti"][0],
                                     integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(n_in), 0.15), time_integration_quantities=["z"],
                                     time_independent_input_quantities=["p"], **cm.checkpointing(case["inner"]), **cm.QUIET)
        stage = om.Problem(reports=False)
        stage.model.add_subsystem("feed", Feed(), promotes=["*"])
        stage.model.add_subsystem("inner", inner, promotes_inputs=[("z_initial", "u"), ("p", "u")])
        stage.model.set_input_defaults("inner.time_initial", 0.1)
        stage.model.add_subsystem("sys", Untagged(model=Model(OUTER)), promotes=["*"])
        stage.model.connect("inner.z_final", "v")
        self.model = Model(dict(OUTER, params=[cm.PR("w", 1)]))
        self.names, self.pnames = ["x"], ["w"]
        self.comp = RungeKuttaIntegrator(time_stage_problem=stage, butcher_tableau=tabs["to"][0],
                                         integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(n_out), 0.2), time_integration_quantities=["x"],
                                         time_independent_input_quantities=["w"], **cm.checkpointing(case["outer"]), **cm.QUIET)
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.comp)
        self.prob.setup()
        self.prob.final_setup()


def run_nested(case, rec):
    drv = NestedDriver(case)
    dts = [0.2] * case["n"][0]
    for variant in (0, 1):
        t0, x0, p = 0.3 * variant, np.array([0.5, 0.9 + variant]), np.array([0.4 + 0.3 * variant])
        drv.set(t0, x0, p)
        drv.prob.run_model()
        t, x = drv.get()
        path = ref_run(drv.ref, drv.composite, t0, x0, p, dts)
        require_close(np.append(x, t), np.append(path[-1][1], path[-1][0]), "result with an integrator in the stage model wrong")
        J = ref_jacobian(drv.ref, drv.composite, t0, x0, p, dts)
        require_close(full_jacobian_rev(drv), J, "reverse derivative with an integrator in the stage model wrong", rtol=1e-8)
        require_close(full_jacobian_fwd(drv), J, "forward derivative with an integrator in the stage model wrong", rtol=1e-8)
        rec.transition(sum(case["n"]) * 4)
        rec.state(case["n"], x)
    rec.trace()
    rec.outcome("nested")


def run_case(case, rec):
    globals()["run_" + case["kind"]](case, rec)
