"""C22: after any failure a repeated call gives the correct result.

Every call of the environment during an operation (stage evaluation, linearization,
callback, error measure, error controller) is made to fail, one position after the other;
the failure has to reach the caller, and every following sequence of operations has to
give what a fresh integrator gives."""

import itertools
import os

import numpy as np
import openmdao.api as om

from rkopenmdao.callback import Callback
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, integral, pid
from rkopenmdao.error_measurer import ErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback, read_hdf5_file
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.adaptive import CONTROLLER_ERRORS
from mc.core import Violation, require, require_close
from mc.omsys import Driver, VecDriver

ID = "C22"
cm.standing_clock()
ASSUMPTIONS = [
    "failures are exceptions (of any kind, also interrupts), stage results that are not a number, or error measures that are never accepted",
    "revolver types Base and MultiLevel are outside the claim (see C04)",
    "a stage model with an iterative nonlinear solver may itself need a restart after results that are not a number (see C26), the models here solve directly",
]


class Fault(Exception):
    """The failure of the environment."""


class FaultInterrupt(BaseException):
    """A failure that is no Exception (like an interrupt by the user)."""


KINDS = {"raise": Fault, "analysis": om.AnalysisError, "interrupt": FaultInterrupt}
CONFIGS = {
    "none": dict(tab="odd", n=3, cp="none"),
    "all": dict(tab="odd", n=3, cp="all"),
    "memory": dict(tab="odd", n=4, cp=["pyrevolve", "Memory", None]),
    "single": dict(tab="odd", n=4, cp=["pyrevolve", "SingleLevel", 1]),
    "disk": dict(tab="odd", n=3, cp=["pyrevolve", "Disk", 1]),
    "disk_files": dict(tab="odd", n=3, cp=["pyrevolve", "Disk", 1, dict(singlefile=False)]),
    "embedded": dict(tab="embedded_second_order_three_stage_esdirk", n=2, cp="all"),
    "adaptive": dict(tab="embedded_heun_euler", n=2, cp="all", chain=[h_211, integral], dt=0.9),
    "until": dict(tab="embedded_heun_euler", T=0.7, cp="all", chain=[pid], dt=0.6),
    "file": dict(tab="odd", n=3, cp=["pyrevolve", "SingleLevel", 1], file=True),
}
LAYOUTS = {"all": ["mono", "implicit", "split", "nested"], "memory": ["mono", "split"], "adaptive": ["mono", "implicit"]}
OPS = ["c0", "c1", "f0", "r0", "r1"]
PRE = [[], ["c0"], ["c0", "r0"], ["c1", "f0"]]


def ops_of(cfg):
    return [o for o in OPS if not (CONFIGS[cfg]["cp"] == "none" and o[0] == "r")]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} groups: {len(CONFIGS)} configurations x layouts of the stage model x kinds of failures x {len(PRE)} preceding histories x failing operation x "
            f"following operations ({'one' if tier == 'quick' else 'one and two, also a second failure'}); in each group every position of the operation fails once")


def cases(tier):
    for cfg in CONFIGS:
        for layout in LAYOUTS.get(cfg, ["mono"]):
            for kind in ["raise", "nan", "interrupt", "analysis"] + (["reject"] if "chain" in CONFIGS[cfg] else []):
                if kind == "nan" and layout not in ("mono", "implicit"):
                    continue
                if tier == "quick" and kind in ("interrupt", "analysis") and (layout != "mono" or cfg not in ("all", "memory", "adaptive")):
                    continue
                ops = ops_of(cfg)
                for op in ops:
                    if op == "c1":
                        continue
                    for pre in PRE:
                        if any(p not in ops for p in pre):
                            continue
                        if tier == "quick" and (kind != "raise" or layout != "mono") and pre not in ([], ["c0"]):
                            continue
                        if tier == "quick" and op == "r1" and pre != ["c0"]:
                            continue
                        if tier == "quick" and "chain" in CONFIGS[cfg] and pre not in ([], ["c0", "r0"]):
                            continue
                        follows = [[o] for o in ops + ["s"]]
                        if tier == "thorough":
                            follows += [list(f) for f in itertools.product(ops + ["s"], repeat=2)]
                            follows += [["!" + a, b] for a in ops for b in ops]
                        elif kind == "raise" and layout == "mono":
                            follows += [["!" + op, o] for o in ops[:1] + ops[-2:]]
                        for follow in follows:
                            yield dict(cfg=cfg, layout=layout, fault=kind, pre=pre, op=op, follow=follow)
    for cfg in ("none", "all", "single", "adaptive"):
        for op in ("run", "totals_fwd", "totals_rev"):
            if cfg == "none" and op == "totals_rev":
                continue
            for follow in ("run", "totals_fwd", "totals_rev"):
                if cfg == "none" and follow == "totals_rev":
                    continue
                yield dict(cfg=cfg, layout="mono", fault="raise", pre=[], op=op, follow=[follow], api=True)


# ---------------------------------------------------------------- environment


class Env(Callback, ErrorMeasurer):
    """All calls of the package to its environment, numbered within one operation."""

    def __init__(self):
        self.kind = "raise"
        self.at = None
        self.count = 0
        self.hit = None
        self.poison = False
        self.names = []
        self.held = None  # exception the user still looks at, with the frames it came from
        self.release = 0

    def begin(self, kind=None, at=None):
        self.kind, self.at, self.count, self.hit, self.poison = kind, at, 0, None, False
        self.names = []

    def event(self, name):
        k = self.count
        self.count += 1
        self.names.append(name)
        if self.held is not None:
            self.release -= 1
            if self.release <= 0:
                self.held = None
        if k == self.at and self.kind in KINDS:
            self.hit = name
            raise KINDS[self.kind]("fault of the environment")
        if k == self.at and self.kind == "nan" and name in ("compute", "linearize"):
            self.hit = name
            self.poison = True
        if k == self.at and self.kind == "reject" and name == "measure":
            self.hit = name

    def observe(self, kind, _):
        self.event(kind)

    def spoil(self, v):
        if self.poison:
            self.poison = False
            return v * np.nan
        return v

    def before_iteration(self, *_):
        self.event("before")

    def after_iteration(self, *_):
        self.event("after")

    def get_measure(self, state_error_estimate, state, ode):
        self.event("measure")
        if self.hit == "measure" and self.kind == "reject":
            return np.inf
        return SimpleErrorMeasurer().get_measure(state_error_estimate, state, ode)

    def controller(self, constructor):
        def make(p, base=None, **options):
            c = constructor(p, base=base, **options)
            env, cls = self, type(c)

            def call(this, *args, **kwargs):
                env.event("controller")
                return cls.__call__(this, *args, **kwargs)

            c.__class__ = type("Observed" + cls.__name__, (cls,), {"__call__": call})
            return c

        return make


def build(case, env, driver=VecDriver):
    c = CONFIGS[case["cfg"]]
    bt, _ = cm.tableau(cm.ODD2 if c["tab"] == "odd" else c["tab"])
    opts = dict(compute_callbacks=[env], compute_jacvec_product_fwd_callbacks=[env], compute_jacvec_product_rev_callbacks=[env], error_measurer=env)
    opts.update(cm.checkpointing(c["cp"]))
    file = None
    if c.get("file"):
        file = os.path.join(os.getcwd(), "c22.h5")
        opts["compute_callbacks"] = [OpenMDAOHDF5Callback(file), env]
    if "chain" in c:
        opts.update(adaptive=True, error_controller=[env.controller(k) for k in c["chain"]],
                    error_controller_options=dict(config=ErrorControllerConfig(tol=5e-3, max_iter=6)))
    drv = driver(cm.SPECS["scalar_tp" if case["layout"] == "implicit" else "vec_scalar"], bt, n_steps=c.get("n"),
                 term=PredefinedFinalTime(c["T"]) if "T" in c else None, dt=c.get("dt", 0.1), layout=case["layout"], observer=env.observe, **opts)
    drv.file = file
    m = drv.model
    stage, jac = m.stage, m.jac
    m.stage = lambda *a: env.spoil(stage(*a)) if not np.iscomplexobj(a[1]) else stage(*a)
    m.jac = lambda *a: env.spoil(jac(*a))
    return drv


def point(m, key):
    return (0.2 - 0.5 * int(key), m.x0(int(key)) * (1 + 0.4 * int(key)), m.p0(int(key)))


def do(drv, op):
    """One operation; its results as a vector."""
    m = drv.model
    if op == "s":
        drv.prob.setup()
        drv.prob.final_setup()
        return np.zeros(0)
    if op == "run" or op.startswith("totals"):
        drv.set(*point(m, 0))
        drv.prob.run_model()
        t, x = drv.get()
        r = np.append(x, t)
        if op != "run":
            mode = op[-3:]
            of = [f"rk.{q}_final" for q in drv.names]
            wrt = [f"rk.{q}_initial" for q in drv.names] + [f"rk.{p}" for p in drv.pnames]
            r = np.concatenate([r] + [np.ravel(products(drv, of, wrt, mode))])
        return r
    pt = point(m, op[1])
    if op[0] == "c":
        t, x = drv.compute(*pt)
        r = np.append(x, t)
        if drv.file:
            tt, _, res = read_hdf5_file(drv.file, drv.names, lambda *a: [0.0 * np.asarray(v) for v in a[1]])
            r = np.concatenate([r] + [np.append(np.concatenate([np.ravel(res[q][k]) for q in drv.names]), tt[k]) for k in sorted(tt)])
        return r
    if op[0] == "f":
        return drv.fwd_at(pt, np.cos(1.0 + np.arange(m.n + m.np + 1)))
    return drv.rev_at(pt, np.sin(2.0 + np.arange(m.n + 1)))


def products(drv, of, wrt, mode):
    names = of if mode == "rev" else wrt
    rows = []
    for name in names:
        shape = drv.prob.get_val(name).shape
        for i in range(int(np.prod(shape))):
            e = np.zeros(shape)
            e.ravel()[i] = 1.0
            seed = [e if k == name else np.zeros(drv.prob.get_val(k).shape) for k in names]
            r = drv.prob.compute_jacvec_product(of, wrt, mode, seed)
            rows.append(np.concatenate([np.ravel(r[k]) for k in (wrt if mode == "rev" else of)]))
    return np.array(rows) if mode == "rev" else np.array(rows).T


EXPECTED = {}


def expected(case, op):
    key = (case["cfg"], case["layout"], op)
    if key not in EXPECTED:
        env = Env()
        drv = build(case, env, Driver if case.get("api") else VecDriver)
        env.begin()
        EXPECTED[key] = do(drv, op)
        if drv.file and os.path.exists(drv.file):
            os.remove(drv.file)
    return EXPECTED[key]


def reaches(exc, kind):
    """Whether the failure of the environment is what the caller got."""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, KINDS[kind]) or "fault of the environment" in str(e):
            return True
        todo += [e.__cause__, e.__context__]
    return False


def faulty(drv, env, op, kind, k, trace):
    """Operation failing at position k; False if it has fewer positions."""
    trace.append(f"{op} with {kind} at {k}")
    env.begin(kind, k)
    try:
        r = do(drv, op)
    except (Exception, FaultInterrupt) as e:  # pylint: disable=broad-except
        if isinstance(e, Violation):
            raise
        if env.hit is None:
            raise
        if "disk" in CASE["cfg"]:
            env.held, env.release = e, k % 7 + 1
        if kind in KINDS:
            require(reaches(e, kind), "another failure was reported than the one of the environment", got=repr(e)[:300], where=env.hit, operations=list(trace))
        elif kind == "reject":
            require(isinstance(e, CONTROLLER_ERRORS) or any(isinstance(x, CONTROLLER_ERRORS) for x in (e.__cause__, e.__context__)) or "Controller" in repr(e),
                    "unexpected failure after measures that are never accepted", got=repr(e)[:300], operations=list(trace))
        return True
    if env.hit is not None:
        if kind in KINDS:
            raise Violation("a failure was not reported", where=env.hit, operations=list(trace), got=repr(r)[:300])
        ref = expected(dict(CASE), op)
        if kind == "reject":
            raise Violation("a step with an error that is never accepted was accepted", operations=list(trace), got=repr(r)[:300])
        require(not np.all(np.isfinite(r)) or np.allclose(r, ref, rtol=1e-9, atol=1e-11), "a failure turned into a wrong result", where=env.hit,
                got=r, expected=ref, operations=list(trace))
        return True
    return env.count > k


CASE = {}

def run_case(case, rec):
    CASE.clear()
    CASE.update(case)
    with np.errstate(all="ignore"):
        explore(case, rec)


def explore(case, rec):
    env = Env()
    kind, op = case["fault"], case["op"]
    drv = build(case, env, Driver if case.get("api") else VecDriver)
    trace = []

    tainted = [None]

    def good(o):
        trace.append(o)
        env.begin()
        was, tainted[0] = tainted[0], None
        try:
            r = do(drv, o)
        except RuntimeError:
            if was is None or o != "r" + was:
                raise
            r = np.array([np.nan])
        if was is not None and o == "r" + was and not np.all(np.isfinite(r)):
            # derivative of the preceding evaluation, which was not a number
            rec.count("derivative_of_nan")
            return
        require_close(r, expected(case, o), "result after a failure differs from the one of a fresh integrator", rtol=1e-10, atol=1e-12, operations=list(trace))
        rec.transition()

    k = 0
    while True:
        trace.clear()
        for o in case["pre"]:
            good(o)
        if not faulty(drv, env, op, kind, k, trace):
            break
        if env.hit is not None:
            rec.count("failed_in_" + env.hit)
            tainted[0] = op[1] if kind == "nan" and op[0] == "c" else None
            rec.state(case["cfg"], case["layout"], kind, case["pre"], op, k, env.hit)
            ran = True
            for o in case["follow"]:
                if o.startswith("!"):
                    # a second failure, at a position of its own
                    ran = faulty(drv, env, o[1:], kind, (3 * k + 1) % max(env.count + 4, 1), trace) and ran
                else:
                    good(o)
            rec.trace()
            rec.transition()
        k += 1
        require(k < 2000, "more than 2000 calls of the environment in one operation")
    require(k > 0, "no position to fail")
    if drv.file and os.path.exists(drv.file):
        os.remove(drv.file)
    rec.outcome(kind)
