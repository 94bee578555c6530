"""C23: total derivatives of a surrounding model are solver and mode independent.

Models around one or several integrators (alone, chained, branching, sharing inputs, parts
of vectors, nested groups, coupled in loops) x linear solvers x modes x checkpointing;
for each the values and the totals for every subset of responses and variables against
the derivative of the composed recurrences."""

import itertools

import numpy as np
import openmdao.api as om

from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

from mc import common as cm
from mc.core import require, require_close
from mc.models import Model, ref_run
from mc.omsys import stage_problem

ID = "C23"
ASSUMPTIONS = [
    "step sizes are fixed (derivatives of adaptive integrations hold the steps fixed, see C08)",
    "coupled loops converge for the nonlinear solver of the surrounding model",
    "linear solvers are used as OpenMDAO documents them: single sweeps and block Jacobi only for models without loops",
]
A = dict(quantities=[cm.Q("x", 2)], params=[cm.PR("p", 1)], time=True)
B = dict(quantities=[cm.Q("y", 1), cm.Q("z", 2)], params=[cm.PR("p", 1), cm.PR("r", 2)], time=True)
C = dict(quantities=[cm.Q("x", 1, 2), cm.Q("o", 1, kind="out")], params=[], time=False)
KIND = dict(A=A, B=B, C=C)
INPUTS = dict(a=2, b=1, w=3, t0=1)


def rk(name, spec, tab="odd", n=2, dt=0.1, **src):
    return dict(node="rk", name=name, spec=spec, tab=tab, n=n, dt=dt, src=src)


def mix(name, size, *src, gain=0.8):
    return dict(node="mix", name=name, size=size, src={f"i{k}": s for k, s in enumerate(src)}, gain=gain)


# sources: "node.output", "node.output[i:j]", inputs are outputs of the node "in"
TOPOLOGIES = {
    "alone": dict(nodes=[rk("k", "A", x_initial="in.a", p="in.b", time_initial="in.t0"), mix("m", 2, "k.x_final", "k.time_final")],
                  of=["m.v", "k.x_final", "k.time_final"], wrt=["a", "b", "t0"]),
    "pre": dict(nodes=[mix("q", 2, "in.a", "in.b"), mix("s", 1, "in.b"), rk("k", "A", "runge_kutta_four", 3, x_initial="q.v", p="s.v", time_initial="in.t0"),
                       mix("m", 1, "k.x_final", "in.a")], of=["m.v", "k.x_final", "q.v"], wrt=["a", "b", "t0"]),
    "two": dict(nodes=[rk("k", "B", y_initial="in.b", z_initial="in.a", p="in.b", r="in.a", time_initial="in.t0"), mix("m", 1, "k.z_final")],
                of=["m.v", "k.y_final", "k.time_final"], wrt=["a", "b", "t0"]),
    "notime": dict(nodes=[rk("k", "C", x_initial="in.a", o_initial="in.b"), mix("m", 2, "k.x_final", "k.o_final")], of=["m.v", "k.o_final", "k.time_final"], wrt=["a", "b", "t0"]),
    "chain": dict(nodes=[rk("k", "A", x_initial="in.a", p="in.b", time_initial="in.t0"), mix("s", 1, "k.x_final", "in.b"),
                         rk("l", "A", "implicit_midpoint", 3, x_initial="k.x_final", p="s.v", time_initial="k.time_final")],
                  of=["l.x_final", "l.time_final", "k.x_final"], wrt=["a", "b", "t0"]),
    "series": dict(nodes=[rk("k", "A", n=1, x_initial="in.a", p="in.b", time_initial="in.t0"), rk("l", "A", n=1, x_initial="k.x_final", p="in.b", time_initial="k.time_final"),
                          rk("n", "A", n=1, x_initial="l.x_final", p="in.b", time_initial="l.time_final")], of=["n.x_final", "l.x_final", "n.time_final"], wrt=["a", "b", "t0"]),
    "fork": dict(nodes=[rk("k", "A", x_initial="in.a", p="in.b", time_initial="in.t0"), rk("l", "B", y_initial="in.b", z_initial="in.a", p="in.b", r="in.a", time_initial="in.t0"),
                        mix("m", 1, "k.x_final", "l.y_final", "l.z_final")], of=["m.v", "l.z_final"], wrt=["a", "b", "t0"]),
    "diamond": dict(nodes=[mix("q", 2, "in.a", "in.b"), rk("k", "A", x_initial="q.v", p="in.b", time_initial="in.t0"), rk("l", "A", "explicit_euler", 1, x_initial="q.v", p="in.b", time_initial="in.t0"),
                           mix("d", 2, "k.x_final", "l.x_final"), rk("n", "C", x_initial="d.v", o_initial="k.time_final")], of=["n.x_final", "n.o_final", "d.v"], wrt=["a", "b", "t0"]),
    "parts": dict(nodes=[rk("k", "A", x_initial="in.w[0:2]", p="in.w[2:3]", time_initial="in.w[1:2]"), rk("l", "A", x_initial="in.w[1:3]", p="k.x_final[1:2]", time_initial="in.t0"),
                         mix("m", 1, "l.x_final[0:1]", "k.x_final[0:1]")], of=["m.v", "l.x_final", "k.time_final"], wrt=["w", "t0"]),
    "zero": dict(nodes=[rk("k", "A", n=0, x_initial="in.a", p="in.b", time_initial="in.t0"), rk("l", "A", x_initial="k.x_final", p="in.b", time_initial="k.time_final")],
                 of=["l.x_final", "k.x_final", "k.time_final"], wrt=["a", "b", "t0"]),
    "selfloop": dict(nodes=[mix("s", 1, "k.x_final", "in.b", gain=0.4), rk("k", "A", x_initial="in.a", p="s.v", time_initial="in.t0")], of=["k.x_final", "s.v", "k.time_final"],
                     wrt=["a", "b", "t0"], loop=True),
    "loop": dict(nodes=[mix("s", 1, "l.y_final", "in.b", gain=0.4), rk("k", "A", x_initial="in.a", p="s.v", time_initial="in.t0"), mix("u", 1, "k.x_final", gain=0.5),
                        rk("l", "B", y_initial="in.b", z_initial="in.a", p="u.v", r="in.a", time_initial="in.t0"), mix("m", 1, "l.z_final", "k.x_final")],
                 of=["m.v", "k.x_final", "l.y_final"], wrt=["a", "b", "t0"], loop=True),
    "feedback": dict(nodes=[mix("s", 2, "l.x_final", "in.a", gain=0.3), rk("k", "A", x_initial="s.v", p="in.b", time_initial="in.t0"),
                            rk("l", "A", "third_order_two_stage_sdirk", 1, x_initial="k.x_final", p="in.b", time_initial="k.time_final")],
                     of=["l.x_final", "k.x_final", "l.time_final"], wrt=["a", "b", "t0"], loop=True),
}
SOLVERS = ["runonce", "gs", "jac", "direct", "scipy", "petsc", "scipy_pre"]
CPS = ["all", ["pyrevolve", "Memory", None], ["pyrevolve", "SingleLevel", 1]]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} models: {len(TOPOLOGIES)} topologies x grouping (flat, nested) x {len(SOLVERS)} linear solvers x modes x checkpointing (or x approximation of everything or a part by OpenMDAO) "
            f"(x nonlinear solvers for loops); each with the totals for subsets of responses and variables (all of them, or everything x each single one) at up to 2 points")


def cases(tier):
    for topo, d in TOPOLOGIES.items():
        for solver in SOLVERS:
            if d.get("loop") and solver in ("runonce", "jac"):
                continue
            for group in ("flat", "nested"):
                for mode in ("fwd", "rev"):
                    for cp in CPS if tier == "thorough" or (solver in ("runonce", "gs") and group == "flat") else CPS[:1]:
                        for nl in ("gs", "newton") if d.get("loop") else (None,):
                            if nl == "newton" and solver not in ("direct", "scipy", "gs"):
                                continue
                            full = not d.get("loop") and (tier == "thorough" or (solver == "runonce" and cp == "all"))
                            yield dict(topo=topo, solver=solver, group=group, mode=mode, cp=cp, nl=nl, subsets="all" if full else "border",
                                       points=1 if d.get("loop") and tier == "quick" else 2)
        # derivatives of everything, or of a part of it, approximated by OpenMDAO: never wrong ones
        for group in ("flat", "nested"):
            for where in ("model",) if d.get("loop") else ("g", "model"):
                for method in ("fd", "cs"):
                    for mode in ("fwd", "rev"):
                        yield dict(topo=topo, solver="direct" if d.get("loop") else "runonce", group=group, mode=mode, cp="all", nl="gs" if d.get("loop") else None,
                                   subsets="border", points=1, approx=[where, method])


def subsets(case, of, wrt):
    """Pairs of subsets of responses and variables; border: everything or a single one on one side."""
    if case["subsets"] == "all":
        for no in range(1, len(of) + 1):
            for os_ in itertools.combinations(of, no):
                for nw in range(1, len(wrt) + 1):
                    for ws in itertools.combinations(wrt, nw):
                        yield os_, ws
        return
    yield tuple(of), tuple(wrt)
    yield from (((o,), tuple(wrt)) for o in of)
    yield from ((tuple(of), (w,)) for w in wrt)


# ---------------------------------------------------------------- models


class Mix(om.ExplicitComponent):
    """v = gain sin(M i + c)"""

    def initialize(self):
        self.options.declare("size")
        self.options.declare("gain")
        self.options.declare("sizes")

    def setup(self):
        for k, s in enumerate(self.options["sizes"]):
            self.add_input(f"i{k}", shape=(s,))
        self.add_output("v", shape=(self.options["size"],))
        self.declare_partials("*", "*")

    def compute(self, inputs, outputs, *_):
        outputs["v"] = mix_value(self.options["size"], self.options["gain"], np.concatenate([inputs[f"i{k}"] for k in range(len(self.options["sizes"]))]))

    def compute_partials(self, inputs, partials, *_):
        v = np.concatenate([inputs[f"i{k}"] for k in range(len(self.options["sizes"]))])
        J = np.imag(mix_value(self.options["size"], self.options["gain"], v.astype(complex)[:, None] + 1e-30j * np.eye(v.size))) / 1e-30
        at = 0
        for k, s in enumerate(self.options["sizes"]):
            partials["v", f"i{k}"] = J[:, at:at + s]
            at += s


def mix_value(size, gain, v):
    M = np.cos(1.3 * np.arange(1, size + 1)[:, None] + 0.7 * np.arange(1, v.shape[0] + 1)[None, :])
    return gain * np.sin(M @ v + 0.2)


def split(src):
    """'node.var[i:j]' -> node, var, slice or None"""
    name, _, part = src.partition("[")
    node, var = name.split(".")
    if not part:
        return node, var, None
    i, j = part[:-1].split(":")
    return node, var, slice(int(i), int(j))


def shapes(topo):
    """Shapes of all outputs of a topology."""
    res = {f"in.{k}": (s,) for k, s in INPUTS.items()}
    for nd in topo["nodes"]:
        if nd["node"] == "mix":
            res[nd["name"] + ".v"] = (nd["size"],)
        else:
            for q in KIND[nd["spec"]]["quantities"]:
                res[f"{nd['name']}.{q['name']}_final"] = tuple(q["shape"])
            res[nd["name"] + ".time_final"] = (1,)
    return res


def reference(topo, values):
    """All outputs (flat) from flat inputs; complex and (n, batch) arrays allowed."""
    out = {f"in.{k}": v for k, v in values.items()}
    batch = next(iter(values.values())).shape[1:]
    sh = shapes(topo)
    if topo.get("loop"):
        for k, s in sh.items():
            out.setdefault(k, np.zeros((int(np.prod(s)),) + batch, dtype=next(iter(values.values())).dtype))

    def get(src):
        node, var, part = split(src)
        v = out[f"{node}.{var}"]
        return v if part is None else v[part]

    for _ in range(80 if topo.get("loop") else 1):
        for nd in topo["nodes"]:
            if nd["node"] == "mix":
                out[nd["name"] + ".v"] = mix_value(nd["size"], nd["gain"], np.concatenate([get(s) for s in nd["src"].values()]))
                continue
            m = Model(KIND[nd["spec"]])
            _, ref = cm.tableau(cm.ODD2 if nd["tab"] == "odd" else nd["tab"])
            x = np.concatenate([get(nd["src"][q["name"] + "_initial"]) for q in m.q])
            p = np.concatenate([get(nd["src"][q["name"]]) for q in m.params]) if m.params else np.zeros((0,) + batch)
            t = get(nd["src"]["time_initial"])[0] if "time_initial" in nd["src"] else 0.0 * x[0]
            tf, xf = ref_run(ref, m, t, x, p, [nd["dt"]] * nd["n"])[-1]
            for i, q in enumerate(m.q):
                out[f"{nd['name']}.{q['name']}_final"] = xf[m.qslice[i]]
            out[nd["name"] + ".time_final"] = np.stack([tf])
    return out


def linear_solver(name):
    tol = dict(iprint=-1, atol=1e-14, rtol=1e-14)
    if name == "runonce":
        return om.LinearRunOnce()
    if name == "gs":
        return om.LinearBlockGS(maxiter=80, **tol)
    if name == "jac":
        return om.LinearBlockJac(maxiter=120, **tol)
    if name == "direct":
        return om.DirectSolver(assemble_jac=False)
    if name == "petsc":
        return om.PETScKrylov(maxiter=200, **tol)
    s = om.ScipyKrylov(maxiter=200, **tol)
    if name == "scipy_pre":
        s.precon = om.DirectSolver(assemble_jac=False)
    return s


def build(case):
    topo = TOPOLOGIES[case["topo"]]
    sh = shapes(topo)
    prob = om.Problem(reports=False)
    ivc = om.IndepVarComp()
    for k, s in INPUTS.items():
        ivc.add_output(k, shape=(s,))
    prob.model.add_subsystem("in", ivc)
    top = prob.model.add_subsystem("g", om.Group())
    path = {"in": "in"}
    for i, nd in enumerate(topo["nodes"]):
        # nested: alternating groups around the integrators, promoting or not
        target, prefix = top, "g."
        if case["group"] == "nested" and nd["node"] == "rk":
            target = top.add_subsystem("sub" + nd["name"], om.Group())
            prefix += f"sub{nd['name']}."
            if i % 2:
                target = target.add_subsystem("deep", om.Group(), promotes=["*"])
        if nd["node"] == "mix":
            sizes = []
            for s in nd["src"].values():
                node, var, part = split(s)
                full = int(np.prod(sh[f"{node}.{var}"]))
                sizes.append(full if part is None else part.stop - part.start)
            target.add_subsystem(nd["name"], Mix(size=nd["size"], gain=nd["gain"], sizes=sizes))
            path[nd["name"]] = prefix + nd["name"]
        else:
            m = Model(KIND[nd["spec"]])
            bt, _ = cm.tableau(cm.ODD2 if nd["tab"] == "odd" else nd["tab"])
            comp = RungeKuttaIntegrator(time_stage_problem=stage_problem(m, "mono"), butcher_tableau=bt,
                                        integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(nd["n"]), nd["dt"]),
                                        time_integration_quantities=[q["name"] for q in m.q], time_independent_input_quantities=[p["name"] for p in m.params],
                                        **cm.checkpointing(case["cp"]), **cm.QUIET)
            promote = ["*"] if case["group"] == "nested" else None
            target.add_subsystem(nd["name"], comp, promotes=promote)
            path[nd["name"]] = prefix[:-1] if promote else prefix + nd["name"]
    for nd in topo["nodes"]:
        for inp, s in nd["src"].items():
            node, var, part = split(s)
            kw = {} if part is None else dict(src_indices=np.arange(part.start, part.stop))
            # quantities of other shapes arrive flattened and the other way round
            src_shape = sh[f"{node}.{var}"]
            if nd["node"] == "rk" and inp.endswith("_initial") and inp != "time_initial":
                q = next(q for q in KIND[nd["spec"]]["quantities"] if q["name"] + "_initial" == inp)
                if tuple(q["shape"]) != src_shape and part is None:
                    kw = dict(src_indices=np.arange(int(np.prod(src_shape))).reshape(q["shape"]), flat_src_indices=True)
            elif nd["node"] == "mix" and part is None and len(src_shape) > 1:
                kw = dict(src_indices=np.arange(int(np.prod(src_shape))), flat_src_indices=True)
            prob.model.connect(f"{path[node]}.{var}", f"{path[nd['name']]}.{inp}", **kw)
    top.linear_solver = linear_solver(case["solver"])
    if case["nl"] == "gs":
        top.nonlinear_solver = om.NonlinearBlockGS(maxiter=100, atol=1e-13, rtol=1e-13, iprint=-1, use_apply_nonlinear=True)
    elif case["nl"] == "newton":
        top.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=25, atol=1e-12, rtol=1e-12, iprint=-1)
    approx = case.get("approx")
    if approx:
        {"g": top, "model": prob.model}[approx[0]].approx_totals(**dict(dict(method="fd", form="central", step=1e-5) if approx[1] == "fd" else dict(method="cs")))
    prob.setup(mode=case["mode"], force_alloc_complex=bool(approx))
    prob.final_setup()
    return prob, path


def run_case(case, rec):
    topo = TOPOLOGIES[case["topo"]]
    prob, path = build(case)
    of, wrt = topo["of"], topo["wrt"]
    approx = case.get("approx")
    tol = dict(rtol=1e-7, atol=1e-9) if not approx else dict(rtol=1e-5, atol=1e-6)
    full = {o: path[o.split(".")[0]] + "." + o.split(".")[1] for o in of}
    rng = {k: 0.3 + 0.5 * np.abs(np.sin(1.0 + i + 1.3 * np.arange(s))) for i, (k, s) in enumerate(INPUTS.items())}
    for variant in range(case["points"]):
        vals = {k: v * (1 + 0.4 * variant) - 0.05 * variant for k, v in rng.items()}
        for k, v in vals.items():
            prob.set_val(f"in.{k}", v)
        prob.run_model()
        ref = reference(topo, {k: v for k, v in vals.items()})
        for o in of:
            require_close(np.ravel(prob.get_val(full[o])), ref[o], "value in a surrounding model wrong", rtol=1e-8, atol=1e-10, output=o)
        N = sum(INPUTS.values())
        V = np.concatenate(list(vals.values())).astype(complex)[:, None] + 1e-30j * np.eye(N)
        off = np.cumsum([0] + list(INPUTS.values()))
        C_ = reference(topo, {k: V[off[i]:off[i + 1]] for i, k in enumerate(INPUTS)})
        J = {(o, w): np.imag(C_[o])[:, off[list(INPUTS).index(w)]:off[list(INPUTS).index(w) + 1]] / 1e-30 for o in of for w in wrt}
        for os_, ws in subsets(case, of, wrt):
            try:
                got = prob.compute_totals(of=[full[o] for o in os_], wrt=[f"in.{w}" for w in ws])
            except RuntimeError as exc:
                if not approx or approx[1] != "cs" or "complex" not in str(exc):
                    raise
                rec.outcome("complex step refused")
                return
            for o in os_:
                for w in ws:
                    require_close(got[full[o], f"in.{w}"], J[o, w], "total derivative in a surrounding model wrong", **tol, of=o, wrt=w, responses=os_, variables=ws)
                    rec.transition()
            rec.state(case["topo"], os_, ws, variant)
    require(len(of) > 0, "no responses")
    rec.trace()
    rec.outcome("loop" if topo.get("loop") else "feed forward")
