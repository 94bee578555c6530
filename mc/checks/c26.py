"""C26: the stage model wrapper behaves as a pure function.

Every sequence of wrapper operations (evaluations, derivatives, adjoint derivatives at
several points, invalid values, failing evaluations) is executed on one wrapper; each
result must be the one of the closed form at the point of its own arguments, whatever
happened before; arguments and earlier results must stay untouched."""

import itertools

import numpy as np
import openmdao.api as om

from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEInputState, DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE

from mc import common as cm
from mc.core import require, require_close
from mc.models import Model
from mc.omsys import stage_problem

ID = "C26"
ASSUMPTIONS = [
    "tagged inputs have an own source which they see unmodified (see C14)",
    "coupled stage models with an iterative nonlinear solver are not continued from invalid values (the solver itself starts from them)",
    "approximated groups are not scaled (OpenMDAO's own reverse derivatives are wrong for them)",
    "floating point agreement up to 1e-8 relative counts as equal",
]
TOL = dict(rtol=1e-8, atol=1e-10)
# name -> (layout, linear solver, scaling)
SYSTEMS = {
    "mono": ("mono", None, 0), "implicit": ("implicit", None, 0), "nested": ("nested", None, 0), "split": ("split", None, 0), "loop": ("loop", None, 0),
    "mono/scaled": ("mono", None, 1), "implicit/scaled": ("implicit", None, 1), "split/scaled": ("split", None, 2), "loop/scaled": ("loop", None, 1),
    "mono/ivc": ("mono", "ivc", 0), "split/ivc": ("split", "ivc", 1),
    "mono/direct": ("mono", "direct", 0), "split/direct": ("split", "direct", 0), "split/gs": ("split", "gs", 0), "split/krylov": ("split", "krylov", 0),
    "loop/gs": ("loop", "gs", 0), "loop/krylov": ("loop", "krylov", 0), "loop/jac": ("loop", "jac", 0), "implicit/krylov": ("implicit", "krylov", 0),
    "free": ("free", None, 0), "cs": ("cs", None, 0), "group_cs": ("group_cs", None, 0), "newton": ("newton", None, 0),
    "free/krylov": ("free", "krylov", 0), "cs/scaled": ("cs", None, 1), "newton/scaled": ("newton", None, 1),
    "discrete": ("discrete", None, 0), "discrete/scaled": ("discrete_nested", None, 1), "discrete/direct": ("discrete", "direct", 0),
    "perm/direct": ("perm:1|02", None, 0), "perm/gs": ("perm:2|10", "gs", 1), "perm/krylov": ("perm:2|0|1", "krylov", 0),
}
OPS = ["Ea", "Eb", "Da", "Db", "Aa", "Ab", "En", "Ef", "Dn", "An", "Di"]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} groups: {len(SYSTEMS)} stage models (layout x linear solver x scaling) x specifications; all sequences of up to "
            f"{3 if tier == 'quick' else 4} of {len(OPS)} operations one after the other on one wrapper (one less with Krylov and Jacobi solvers), all up to length {2 if tier == 'quick' else 3} on a fresh "
            "wrapper (quick: for 8 stage models); complete Jacobians in both modes at 6 points; points far from each other, "
            "points differing by 1e-6, and points differing in the step size only; all pairs of linearization points with the same sum, norm, "
            "extremes or ends, and of points differing in one entry; approximated totals; arrays of 6 types and memory layouts")


def cases(tier):
    for name in SYSTEMS:
        for spec in ("vec_scalar", "mixed", "tensor", "scalar", "outs", "outonly", "scalar_tp"):
            if name.startswith("perm") and spec != "mixed":
                continue
            yield dict(kind="jac", sys=name, spec=spec)
    for name in SYSTEMS:
        spec = "mixed" if name.startswith("perm") else "vec_scalar"
        for first in OPS:
            slow = "krylov" in name or "jac" in name or name == "perm/gs"
            yield dict(kind="seq", sys=name, spec=spec, first=first, depth=(3 if tier == "quick" else 4) - slow)
        for pts in ("rest", "near"):
            yield dict(kind="jac", sys=name, spec=spec, pts=pts)
            for first in OPS:
                yield dict(kind="seq", sys=name, spec=spec, first=first, depth=2 if tier == "quick" else 3, pts=pts)
    for name in SYSTEMS:
        if name.startswith("discrete"):
            continue  # the points of the next ones are not reached by evaluations
        for spec in ("vec_scalar", "scalar_tp") if not name.startswith("perm") else ("mixed",):
            yield dict(kind="alike", sys=name, spec=spec)
    for name in SYSTEMS:
        yield dict(kind="arrays", sys=name, spec="mixed" if name.startswith("perm") else "vec_scalar")
    for spec in ("vec_scalar", "scalar", "mixed"):
        for method in ("cs", "fd"):
            yield dict(kind="total", sys="mono", spec=spec, method=method)
    for name in SYSTEMS if tier == "thorough" else ("mono", "implicit", "nested", "split", "split/krylov", "implicit/scaled", "loop", "loop/gs"):
        yield dict(kind="fresh", sys=name, spec="vec_scalar" if not name.startswith("perm") else "mixed", depth=2 if tier == "quick" else 3)


class Env:
    """One wrapper around one stage model and its closed form."""

    def __init__(self, case):
        layout, lin, scaling = SYSTEMS[case["sys"]]
        self.pts = case.get("pts", "far")
        self.m = m = Model(dict(cm.SPECS[case["spec"]], rest=self.pts == "rest"))
        self.fail = False
        self.can_fail = layout in ("mono", "implicit", "nested")
        self.warm = layout in ("loop", "newton") or layout.startswith("perm")
        prob = stage_problem(m, layout, self.observe) if layout in ("mono", "implicit", "nested") else stage_problem(m, layout)
        if lin == "ivc":
            ivc = om.IndepVarComp()
            for i, prm in enumerate(m.params):
                ivc.add_output(prm["name"], shape=prm["shape"], val=0.7)
            if m.has_time:
                ivc.add_output("time", val=0.1)
            if m.params or m.has_time:
                prob.model.add_subsystem("ivc", ivc, promotes=["*"])
                prob.model.set_order(["ivc"] + [s for s in self.names(prob) if s != "ivc"])
        elif lin:
            prob.model.linear_solver = dict(
                direct=lambda: om.DirectSolver(assemble_jac=True), gs=lambda: om.LinearBlockGS(maxiter=60, atol=1e-15, rtol=1e-15, iprint=-1),
                jac=lambda: om.LinearBlockJac(maxiter=60, atol=1e-15, rtol=1e-15, iprint=-1),
                krylov=lambda: om.ScipyKrylov(maxiter=200, atol=1e-14, rtol=1e-14, iprint=-1))[lin]()
        if scaling:
            for i, q in enumerate(m.q):
                kw = dict(ref=3.0 + i, ref0=0.5 * i, res_ref=3.0 + i) if scaling == 1 else dict(ref=1e-2 * (i + 1), res_ref=1e-2 * (i + 1))
                if layout in ("implicit", "newton"):
                    kw["res_ref"] = 40.0
                prob.model.set_output_solver_options(self.owner(layout, i) + q["name"] + "_k", **kw)
        if case.get("method"):
            prob.model.approx_totals(method=case["method"])
        prob.setup()
        prob.final_setup()
        self.prob = prob
        self.ode = OpenMDAOODE(prob, [q["name"] for q in m.q], independent_input_quantities=[p["name"] for p in m.params])
        # place of every quantity in the wrapper's arrays
        meta = self.ode.time_integration_metadata
        self.xi, self.pi = np.zeros(m.n, dtype=int), np.zeros(m.np, dtype=int)
        for q in meta.time_integration_quantity_list:
            i = [z["name"] for z in m.q].index(q.name)
            self.xi[m.qslice[i]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
        for q in meta.time_independent_input_quantity_list:
            i = [z["name"] for z in m.params].index(q.name)
            self.pi[m.pslice[i]] = np.arange(q.array_metadata.start_index, q.array_metadata.end_index)

    @staticmethod
    def names(prob):
        return list(prob.model._static_subsystems_allprocs)  # pylint: disable=protected-access

    @staticmethod
    def owner(layout, i):
        """Path of the component computing quantity i."""
        if layout in ("split", "loop"):
            return f"c{i}."
        if layout.startswith("perm:"):
            groups = layout[5:].split("|")
            return (f"g{[str(i) in g for g in groups].index(True)}." if len(groups) > 1 else "") + f"c{i}."
        return "outer.sys." if layout in ("nested", "group_cs", "discrete_nested") else "sys."

    def observe(self, kind, _):
        if self.fail and kind == "compute":
            raise om.AnalysisError("injected")

    # points differ in everything
    def point(self, k):
        m = self.m
        if self.pts == "rest":  # all arguments and slopes agree, only the step size and the stage factor differ
            return dict(t=0.3, x=np.zeros(m.n), acc=np.zeros(m.n), p=m.p0(0), dt=(0.1, 0.7, 0.02, 1.3, 0.4, 0.0)[k], aii=(0.6, 0.6, 0.6, 1.0, -0.1, 0.3)[k])
        if self.pts == "near" and k:
            a = self.point(0)
            e = 1e-6 * (-1) ** k * k
            return dict(t=a["t"] * (1 + e), x=a["x"] * (1 + e), acc=a["acc"] * (1 - e), p=a["p"] * (1 - 2 * e), dt=a["dt"], aii=a["aii"])
        x = m.x0(k)
        acc = 0.3 * np.cos(np.arange(m.n) + 1.0 + k)
        x[~m.is_ode] = 0.2  # handed over, not used
        acc[~m.is_ode] = 0.1
        return dict(t=0.3 + 0.9 * k, x=x, acc=acc, p=m.p0(k), dt=(0.1, 0.7, 0.02, 1.3, 0.4, 0.0)[k], aii=(0.6, 0.25, 0.0, 1.0, -0.1, 0.3)[k])

    def put(self, v, idx):
        out = np.zeros(len(idx))
        out[idx] = v
        return out

    def state(self, t, x, acc, p, lin=None):
        return DiscretizedODEInputState(self.put(x, self.xi), self.put(acc, self.xi), self.put(p, self.pi), t, lin)

    def evaluate(self, pt, nan=False):
        x = pt["x"] * np.nan if nan else pt["x"]
        s = self.state(pt["t"], x, pt["acc"], pt["p"])
        before = [np.array(a, copy=True) for a in (s.step_input, s.stage_input, s.independent_input)]
        r = self.ode.compute_update(s, pt["dt"], pt["aii"])
        for a, b in zip(before, (s.step_input, s.stage_input, s.independent_input)):
            require(np.array_equal(a, b, equal_nan=True), "the evaluation modified its arguments")
        require(s.time == pt["t"], "the evaluation modified its time")
        return r

    def fwd(self, pt, lin, seed):
        m = self.m
        n = m.n
        s = self.state(seed[0], seed[1:1 + n], seed[1 + n:1 + 2 * n], seed[1 + 2 * n:], lin)
        before = [np.array(a, copy=True) for a in (s.step_input, s.stage_input, s.independent_input, lin)]
        r = self.ode.compute_update_derivative(s, pt["dt"], pt["aii"])
        for a, b in zip(before, (s.step_input, s.stage_input, s.independent_input, s.linearization_point)):
            require(np.array_equal(a, b, equal_nan=True), "the derivative modified its arguments")
        return r.stage_update[self.xi], r

    def rev(self, pt, lin, seed):
        su = self.put(seed, self.xi)
        s = DiscretizedODEResultState(su, np.zeros(self.m.n), np.zeros(0), lin)
        before = [np.array(a, copy=True) for a in (su, lin)]
        r = self.ode.compute_update_adjoint_derivative(s, pt["dt"], pt["aii"])
        require(np.array_equal(before[0], su, equal_nan=True) and np.array_equal(before[1], lin), "the adjoint derivative modified its arguments")
        return np.concatenate([[r.time], r.step_input[self.xi], r.stage_input[self.xi], r.independent_input[self.pi]]), r

    def mask(self):
        """Entries of the input the model really has."""
        m = self.m
        return np.concatenate([[m.has_time], m.is_ode, m.is_ode, np.ones(m.np, dtype=bool)])

    def reference(self, pt):
        m = self.m
        k = m.stage(pt["t"], pt["x"], pt["acc"], pt["p"], pt["dt"], pt["aii"])
        J = m.jac(pt["t"], pt["x"], pt["acc"], pt["p"], pt["dt"], pt["aii"])
        return k, J * self.mask()


def run_jac(case, rec):
    env = Env(case)
    m = env.m
    require(env.ode.get_state_size() == m.n and env.ode.get_independent_input_size() == m.np, "sizes of the wrapper wrong")
    for k in range(6):
        pt = env.point(k)
        kref, J = env.reference(pt)
        r = env.evaluate(pt)
        require_close(r.stage_update[env.xi], kref, "evaluation differs from the stage of the model", point=k, **TOL)
        require(r.linearization_point.size == env.ode.get_linearization_point_size(), "size of the linearization point wrong")
        N = 1 + 2 * m.n + m.np
        F = np.array([env.fwd(pt, r.linearization_point, e)[0] for e in np.eye(N)]).T
        R = np.array([env.rev(pt, r.linearization_point, e)[0] for e in np.eye(m.n)])
        require_close(F * env.mask(), J, "derivative differs from the tangent of the stage", point=k, **TOL)
        require_close(R, J, "adjoint derivative differs from the transpose", point=k, **TOL)
        rec.transition(N + m.n + 1)
        rec.state(case["sys"], case["spec"], k, F)
    rec.trace()
    rec.outcome("jacobian")


def frozen(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


# ways to pass the same whole numbers
FORMS = {"int": lambda a: a.astype(int), "int8": lambda a: a.astype(np.int8), "float32": lambda a: a.astype(np.float32), "strided": lambda a: np.repeat(a, 2)[::2],
         "reversed": lambda a: a[::-1].copy()[::-1], "read only": frozen}


def run_arrays(case, rec):
    """Arrays of other types or memory layouts with the same values."""
    env = Env(case)
    m = env.m
    pt = dict(t=1.0, x=np.where(m.is_ode, 1.0 + np.arange(m.n) % 2, 0.0), acc=np.where(m.is_ode, np.arange(m.n) % 3 - 1.0, 0.0), p=1.0 + np.arange(m.np) % 2, dt=0.25, aii=0.5)
    kref, J = env.reference(pt)
    lin = env.evaluate(pt).linearization_point
    N = 1 + 2 * m.n + m.np
    fs = 1.0 + np.arange(N) % 3
    rs = 2.0 - np.arange(m.n) % 3
    for form, f in FORMS.items():
        def state(t, x, acc, p, lin=None, f=f):
            return DiscretizedODEInputState(f(env.put(x, env.xi)), f(env.put(acc, env.xi)), f(env.put(p, env.pi)), t, lin)

        k = env.ode.compute_update(state(1.0, pt["x"], pt["acc"], pt["p"]), pt["dt"], pt["aii"])
        require_close(k.stage_update[env.xi], kref, "evaluation depends on the kind of the arrays", form=form, **TOL)
        keep = frozen(lin) if form == "read only" else np.repeat(lin, 2)[::2] if form == "strided" else lin
        d = env.ode.compute_update_derivative(state(fs[0], fs[1:1 + m.n], fs[1 + m.n:1 + 2 * m.n], fs[1 + 2 * m.n:], keep), pt["dt"], pt["aii"])
        require_close(d.stage_update[env.xi], J @ fs, "derivative depends on the kind of the arrays", form=form, **TOL)
        r = env.ode.compute_update_adjoint_derivative(DiscretizedODEResultState(f(env.put(rs, env.xi)), f(np.zeros(m.n)), np.zeros(0), keep), pt["dt"], pt["aii"])
        got = np.concatenate([[r.time], r.step_input[env.xi], r.stage_input[env.xi], r.independent_input[env.pi]])
        require_close(got, rs @ J, "adjoint derivative depends on the kind of the arrays", form=form, **TOL)
        rec.transition(3)
        rec.state("arrays", case["sys"], form)
    rec.trace()
    rec.outcome("arrays")


def run_total(case, rec):
    """Approximated totals of the whole stage model: right derivatives, or an error."""
    env = Env(case)
    N = 1 + 2 * env.m.n + env.m.np
    for k in range(6):
        pt = env.point(k)
        kref, J = env.reference(pt)
        r = env.evaluate(pt)
        require_close(r.stage_update[env.xi], kref, "evaluation differs from the stage of the model", point=k, **TOL)
        for get, unit, want in ((env.fwd, np.eye(N), J.T), (env.rev, np.eye(env.m.n), J)):
            for e, w in zip(unit, want):
                try:
                    got = get(pt, r.linearization_point, e)[0]
                except RuntimeError:
                    rec.outcome("refused")
                else:
                    require_close(got * (1.0 if got.size == env.m.n else env.mask()), w, "approximated derivative differs from the one of the stage", point=k, rtol=1e-4, atol=1e-5)
                rec.transition()
        rec.state("total", case["spec"], case["method"], k)
    rec.trace()


def run_sequence(env, seq, pts, lins, refs, kept, rec):
    m = env.m
    N = 1 + 2 * m.n + m.np
    fs = 0.6 * np.cos(1.7 * np.arange(N) + 0.2)
    rs = 0.8 * np.sin(1.3 * np.arange(m.n) + 0.5)
    for pos, op in enumerate(seq):
        what, w = op
        d = dict(sequence=list(seq), position=pos)
        if what == "E" and w in "ab":
            r = env.evaluate(pts[w])
            check(r.stage_update[env.xi], refs[w][0], "evaluation depends on earlier operations", d)
            check(r.linearization_point, lins[w], "linearization point depends on earlier operations", d)
            kept.append((r.stage_update, r.stage_update.copy(), r.linearization_point, r.linearization_point.copy()))
        elif op == "En":
            if not env.warm:
                env.evaluate(pts["a"], nan=True)
        elif op == "Ef":
            if env.can_fail:
                env.fail = True
                try:
                    env.evaluate(pts["b"])
                except om.AnalysisError:
                    pass
                else:
                    require(False, "a failing evaluation is not reported", **d)
                finally:
                    env.fail = False
        elif what == "D" and w in "ab":
            v, r = env.fwd(pts[w], lins[w], fs)
            check(v, refs[w][1] @ fs, "derivative depends on earlier operations", d)
            kept.append((r.stage_update, r.stage_update.copy(), r.stage_update, r.stage_update.copy()))
        elif what == "A" and w in "ab":
            v, r = env.rev(pts[w], lins[w], rs)
            check(v, rs @ refs[w][1], "adjoint derivative depends on earlier operations", d)
            kept.append((r.step_input, r.step_input.copy(), r.independent_input, r.independent_input.copy()))
        elif op == "Dn":
            env.fwd(pts["a"], lins["a"], fs * np.nan)
        elif op == "An":
            env.rev(pts["b"], lins["b"], rs * np.nan)
        elif op == "Di":
            env.fwd(pts["b"], lins["b"], fs * np.inf)
        rec.transition()
    for a, a0, b, b0 in kept[-12:]:
        require(np.array_equal(a, a0, equal_nan=True) and np.array_equal(b, b0, equal_nan=True), "a result was changed by later operations", sequence=list(seq))


def check(got, ref, what, d):
    s = max(np.max(np.abs(ref)), 1e-300) if ref.size else 0.0
    require(got.shape == ref.shape and np.all(np.abs(got - ref) <= 1e-10 + 1e-8 * s), what, got=got, expected=ref, **d)


def prepare(env):
    pts = dict(a=env.point(0), b=env.point(1))
    refs = {k: env.reference(v) for k, v in pts.items()}
    lins = {k: env.evaluate(v).linearization_point.copy() for k, v in pts.items()}
    return pts, lins, refs


def run_seq(case, rec):
    env = Env(case)
    pts, lins, refs = prepare(env)
    kept = []
    with np.errstate(all="ignore"):
        for rest in itertools.product(OPS, repeat=case["depth"] - 1):
            run_sequence(env, (case["first"],) + rest, pts, lins, refs, kept, rec)
            del kept[:-12]
            rec.state(case["sys"], case["first"], rest)
            rec.trace()
    rec.outcome("pure")


def run_fresh(case, rec):
    base = Env(case)
    pts, lins, refs = prepare(base)
    with np.errstate(all="ignore"):
        for n in range(1, case["depth"] + 1):
            for seq in itertools.product(OPS, repeat=n):
                if sum(o[1] in "ab" for o in seq) == 0:
                    continue
                env = Env(case)
                run_sequence(env, seq, pts, lins, refs, [], rec)
                rec.state("fresh", case["sys"], seq)
                rec.trace()
    rec.outcome("pure")


def run_alike(case, rec):
    """Linearization points which agree in something, one after the other."""
    env = Env(case)
    pt = env.point(0)
    lin = env.evaluate(pt).linearization_point.copy()
    env.evaluate(env.point(1))
    n = lin.size
    shift = np.zeros(n)
    shift[0], shift[-1] = 0.25, -0.25
    inner = lin.copy()
    inner[1:-1] = inner[1:-1][::-1]
    alike = [lin, lin[::-1], np.roll(lin, 1), inner, lin + shift, -lin, np.sort(lin)]
    single = [lin + 0.4 * np.eye(n)[j] for j in range(n)]
    fs = 0.6 * np.cos(1.7 * np.arange(1 + 2 * env.m.n + env.m.np) + 0.2)
    rs = 0.8 * np.sin(1.3 * np.arange(env.m.n) + 0.5)

    def apply(e, op, v):
        return e.fwd(pt, v, fs)[0] if op == "D" else e.rev(pt, v, rs)[0]

    with np.errstate(all="ignore"):
        refs = {}
        for k, v in enumerate(alike + single):
            fresh = Env(case)
            refs[k] = {op: apply(fresh, op, v.copy()) for op in "DA"}
        pairs = list(itertools.permutations(range(len(alike)), 2))
        pairs += [pair for j in range(n) for pair in ((0, len(alike) + j), (len(alike) + j, 0))]
        points = alike + single
        for (a, b), (op1, op2) in itertools.product(pairs, itertools.product("DA", repeat=2)):
            apply(env, op1, points[a].copy())
            got = apply(env, op2, points[b].copy())
            if np.all(np.isfinite(refs[b][op2])):
                check(got, refs[b][op2], "derivative depends on the previous linearization point", dict(points=[a, b], operations=op1 + op2))
            rec.transition(2)
        rec.state("alike", case["sys"], case["spec"], len(pairs))
    rec.trace()
    rec.outcome("alike")


def run_case(case, rec):
    globals()["run_" + case["kind"]](case, rec)
