"""C19: shipped ODEs and utility components are consistent with their equations.

Complete grids over step sizes, stage factors, states and parameters: each shipped
component is evaluated and differentiated and compared with its differential equation
in closed form; every subset of the inputs in both modes; whole integrations; the
shipped analytical solutions and problem descriptions."""

import itertools
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import openmdao.api as om

from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.error_controllers import pseudo
from rkopenmdao.error_measurer import SimpleErrorMeasurer
from rkopenmdao.file_writer import read_hdf5_file, read_last_local_error
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps
from rkopenmdao.utils.problems import ProblemConfig, generate_path, kaps_problem, prothero_robinson_problem
from rkopenmdao.utils.utility_components import StageUpdateComponent, StageValueComponent

from mc import common as cm
from mc.core import require, require_close
from mc.models import ref_jacobian, ref_run

ID = "C19"
ASSUMPTIONS = [
    "states of Kaps' problem are nonnegative (the stage equation has a unique nonnegative solution there); its group is solved up to the tolerances set in it (1e-6 accepted)",
    "conversion to slopes needs a nonzero stage factor; all step sizes are positive",
    "the solution of Kaps' problem is exact for y_1 = y_2^2 at the initial time and fulfils any initial values",
]
# ---------------------------------------------------------------- equations


def eq_simple(_, t, x, acc, dt, aii, **__):
    return np.stack([-(x[0] + dt * acc[0]) / (1 + dt * aii)]) + 0.0 * t


def eq_pr(lam, t, x, acc, dt, aii, **__):
    phi, dphi = np.sin(t + np.pi / 4), np.cos(t + np.pi / 4)
    return np.stack([(lam * (x[0] + dt * acc[0] - phi) + dphi) / (1 - lam * dt * aii)])


def root2(c, h, f=1.0):
    """Solution of f h y^2 + (1 + h) y = c."""
    return 2 * c / ((1 + h) + np.sqrt((1 + h) ** 2 + 4 * h * f * c))


def eq_kaps(eps, t, x, acc, dt, aii, **__):
    h = dt * aii
    s1, s2 = x[0] + dt * acc[0], x[1] + dt * acc[1]
    d = eps + h * (1 + 2 * eps)
    y2 = root2(s2 + h * eps * s1 / d, h, 1 - h / d)
    k1 = (-(1 + 2 * eps) * s1 + y2 ** 2) / d
    y1 = s1 + h * k1
    return np.stack([k1, y1 - y2 - y2 ** 2]) + 0.0 * t


class Eq:
    """Closed form in the shape mc.models expects of a model."""

    np = 0

    def __init__(self, kind, par):
        self.kind, self.par = kind, par
        self.n = 2 if kind == "kaps" else 1
        self.f = dict(simple=eq_simple, pr=eq_pr, kaps=eq_kaps)[kind]

    def stage(self, t, x, acc, p, dt, aii):  # pylint: disable=unused-argument
        return self.f(self.par, t, x, acc, dt, aii)


PARS = dict(simple=(None,), pr=(-1e4, -100.0, -1.0, 0.0, 0.7), kaps=(1.0, 0.1, 1e-3, 20.0))
DT = (1e-8, 1e-3, 0.1, 1.0, 10.0)
AII = (0.0, 0.25, 1.0)


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} groups: all shipped stage components x {len(DT)} step sizes x {len(AII)} stage factors x grids of states, accumulated slopes, "
            "times and parameters; every Jacobian entry in both modes and every subset of inputs and outputs; "
            "whole integrations with all 24 shipped tableaux (primal, both modes, all unit seeds); shipped solutions and problem descriptions")


def cases(tier):
    for kind, pars in PARS.items():
        for par in pars:
            for dt in DT:
                for aii in AII if tier == "quick" else AII + (0.01, 0.5, 3.0):
                    yield dict(kind="stage", ode=kind, par=par, dt=dt, aii=aii)
            yield dict(kind="solution", ode=kind, par=par)
            for tab in cm.SHIPPED:
                for n in (1, 3) if tier == "quick" else range(7):
                    for dt in (0.05,) if tier == "quick" else (0.01, 0.05, 0.3):
                        yield dict(kind="run", ode=kind, par=par, tab=tab, n=n, dt=dt)
    for dt in DT:
        for aii in AII:
            for which in ("k1", "k2"):
                for eps in (1.0, 1e-2) if which == "k1" else (None,):
                    yield dict(kind="part", which=which, eps=eps, dt=dt, aii=aii)
            for shape in ((1,), (3,), (2, 2), (1, 3, 1)):
                yield dict(kind="convert", shape=shape, dt=dt, aii=aii)
    for lam in (-100.0, -2.0):
        yield dict(kind="problem", ode="pr", par=lam)
    for eps in (1.0, 0.2):
        yield dict(kind="problem", ode="kaps", par=eps)
    yield dict(kind="paths")


# ---------------------------------------------------------------- components


def unsteady(prob):
    return [s for s in prob.model.system_iter(recurse=True) if hasattr(s, "om_data_exchange")]


def component(kind, par):
    if kind == "simple":
        return SimpleLinearODE()
    if kind == "pr":
        return ProtheroRobinson(lambda_=par)
    return KapsGroup(epsilon=par)


NAMES = dict(simple=[("y_old", "y_accumulated_stages", "y_stage")], pr=[("x", "acc_stages", "x_stage")],
             kaps=[("y_1_old", "y_1_accumulated_stages", "y_1_stage"), ("y_2_old", "y_2_accumulated_stages", "y_2_stage")])
QUANT = dict(simple=["y"], pr=["x"], kaps=["y_1", "y_2"])


def problem_of(sub, dt, aii):
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("c", sub, promotes=["*"])
    prob.setup()
    prob.final_setup()
    for s in unsteady(prob):
        s.om_data_exchange.step_size, s.om_data_exchange.stage_factor = dt, aii
    return prob


def jacobians(prob, of, wrt):
    """Complete Jacobians of the problem in both modes."""
    sizes = [prob.get_val(w).size for w in wrt]
    osz = [prob.get_val(o).size for o in of]
    shapes = [prob.get_val(w).shape for w in wrt]
    wrt = [prob.model.get_source(w) for w in wrt]
    prob.model.run_linearize()

    def reset():
        for v in prob.model.get_linear_vectors():
            v.set_val(0.0)

    F = np.zeros((sum(osz), sum(sizes)))
    for c in range(sum(sizes)):
        e = np.eye(sum(sizes))[c]
        parts = np.split(e, np.cumsum(sizes)[:-1])
        reset()
        r = prob.compute_jacvec_product(of, wrt, "fwd", [q.reshape(h) for q, h in zip(parts, shapes)])
        F[:, c] = np.concatenate([np.ravel(r[o]) for o in of])
    R = np.zeros_like(F)
    for c in range(sum(osz)):
        parts = np.split(np.eye(sum(osz))[c], np.cumsum(osz)[:-1])
        reset()
        r = prob.compute_jacvec_product(of, wrt, "rev", [q.reshape(prob.get_val(o).shape) for q, o in zip(parts, of)])
        R[c] = np.concatenate([np.ravel(r[w]) for w in wrt])
    return F, R


def apply_linear_subsets(comp, rec):
    """Jacobian of the residual of one component: exact (central differences of its own
    residual, which is at most quadratic), the same in both modes, and for every subset
    of inputs and outputs in scope the corresponding submatrix."""
    inp, out, res = comp.get_nonlinear_vectors()
    path = comp.pathname + "."
    ins, outs = list(inp), list(out)
    cols = [("i", n, k) for n in ins for k in range(inp[n].size)] + [("o", n, k) for n in outs for k in range(out[n].size)]
    rows = [(n, k) for n in outs for k in range(res[n].size)]
    J = np.zeros((len(rows), len(cols)))
    comp.run_linearize()
    di, do, dr = comp.get_linear_vectors()

    def full(name):
        return name if name.startswith(path) else path + name

    def fwd(c, scope_out, scope_in):
        for v in (di, do, dr):
            v.set_val(0.0)
        w, n, k = cols[c]
        vec = di if w == "i" else do
        a = np.zeros(vec[n].shape)
        a.ravel()[k] = 1.0
        vec[n] = a
        comp.run_apply_linear("fwd", scope_out=scope_out, scope_in=scope_in)
        return np.array([np.ravel(dr[m])[j] for m, j in rows])

    def rev(r, scope_out, scope_in):
        for v in (di, do, dr):
            v.set_val(0.0)
        m, j = rows[r]
        a = np.zeros(dr[m].shape)
        a.ravel()[j] = 1.0
        dr[m] = a
        comp.run_apply_linear("rev", scope_out=scope_out, scope_in=scope_in)
        return np.array([np.ravel((di if w == "i" else do)[n])[k] for w, n, k in cols])

    for c in range(len(cols)):
        J[:, c] = fwd(c, None, None)
    R = np.array([rev(r, None, None) for r in range(len(rows))])
    require_close(R, J, "residual Jacobians of the two modes differ", rtol=1e-11, atol=1e-12, component=comp.pathname)
    # exact derivative of the component's own residual
    x0 = {n: inp[n].copy() for n in ins}
    y0 = {n: out[n].copy() for n in outs}
    D = np.zeros_like(J)
    linear_in_time = [c for c in range(len(cols)) if cols[c][1].split(".")[-1] != "time"]
    for c in linear_in_time:
        w, n, k = cols[c]
        vals = []
        for s in (1.0, -1.0):
            vec, base = (inp, x0) if w == "i" else (out, y0)
            a = base[n].copy()
            a.ravel()[k] += s
            vec[n] = a
            comp.run_apply_nonlinear()
            vals.append(np.array([np.ravel(res[m])[j] for m, j in rows]))
            vec[n] = base[n]
        D[:, c] = (vals[0] - vals[1]) / 2
    scale = max(1.0, np.max(np.abs(J)))
    require_close(J[:, linear_in_time] / scale, D[:, linear_in_time] / scale, "residual Jacobian is not the derivative of the residual", rtol=1e-7, atol=1e-9,
                  component=comp.pathname)
    comp.run_linearize()
    full_in, full_out = [full(n) for n in ins], [full(n) for n in outs]
    for si in range(2 ** len(ins)):
        for so in range(2 ** len(outs)):
            scope_in = {f for b, f in enumerate(full_in) if si >> b & 1}
            scope_out = {f for b, f in enumerate(full_out) if so >> b & 1}
            keep = np.array([(full(n) in scope_in) if w == "i" else (full(n) in scope_out) for w, n, _ in cols])
            for r in range(len(rows)):
                got = rev(r, scope_out, scope_in)
                require_close(got, J[r] * keep, "reverse product with a subset of variables in scope differs", rtol=1e-12, atol=1e-13,
                              inputs=sorted(scope_in), outputs=sorted(scope_out), component=comp.pathname)
            for c in np.nonzero(keep)[0]:
                got = fwd(c, scope_out, scope_in)
                require_close(got, J[:, c], "forward product with a subset of variables in scope differs", rtol=1e-12, atol=1e-13,
                              inputs=sorted(scope_in), outputs=sorted(scope_out), component=comp.pathname)
            rec.transition(len(rows) + int(keep.sum()))


def run_stage(case, rec):
    kind, par, dt, aii = case["ode"], case["par"], case["dt"], case["aii"]
    if kind == "pr" and abs(1 - par * dt * aii) < 0.05:
        rec.outcome("singular stage")
        return
    eq = Eq(kind, par)
    prob = problem_of(component(kind, par), dt, aii)
    names = NAMES[kind]
    of = [n[2] for n in names]
    wrt = [n[0] for n in names] + [n[1] for n in names] + (["time"] if kind == "pr" else [])
    loose = kind == "kaps"
    states = (0.0, 0.6, 2.0) if kind == "kaps" else (-1.5, 0.0, 0.6, 40.0)
    accs = (-0.1, 0.0, 0.8) if kind == "kaps" else (-3.0, 0.0, 0.8)
    small = dt > 0.5
    for x in itertools.product(states, repeat=eq.n):
        for acc in itertools.product((0.0, 0.8) if small and loose else accs, repeat=eq.n):
            for t in (-1.0, 0.0, 2.3) if kind == "pr" else (0.0,):
                for (o, a, _), xv, av in zip(names, x, acc):
                    prob.set_val(o, xv)
                    prob.set_val(a, av)
                if kind == "pr":
                    prob.set_val("time", t)
                X, A = np.array(x), np.array(acc)
                if loose and np.any(X + dt * A < 0.0):
                    rec.count("negative_states_left_out")
                    continue
                prob.model.run_solve_nonlinear()
                k = np.array([prob.get_val(n)[0] for n in of])
                ref = eq.stage(t, X, A, None, dt, aii)
                s = max(1.0, np.max(np.abs(ref)))
                require_close(k / s, ref / s, "stage result does not satisfy the equation", rtol=1e-6 if loose else 1e-10, atol=1e-6 if loose else 1e-12, x=x, acc=acc, t=t)
                N = 2 * eq.n + 1
                V = np.concatenate([X, A, [t]]).astype(complex)[:, None] + 1e-30j * np.eye(N)
                J = np.imag(eq.stage(V[-1], V[:eq.n], V[eq.n:-1], None, dt, aii)) / 1e-30
                J = J[:, :len(wrt)]
                F, R = jacobians(prob, of, wrt)
                s = max(1.0, np.max(np.abs(J)))
                tol = dict(rtol=1e-5 if loose else 1e-10, atol=1e-5 if loose else 1e-12)
                require_close(F / s, J / s, "forward derivative is not the one of the equation", x=x, acc=acc, t=t, **tol)
                require_close(R / s, J / s, "reverse derivative is not the one of the equation", x=x, acc=acc, t=t, **tol)
                rec.transition(F.size + 1)
                rec.state(kind, par, dt, aii, x, acc, t)
    for comp in unsteady(prob):
        apply_linear_subsets(comp, rec)
    rec.trace()
    rec.outcome("stage")


def run_part(case, rec):
    """The two components of Kaps' problem alone."""
    dt, aii, eps = case["dt"], case["aii"], case["eps"]
    h = dt * aii
    if case["which"] == "k1":
        prob = problem_of(KapsComponent1(epsilon=eps), dt, aii)
        old, acc, other, stage, value = "y_1_old", "y_1_accumulated_stages", "y_2", "y_1_stage", "y_1"
    else:
        prob = problem_of(KapsComponent2(), dt, aii)
        old, acc, other, stage, value = "y_2_old", "y_2_accumulated_stages", "y_1", "y_2_stage", "y_2"

    def closed(v):
        s = v[0] + dt * v[1]
        if case["which"] == "k1":
            k = (-(1 + 2 * eps) * s + v[2] ** 2) / (eps + h * (1 + 2 * eps))
            return np.stack([k, s + h * k])
        y = root2(s + h * v[2], h)
        return np.stack([v[2] - y - y ** 2, y])

    comp = unsteady(prob)[0]
    for v in itertools.product((0.0, 0.7, 3.0), (0.0, 0.9), (0.0, 0.4, 2.5)):
        for n, z in zip((old, acc, other), v):
            prob.set_val(n, z)
        prob.model.run_solve_nonlinear()
        ref = closed(np.array(v))
        got = np.array([prob.get_val(stage)[0], prob.get_val(value)[0]])
        s = max(1.0, np.max(np.abs(ref)))
        require_close(got / s, ref / s, "solution of the component wrong", rtol=1e-9, atol=1e-11, inputs=v)
        comp.run_apply_nonlinear()
        _, _, res = comp.get_nonlinear_vectors()
        require(np.max(np.abs(res.asarray())) <= 1e-9 * s * max(1.0, h), "residual at the solution of the component", inputs=v, residual=res.asarray().copy())
        V = np.array(v).astype(complex)[:, None] + 1e-30j * np.eye(3)
        J = np.imag(closed(V)) / 1e-30
        F, R = jacobians(prob, [stage, value], [old, acc, other])
        s = max(1.0, np.max(np.abs(J)))
        require_close(F / s, J / s, "forward derivative of the component wrong", rtol=1e-9, atol=1e-11, inputs=v)
        require_close(R / s, J / s, "reverse derivative of the component wrong", rtol=1e-9, atol=1e-11, inputs=v)
        rec.transition(F.size + 1)
        rec.state(case["which"], eps, dt, aii, v)
        apply_linear_subsets(comp, rec) if v[2] == 0.4 else None
    rec.trace()
    rec.outcome("part")


def run_convert(case, rec):
    shape, dt, aii = tuple(case["shape"]), case["dt"], case["aii"]
    n = int(np.prod(shape))
    slope = 0.5 + np.sin(np.arange(n) * 1.3).reshape(shape)
    old, acc = 2.0 * np.cos(np.arange(n) + 0.2).reshape(shape), 0.3 - np.arange(n).reshape(shape) * 0.7
    for tag in (None, "q"):
        prob = om.Problem(reports=False)
        ivc = om.IndepVarComp("s", val=slope)
        prob.model.add_subsystem("ivc", ivc)
        prob.model.add_subsystem("v", StageValueComponent(tag=tag))
        prob.model.connect("ivc.s", "v.stage_slope")
        # two further quantities of other shapes
        if aii:
            given = {"a_old": old, "a_acc_stages": acc, "b": np.arange(4.0), "b_old": 0.4 * np.arange(4.0) - 1.0, "b_acc_stages": np.full(4, 0.1),
                     "c": np.full((2, 3), 1.7), "c_old": np.full((2, 3), 0.2), "c_acc_stages": np.full((2, 3), -0.6)}
            for name, val in given.items():
                prob.model.add_subsystem("given_" + name, om.IndepVarComp("z", val=val))
                prob.model.connect(f"given_{name}.z", f"u.{name}")
            prob.model.add_subsystem("u", StageUpdateComponent(quantity_list=["a", "b", "c"]))
            prob.model.connect("v.stage_value", "u.a")
        prob.setup()
        prob.final_setup()
        for s in unsteady(prob):
            s.om_data_exchange.step_size, s.om_data_exchange.stage_factor = dt, aii
        prob.set_val("v.old_value", old)
        prob.set_val("v.acc_stages", acc)
        prob.model.run_solve_nonlinear()
        value = old + dt * (acc + aii * slope)
        require_close(prob.get_val("v.stage_value"), value, "stage value wrong", rtol=1e-13, atol=1e-14)
        of, wrt = ["v.stage_value"], ["ivc.s", "v.old_value", "v.acc_stages"]
        J = np.hstack([dt * aii * np.eye(n), np.eye(n), dt * np.eye(n)])
        F, R = jacobians(prob, of, wrt)
        require_close(F, J, "forward derivative of the stage value wrong", rtol=1e-13, atol=1e-15)
        require_close(R, J, "reverse derivative of the stage value wrong", rtol=1e-13, atol=1e-15)
        if aii:
            s = max(1.0, 1.0 / (dt * aii) * 1e-15 / 1e-9)
            require(np.all(np.abs(prob.get_val("u.a_update") - slope) <= 1e-10 * s + 4e-15 / (dt * aii)), "conversions are not inverse to each other",
                    got=prob.get_val("u.a_update"), expected=slope)
            b = (np.arange(4.0) - (0.4 * np.arange(4.0) - 1.0) - dt * 0.1) / (dt * aii)
            require_close(prob.get_val("u.b_update"), b, "slope of the second quantity wrong", rtol=1e-12, atol=1e-12)
            c = np.full((2, 3), (1.7 - 0.2 + dt * 0.6) / (dt * aii))
            require_close(prob.get_val("u.c_update"), c, "slope of the third quantity wrong", rtol=1e-12, atol=1e-12)
            of = ["u.a_update", "u.b_update", "u.c_update"]
            wrt = ["ivc.s", "v.old_value", "v.acc_stages", *(f"u.{n}" for n in given)]
            q = 1.0 / (dt * aii)

            def blk(m):
                return [q * np.eye(m), -q * np.eye(m), -np.eye(m) / aii]

            def row(m, own):
                parts = [np.zeros((m, z)) for z in (n, n, n, n, n, 4, 4, 4, 6, 6, 6)]
                for j, mat in own:
                    parts[j] = mat
                return np.hstack(parts)

            J = np.vstack([
                row(n, [(0, np.eye(n)), (1, q * np.eye(n)), (2, np.eye(n) / aii), (3, -q * np.eye(n)), (4, -np.eye(n) / aii)]),
                row(4, list(zip((5, 6, 7), blk(4)))), row(6, list(zip((8, 9, 10), blk(6))))])
            F, R = jacobians(prob, of, wrt)
            s = np.max(np.abs(J))
            require_close(F / s, J / s, "forward derivative of the slopes wrong", rtol=1e-12, atol=1e-13)
            require_close(R / s, J / s, "reverse derivative of the slopes wrong", rtol=1e-12, atol=1e-13)
            if shape == (1,):
                apply_linear_subsets_small(prob.model.u, rec)
        apply_linear_subsets(prob.model.v, rec)
        rec.state(shape, dt, aii, tag)
        rec.transition(F.size)
    rec.trace()
    rec.outcome("convert")


def apply_linear_subsets_small(comp, rec):
    """Subsets for a component with many inputs: all with at most two inputs missing or present."""
    inp, out, _ = comp.get_nonlinear_vectors()
    di, do, dr = comp.get_linear_vectors()
    path = comp.pathname + "."
    ins, outs = list(inp), list(out)
    comp.run_linearize()

    def full(n):
        return n if n.startswith(path) else path + n

    def rev(seed, scope_out, scope_in):
        for v in (di, do, dr):
            v.set_val(0.0)
        for n in outs:
            dr[n] = seed
        comp.run_apply_linear("rev", scope_out=scope_out, scope_in=scope_in)
        return {n: np.array(di[n], copy=True) for n in ins}

    def fwd(names, scope_out, scope_in):
        for v in (di, do, dr):
            v.set_val(0.0)
        for n in names:
            di[n] = 0.7
        comp.run_apply_linear("fwd", scope_out=scope_out, scope_in=scope_in)
        return {n: np.array(dr[n], copy=True) for n in outs}

    all_out = {full(n) for n in outs}
    base = rev(1.3, all_out, {full(n) for n in ins})
    single = {n: fwd([n], all_out, {full(n)}) for n in ins}
    for r in (1, 2, len(ins) - 1):
        for names in itertools.combinations(ins, r):
            scope = {full(n) for n in names}
            got = rev(1.3, all_out, scope)
            for n in ins:
                require_close(got[n], base[n] if n in names else 0.0 * base[n], "reverse product with a subset of variables in scope differs", rtol=1e-12, atol=1e-13, inputs=names)
            got = fwd(names, all_out, scope)
            for o in outs:
                s = max(1.0, max(np.max(np.abs(single[n][o])) for n in ins))
                require_close(got[o] / s, sum(single[n][o] for n in names) / s, "forward product with a subset of variables in scope differs", rtol=1e-12, atol=1e-13, inputs=names)
            rec.transition(2)


# ---------------------------------------------------------------- solutions, runs, problems


def run_solution(case, rec):
    """Shipped solutions fulfil initial values and equation (complex step in time)."""
    kind, par = case["ode"], case["par"]
    eq = Eq(kind, par)
    for t0 in (0.0, 1.5, -0.7):
        for x0 in {"simple": [(1.0,), (-2.5,), (0.0,)], "pr": [(np.sin(np.pi / 4),), (0.0,), (3.0,)], "kaps": [(1.0, 1.0), (0.25, 0.5), (4.0, 2.0), (0.0, 0.0)]}[kind]:
            X0 = np.array(x0)

            def sol(t):
                if kind == "simple":
                    return np.atleast_1d(SimpleLinearODE.simple_linear_solution(t, X0[0], t0))
                if kind == "pr":
                    return np.atleast_1d(ProtheroRobinson.solution(t, X0, t0, par))
                return np.ravel(KapsGroup.kaps_solution(t, X0, t0))

            require_close(np.real(sol(t0)), X0, "shipped solution does not fulfil its initial values", rtol=1e-13, atol=1e-14, t0=t0, x0=x0)
            for s in (0.0, 0.01, 0.3, 1.0, 4.0):
                t = t0 + s
                x = np.real(sol(t))
                dx = np.imag(sol(t + 1e-30j)) / 1e-30
                rhs = eq.stage(t, x, 0.0 * x, None, 0.0, 0.0)
                sc = max(1.0, np.max(np.abs(rhs)), np.max(np.abs(x)) * (abs(par) if kind == "pr" else 1.0 / par if kind == "kaps" else 1.0))
                require_close(dx / sc, rhs / sc, "shipped solution does not solve the equation", rtol=1e-9, atol=1e-12, t0=t0, x0=x0, t=t)
                rec.transition()
                rec.state(kind, par, t0, x0, t)
    if kind == "kaps":
        for x0 in itertools.product((0.0, 0.5, 2.0), repeat=2):
            for t0 in (0.0, 1.5):
                require_close(np.ravel(KapsGroup.kaps_solution(t0, np.array(x0), t0)), np.array(x0), "shipped solution does not fulfil its initial values", x0=x0)
    # default arguments are the shipped initial values at time 0
    if kind == "pr":
        require_close(ProtheroRobinson.solution(0.0), ProtheroRobinson.get_initial_values(), "default solution and initial values differ")
        require_close(ProtheroRobinson.solution(0.8), ProtheroRobinson.solution(0.8, ProtheroRobinson.get_initial_values(), 0.0, -1e2), "default solution wrong")
    if kind == "kaps":
        require_close(np.ravel(KapsGroup.kaps_solution(0.0)), KapsGroup.get_initial_values(), "default solution and initial values differ")
    if kind == "simple":
        require_close(SimpleLinearODE.simple_linear_solution(0.0), 1.0, "default solution wrong")
    rec.trace()
    rec.outcome("solution")


def run_run(case, rec):
    kind, par = case["ode"], case["par"]
    eq = Eq(kind, par)
    bt, ref = cm.tableau(case["tab"])
    stage = om.Problem(reports=False)
    stage.model.add_subsystem("test_comp", component(kind, par))
    comp = RungeKuttaIntegrator(
        time_stage_problem=stage, butcher_tableau=bt, integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(case["n"]), case["dt"]),
        time_integration_quantities=QUANT[kind], checkpointing_type=AllCheckpointer, **cm.QUIET)
    prob = om.Problem(reports=False)
    prob.model.add_subsystem("rk", comp)
    prob.setup()
    prob.final_setup()
    t0 = 0.4
    x0 = np.array([0.8, 1.1][:eq.n])
    prob.set_val("rk.time_initial", t0)
    for q, v in zip(QUANT[kind], x0):
        prob.set_val(f"rk.{q}_initial", v)
    dts = [case["dt"]] * case["n"]
    path = ref_run(ref, eq, t0, x0, np.zeros(0), dts)
    big = max(np.max(np.abs(x)) for _, x in path)
    if not np.isfinite(big) or big > 1e6 or (kind == "kaps" and min(np.min(x) for _, x in path) < 0.0) or (kind == "kaps" and not stages_positive(ref, eq, path, dts)):
        rec.outcome("unstable, left out")
        return
    prob.run_model()
    x = np.array([prob.get_val(f"rk.{q}_final")[0] for q in QUANT[kind]])
    loose = kind == "kaps"
    s = max(1.0, big)
    require_close(x / s, path[-1][1] / s, "integration of a shipped ODE differs from its recurrence", rtol=1e-6 if loose else 1e-9, atol=1e-6 if loose else 1e-10)
    J = ref_jacobian(ref, eq, t0, x0, np.zeros(0), dts)
    of = [f"rk.{q}_final" for q in QUANT[kind]] + ["rk.time_final"]
    wrt = [f"rk.{q}_initial" for q in QUANT[kind]] + ["rk.time_initial"]
    F, R = jacobians_products(prob, of, wrt)
    sc = max(1.0, np.max(np.abs(J)))
    tol = dict(rtol=1e-5 if loose else 1e-8, atol=1e-5 if loose else 1e-9)
    require_close(F / sc, J / sc, "forward derivative of an integration of a shipped ODE wrong", **tol)
    require_close(R / sc, J / sc, "reverse derivative of an integration of a shipped ODE wrong", **tol)
    rec.transition(case["n"] * len(ref["b"]))
    rec.state(kind, par, case["tab"], x)
    rec.trace()
    rec.outcome("run")


def stages_positive(ref, eq, path, dts):
    """Whether all stage values of Kaps' problem are in the admissible range."""
    A, c = ref["A"], ref["c"]
    for (t, x), dt in zip(path, dts):
        ks = []
        for i in range(len(c)):
            acc = sum((A[i][j] * ks[j] for j in range(i)), np.zeros(2))
            if np.min(x + dt * acc) < 0.0 or A[i][i] < 0.0:
                return False
            ks.append(eq.stage(t + c[i] * dt, x, acc, None, dt, A[i][i]))
    return True


def jacobians_products(prob, of, wrt):
    n, m = len(wrt), len(of)
    F, R = np.zeros((m, n)), np.zeros((m, n))
    for c in range(n):
        r = prob.compute_jacvec_product(of, wrt, "fwd", [np.array([1.0 if k == c else 0.0]) for k in range(n)])
        F[:, c] = [np.ravel(r[o])[0] for o in of]
    for c in range(m):
        r = prob.compute_jacvec_product(of, wrt, "rev", [np.array([1.0 if k == c else 0.0]) for k in range(m)])
        R[c] = [np.ravel(r[w])[0] for w in wrt]
    return F, R


def run_problem(case, rec):
    """The shipped problem descriptions: quantities, initial values, component, parameter
    and solution belong together, and executing one writes exactly its trajectory."""
    prb = (prothero_robinson_problem if case["ode"] == "pr" else kaps_problem)(case["par"])
    eq = Eq(case["ode"], case["par"])
    require(prb.quantities == QUANT[case["ode"]], "quantities of a shipped problem wrong")
    x0 = np.ravel(prb.problem.get_initial_values())
    require_close(np.ravel(prb.solution(0.0, x0, 0.0)), x0, "solution and initial values of a shipped problem differ")
    for t in (0.0, 0.2, 1.0):
        x = np.ravel(prb.solution(t, x0, 0.0))
        dx = np.imag(np.ravel(prb.solution(t + 1e-30j, x0, 0.0))) / 1e-30
        require_close(dx, eq.stage(t, x, 0.0 * x, None, 0.0, 0.0), "solution of a shipped problem does not solve its equation", rtol=1e-9, atol=1e-9, t=t)
    tmp = tempfile.mkdtemp(prefix="c19_")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        for tab in ("embedded_heun_euler", "embedded_second_order_two_stage_sdirk", "embedded_fourth_order_five_stage_esdirk"):
            bt, ref = cm.tableau(tab)
            for n, dt in ((1, 0.01), (4, 0.005)):
                f = os.path.join(tmp, f"sub_{tab}", str(n), "out.h5")
                cfg = ProblemConfig(IntegrationConfig(True, PredefinedNumberOfSteps(n), dt), [pseudo], SimpleErrorMeasurer(), f)
                prb.execute(bt, cfg)
                require(os.path.isfile(f), "executing a problem writes no file")
                time, err, res = read_hdf5_file(f, prb.quantities, prb.solution)
                path = ref_run(ref, eq, 0.0, x0, np.zeros(0), [dt] * n)
                require(sorted(time) == list(range(n + 1)), "file of a problem has wrong steps", got=sorted(time))
                for k, (t, x) in enumerate(path):
                    require_close(time[k], t, "times in the file of a problem wrong", step=k)
                    exact = np.ravel(prb.solution(t, x0, 0.0))
                    for i, q in enumerate(prb.quantities):
                        require_close(np.ravel(res[q][k]), x[i:i + 1], "states in the file of a problem wrong", rtol=1e-6, atol=1e-7, step=k, quantity=q)
                        require_close(np.ravel(err[q][k]), np.abs(exact[i:i + 1] - x[i:i + 1]), "errors of the file of a problem wrong", rtol=1e-5, atol=1e-6, step=k)
                prb.folder_path = Path(tmp) / "data"
                rec.transition(n)
                rec.state(case["ode"], case["par"], tab, n)
            # average of the last local errors over the step sizes
            prb.folder_path = Path(tmp) / "data"
            require(prb.compute_tolerance(bt.name) == 1.0e-6, "tolerance without data is not the default one")
            exp = []
            for dt in prb.step_sizes:
                _, f = prb.get_file_path(bt.name, dt)
                require(not prb.file_exists(bt.name, dt), "file of another run reported")
                prb.execute(bt, ProblemConfig(IntegrationConfig(True, PredefinedNumberOfSteps(2), float(dt)), [pseudo], SimpleErrorMeasurer(), f))
                require(prb.file_exists(bt.name, dt), "existing file not reported")
                exp.append(read_last_local_error(str(f)))
            require_close(prb.compute_tolerance(bt.name), np.mean(exp), "tolerance is not the average of the errors")
            require(len(set(exp)) == len(exp), "runs with different step sizes share a file")
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    rec.trace()
    rec.outcome("problem")


def run_paths(_, rec):
    tmp = tempfile.mkdtemp(prefix="c19_")
    try:
        for prb in (prothero_robinson_problem(), kaps_problem()):
            prb.folder_path = Path(tmp)
            seen = {}
            names = [cm.tableau(t)[0].name for t in cm.SHIPPED]
            for name in names:
                for typ in ["adaptive", "avg_homogeneous"] + list(prb.step_sizes):
                    short, p = prb.get_file_path(name, typ)
                    require(str(p) not in seen or seen[str(p)] == (name, typ) or names.count(name) > 1, "two runs share a file", file=str(p), first=seen.get(str(p)), second=(name, typ))
                    require(p.name == short + ".h5", "name and path of a run differ")
                    require(str(p).startswith(tmp), "file outside of the folder of the problem")
                    seen[str(p)] = (name, typ)
                    rec.transition()
            for bad in ("homogeneous", 3, None, ""):
                try:
                    prb.get_file_path("x", bad)
                except ValueError:
                    continue
                require(False, "invalid type of a run accepted", type=bad)
        for sub in ("a/b/c.h5", "a/b/d.png", "e.h5"):
            f = generate_path(os.path.join(tmp, sub))
            require(f == os.path.join(tmp, sub) and os.path.isdir(os.path.dirname(f)) and not os.path.exists(f), "path not prepared")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rec.trace()
    rec.state("paths")
    rec.outcome("paths")


def run_case(case, rec):
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, rec)
