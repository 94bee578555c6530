"""C24: step operators are exact for any ODE implementation.

An ODE written directly against the package's ODE interface (no OpenMDAO) with stage
values, independent outputs and its own linearization data is stepped through the
discretization interface; every array after every step, and the complete Jacobians of
chains of steps in both modes, are compared with a dense reference."""

import itertools

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODE, DiscretizedODEInputState, DiscretizedODEResultState
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization, StageOrderedRungeKuttaDiscretization)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues, TimeDiscretizationStartingValues)

from mc import common as cm
from mc.core import require, require_close
from mc.models import Model

ID = "C24"
ASSUMPTIONS = [
    "adjoint steps start from perturbations without stage state contributions (fresh perturbations or ones used by adjoint steps only)",
    "how independent outputs at the end of a step follow from those of the stages is not defined by the package yet and not checked",
    "complex-step differentiation of the reference is exact to machine precision; agreement up to 1e-9 relative counts as equal",
]
DTS = {"equal": (0.2, 0.2, 0.2, 0.2), "varying": (0.1, 0.7, 0.05, 0.4), "large": (1.5, 2.0, 1.0, 0.5), "backwards": (-0.1, 0.3, -0.2, 0.1), "zero": (0.0, 0.2, 0.0, 0.1)}


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations: all 24 shipped tableaux, asymmetric tableaux, coefficient grids with 1-{3 if tier == 'quick' else 4} stages; "
            "state sizes 1-8, 0-4 parameters, 0-3 independent outputs; chains of 0-4 steps, 5 step size patterns (also zero and negative); plain and embedded; "
            "all unit seeds in both modes; dirty and fresh containers; "
            "exactly representable steps whose states, slopes and linearization points vanish or repeat, in reused containers")


EXACT = {
    "euler": {"A": [[0]], "b": [1], "c": [0]},
    "midpoint": {"A": [[0, 0], [0.5, 0]], "b": [0, 1], "c": [0, 0.5]},
    "heun": {"A": [[0, 0], [1, 0]], "b": [0.5, 0.5], "c": [0, 1], "bh": [1, 0]},
    "kutta3": {"A": [[0, 0, 0], [0.5, 0, 0], [-1, 2, 0]], "b": [0.25, 0.5, 0.25], "c": [0, 0.5, 1], "bh": [0, 1, 0]},
    "still": {"A": [[0, 0, 0], [1, 0, 0], [1, -1, 0]], "b": [1, -1, 1], "c": [0, 1, 0], "bh": [0, 0, 0]},
}
EXACT_X = (0.0, 1.0, -1.0, 0.5, 2.0)
EXACT_DT = (0.0, 0.5, 1.0, 2.0, -1.0, 2 / 3)


def exact_cases(tier):
    """Values at which states, slopes, accumulations and linearization points vanish,
    coincide or repeat between stages and steps, in one reused container."""
    xs = EXACT_X[:4] if tier == "quick" else EXACT_X
    for name in EXACT:
        for which in ("square", "cubic", "time", "const"):
            for x0 in xs:
                for dts in ((0.5, 0.5), (1.0, 0.0, 1.0), (2 / 3, 2 / 3), (1.0, -1.0), (2.0, 0.5, 1.0)) if tier == "quick" else itertools.product(EXACT_DT, repeat=3):
                    yield dict(exact=name, rhs=which, x0=x0, dts=list(dts))


def cases(tier):
    yield from exact_cases(tier)
    n = 3 if tier == "quick" else 4
    odd = [cm.ODD2, cm.ODD3, cm.ODD3E, cm.ODD4]
    for steps in range(5):
        for tab in odd:
            for spec in cm.SPECS:
                for dts in DTS if (steps in (1, 3) or tier == "thorough") else ("varying",):
                    yield dict(tab=tab, spec=spec, steps=steps, dts=dts, k=(steps + len(spec)) % 4)
    for tab in cm.SHIPPED:
        for spec in ("scalar_tp", "mixed") if tier == "quick" else cm.SPECS:
            for dts in ("varying", "backwards") if tier == "quick" else DTS:
                yield dict(tab=tab, spec=spec, steps=n, dts=dts, k=2)
    for tab in cm.grid_tableaux(tier):
        yield dict(tab=tab, spec="scalar_tp", steps=2, dts="varying", k=1)
    if tier == "thorough":
        for tab in cm.grid_tableaux("quick"):
            for spec in ("vec_scalar", "mixed"):
                yield dict(tab=tab, spec=spec, steps=2, dts="varying", k=3)


class PlainODE(DiscretizedODE):
    """The model ODE directly in the package's ODE interface. Results: slope, stage
    value and k independent outputs o = C stage value + D p + e t."""

    def __init__(self, spec, k):
        self.m = m = Model(spec)
        self.k = k
        i = np.arange(k)[:, None] + 1.0
        self.C = 0.5 * np.sin(i * (np.arange(m.n) + 1.3))
        self.D = 0.4 * np.cos(i * (np.arange(m.np) + 0.8))
        self.e = 0.2 * np.arange(k) + 0.1
        self.log = []

    def get_state_size(self):
        return self.m.n

    def get_independent_input_size(self):
        return self.m.np

    def get_independent_output_size(self):
        return self.k

    def get_linearization_point_size(self):
        return 2 + 2 * self.m.n + self.m.np + 1

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def full(self, t, x, acc, p, dt, aii):
        """slope, stage value, independent output (complex-safe)"""
        k, s = self.m.stage_values(t, x, acc, p, dt, aii)
        return k, s, self.C @ s + self.D @ p + (self.e[:, None] * t if np.ndim(t) else self.e * t)

    def jac(self, lin):
        m, n = self.m, self.m.n
        t, x, acc, p = lin[0], lin[1:1 + n], lin[1 + n:1 + 2 * n], lin[1 + 2 * n:1 + 2 * n + m.np]
        dt, aii = lin[-2], lin[-1]
        N = 1 + 2 * n + m.np
        v = lin[:N].astype(complex)
        V = np.repeat(v[:, None], N, axis=1)
        V[np.arange(N), np.arange(N)] += 1e-30j
        k, s, o = self.full(V[0], V[1:1 + n], V[1 + n:1 + 2 * n], V[1 + 2 * n:], dt, aii)
        del t, x, acc, p
        return np.imag(k) / 1e-30, np.imag(s) / 1e-30, np.imag(o) / 1e-30

    def compute_update(self, ode_input, step_size, stage_factor):
        i = ode_input
        require(isinstance(i, DiscretizedODEInputState), "stage input has a wrong type")
        self.log.append(("E", float(i.time), float(step_size), float(stage_factor)))
        k, s, o = self.full(i.time, i.step_input, i.stage_input, i.independent_input, step_size, stage_factor)
        lin = np.concatenate([[i.time], i.step_input, i.stage_input, i.independent_input, [step_size, stage_factor]])
        return DiscretizedODEResultState(k, s, o, lin)

    def compute_update_derivative(self, ode_input_perturbation, step_size, stage_factor):
        i = ode_input_perturbation
        lin = i.linearization_point
        self.check_lin(lin, step_size, stage_factor)
        self.log.append(("D", float(lin[0]), float(step_size), float(stage_factor)))
        v = np.concatenate([[i.time], i.step_input, i.stage_input, i.independent_input])
        return DiscretizedODEResultState(*[J @ v for J in self.jac(lin)])

    def compute_update_adjoint_derivative(self, ode_result_perturbation, step_size, stage_factor):
        r = ode_result_perturbation
        lin = r.linearization_point
        self.check_lin(lin, step_size, stage_factor)
        self.log.append(("A", float(lin[0]), float(step_size), float(stage_factor)))
        Jk, Js, Jo = self.jac(lin)
        w = r.stage_update @ Jk + r.stage_state @ Js + r.independent_output @ Jo
        n = self.m.n
        return DiscretizedODEInputState(w[1:1 + n], w[1 + n:1 + 2 * n], w[1 + 2 * n:], w[0])

    def check_lin(self, lin, step_size, stage_factor):
        require(lin is not None and lin.size == self.get_linearization_point_size(), "no linearization point for a derivative")
        require(lin[-2] == step_size and lin[-1] == stage_factor, "derivative with the step size or factor of another stage", got=[step_size, stage_factor],
                at=lin[-2:])


def reference(ode, ref, t, x, p, dt):
    """All quantities of one step (complex-safe, batched)."""
    A, b, c = ref["A"], ref["b"], ref["c"]
    ks, ss, os_, ts, lins = [], [], [], [], []
    for i in range(len(b)):
        acc = 0.0 * x
        for j in range(i):
            acc = acc + A[i][j] * ks[j]
        ti = t + c[i] * dt
        k, s, o = ode.full(ti, x, acc, p, dt, A[i][i])
        ks.append(k)
        ss.append(s)
        os_.append(o)
        ts.append(ti)
        lins.append((ti, x, acc, p, dt, A[i][i]))
    new = x + dt * sum(b[i] * ks[i] for i in range(len(b)))
    emb = None if ref["bh"] is None else x + dt * sum(ref["bh"][i] * ks[i] for i in range(len(b)))
    return dict(t=t + dt, x=new, ks=ks, ss=ss, os=os_, ts=ts, emb=emb, lins=lins)


def dirty(state, keep):
    """Fill everything that a step has to overwrite."""
    for name, a in vars(state).items():
        if isinstance(a, np.ndarray) and name not in keep:
            a[...] = 7.7 + np.arange(a.size).reshape(a.shape)


def scheme(bt, embedded):
    return StageOrderedEmbeddedRungeKuttaDiscretization(bt) if embedded else StageOrderedRungeKuttaDiscretization(bt)


def compare_step(st, ref, start, r, dt, embedded, k, d):
    tol = dict(rtol=1e-9, atol=1e-11)
    require_close(float(st.final_time[0]), r["t"], "end time of a step wrong", **tol, **d)
    require_close(st.final_state, r["x"], "result of a step wrong", **tol, **d)
    require_close(float(st.start_time[0]), start[0], "start time of a step wrong", **tol, **d)
    require_close(st.start_state, start[1], "start state of a step wrong", **tol, **d)
    require_close(float(st.step_size[0]), dt, "step size of a step wrong", **tol, **d)
    require_close(np.asarray(st.stage_times), np.array(r["ts"]), "stage times wrong", **tol, **d)
    require_close(st.stage_updates, np.array(r["ks"]), "stage slopes wrong", **tol, **d)
    require_close(st.stage_states, np.array(r["ss"]), "stage values wrong", **tol, **d)
    if k:
        require_close(st.stage_independent_outputs, np.array(r["os"]), "independent outputs of the stages wrong", **tol, **d)
    for i, (ti, x, acc, p, h, aii) in enumerate(r["lins"]):
        require_close(st.linearization_points[i], np.concatenate([[ti], x, acc, p, [h, aii]]), "linearization point of a stage wrong", stage=i, **tol, **d)
    if embedded:
        require_close(st.embedded_state, r["emb"], "embedded solution wrong", **tol, **d)
        require_close(st.error_estimate, r["x"] - r["emb"], "error estimate is not the difference to the embedded solution", **tol, **d)


def snapshot(st):
    return {n: a.copy() for n, a in vars(st).items() if isinstance(a, np.ndarray)}


def unchanged(st, snap, what):
    for n, a in snap.items():
        require(np.array_equal(getattr(st, n), a, equal_nan=True), what, field=n)


def run_one_variant(case, rec, bt, ref, embedded, soiled):
    ode = PlainODE(cm.SPECS[case["spec"]], case["k"])
    m = ode.m
    dts = DTS[case["dts"]][:case["steps"]]
    sch = scheme(bt, embedded)
    t, x, p = 0.3, m.x0(0), m.p0(0)
    start = TimeDiscretizationStartingValues(t, x.copy(), p.copy())
    st = sch.time_discretization_starting_scheme(ode, start, 0.1)
    require(np.array_equal(start.initial_values, x) and np.array_equal(start.independent_inputs, p), "starting scheme modified its arguments")
    require(float(st.final_time[0]) == t and np.array_equal(st.final_state, x) and np.array_equal(st.independent_inputs, p), "starting scheme wrong")
    if soiled:
        dirty(st, ("final_time", "final_state", "independent_inputs"))
    stored = []
    s = bt.number_of_stages()
    for kk, dt in enumerate(dts):
        ode.log.clear()
        r = reference(ode, ref, t, x, p, dt)
        back = sch.compute_step(ode, st, dt)
        require(back is st, "a step does not return its state")
        compare_step(st, ref, (t, x), r, dt, embedded, case["k"], dict(step=kk, embedded=embedded))
        require(np.array_equal(st.independent_inputs, p), "a step changed the parameters")
        require([e[0] for e in ode.log] == ["E"] * s, "a step does not evaluate each stage exactly once", got=[e[0] for e in ode.log])
        keep = sch.create_empty_discretization_state(ode)
        keep.set(st)
        stored.append(keep)
        t, x = r["t"], r["x"]
        rec.transition(s)
        rec.state(case["spec"], embedded, t, x)
        if soiled:
            dirty(st, ("final_time", "final_state", "independent_inputs"))
    fin = sch.time_discretization_finalization_scheme(ode, st, 0.1)
    require_close(float(np.ravel(fin.final_time)[0]), t, "finalization: time wrong")
    require_close(fin.final_values, x, "finalization: values wrong")
    require(np.shape(fin.final_independent_outputs) == (case["k"],), "finalization: independent outputs have a wrong size")
    # dense reference Jacobians of each step
    n = m.n
    N = n + m.np + 1
    v = np.concatenate([m.x0(0), p, [0.3]]).astype(complex)
    V = np.repeat(v[:, None], N, axis=1)
    V[np.arange(N), np.arange(N)] += 1e-30j
    tt, xx = V[-1], V[:n]
    pathJ = [np.eye(N)[:n]]
    stages = []
    for dt in dts:
        r = reference(ode, ref, tt, xx, V[n:n + m.np], dt)
        tt, xx = r["t"], r["x"]
        pathJ.append(np.imag(xx) / 1e-30)
        stages.append((np.imag(np.array(r["ks"])) / 1e-30, np.imag(np.array(r["ss"])) / 1e-30, np.imag(np.array(r["os"])) / 1e-30))
    tol = dict(rtol=1e-9, atol=1e-10)
    snaps = [snapshot(z) for z in stored]
    seeds = list(np.eye(N)) + [0.7 * np.cos(np.arange(N) + 0.3)]
    for c, e in enumerate(seeds):
        sv = TimeDiscretizationStartingValues(e[-1], e[:n].copy(), e[n:n + m.np].copy())
        d = sch.time_discretization_starting_scheme_derivative(ode, start, sv, 0.1)
        if soiled:
            dirty(d, ("final_time", "final_state", "independent_inputs"))
        for kk, dt in enumerate(dts):
            ode.log.clear()
            back = sch.compute_step_derivative(ode, stored[kk], d, dt)
            require(back is d, "a derivative step does not return its perturbation")
            require_close(d.final_state, pathJ[kk + 1] @ e, "derivative of a step wrong", step=kk, seed=c, **tol)
            require_close(d.start_state, pathJ[kk] @ e, "start of a derivative step wrong", step=kk, seed=c, **tol)
            require_close(d.stage_updates, stages[kk][0] @ e, "derivative of the stage slopes wrong", step=kk, seed=c, **tol)
            require_close(d.stage_states, stages[kk][1] @ e, "derivative of the stage values wrong", step=kk, seed=c, **tol)
            if case["k"]:
                require_close(d.stage_independent_outputs, stages[kk][2] @ e, "derivative of the independent outputs wrong", step=kk, seed=c, **tol)
            require(float(d.final_time[0]) == e[-1] and float(d.start_time[0]) == e[-1] and np.all(d.stage_times == e[-1]), "derivative of the times wrong")
            require(np.array_equal(d.independent_inputs, e[n:n + m.np]), "a derivative step changed the parameter perturbation")
            require([z[0] for z in ode.log] == ["D"] * s, "a derivative step does not linearize each stage exactly once")
            rec.transition(s)
        fd = sch.time_discretization_finalization_scheme_derivative(ode, st, d, 0.1)
        require_close(fd.final_values, pathJ[-1] @ e, "finalization derivative wrong", **tol)
        require_close(float(np.ravel(fd.final_time)[0]), e[-1], "finalization derivative of time wrong", **tol)
    J = np.vstack([pathJ[-1], np.eye(N)[-1]])
    for c, e in enumerate(list(np.eye(n + 1)) + [0.4 * np.sin(np.arange(n + 1) + 0.9)]):
        fv = TimeDiscretizationFinalizationValues(e[-1], e[:n].copy(), np.zeros(case["k"]))
        a = sch.time_discretization_finalization_scheme_adjoint_derivative(ode, st, fv, 0.1)
        if soiled:
            dirty(a, ("final_time", "final_state", "independent_inputs", "stage_states", "final_independent_outputs"))
        for kk in reversed(range(len(dts))):
            ode.log.clear()
            back = sch.compute_step_adjoint_derivative(ode, stored[kk], a, dts[kk])
            require(back is a, "an adjoint step does not return its perturbation")
            require([z[0] for z in ode.log] == ["A"] * s, "an adjoint step does not linearize each stage exactly once")
            if soiled:
                dirty(a, ("final_time", "final_state", "independent_inputs", "stage_states", "final_independent_outputs"))
            rec.transition(s)
        sa = sch.time_discretization_starting_scheme_adjoint_derivative(ode, start, a, 0.1)
        got = np.concatenate([sa.initial_values, sa.independent_inputs, np.ravel(sa.initial_time)])
        require_close(got, e @ J, "adjoint of the chain of steps is not the transpose", seed=c, **tol)
    for z, snap in zip(stored, snaps):
        unchanged(z, snap, "a derivative changed the primal state it is linearized at")
    require(np.array_equal(start.initial_values, m.x0(0)), "a derivative changed the starting values")
    rec.trace(len(seeds) + n + 2)


class ExactODE(DiscretizedODE):
    """Two components with a right-hand side with exact zeros. The slope's argument is
    the linearization point."""
    RHS = {"square": lambda t, y, p: y**2 - 1.0 + 0.0 * t, "cubic": lambda t, y, p: y * (1.0 - y) * (1.0 + y) + p,
           "time": lambda t, y, p: t * y + p, "const": lambda t, y, p: 0.0 * y + p * (1.0 - t)}

    def __init__(self, which):
        self.f = self.RHS[which]

    def get_state_size(self):
        return 2

    def get_independent_input_size(self):
        return 1

    def get_independent_output_size(self):
        return 0

    def get_linearization_point_size(self):
        return 4

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def compute_update(self, i, step_size, stage_factor):
        y = i.step_input + step_size * i.stage_input
        return DiscretizedODEResultState(self.f(i.time, y, i.independent_input[0]), y.copy(), np.zeros(0), np.concatenate([[i.time], y, i.independent_input]))

    def jac(self, lin):
        V = np.repeat(lin.astype(complex)[:, None], 4, axis=1)
        V[np.arange(4), np.arange(4)] += 1e-30j
        return np.imag(self.f(V[0], V[1:3], V[3])) / 1e-30

    def compute_update_derivative(self, d, step_size, stage_factor):
        y = d.step_input + step_size * d.stage_input
        return DiscretizedODEResultState(self.jac(d.linearization_point) @ np.concatenate([[d.time], y, d.independent_input]), y, np.zeros(0))

    def compute_update_adjoint_derivative(self, r, step_size, stage_factor):
        w = r.stage_update @ self.jac(r.linearization_point)
        y = w[1:3] + r.stage_state
        return DiscretizedODEInputState(y, step_size * y, w[3:], w[0])


def run_exact(case, rec):
    bt, ref = cm.tableau(EXACT[case["exact"]])
    A, b, c = ref["A"], ref["b"], ref["c"]
    s = bt.number_of_stages()
    ode = ExactODE(case["rhs"])

    def step(t, x, p, dt):
        ks, ys = [], []
        for i in range(s):
            y = x + dt * sum((A[i][j] * ks[j] for j in range(i)), 0.0 * x)
            ys.append(y)
            ks.append(ode.f(t + c[i] * dt, y, p))
        emb = None if ref["bh"] is None else x + dt * sum(ref["bh"][i] * ks[i] for i in range(s))
        return t + dt, x + dt * sum(b[i] * ks[i] for i in range(s)), ks, ys, emb

    tol = dict(rtol=1e-9, atol=1e-11)
    for embedded in (False, True) if bt.is_embedded else (False,):
        for p in (0.0, 1.0):
            sch = scheme(bt, embedded)
            t0, x0 = 0.0, np.array([case["x0"], -case["x0"]])
            start = TimeDiscretizationStartingValues(t0, x0.copy(), np.array([p]))
            st = sch.time_discretization_starting_scheme(ode, start, 0.1)
            stored, path = [], [(t0, x0)]
            V = np.repeat(np.array([*x0, p, t0], dtype=complex)[:, None], 4, axis=1)
            V[np.arange(4), np.arange(4)] += 1e-30j
            tt, xx, pp = V[3], V[:2], V[2]
            J = [np.eye(4)[:2]]
            dts = []
            for kk, dt in enumerate(case["dts"]):
                new = step(tt, xx, pp, dt)
                if max(np.abs(np.array(new[3])).max(), np.abs(new[1]).max()) > 50.0:
                    break  # polynomials: chains end before values grow beyond float accuracy
                dts.append(dt)
                sch.compute_step(ode, st, dt)
                tt, xx, ks, ys, emb = new
                J.append(np.imag(xx) / 1e-30)
                d = dict(step=kk, embedded=embedded, p=p)
                require_close(st.final_state, np.real(xx[:, 0]), "result of a step wrong", **tol, **d)
                require_close(st.stage_updates, np.real(np.array(ks)[..., 0]), "stage slopes wrong", **tol, **d)
                require_close(st.stage_states, np.real(np.array(ys)[..., 0]), "stage values wrong", **tol, **d)
                require_close(st.linearization_points[:, 1:3], np.real(np.array(ys)[..., 0]), "linearization point of a stage wrong", **tol, **d)
                if embedded:
                    require_close(st.embedded_state, np.real(emb[:, 0]), "embedded solution wrong", **tol, **d)
                    require_close(st.error_estimate, np.real(xx[:, 0] - emb[:, 0]), "error estimate is not the difference to the embedded solution", **tol, **d)
                keep = sch.create_empty_discretization_state(ode)
                keep.set(st)
                stored.append(keep)
                path.append((np.real(tt[0]), np.real(xx[:, 0])))
                rec.transition(s)
                rec.state(case["rhs"], p, *path[-1])
            # one perturbation container for all seeds, as for all steps
            pert = sch.create_empty_discretization_state(ode)
            for i, e in enumerate(np.eye(4)):
                pert.final_state[:], pert.independent_inputs[:], pert.final_time[0] = e[:2], e[2], e[3]
                for kk, dt in enumerate(dts):
                    sch.compute_step_derivative(ode, stored[kk], pert, dt)
                    require_close(pert.final_state, J[kk + 1] @ e, "derivative of a step wrong", seed=i, step=kk, embedded=embedded, p=p, **tol)
                rec.transition(s * len(dts))
            for i, e in enumerate(np.eye(3)):
                adj = sch.create_empty_discretization_state(ode)
                adj.final_state[:], adj.final_time[0] = e[:2], e[2]
                for kk in reversed(range(len(dts))):
                    sch.compute_step_adjoint_derivative(ode, stored[kk], adj, dts[kk])
                got = np.concatenate([adj.final_state, adj.independent_inputs, adj.final_time])
                require_close(got, e @ np.vstack([J[-1], np.eye(4)[3]]), "adjoint of the chain of steps is not the transpose", seed=i, embedded=embedded, p=p, **tol)
                rec.transition(s * len(dts))
            rec.trace(8)
    rec.outcome("exact zeros")


def run_case(case, rec):
    if "exact" in case:
        return run_exact(case, rec)
    bt, ref = cm.tableau(case["tab"])
    variants = [(False, False), (False, True)]
    if bt.is_embedded:
        variants += [(True, False), (True, True)]
    for embedded, soiled in variants:
        run_one_variant(case, rec, bt, ref, embedded, soiled)
    rec.outcome("embedded" if bt.is_embedded else "plain")
