"""OpenMDAO stage problems realising mc.models.Model, and drivers for the integrator."""

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

from mc.models import Model


def _add_io(comp, model, qidx, owner_params, time_tag, skip_params=()):
    for i in qidx:
        q = model.q[i]
        tags = [q["name"]]
        if q.get("kind", "ode") == "ode":
            comp.add_input(q["name"] + "_old", shape=q["shape"], val=0.5, tags=tags + ["step_input_var"])
            comp.add_input(q["name"] + "_acc", shape=q["shape"], val=0.0, tags=tags + ["accumulated_stage_var"])
    for i, prm in enumerate(model.params):
        if i in skip_params:
            continue
        comp.add_input(prm["name"], shape=prm["shape"], val=0.2,
                       tags=[prm["name"], "time_independent_input_var"] if i in owner_params else None)
    if model.has_time:
        comp.add_input("time", shape=model.spec.get("time_shape", (1,)), val=0.0, tags=["time_variable"] if time_tag else None)


class Mono(ExplicitUnsteadyComponent):
    """Whole system in a single explicit component. `observer` is called with
    (kind, dict) for every evaluation / linearisation: the exploration's monitor."""

    def initialize(self):
        self.options.declare("model", recordable=False)
        self.options.declare("observer", default=None, recordable=False, allow_none=True)

    def setup(self):
        m = self.options["model"]
        _add_io(self, m, range(len(m.q)), set(range(len(m.params))), True)
        for q in m.q:
            self.add_output(q["name"] + "_k", shape=q["shape"], val=0.1, tags=[q["name"], "stage_output_var"])
        self.declare_partials("*", "*")

    def _gather(self, inputs):
        m = self.options["model"]
        dtype = complex if self.under_complex_step else float
        x, acc = np.zeros(m.n, dtype), np.zeros(m.n, dtype)
        for i, q in enumerate(m.q):
            if q.get("kind", "ode") == "ode":
                x[m.qslice[i]] = inputs[q["name"] + "_old"].ravel()
                acc[m.qslice[i]] = inputs[q["name"] + "_acc"].ravel()
        p = np.zeros(m.np, dtype)
        for i, prm in enumerate(m.params):
            p[m.pslice[i]] = inputs[prm["name"]].ravel()
        t = dtype(inputs["time"].ravel()[0]) if m.has_time else 0.0
        return t, x, acc, p

    def compute(self, inputs, outputs, *_):
        m = self.options["model"]
        t, x, acc, p = self._gather(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        if self.options["observer"] is not None:
            self.options["observer"]("compute", dict(t=t, x=x, acc=acc, p=p, dt=dt, aii=aii))
        k = m.stage(t, x, acc, p, dt, aii)
        for i, q in enumerate(m.q):
            outputs[q["name"] + "_k"] = k[m.qslice[i]].reshape(q["shape"])

    def compute_partials(self, inputs, partials, *_):
        m = self.options["model"]
        t, x, acc, p = self._gather(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        if self.options["observer"] is not None:
            self.options["observer"]("linearize", dict(t=t, x=x, acc=acc, p=p, dt=dt, aii=aii))
        J = m.jac(t, x, acc, p, dt, aii)
        n = m.n
        for i, q in enumerate(m.q):
            rows = m.qslice[i]
            of = q["name"] + "_k"
            if m.has_time:
                partials[of, "time"] = J[rows, 0:1]
            for i2, q2 in enumerate(m.q):
                if q2.get("kind", "ode") == "ode":
                    sl = m.qslice[i2]
                    partials[of, q2["name"] + "_old"] = J[rows, 1 + sl.start:1 + sl.stop]
                    partials[of, q2["name"] + "_acc"] = J[rows, 1 + n + sl.start:1 + n + sl.stop]
            for i2, prm in enumerate(m.params):
                sl = m.pslice[i2]
                partials[of, prm["name"]] = J[rows, 1 + 2 * n + sl.start:1 + 2 * n + sl.stop]


class MatrixFree(Mono):
    """The same without partial derivatives: products only."""

    def setup(self):
        super().setup()
        self._declared_partials_patterns.clear()  # pylint: disable=protected-access

    def compute_partials(self, inputs, partials, *_):
        pass

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode, *_):
        partials = {}
        super().compute_partials(inputs, partials)
        for (of, wrt), J in partials.items():
            if of in d_outputs and wrt in d_inputs:
                if mode == "fwd":
                    d_outputs[of] += (J @ d_inputs[wrt].ravel()).reshape(d_outputs[of].shape)
                else:
                    d_inputs[wrt] += (J.T @ d_outputs[of].ravel()).reshape(d_inputs[wrt].shape)


class ComplexStep(Mono):
    """The same with partial derivatives approximated by OpenMDAO."""

    def setup(self):
        super().setup()
        self.declare_partials("*", "*", method="cs", step=1e-30)

    def compute_partials(self, inputs, partials, *_):
        pass


class Memo(om.ExplicitComponent):
    """Hands on the inputs of the system as a discrete variable."""

    def initialize(self):
        self.options.declare("model", recordable=False)

    def setup(self):
        m = self.options["model"]
        self.ins = [(q["name"] + e, q["shape"]) for q in m.q if q.get("kind", "ode") == "ode" for e in ("_old", "_acc")]
        self.ins += [(p["name"], p["shape"]) for p in m.params] + ([("time", (1,))] if m.has_time else [])
        for name, shape in self.ins:
            self.add_input(name, shape=shape, val=0.0)
        self.add_discrete_output("seen", val={name: np.zeros(shape) for name, shape in self.ins})

    def compute(self, inputs, outputs, discrete_inputs, discrete_outputs):
        discrete_outputs["seen"] = {name: np.array(inputs[name]) for name, _ in self.ins}


class Discrete(Mono):
    """The same, linearized at the point it is told by a discrete variable."""

    def setup(self):
        super().setup()
        self.add_discrete_input("seen", val={})

    def compute_partials(self, inputs, partials, discrete_inputs):
        super().compute_partials(discrete_inputs["seen"], partials)


class OneQuantity(ExplicitUnsteadyComponent):
    """One quantity of the system; earlier ode quantities arrive as stage values."""

    def initialize(self):
        self.options.declare("model", recordable=False)
        self.options.declare("index")
        self.options.declare("owner_params")
        self.options.declare("time_tag")
        self.options.declare("observer", default=None, recordable=False, allow_none=True)

    def setup(self):
        m, i = self.options["model"], self.options["index"]
        q = m.q[i]
        self.unused = [k for k in range(len(m.params)) if [k, i] in m.spec.get("pdecouple", [])]
        _add_io(self, m, [i], self.options["owner_params"], self.options["time_tag"], self.unused)
        self.ode = q.get("kind", "ode") == "ode"
        self.prev = [j for j in range(len(m.q)) if m.q[j].get("kind", "ode") == "ode" and (j < i or not self.ode)
                     and [j, i] not in m.spec.get("decouple", [])]
        for j in self.prev:
            self.add_input(m.q[j]["name"] + "_X", shape=m.q[j]["shape"], val=0.3)
        self.add_output(q["name"] + "_k", shape=q["shape"], val=0.1, tags=[q["name"], "stage_output_var"])
        if self.ode:
            self.add_output(q["name"] + "_X", shape=q["shape"], val=0.1)
        self.declare_partials("*", "*")
        self.ins = []
        if self.ode:
            self.ins += [(q["name"] + "_old", q["shape"]), (q["name"] + "_acc", q["shape"])]
        self.ins += [(m.q[j]["name"] + "_X", m.q[j]["shape"]) for j in self.prev]
        self.ins += [(prm["name"], prm["shape"]) for k, prm in enumerate(m.params) if k not in self.unused]
        if m.has_time:
            self.ins += [("time", (1,))]

    def _eval(self, v):
        m, i = self.options["model"], self.options["index"]
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        sl = m.qslice[i]
        t = v["time"][0] if m.has_time else 0.0
        p = [e for k, prm in enumerate(m.params) for e in (np.zeros(m.psize[k]) if k in self.unused else v[prm["name"]])]
        xs = []
        for j in self.prev:
            for e, idx in enumerate(range(m.qslice[j].start, m.qslice[j].stop)):
                xs.append((idx, v[m.q[j]["name"] + "_X"][e]))
        ks, Xs = [], []
        for e, idx in enumerate(range(sl.start, sl.stop)):
            if self.ode:
                k, X = m.solve_entry(idx, v[m.q[i]["name"] + "_old"][e] + dt * v[m.q[i]["name"] + "_acc"][e],
                                     dt * aii, xs, p, t)
                xs.append((idx, X))
                Xs.append(X)
            else:
                k = m.out_entry(idx, xs, p, t)
            ks.append(k)
        return ks, Xs

    def _observe(self, kind, inputs):
        m, i = self.options["model"], self.options["index"]
        n = m.q[i]["name"]
        d = dict(index=i, dt=self.om_data_exchange.step_size, aii=self.om_data_exchange.stage_factor,
                 t=float(inputs["time"].ravel()[0]) if m.has_time else 0.0)
        if self.ode:
            d.update(x=inputs[n + "_old"].ravel().copy(), acc=inputs[n + "_acc"].ravel().copy())
        d["p"] = {prm["name"]: inputs[prm["name"]].ravel().copy() for k, prm in enumerate(m.params) if k not in self.unused}
        self.options["observer"](kind, d)

    def compute(self, inputs, outputs, *_):
        m, i = self.options["model"], self.options["index"]
        q = m.q[i]
        if self.options["observer"] is not None:
            self._observe("compute", inputs)
        ks, Xs = self._eval({name: inputs[name].ravel() for name, _ in self.ins})
        outputs[q["name"] + "_k"] = np.array(ks, dtype=float).reshape(q["shape"])
        if self.ode:
            outputs[q["name"] + "_X"] = np.array(Xs, dtype=float).reshape(q["shape"])

    def compute_partials(self, inputs, partials, *_):
        m, i = self.options["model"], self.options["index"]
        q = m.q[i]
        if self.options["observer"] is not None:
            self._observe("linearize", inputs)
        base = {name: inputs[name].ravel().astype(complex) for name, _ in self.ins}
        for name, shape in self.ins:
            size = int(np.prod(shape))
            V = dict(base)
            V[name] = base[name][:, None] + 1e-30j * np.eye(size)
            ks, Xs = self._eval(V)
            n = len(ks)
            partials[q["name"] + "_k", name] = np.array([np.imag(k + np.zeros(size)) for k in ks]).reshape(n, size) / 1e-30
            if self.ode:
                partials[q["name"] + "_X", name] = np.array([np.imag(k + np.zeros(size)) for k in Xs]).reshape(n, size) / 1e-30


class ImplicitMono(ImplicitUnsteadyComponent):
    """Whole system as implicit component in the slope variables: residual
    R(k) = k - rhs(x + dt(acc + aii k)), solved in closed form, dense linear solve."""

    def initialize(self):
        self.options.declare("model", recordable=False)
        self.options.declare("observer", default=None, recordable=False, allow_none=True)

    def setup(self):
        m = self.options["model"]
        _add_io(self, m, range(len(m.q)), set(range(len(m.params))), True)
        for q in m.q:
            self.add_output(q["name"] + "_k", shape=q["shape"], val=0.1, tags=[q["name"], "stage_output_var"])
        self.declare_partials("*", "*")
        self.linear_solver = om.DirectSolver()

    _gather = Mono._gather

    def _kvec(self, outputs):
        m = self.options["model"]
        return np.concatenate([outputs[q["name"] + "_k"].ravel() for q in m.q])

    def _rhs(self, t, x, acc, k, p, dt, aii):
        """slopes at the stage value x + dt (acc + aii k), explicitly evaluated"""
        m = self.options["model"]
        xs = x + dt * (acc + aii * k)
        return m.stage(t, xs, 0.0 * xs, p, 0.0, 0.0)

    def apply_nonlinear(self, inputs, outputs, residuals, *_):
        m = self.options["model"]
        t, x, acc, p = self._gather(inputs)
        k = self._kvec(outputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        r = k - self._rhs(t, x, acc, k, p, dt, aii)
        for i, q in enumerate(m.q):
            residuals[q["name"] + "_k"] = r[m.qslice[i]].reshape(q["shape"])

    def solve_nonlinear(self, inputs, outputs, *_):
        m = self.options["model"]
        t, x, acc, p = self._gather(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        if self.options["observer"] is not None:
            self.options["observer"]("compute", dict(t=t, x=x, acc=acc, p=p, dt=dt, aii=aii))
        k = m.stage(t, x, acc, p, dt, aii)
        for i, q in enumerate(m.q):
            outputs[q["name"] + "_k"] = k[m.qslice[i]].reshape(q["shape"])

    def linearize(self, inputs, outputs, partials, *_):
        m = self.options["model"]
        t, x, acc, p = self._gather(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        if self.options["observer"] is not None:
            self.options["observer"]("linearize", dict(t=t, x=x, acc=acc, p=p, dt=dt, aii=aii))
        k = self._kvec(outputs)
        n, npar = m.n, m.np
        N = 1 + 3 * n + npar
        v = np.concatenate([[t], x, acc, p, k]).astype(complex)
        V = np.repeat(v[:, None], N, axis=1)
        V[np.arange(N), np.arange(N)] += 1e-30j
        K = V[1 + 2 * n + npar:]
        R = K - self._rhs(V[0], V[1:1 + n], V[1 + n:1 + 2 * n], K, V[1 + 2 * n:1 + 2 * n + npar], dt, aii)
        J = np.imag(R) / 1e-30
        ko = 1 + 2 * n + npar
        for i, q in enumerate(m.q):
            rows = m.qslice[i]
            of = q["name"] + "_k"
            if m.has_time:
                partials[of, "time"] = J[rows, 0:1]
            for i2, q2 in enumerate(m.q):
                sl = m.qslice[i2]
                if q2.get("kind", "ode") == "ode":
                    partials[of, q2["name"] + "_old"] = J[rows, 1 + sl.start:1 + sl.stop]
                    partials[of, q2["name"] + "_acc"] = J[rows, 1 + n + sl.start:1 + n + sl.stop]
                partials[of, q2["name"] + "_k"] = J[rows, ko + sl.start:ko + sl.stop]
            for i2, prm in enumerate(m.params):
                sl = m.pslice[i2]
                partials[of, prm["name"]] = J[rows, 1 + 2 * n + sl.start:1 + 2 * n + sl.stop]


def stage_problem(model, layout="mono", observer=None):
    prob = om.Problem(reports=False)
    if layout == "mono":
        prob.model.add_subsystem("sys", Mono(model=model, observer=observer), promotes=["*"])
    elif layout == "free":
        prob.model.add_subsystem("sys", MatrixFree(model=model), promotes=["*"])
    elif layout in ("discrete", "discrete_nested"):
        g = prob.model if layout == "discrete" else prob.model.add_subsystem("outer", om.Group(), promotes=["*"])
        ivc = om.IndepVarComp()
        for i, prm in enumerate(model.params):
            ivc.add_output(prm["name"], shape=prm["shape"], val=0.2)
        for q in model.q:
            if q.get("kind", "ode") == "ode":
                ivc.add_output(q["name"] + "_old", shape=q["shape"], val=0.5)
                ivc.add_output(q["name"] + "_acc", shape=q["shape"], val=0.0)
        if model.has_time:
            ivc.add_output("time", val=0.0)
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        prob.model.set_order(["ivc", "outer"]) if layout != "discrete" else None
        g.add_subsystem("memo", Memo(model=model), promotes=["*"])
        g.add_subsystem("sys", Discrete(model=model), promotes=["*"])
    elif layout == "cs":
        prob.model.add_subsystem("sys", ComplexStep(model=model), promotes=["*"])
    elif layout == "group_cs":
        g = prob.model.add_subsystem("outer", om.Group(), promotes=["*"])
        g.add_subsystem("sys", Mono(model=model), promotes=["*"])
        g.approx_totals(method="cs", step=1e-30)
    elif layout == "newton":
        prob.model.add_subsystem("sys", ImplicitMono(model=model), promotes=["*"])
        prob.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, maxiter=40, atol=1e-14, rtol=1e-15, iprint=-1)
        prob.model.linear_solver = om.DirectSolver()
    elif layout == "implicit":
        prob.model.add_subsystem("sys", ImplicitMono(model=model, observer=observer), promotes=["*"])
    elif layout == "nested":
        g = prob.model.add_subsystem("outer", om.Group())
        g.add_subsystem("sys", Mono(model=model, observer=observer), promotes=["*"])
    elif layout in ("split", "loop"):
        # data flow order: ode quantities, then those without an own previous state
        order = sorted(range(len(model.q)), key=lambda i: (model.q[i].get("kind", "ode") != "ode", i))
        if layout == "loop":
            # against the data flow: needs (and gets) solvers for the coupling
            order = order[::-1]
            prob.model.nonlinear_solver = om.NonlinearBlockGS(maxiter=len(order) + 2, atol=1e-14, rtol=1e-14, iprint=-1)
            prob.model.linear_solver = om.DirectSolver()
        for pos, i in enumerate(order):
            owner = {k for k in range(len(model.params)) if k % len(order) == pos}
            prob.model.add_subsystem(f"c{i}", OneQuantity(model=model, index=i, owner_params=owner,
                                                          time_tag=pos == len(order) - 1, observer=observer), promotes=["*"])
    elif layout.startswith("perm:"):
        # components in the given order, "|" separates nested groups; coupled by solvers
        groups = layout[5:].split("|")
        prob.model.nonlinear_solver = om.NonlinearBlockGS(maxiter=len(model.q) + 2, atol=1e-14, rtol=1e-14, iprint=-1)
        prob.model.linear_solver = om.DirectSolver()
        order = [int(c) for g in groups for c in g]
        pos = 0
        for gi, g in enumerate(groups):
            target = prob.model if len(groups) == 1 else prob.model.add_subsystem(f"g{gi}", om.Group(), promotes=["*"])
            for c in g:
                i = int(c)
                owner = {k for k in range(len(model.params)) if k % len(order) == pos}
                target.add_subsystem(f"c{i}", OneQuantity(model=model, index=i, owner_params=owner,
                                                          time_tag=pos == len(order) - 1, observer=observer), promotes=["*"])
                pos += 1
    else:
        raise ValueError(layout)
    return prob


ABS = "rk."


class Driver:
    """Public-API driver of one RungeKuttaIntegrator inside an OpenMDAO problem."""

    def __init__(self, spec, tableau, *, n_steps=None, dt=0.1, term=None, adaptive=False, layout="mono",
                 observer=None, quantities=None, params=None, group=False, **options):
        self.model = Model(spec)
        m = self.model
        self.stage_prob = stage_problem(m, layout, observer)
        if term is None:
            term = PredefinedNumberOfSteps(n_steps)
        self.names = [q["name"] for q in m.q]
        self.pnames = [p["name"] for p in m.params]
        cfg = IntegrationConfig(adaptive, term, dt)
        options.setdefault("checkpointing_type", NoCheckpointer)
        self.comp = RungeKuttaIntegrator(
            time_stage_problem=self.stage_prob,
            butcher_tableau=tableau,
            integration_config=cfg,
            time_integration_quantities=list(quantities or self.names),
            time_independent_input_quantities=list(params if params is not None else self.pnames),
            **options,
        )
        self.prob = om.Problem(reports=False)
        self.prob.model.add_subsystem("rk", self.comp)
        self.prob.setup()
        self.prob.final_setup()

    def set(self, t0, x0, p):
        m = self.model
        self.prob.set_val("rk.time_initial", t0)
        for i, n in enumerate(self.names):
            self.prob.set_val(f"rk.{n}_initial", np.asarray(x0)[m.qslice[i]].reshape(m.q[i]["shape"]))
        for i, n in enumerate(self.pnames):
            self.prob.set_val(f"rk.{n}", np.asarray(p)[m.pslice[i]].reshape(m.params[i]["shape"]))

    def get(self):
        m = self.model
        x = np.zeros(m.n)
        for i, n in enumerate(self.names):
            v = self.prob.get_val(f"rk.{n}_final")
            if v.shape != tuple(m.q[i]["shape"]):
                raise AssertionError(f"output {n}_final has shape {v.shape}, input {m.q[i]['shape']}")
            x[m.qslice[i]] = v.ravel()
        return float(self.prob.get_val("rk.time_final")[0]), x

    def compute(self, t0, x0, p):
        self.set(t0, x0, p)
        self.prob.run_model()
        return self.get()

    # ---- derivative products at the currently set inputs
    def fwd(self, dx, dp, dt0):
        m = self.model
        wrt = [f"rk.{n}_initial" for n in self.names] + [f"rk.{n}" for n in self.pnames] + ["rk.time_initial"]
        of = [f"rk.{n}_final" for n in self.names] + ["rk.time_final"]
        seed = [np.asarray(dx)[m.qslice[i]].reshape(m.q[i]["shape"]) for i in range(len(self.names))]
        seed += [np.asarray(dp)[m.pslice[i]].reshape(m.params[i]["shape"]) for i in range(len(self.pnames))]
        seed += [np.array([dt0])]
        r = self.prob.compute_jacvec_product(of, wrt, "fwd", seed)
        out = np.zeros(m.n + 1)
        for i, n in enumerate(self.names):
            out[m.qslice[i]] = np.asarray(r[f"rk.{n}_final"]).ravel()
        out[m.n] = float(np.asarray(r["rk.time_final"]).ravel()[0])
        return out

    def rev(self, lx, lt):
        m = self.model
        wrt = [f"rk.{n}_initial" for n in self.names] + [f"rk.{n}" for n in self.pnames] + ["rk.time_initial"]
        of = [f"rk.{n}_final" for n in self.names] + ["rk.time_final"]
        seed = [np.asarray(lx)[m.qslice[i]].reshape(m.q[i]["shape"]) for i in range(len(self.names))] + [np.array([lt])]
        r = self.prob.compute_jacvec_product(of, wrt, "rev", seed)
        out = np.zeros(m.n + m.np + 1)
        for i, n in enumerate(self.names):
            out[m.qslice[i]] = np.asarray(r[f"rk.{n}_initial"]).ravel()
        for i, n in enumerate(self.pnames):
            s = m.pslice[i]
            out[m.n + s.start:m.n + s.stop] = np.asarray(r[f"rk.{n}"]).ravel()
        out[m.n + m.np] = float(np.asarray(r["rk.time_initial"]).ravel()[0])
        return out


def full_jacobian_fwd(drv):
    m = drv.model
    N = m.n + m.np + 1
    cols = []
    for c in range(N):
        e = np.zeros(N)
        e[c] = 1.0
        cols.append(drv.fwd(e[:m.n], e[m.n:m.n + m.np], e[-1]))
    return np.array(cols).T


def full_jacobian_rev(drv):
    m = drv.model
    rows = []
    for r in range(m.n + 1):
        e = np.zeros(m.n + 1)
        e[r] = 1.0
        rows.append(drv.rev(e[:m.n], e[-1]))
    return np.array(rows)


class VecDriver(Driver):
    """Drives the integrator component through its own vectors (as OpenMDAO's solvers
    and partial checks do), so that products can be requested at any point, whether or
    not the primal was evaluated there before."""

    def _set_inputs(self, t0, x0, p):
        m = self.model
        inp, _, _ = self.comp.get_nonlinear_vectors()
        inp["time_initial"] = t0
        for i, n in enumerate(self.names):
            inp[f"{n}_initial"] = np.asarray(x0)[m.qslice[i]].reshape(m.q[i]["shape"])
        for i, n in enumerate(self.pnames):
            inp[n] = np.asarray(p)[m.pslice[i]].reshape(m.params[i]["shape"])

    def compute(self, t0, x0, p):
        m = self.model
        self._set_inputs(t0, x0, p)
        self.comp.run_solve_nonlinear()
        _, out, _ = self.comp.get_nonlinear_vectors()
        x = np.concatenate([np.asarray(out[f"{n}_final"]).ravel() for n in self.names])
        return float(out["time_final"][0]), x

    def fwd_at(self, point, seed):
        """seed: (x, p, t0) direction; returns (x, t)"""
        m = self.model
        self._set_inputs(*point)
        d_in, d_out, d_res = self.comp.get_linear_vectors()
        d_in.set_val(0.0)
        d_out.set_val(0.0)
        d_res.set_val(0.0)
        for i, n in enumerate(self.names):
            d_in[f"{n}_initial"] = seed[m.qslice[i]].reshape(m.q[i]["shape"])
        for i, n in enumerate(self.pnames):
            s = m.pslice[i]
            d_in[n] = seed[m.n + s.start:m.n + s.stop].reshape(m.params[i]["shape"])
        d_in["time_initial"] = seed[-1]
        self.comp.run_apply_linear("fwd")
        r = [np.asarray(d_res[f"{n}_final"]).ravel() for n in self.names] + [np.asarray(d_res["time_final"]).ravel()]
        return np.concatenate(r)

    def rev_at(self, point, seed):
        """seed: (x, t); returns (x, p, t0)"""
        m = self.model
        self._set_inputs(*point)
        d_in, d_out, d_res = self.comp.get_linear_vectors()
        d_in.set_val(0.0)
        d_out.set_val(0.0)
        d_res.set_val(0.0)
        for i, n in enumerate(self.names):
            d_res[f"{n}_final"] = seed[m.qslice[i]].reshape(m.q[i]["shape"])
        d_res["time_final"] = seed[-1]
        self.comp.run_apply_linear("rev")
        r = [np.asarray(d_in[f"{n}_initial"]).ravel() for n in self.names] + [np.asarray(d_in[n]).ravel() for n in self.pnames]
        r.append(np.asarray(d_in["time_initial"]).ravel())
        return np.concatenate(r)
