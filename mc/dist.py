"""Distributed stage problems and the worker that explores partitions under MPI.

Run as  mpirun -n R python -m mc.dist <jobs.json> <results.json>
Each job is one partition of one configuration; rank 0 appends one result line per job,
so a job which hangs or dies is the one after the last line."""

import json
import os
import sys
import traceback

import numpy as np
import openmdao.api as om
from mpi4py import MPI

from rkopenmdao.components import ExplicitUnsteadyComponent
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps

from mc import common as cm
from mc.core import Violation, close, jsonable, require
from mc.models import Model, ref_jacobian, ref_run
from mc.omsys import OneQuantity

COMM = MPI.COMM_WORLD
RANK = COMM.rank


def run_together(job):
    """Independent jobs, each on its own group of processes at the same time."""
    global COMM, RANK  # pylint: disable=global-statement
    mine = [k for k, n in enumerate(job["sizes"]) for _ in range(n)][MPI.COMM_WORLD.rank]
    COMM = MPI.COMM_WORLD.Split(mine, MPI.COMM_WORLD.rank)
    RANK = COMM.rank
    rec = run_job(job["jobs"][mine])
    COMM, RANK = MPI.COMM_WORLD, MPI.COMM_WORLD.rank
    recs = COMM.allgather(rec)
    return {k: sum(r[k] for r in recs) for k in rec}


def rows(shape, part, rank):
    """Local shape and flat slice for a partition of the first axis (None: everywhere)."""
    if part is None:
        return tuple(shape), slice(0, int(np.prod(shape)))
    rest = int(np.prod(shape[1:]))
    a = sum(part[:rank])
    return (part[rank],) + tuple(shape[1:]), slice(a * rest, (a + part[rank]) * rest)


class DistMono(ExplicitUnsteadyComponent):
    """Whole system in one component; entries live where the partition puts them."""

    def initialize(self):
        self.options.declare("model", recordable=False)
        self.options.declare("parts")
        self.options.declare("pparts")
        self.options.declare("observer", default=None, recordable=False, allow_none=True)

    def setup(self):
        m, parts, pparts = self.options["model"], self.options["parts"], self.options["pparts"]
        self.local = {}
        for i, q in enumerate(m.q):
            shape, sl = rows(q["shape"], parts[i], self.comm.rank)
            dist = parts[i] is not None
            if q.get("kind", "ode") == "ode":
                self.add_input(q["name"] + "_old", shape=shape, distributed=dist, tags=[q["name"], "step_input_var"])
                self.add_input(q["name"] + "_acc", shape=shape, distributed=dist, tags=[q["name"], "accumulated_stage_var"])
            self.add_output(q["name"] + "_k", shape=shape, distributed=dist, tags=[q["name"], "stage_output_var"])
        for i, prm in enumerate(m.params):
            shape, sl = rows(prm["shape"], pparts[i], self.comm.rank)
            self.add_input(prm["name"], shape=shape, distributed=pparts[i] is not None, tags=[prm["name"], "time_independent_input_var"])
        if m.has_time:
            self.add_input("time", val=0.0, tags=["time_variable"])

    def _full(self, vec, name, part, size):
        """Whole variable on every process (zeros if out of scope)."""
        v = np.asarray(vec[name]).ravel() if name in vec else None
        if part is None:
            return np.zeros(size) if v is None else v.copy()
        got = self.comm.allgather(v)
        return np.zeros(size) if got[0] is None else np.concatenate(got)

    def _collect(self, vec):
        m, parts, pparts = self.options["model"], self.options["parts"], self.options["pparts"]
        x, acc, p = np.zeros(m.n), np.zeros(m.n), np.zeros(m.np)
        for i, q in enumerate(m.q):
            if q.get("kind", "ode") == "ode":
                x[m.qslice[i]] = self._full(vec, q["name"] + "_old", parts[i], m.qsize[i])
                acc[m.qslice[i]] = self._full(vec, q["name"] + "_acc", parts[i], m.qsize[i])
        for i, prm in enumerate(m.params):
            p[m.pslice[i]] = self._full(vec, prm["name"], pparts[i], m.psize[i])
        t = float(vec["time"][0]) if m.has_time and "time" in vec else 0.0
        return t, x, acc, p

    def compute(self, inputs, outputs, *_):
        m, parts = self.options["model"], self.options["parts"]
        t, x, acc, p = self._collect(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        if self.options["observer"] is not None:
            self.options["observer"](t, x, dt)
        k = m.stage(t, x, acc, p, dt, aii)
        for i, q in enumerate(m.q):
            shape, sl = rows(q["shape"], parts[i], self.comm.rank)
            outputs[q["name"] + "_k"] = k[m.qslice[i]][sl].reshape(shape)

    def compute_jacvec_product(self, inputs, d_inputs, d_outputs, mode, *_):
        m, parts, pparts = self.options["model"], self.options["parts"], self.options["pparts"]
        t, x, acc, p = self._collect(inputs)
        dt, aii = self.om_data_exchange.step_size, self.om_data_exchange.stage_factor
        J = m.jac(t, x, acc, p, dt, aii)
        n = m.n
        if mode == "fwd":
            dv = self._collect(d_inputs)
            dk = J @ np.concatenate([[dv[0]], dv[1], dv[2], dv[3]])
            for i, q in enumerate(m.q):
                shape, sl = rows(q["shape"], parts[i], self.comm.rank)
                if q["name"] + "_k" in d_outputs:
                    d_outputs[q["name"] + "_k"] += dk[m.qslice[i]][sl].reshape(shape)
            return
        seed = np.zeros(n)
        for i, q in enumerate(m.q):
            seed[m.qslice[i]] = self._full(d_outputs, q["name"] + "_k", parts[i], m.qsize[i])
        w = J.T @ seed
        for i, q in enumerate(m.q):
            shape, sl = rows(q["shape"], parts[i], self.comm.rank)
            for suffix, off in (("_old", 1), ("_acc", 1 + n)):
                if q["name"] + suffix in d_inputs:
                    d_inputs[q["name"] + suffix] += w[off:off + n][m.qslice[i]][sl].reshape(shape)
        for i, prm in enumerate(m.params):
            shape, sl = rows(prm["shape"], pparts[i], self.comm.rank)
            if prm["name"] in d_inputs:
                d_inputs[prm["name"]] += w[1 + 2 * n:][m.pslice[i]][sl].reshape(shape)
        if m.has_time and "time" in d_inputs:
            d_inputs["time"] += w[0]


class Reader(om.ExplicitComponent):
    """Uses the parameters too, but has no influence on the integration."""

    def initialize(self):
        self.options.declare("model", recordable=False)
        self.options.declare("pparts")

    def setup(self):
        m, pparts = self.options["model"], self.options["pparts"]
        for i, prm in enumerate(m.params):
            self.add_input(prm["name"], shape=rows(prm["shape"], pparts[i], self.comm.rank)[0], distributed=pparts[i] is not None)
        self.add_output("o", shape=1, distributed=True)

    def compute(self, inputs, outputs, *_):
        outputs["o"] = 1.0


def stage_problem(m, parts, pparts, observer=None):
    prob = om.Problem(comm=COMM, reports=False)
    ivc = om.IndepVarComp()
    some = False
    for i, q in enumerate(m.q):
        if parts[i] is not None and q.get("kind", "ode") == "ode":
            shape, _ = rows(q["shape"], parts[i], RANK)
            ivc.add_output(q["name"] + "_old", shape=shape, distributed=True)
            ivc.add_output(q["name"] + "_acc", shape=shape, distributed=True)
            some = True
    for i, prm in enumerate(m.params):
        if pparts[i] is not None:
            ivc.add_output(prm["name"], shape=rows(prm["shape"], pparts[i], RANK)[0], distributed=True)
            some = True
    if some:
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    for r in range(m.spec.get("readers", 0)):
        prob.model.add_subsystem(f"reader{r}", Reader(model=m, pparts=pparts), promotes_inputs=["*"])
    prob.model.add_subsystem("sys", DistMono(model=m, parts=parts, pparts=pparts, observer=observer), promotes=["*"])
    return prob


def parallel_stage_problem(m):
    """First quantity, the next ones in a parallel group, then the rest."""
    prob = om.Problem(comm=COMM, reports=False)
    par = m.spec["parallel"]
    last = [i for i in range(1, len(m.q)) if i not in par]
    order = [0] + list(par) + last

    def comp(i, promote_to):
        pos = order.index(i)
        owner = {k for k in range(len(m.params)) if m.spec["owner"][k] == i}
        c = OneQuantity(model=m, index=i, owner_params=owner, time_tag=i == 0)
        promote_to.add_subsystem(f"c{i}", c, promotes=["*"])

    comp(0, prob.model)
    group = prob.model.add_subsystem("par", om.ParallelGroup(), promotes=["*"])
    for i in par:
        g = group.add_subsystem(f"g{i}", om.Group(), promotes=["*"])
        ivc = om.IndepVarComp()
        for s in ("_old", "_acc"):
            ivc.add_output(m.q[i]["name"] + s, shape=m.q[i]["shape"])
        for k, prm in enumerate(m.params):
            if m.spec["owner"][k] == i:
                ivc.add_output(prm["name"], shape=prm["shape"])
        g.add_subsystem("ivc", ivc, promotes=["*"])
        comp(i, g)
    for i in last:
        comp(i, prob.model)
    return prob


class DistDriver:
    """Component level driver; full (global) vectors in and out on every process."""

    def __init__(self, spec, parts, pparts, bt, term, dt, adaptive, observer=None, **options):
        self.m = m = Model(spec)
        self.parts, self.pparts = parts, pparts
        self.stage_prob = parallel_stage_problem(m) if "parallel" in spec else stage_problem(m, parts, pparts, observer)
        self.comp = RungeKuttaIntegrator(
            time_stage_problem=self.stage_prob, butcher_tableau=bt, integration_config=IntegrationConfig(adaptive, term, dt),
            time_integration_quantities=[q["name"] for q in m.q], time_independent_input_quantities=[p["name"] for p in m.params], **options)
        prob = self.prob = om.Problem(comm=COMM, reports=False)
        ivc = om.IndepVarComp()
        some = False
        for i, q in enumerate(m.q):
            if parts[i] is not None:
                ivc.add_output(q["name"] + "_initial", shape=rows(q["shape"], parts[i], RANK)[0], distributed=True)
                some = True
        for i, prm in enumerate(m.params):
            if pparts[i] is not None:
                ivc.add_output(prm["name"], shape=rows(prm["shape"], pparts[i], RANK)[0], distributed=True)
                some = True
        if some:
            prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        prob.model.add_subsystem("rk", self.comp, promotes=["*"])
        prob.setup()
        prob.final_setup()

    def put(self, vec, names, parts, items, slices, full):
        for i, n in enumerate(names):
            shape, sl = rows(items[i]["shape"], parts[i], RANK)
            vec[n] = full[slices[i]][sl].reshape(shape)

    def take(self, vec, names, parts, items, slices, size):
        out = np.zeros(size)
        for i, n in enumerate(names):
            v = np.asarray(vec[n]).ravel()
            if parts[i] is not None:
                v = np.concatenate(COMM.allgather(v))
            else:
                same = COMM.allgather(v.tolist())
                require(all(close(s, same[0]) for s in same), "processes disagree on a value all of them own", variable=n, got=same)
            out[slices[i]] = v
        return out

    def vecs(self, suffix):
        m = self.m
        return [q["name"] + suffix for q in m.q], self.parts, m.q, m.qslice

    def pvecs(self):
        m = self.m
        return [p["name"] for p in m.params], self.pparts, m.params, m.pslice

    def one(self, v):
        same = COMM.allgather(float(v))
        require(max(same) - min(same) <= 1e-11 * max(1.0, abs(same[0])), "processes disagree on a time", got=same)
        return same[0]

    def set(self, t0, x, p):
        inp, _, _ = self.comp.get_nonlinear_vectors()
        inp["time_initial"] = t0
        self.put(inp, *self.vecs("_initial"), x)
        self.put(inp, *self.pvecs(), p)

    def compute(self, t0, x, p):
        self.set(t0, x, p)
        self.comp.run_solve_nonlinear()
        _, out, _ = self.comp.get_nonlinear_vectors()
        return self.one(out["time_final"][0]), self.take(out, *self.vecs("_final"), self.m.n)

    def _zero(self):
        d = self.comp.get_linear_vectors()
        for v in d:
            v.set_val(0.0)
        return d

    def fwd(self, seed):
        m = self.m
        d_in, _, d_res = self._zero()
        self.put(d_in, *self.vecs("_initial"), seed[:m.n])
        self.put(d_in, *self.pvecs(), seed[m.n:m.n + m.np])
        d_in["time_initial"] = seed[-1]
        self.comp.run_apply_linear("fwd")
        return np.concatenate([self.take(d_res, *self.vecs("_final"), m.n), [self.one(d_res["time_final"][0])]])

    def rev(self, seed):
        m = self.m
        d_in, _, d_res = self._zero()
        self.put(d_res, *self.vecs("_final"), seed[:m.n])
        d_res["time_final"] = seed[-1]
        self.comp.run_apply_linear("rev")
        return np.concatenate([self.take(d_in, *self.vecs("_initial"), m.n), self.take(d_in, *self.pvecs(), m.np),
                               [self.one(d_in["time_initial"][0])]])


def jac_fwd(d):
    N = d.m.n + d.m.np + 1
    return np.array([d.fwd(e) for e in np.eye(N)]).T


def jac_rev(d):
    return np.array([d.rev(e) for e in np.eye(d.m.n + 1)])


def p_norm(v, o):
    a = np.abs(v)
    if o == "inf":
        return a.max() if a.size else 0.0
    if o == "-inf":
        return a.min()
    if o == 0.0:
        return float(np.sum(a != 0.0))
    return float(np.sum(a ** o) ** (1.0 / o)) if a.size else 0.0


def check_norms(job, rec):
    m = Model(job["spec"])
    prob = parallel_stage_problem(m) if "parallel" in job["spec"] else stage_problem(m, job["parts"], job["pparts"])
    prob.setup()
    prob.final_setup()
    for excl in job["excl"]:
        for order in job["orders"]:
            o = {"inf": np.inf, "-inf": -np.inf}.get(order, order)
            ode = OpenMDAOODE(prob, [q["name"] for q in m.q], [p["name"] for p in m.params], norm_exclusions=excl, norm_order=o)
            for variant in range(3):
                v = np.where(np.arange(m.n) % 2, -1, 1) * m.x0(variant)
                v[variant % m.n] *= (1.0, 0.0, 10.0)[variant]
                sel = np.concatenate([v[m.qslice[i]] for i, q in enumerate(m.q) if q["name"] not in excl] or [np.zeros(0)])
                if sel.size == 0:
                    continue
                local = np.zeros(ode.get_state_size())
                for qm in ode.time_integration_metadata.time_integration_quantity_list:
                    i = [q["name"] for q in m.q].index(qm.name)
                    _, sl = rows(m.q[i]["shape"], job["parts"][i], RANK)
                    local[qm.array_metadata.start_index:qm.array_metadata.end_index] = v[m.qslice[i]][sl]
                got = COMM.allgather(float(ode.compute_state_norm(DiscretizedODEResultState(np.zeros(0), local, np.zeros(0)))))
                want = p_norm(sel, order)
                require(all(close(g, want, 1e-12, 1e-13) for g in got), "norm of distributed state differs from the norm of its entries",
                        order=order, excluded=excl, got=got, expected=want)
                rec["transitions"] += 1


def check_histories(job, rec):
    """Operations at points which differ in one entry, that is on one process, only."""
    bt, ref = cm.tableau(job["tab"])
    m = Model(job["spec"])
    n = job["n"]
    dts = [job["dt"]] * n
    seed = 0.7 + 0.4 * np.cos(np.arange(m.n + 1))
    fseed = 0.6 - 0.5 * np.cos(np.arange(m.n + m.np + 1))
    base = np.concatenate([m.x0(), m.p0(), [job["t0"]]])

    def split(v):
        return v[-1], v[:m.n], v[m.n:m.n + m.np]

    d = DistDriver(job["spec"], job["parts"], job["pparts"], bt, PredefinedNumberOfSteps(n), job["dt"], False,
                   **cm.checkpointing(job["cp"]), **cm.QUIET)
    near = [base]
    for i in range(base.size):
        near.append(base.copy())
        near[-1][i] += 0.37
    jacs = [ref_jacobian(ref, m, *split(v), dts) for v in near]

    def op(kind, k):
        rec["transitions"] += 1
        if kind == "c":
            _, x = d.compute(*split(near[k]))
            w = ref_run(ref, m, *split(near[k]), dts)[-1][1]
        elif kind == "bad":
            v = near[0].copy()
            v[k] = np.nan
            d.set(*split(v))
            d.comp.run_solve_nonlinear()
            _, _, d_res = d._zero()
            d_res["time_final"] = 1.0
            d.comp.run_apply_linear("rev")
            return
        else:
            d.set(*split(near[k]))
            x, w = (d.rev(seed), seed @ jacs[k]) if kind == "r" else (d.fwd(fseed), jacs[k] @ fseed)
        require(close(x, w, 1e-8, 1e-10), "result at a point that differs from the last one on some processes only is wrong",
                operation=kind, entry=k - 1, got=x, expected=w)

    for k in range(1, len(near)):
        for history in job["histories"]:
            for kind, where in history:
                op(kind, (0, k)[where])
            rec["traces"] += 1
    for k in range(base.size - 1):
        op("bad", k)
        op("r", 0)


def run_job(job):
    if job["kind"] == "together":
        return run_together(job)
    rec = dict(transitions=0, traces=1)
    if job["kind"] == "history":
        check_histories(job, rec)
        return rec
    if job["kind"] == "norm":
        check_norms(job, rec)
        return rec
    spec, tab = job["spec"], job["tab"]
    bt, ref = cm.tableau(tab)
    m = Model(spec)
    attempts = []
    seen = []

    class Note:
        def before_iteration(self, it, s, ode, disc):
            pass

        def after_iteration(self, it, s, ode, disc):
            seen.append((it, float(s.discretization_state.final_time[0]), float(s.step_size_history[0])))

    opts = dict(cm.QUIET)
    callbacks = [Note()]
    if job.get("file"):
        callbacks.append(OpenMDAOHDF5Callback(job["file"], write_out_period=job["period"], comm=COMM))
    opts["compute_callbacks"] = callbacks
    if job["adaptive"]:
        opts["error_controller_options"] = dict(config=ErrorControllerConfig(**job["config"]))
        opts["error_measurer"] = SimpleErrorMeasurer() if job["measurer"] == "simple" else ImprovedErrorMeasurer(0.3, 0.5)
    term = PredefinedFinalTime(job["T"]) if job.get("T") is not None else PredefinedNumberOfSteps(job["n"])
    d = DistDriver(spec, job["parts"], job["pparts"], bt, term, job["dt"], job["adaptive"],
                   observer=lambda t, x, dt: attempts.append((t, dt)), **cm.checkpointing(job["cp"]), **opts)
    point = (job["t0"], m.x0(), m.p0())
    for round_ in range(job.get("rounds", 1)):
        seen.clear()
        t, x = d.compute(*point)
        dts = [s[2] for s in seen]
        every = COMM.allgather(dts)
        require(all(len(e) == len(dts) for e in every), "processes perform different numbers of steps", got=[len(e) for e in every])
        require(all(close(e, dts) for e in every), "processes use different step sizes", got=every)
        if job["adaptive"]:
            if "dts" in job:
                require(close(dts, job["dts"], 1e-8, 1e-10), "step sizes differ from those of the serial run", got=dts, expected=job["dts"])
        else:
            require(len(dts) == job["n"] and close(dts, [job["dt"]] * job["n"]), "steps differ from those prescribed", got=dts)
        path = ref_run(ref, m, *point, dts)
        require(abs(t - path[-1][0]) <= 1e-10, "final time differs from the serial one", got=t, expected=path[-1][0])
        require(close(x, path[-1][1], 1e-9, 1e-11), "final values differ from the serial ones", got=x, expected=path[-1][1])
        rec["transitions"] += len(dts)
        if job.get("file"):
            COMM.Barrier()
            if RANK == 0:
                check_file(job, m, path)
            COMM.Barrier()
        if job["cp"] != "norev":
            J = ref_jacobian(ref, m, *point, dts)
            if job.get("fwd", True):
                F = jac_fwd(d)
                require(close(F, J, 1e-8, 1e-10), "forward derivative differs from the serial one", got=F, expected=J)
            if job["cp"] != "none":
                R = jac_rev(d)
                require(close(R, J, 1e-8, 1e-10), "reverse derivative differs from the serial one", got=R, expected=J)
            rec["transitions"] += J.size
        rec["traces"] += 1
    return rec


def check_file(job, m, path):
    import h5py

    with h5py.File(job["file"], "r") as f:
        exp = {0} | set(range(job["period"], len(path), job["period"]))
        require(set(f.keys()) == {str(k) for k in exp}, "file contains other steps than those requested", got=sorted(f.keys()))
        for k in exp:
            require(abs(f[str(k)]["time"][0] - path[k][0]) < 1e-10, "wrong time in file", step=k)
            for i, q in enumerate(m.q):
                v = f[str(k)][q["name"]][...]
                w = path[k][1][m.qslice[i]].reshape(q["shape"])
                require(v.shape == w.shape and close(v, w), "wrong values in file", step=k, quantity=q["name"], got=v, expected=w)


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        jobs = json.load(f)
    out = open(sys.argv[2], "a", encoding="utf-8") if MPI.COMM_WORLD.rank == 0 else None
    sys.stdout = open(os.devnull, "w", encoding="utf-8")
    for job in jobs:
        bad = None
        try:
            rec = run_job(job)
        except Violation as v:
            # raised by a comparison of gathered data or of data only this process has
            bad = {"what": v.what, "detail": jsonable(v.detail)}
        except Exception as e:  # pylint: disable=broad-except
            bad = {"what": f"unexpected {type(e).__name__}: {e}", "detail": {"traceback": traceback.format_exc()[-1500:]}}
        if bad is not None:
            with open(sys.argv[2] + f".bad{MPI.COMM_WORLD.rank}", "w", encoding="utf-8") as f:
                json.dump(bad, f)
            MPI.COMM_WORLD.Abort(3)
        if MPI.COMM_WORLD.rank == 0:
            out.write(json.dumps(rec) + "\n")
            out.flush()
    MPI.COMM_WORLD.Barrier()


if __name__ == "__main__":
    main()
