"""C13: output files contain exactly the integrated trajectory."""

import os

import h5py
import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import h_211, integral
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback, read_hdf5_file, read_last_local_error
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.adaptive import CONTROLLER_ERRORS
from mc.checks.c11 import Steps
from mc.core import require, require_close
from mc.models import ref_run, ref_step
from mc.omsys import VecDriver

ID = "C13"
ASSUMPTIONS = [
    "at least one step is performed (otherwise no file is written)",
    "distributed quantities are covered by C18",
]
HIST = [["c0"], ["c0", "c1"], ["c0", "f0"], ["c0", "r0"], ["c0", "f1"], ["c0", "c1", "r1", "r1"], ["r0"], ["c0", "f0", "c0"], ["c1", "r1", "c0"]]

# single values without dimensions
SPECS = dict(cm.SPECS, bare=dict(quantities=[cm.Q("x"), cm.Q("y", 2), cm.Q("o", kind="out")], params=[cm.PR("p")], time=True, time_shape=()))


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations: step counts 1-{8 if tier == 'quick' else 13}, write periods 1-{5 if tier == 'quick' else 14}, "
            "plain and embedded schemes, quantity shapes, fixed and adaptive, checkpointing, up to 4 operations; two files of different periods per run")


def cases(tier):
    full = tier == "thorough"
    base = dict(tab="ODD2", spec="vec_scalar", cp="none", hist=["c0"], adaptive=False, T=None, meas="simple", t0=0.2)
    for n in range(1, 14 if full else 9):
        for period in range(1, 15 if full else 6):
            for tab in ("ODD2", "ODD3"):
                yield dict(base, n=n, period=period, tab=tab)
                if full or (n + period) % 3 == 0:
                    yield dict(base, n=n, period=period, tab=tab, cp=["pyrevolve", "SingleLevel", 1], hist=["c0", "r0"])
    for n in (10, 11, 12, 101 if full else 25):
        for period in (1, 10):
            yield dict(base, n=n, period=period, tab="ODD3", spec="scalar_tp")
    for spec in SPECS:
        for tab in ("ODD2", "ODD3", "embedded_heun_euler", "runge_kutta_four"):
            for n, period in ((3, 1), (4, 2), (5, 3), (2, 5)):
                yield dict(base, spec=spec, tab=tab, n=n, period=period)
    for n in range(1, 6 if not full else 10):
        for cp in ("all", ["pyrevolve", "SingleLevel", 1], ["pyrevolve", "Memory", None], ["pyrevolve", "Disk", None], ["pyrevolve", "SingleLevel", 2]):
            for hist in HIST:
                for tab in ("ODD2", "embedded_second_order_three_stage_esdirk"):
                    for period in (1, 2, 3):
                        if full or period == 2 or n in (3, 5):
                            yield dict(base, n=n, cp=cp, hist=hist, tab=tab, period=period)
    for chain in ("one", "two"):
        for meas in ("simple", "improved"):
            for period in (1, 2, 3):
                for cp, T, n in (("all", 0.9, None), ("all", None, 4), (["pyrevolve", "SingleLevel", 1], None, 4)):
                    for hist in HIST:
                        yield dict(base, n=n, T=T, cp=cp, hist=hist, tab="embedded_heun_euler", period=period, adaptive=True, chain=chain, meas=meas)


def measure(case, new, emb):
    e = np.linalg.norm(new - emb)
    return e if case["meas"] == "simple" else e / (np.linalg.norm(new) + 0.2)


def check_file(name, m, period, path, errors, rec):
    require(os.path.exists(name), "no file was written")
    n = len(path) - 1
    with h5py.File(name, "r") as f:
        exp = {0} | set(range(period, n + 1, period))
        got = set(f.keys())
        require(got == {str(k) for k in exp}, "file contains other steps than those requested", got=sorted(got), expected=sorted(exp))
        for k in exp:
            g = f[str(k)]
            want = {"time"} | {q["name"] for q in m.q} | ({"error_measure"} if errors is not None else set())
            require(set(g.keys()) == want, "step contains other data than time, quantities and error", step=k, got=sorted(g.keys()))
            require(abs(g["time"][0] - path[k][0]) < 1e-10 and g["time"].shape == (1,), "wrong time in file", step=k, got=g["time"][...])
            for i, q in enumerate(m.q):
                v = g[q["name"]][...]
                require(v.shape == tuple(q["shape"]), "wrong shape in file", step=k, quantity=q["name"], got=v.shape)
                require_close(v.ravel(), path[k][1][m.qslice[i]], "wrong values in file", step=k, quantity=q["name"])
            if errors is not None:
                require_close(g["error_measure"][0], errors[k], "wrong error measure in file", step=k, rtol=1e-7, atol=1e-13)
            rec.state(k, period, path[k][1])
            rec.transition()
        return sorted(exp)


def solution_of(m, names):
    def many(t, init, t0):
        return [np.asarray(v) * (1.0 + t - t0) + 0.1 * i for i, v in enumerate(init)]

    def single(t, init, t0):
        return np.asarray(init) * (1.0 + t - t0)

    return single if len(names) == 1 else many


def check_reading(name, m, path, keys, errors, rec):
    every = [q["name"] for q in m.q]
    for names in [every, every[::-1]] + [[n] for n in every]:
        t, err, res = read_hdf5_file(name, names, solution_of(m, names))
        require(set(t) == set(keys), "reading returns other steps", got=sorted(t))
        for k in keys:
            require(abs(t[k] - path[k][0]) < 1e-10, "reading returns a wrong time", step=k)
            for pos, nm in enumerate(names):
                i = every.index(nm)
                shape = tuple(m.q[i]["shape"])
                v, v0 = path[k][1][m.qslice[i]].reshape(shape), path[0][1][m.qslice[i]].reshape(shape)
                require_close(res[nm][k], v, "reading returns wrong values", step=k, quantity=nm)
                ex = v0 * (1.0 + path[k][0] - path[0][0]) + (0.1 * pos if len(names) > 1 else 0.0)
                require_close(err[nm][k], np.abs(ex - v), "deviation from the given solution is wrong", step=k, quantity=nm, names=names)
    if errors is not None:
        require_close(read_last_local_error(name), errors[keys[-1]], "last local error is wrong", rtol=1e-7, atol=1e-13)


def run_case(case, rec):
    bt, ref = cm.tableau(getattr(cm, case["tab"]) if case["tab"].startswith("ODD") else case["tab"])
    steps = Steps()
    one, two = os.path.join(os.getcwd(), "c13_one.h5"), os.path.join(os.getcwd(), "c13_two.h5")
    for f in (one, two):
        if os.path.exists(f):
            os.remove(f)
    opts = dict(cm.checkpointing(case["cp"]), **cm.QUIET)
    opts["compute_callbacks"] = [OpenMDAOHDF5Callback(one, case["period"]), steps, OpenMDAOHDF5Callback(filename=two)]
    if case["adaptive"]:
        opts.update(adaptive=True, error_controller=[integral] if case["chain"] == "one" else [h_211, integral],
                    error_controller_options=dict(config=ErrorControllerConfig(tol=1e-2, lower_bound=1e-3)))
    opts["error_measurer"] = SimpleErrorMeasurer() if case["meas"] == "simple" else ImprovedErrorMeasurer(eta=2e-3, eps=1e-2)
    drv = VecDriver(SPECS[case["spec"]], bt, n_steps=case["n"], term=None if case["T"] is None else PredefinedFinalTime(case["T"]),
                    dt=0.9 if case["adaptive"] else 0.1, **opts)
    m = drv.model
    pts = {"0": (case["t0"], m.x0(0), m.p0(0)), "1": (case["t0"] - 0.35, m.x0(1) * 1.7, m.p0(1))}
    written = None
    for op in case["hist"]:
        steps.reset()
        pt = pts[op[1]]
        try:
            if op[0] == "c":
                drv.compute(*pt)
            elif op[0] == "f":
                drv.fwd_at(pt, np.ones(m.n + m.np + 1))
            else:
                drv.rev_at(pt, np.ones(m.n + 1))
        except CONTROLLER_ERRORS:
            rec.outcome("failed explicitly")
            return
        if op[0] == "c" or (op[0] == "r" and written is None):
            rows = steps.rows
            n = case["n"] or next((i for i, r in enumerate(rows) if r[0] != i + 1), len(rows))
            dts = [r[2] for r in rows[:n]]
            path = ref_run(ref, m, *pt, dts)
            errors = None
            if ref["bh"] is not None:
                errors = [0.0]
                for (t, x), dt in zip(path[:-1], dts):
                    new, _, emb = ref_step(ref, m, t, x, pt[2], dt)
                    errors.append(measure(case, new, emb))
            written = (path, errors)
        keys = check_file(one, m, case["period"], *written, rec)
        all_keys = check_file(two, m, 1, *written, rec)
    check_reading(one, m, written[0], keys, written[1], rec)
    check_reading(two, m, written[0], all_keys, written[1], rec)
    for f in (one, two):
        os.remove(f)
    rec.trace()
    rec.outcome("adaptive" if case["adaptive"] else "fixed")
