"""C17: norms and error measures have their mathematical meaning.

Every norm order of an alphabet x every exclusion set x every order of the quantities x
every vector over a small alphabet goes through the ODE's norm; the reference is the
definition of the p-norm applied to the chosen entries.  The error measures are checked
on the same norms, and inside integrations by recording what they are given."""

import copy
import itertools

import numpy as np
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ErrorMeasurer, ImprovedErrorMeasurer, SimpleErrorMeasurer

from mc import common as cm
from mc.core import close, require, require_close
from mc.models import Model, ref_step
from mc.omsys import Driver, stage_problem

ID = "C17"
ASSUMPTIONS = [
    "no norm is requested over an empty set of entries with a negative order (there is none)",
    "entries are moderate, powers of them neither overflow nor underflow",
]
ORDERS = ["inf", "-inf", 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 7.0, -1.0, -2.0]
ALPHABET = (0.0, -1.5, 0.25, 3.0)


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} combinations of {len(ORDERS)} orders x all exclusion subsets x quantity permutations of 7 systems; all "
            f"vectors over {ALPHABET} for up to {4 if tier == 'quick' else 6} entries, a covering set beyond; error measures over all tolerance "
            "pairs; recorded error measure arguments of integrations with all embedded schemes")


# names which contain each other at the beginning, at the end and inside, and which look like patterns
NAMES = [["u", "u_v", "u_v_w"], ["u_v_w", "u_v", "u"], ["b", "ab", "cab"], ["aba", "b", "ab"], ["x1", "x", "x10"], ["aB", "ab", "AB"]]


def cases(tier):
    thorough = tier == "thorough"
    for spec in ("vec_scalar", "mixed", "tensor"):
        n = len(cm.SPECS[spec]["quantities"])
        for names in NAMES:
            for k in range(n + 1):
                for excl in itertools.permutations(names[:n], k) if thorough else itertools.combinations(names[:n], k):
                    yield dict(kind="norm", spec=spec, layout="mono", perm=list(range(n)), excl=list(excl), full=3, names=names[:n])
    for spec in ("scalar", "vec_scalar", "scalar_tp", "outonly", "outs", "mixed", "tensor"):
        names = [q["name"] for q in cm.SPECS[spec]["quantities"]]
        layouts = cm.LAYOUTS if thorough else ("mono", "split")
        for layout in layouts:
            for perm in itertools.permutations(range(len(names))):
                for k in range(len(names) + 1):
                    for excl in itertools.combinations(names, k):
                        yield dict(kind="norm", spec=spec, layout=layout, perm=list(perm), excl=list(excl), full=4 if not thorough else 6)
    for tab in cm.EMBEDDED:
        for spec in ("vec_scalar", "mixed", "outs") if thorough else ("mixed",):
            for adaptive in (False, True):
                for measurer in (["simple"], ["improved", 1e-6, 1e-6], ["improved", 0.3, 0.01], ["improved", 1e-3, 2.0]):
                    yield dict(kind="run", tab=tab, spec=spec, adaptive=adaptive, measurer=measurer)


def p_norm(v, order):
    a = np.abs(v)
    if order == np.inf:
        return a.max() if a.size else 0.0
    if order == -np.inf:
        return a.min()
    if order == 0.0:
        return float(np.sum(a != 0.0))
    if order < 0 and np.any(a == 0.0):
        return 0.0
    return float(np.sum(a ** order) ** (1.0 / order)) if a.size else 0.0


def vectors(n, full):
    if n <= full:
        yield from (np.array(v) for v in itertools.product(ALPHABET, repeat=n))
        return
    base = 0.3 + np.abs(np.sin(np.arange(n) * 1.7)) * np.where(np.arange(n) % 2, -1, 1)
    yield base
    yield np.zeros(n)
    for i in range(n):
        for v in ALPHABET + (100.0,):
            w = base.copy()
            w[i] = v
            yield w
            e = np.zeros(n)
            e[i] = v
            yield e


class Fixed(ErrorMeasurer):
    pass


def measurer_of(desc):
    return SimpleErrorMeasurer() if desc[0] == "simple" else ImprovedErrorMeasurer(eta=desc[1], eps=desc[2])


def ref_measure(desc, est, sol):
    if desc[0] == "simple":
        return est
    return est / (sol + desc[1] / desc[2])


def run_norm(case, rec):
    spec = copy.deepcopy(cm.SPECS[case["spec"]])
    for q, name in zip(spec["quantities"], case.get("names", [])):
        q["name"] = name
    m = Model(spec)
    names = [q["name"] for q in m.q]
    order_names = [names[i] for i in case["perm"]]
    for order in ORDERS:
        o = {"inf": np.inf, "-inf": -np.inf}.get(order, order)
        prob = stage_problem(m, case["layout"])
        prob.setup()
        prob.final_setup()
        kw = {} if o == 2.0 and not case["excl"] else dict(norm_exclusions=list(case["excl"]), norm_order=o)
        ode = OpenMDAOODE(prob, list(order_names), [p["name"] for p in m.params], **kw)
        sel, cover = [], []
        for q in ode.time_integration_metadata.time_integration_quantity_list:
            entries = list(range(q.array_metadata.start_index, q.array_metadata.end_index))
            require(len(entries) == m.qsize[names.index(q.name)], "entries of a quantity in the state have the wrong number", quantity=q.name)
            cover += entries
            if q.name not in case["excl"]:
                sel += entries
        require(sorted(cover) == list(range(m.n)), "entries of the quantities do not cover the state")
        sel = np.array(sel, dtype=int)
        if sel.size == 0 and o < 0:
            rec.skipped += 1
            continue
        prev = None
        with np.errstate(all="ignore"):
            for v in vectors(m.n, case["full"]):
                w = v.copy()
                got = ode.compute_state_norm(DiscretizedODEResultState(np.full(m.n, 9.0), w, np.zeros(0)))
                want = p_norm(v[sel], o)
                require(np.array_equal(w, v), "computing a norm changed the state")
                require_close(got, want, "norm of a state is not the norm of its included entries", rtol=1e-12, atol=1e-13, order=order, state=v, entries=sel)
                rec.state(order, len(sel), round(want, 8))
                rec.transition()
                if prev is not None and o >= 0:
                    pair = (prev, want)
                    for desc in (["simple"], ["improved", 1e-6, 1e-6], ["improved", 0.3, 0.01], ["improved", 1e-3, 2.0]):
                        got = measurer_of(desc).get_measure(DiscretizedODEResultState(np.zeros(0), v, np.zeros(0)),
                                                            DiscretizedODEResultState(np.zeros(0), pv, np.zeros(0)), ode)
                        require_close(got, ref_measure(desc, want, prev), "error measure differs from its definition", rtol=1e-12, atol=1e-13,
                                      measurer=desc, norms=pair)
                        rec.transition()
                prev, pv = want, v
        rec.trace()
    # defaults of the improved measure are those documented
    d = ImprovedErrorMeasurer()
    require((d.eta, d.eps) == (1e-6, 1e-6), "default tolerances of the improved error measure changed", eta=d.eta, eps=d.eps)
    rec.outcome("norm")


def run_run(case, rec):
    bt, ref = cm.tableau(case["tab"])
    calls = []
    inner = measurer_of(case["measurer"])

    class Record(ErrorMeasurer):
        def get_measure(self, state_error_estimate, state, ode):
            r = inner.get_measure(state_error_estimate, state, ode)
            calls.append((state_error_estimate.stage_state.copy(), state.stage_state.copy(), r))
            return r

    attempts = []
    s = len(ref["b"])

    def observer(kind, d):
        if kind == "compute":
            attempts.append((d["t"], d["x"].copy(), d["dt"]))

    drv = Driver(cm.SPECS[case["spec"]], bt, n_steps=4, dt=0.3, adaptive=case["adaptive"], error_measurer=Record(), observer=observer,
                 error_controller_options=dict(config=ErrorControllerConfig(tol=1e-4, lower_bound=1e-6)), **cm.QUIET)
    m = drv.model
    x0, p = m.x0(), m.p0()
    drv.compute(0.25, x0, p)
    attempts = attempts[::s]
    require(len(calls) == len(attempts), "the error is not measured once per attempted step", measured=len(calls), attempts=len(attempts))
    x = None
    for k, ((est, sol, got), (tl, xo, dt)) in enumerate(zip(calls, attempts)):
        # start state of the attempt: observed for ode quantities; accepted solution for outputs
        if x is None:
            x = x0
        new, _, emb = ref_step(ref, m, tl - ref["c"][0] * dt, x, p, dt)
        require_close(sol, new, "error measure did not get the solution of the step", attempt=k)
        require(close(est, new - emb, rtol=1e-8, atol=1e-12), "error measure did not get the difference of main and embedded solution", attempt=k,
                got=est, expected=new - emb)
        want = ref_measure(case["measurer"], p_norm(est, 2.0), p_norm(sol, 2.0))
        require_close(got, want, "measure of an attempted step differs from its definition", attempt=k)
        rec.transition()
        rec.state(case["tab"], k, est)
        nxt = attempts[k + 1] if k + 1 < len(attempts) else None
        if nxt is not None and nxt[0] - ref["c"][0] * nxt[2] > tl - ref["c"][0] * dt + 0.5 * dt:
            x = sol
            rec.count("accepted")
    rec.trace()
    rec.outcome(case["measurer"][0])


def run_case(case, rec):
    if case["kind"] == "norm":
        run_norm(case, rec)
    else:
        run_run(case, rec)
