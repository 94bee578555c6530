"""C20: components see the correct stage time, step size, factor and state.

Every evaluation and linearization of every component of the stage model is recorded;
the complete record of each run must be a word of the language of legal traces given by
the tableau, the trajectory and the rejected attempts."""

import itertools

import numpy as np

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_controllers import integral
from rkopenmdao.error_measurer import ErrorMeasurer

from mc import common as cm
from mc.core import require
from mc.models import ref_step
from mc.omsys import VecDriver

ID = "C20"
ASSUMPTIONS = [
    "steps recomputed from checkpoints may or may not repeat their rejected attempts",
    "stage models with an iterative nonlinear solver evaluate components several times per stage and are not recorded",
    "floating point agreement up to 1e-9 relative counts as equal",
]
OPS = [["c"], ["f"], ["c", "f"], ["c", "r"], ["c", "r", "r"], ["f", "r"], ["c1", "r"], ["r", "c"]]
MODES = ["fixed", "adaptive"]


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} runs: all 24 shipped tableaux, asymmetric tableaux and grids with 1-3 stages; 4 layouts, all specifications; 0-{4 if tier == 'quick' else 7} "
            f"steps; {len(OPS)} operation sequences; all checkpointing strategies; fixed step and adaptive with rejected attempts")


def strategies(n):
    yield "all"
    for typ in ("Memory", "SingleLevel", "Disk"):
        for k in [None] + list(range(1, max(n, 2))):
            yield ["pyrevolve", typ, k]


def cases(tier):
    nmax = 4 if tier == "quick" else 7
    for ops in OPS:
        for n in range(nmax + 1):
            for layout in ("mono", "implicit", "nested", "split"):
                for cp in strategies(n) if "r" in ops else ("none", "all"):
                    for tab in (cm.ODD3, "embedded_heun_euler") if layout == "mono" else (cm.ODD4,):
                        if isinstance(cp, list) and cp[1] != "Memory" and (layout != "mono" or tab != cm.ODD3):
                            continue
                        for mode in MODES if (tab != cm.ODD3 or layout == "split") else ("fixed",):
                            if n > 3 and tier == "quick" and layout not in ("mono", "split"):
                                continue
                            yield dict(tab=tab, spec="vec_scalar", layout=layout, n=n, ops=ops, cp=cp, mode=mode)
    for tab in cm.SHIPPED:
        for layout, spec in (("mono", "mixed"), ("split", "mixed")) if tier == "quick" else itertools.product(("mono", "split", "implicit", "nested"), cm.SPECS):
            for mode in MODES if tab in cm.EMBEDDED else ("fixed",):
                yield dict(tab=tab, spec=spec, layout=layout, n=2, ops=["c", "f", "c", "r"], cp="all", mode=mode)
    for spec in cm.SPECS:
        for layout in ("mono", "implicit", "nested", "split"):
            for tab in (cm.ODD2, cm.ODD3E, cm.ODD4):
                yield dict(tab=tab, spec=spec, layout=layout, n=2, ops=["c", "r", "f"], cp=["pyrevolve", "Memory", 1], mode="fixed")
    for tab in cm.grid_tableaux(tier):
        yield dict(tab=tab, spec="scalar_tp", layout="mono", n=2, ops=["c", "r", "f"], cp="all", mode="fixed")


class Pattern(ErrorMeasurer):
    """Errors depend on the attempted step size only, so the attempts are known."""

    def __init__(self, env):
        self.env = env

    def get_measure(self, state_error_estimate, state, ode):
        dt = self.env["dt"]
        return 20.0 if dt > 0.25 else 0.3 if dt > 0.1 else 0.01


def attempts_of(n, mode, bt):
    """Attempted step sizes of every step; the last of each is the accepted one."""
    if mode == "fixed":
        return [[0.1 + 0.0 * k] for k in range(n)]
    out, dt, p = [], 0.9, bt.min_p_order()
    for _ in range(n):
        row = []
        while True:
            e = 20.0 if dt > 0.25 else 0.3 if dt > 0.1 else 0.01
            row.append(dt)
            dt = 0.9 * dt * (1.0 / e) ** (1 / (1 + p))
            if e <= 1.0:
                break
        out.append(row)
    return out


def expected_stage(ref, m, t, x, p, dt):
    """Arguments of every stage of one step."""
    _, ks, _ = ref_step(ref, m, t, x, p, dt)
    rows = []
    for i in range(len(ref["b"])):
        acc = 0.0 * x
        for j in range(i):
            acc = acc + ref["A"][i][j] * ks[j]
        rows.append(dict(t=t + ref["c"][i] * dt, x=x, acc=acc, p=p, dt=dt, aii=ref["A"][i][i]))
    return rows


class Word:
    """The recorded events of one operation, consumed from the front."""

    def __init__(self, env, log):
        self.env, self.log, self.pos = env, log, 0

    def done(self):
        return self.pos >= len(self.log)

    def matches(self, row, kind):
        """Whether the next events are one stage evaluation / linearization with the given arguments."""
        return self.mismatch(row, kind) is None

    def mismatch(self, row, kind):
        m, comps = self.env["m"], self.env["comps"]
        for k in range(comps):
            if self.pos + k >= len(self.log):
                return "missing"
            knd, e = self.log[self.pos + k]
            if knd != kind:
                return f"{knd} instead of {kind}"
            if not near(e["dt"], row["dt"]):
                return f"step size {e['dt']} instead of {row['dt']}"
            if not near(e["aii"], row["aii"]):
                return f"stage factor {e['aii']} instead of {row['aii']}"
            if m.has_time and not near(e["t"], row["t"]):
                return f"time {e['t']} instead of {row['t']}"
            sel = m.qslice[e["index"]] if "index" in e else slice(None)
            mask = m.is_ode[sel]
            for what in ("x", "acc"):
                if what in e and not near(np.asarray(e[what])[mask], row[what][sel][mask]):
                    return f"{what} {e[what]} instead of {row[what][sel]}"
            if isinstance(e["p"], dict):
                for i, prm in enumerate(m.params):
                    if prm["name"] in e["p"] and not near(e["p"][prm["name"]], row["p"][m.pslice[i]]):
                        return f"parameters {e['p']} instead of {row['p']}"
            elif not near(e["p"], row["p"]):
                return f"parameters {e['p']} instead of {row['p']}"
        if comps > 1 and sorted(e["index"] for _, e in self.log[self.pos:self.pos + comps]) != list(range(comps)):
            return "not all components take part"
        return None

    def stages(self, rows, kind, what, reverse=False, **d):
        for i in reversed(range(len(rows))) if reverse else range(len(rows)):
            bad = self.mismatch(rows[i], kind)
            require(bad is None, f"{what}: components see something else than the stage", stage=i, seen=bad, event=self.pos, **d)
            self.pos += self.env["comps"]


def near(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-11)


def run_case(case, rec):
    bt, ref = cm.tableau(case["tab"])
    n = case["n"]
    log = []
    env = {}

    def observe(kind, d):
        env["dt"] = d["dt"]
        log.append((kind, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in d.items()}))

    opts = dict(cm.QUIET)
    opts.update(cm.checkpointing(case["cp"]))
    if case["mode"] == "adaptive":
        opts.update(adaptive=True, error_measurer=Pattern(env), error_controller=[integral],
                    error_controller_options=dict(config=ErrorControllerConfig(tol=1.0, safety_factor=0.9)))
    drv = VecDriver(cm.SPECS[case["spec"]], bt, n_steps=n, dt=0.9 if case["mode"] == "adaptive" else 0.1, layout=case["layout"], observer=observe, **opts)
    m = drv.model
    env.update(m=m, comps=len(m.q) if case["layout"] == "split" else 1)
    points = {"": (0.2, m.x0(0), m.p0(0)), "1": (0.4, m.x0(1), m.p0(0))}
    tries = attempts_of(n, case["mode"], bt)
    paths = {}
    for key, (t, x, p) in points.items():
        rows = []
        for k in range(n):
            rows.append([expected_stage(ref, m, t, x, p, dt) for dt in tries[k]])
            x = ref_step(ref, m, t, x, p, tries[k][-1])[0]
            t = t + tries[k][-1]
        paths[key] = rows
    cached = None
    for op in case["ops"]:
        kind, key = op[0], op[1:]
        rows = paths[key]
        log.clear()
        if kind == "c":
            drv.compute(*points[key])
        elif kind == "f":
            drv.fwd_at(points[key], 0.3 + np.arange(m.n + m.np + 1.0))
        else:
            drv.rev_at(points[key], 0.3 + np.arange(m.n + 1.0))
        w = Word(env, log)
        d = dict(operation=op, events=len(log))
        if kind in "cf":
            for k in range(n):
                for a, r in enumerate(rows[k]):
                    w.stages(r, "compute", "evaluation", step=k, attempt=a, **d)
                if kind == "f":
                    w.stages(rows[k][-1], "linearize", "linearization", step=k, **d)
            cached = key if kind == "c" else None
        else:
            if cached != key:
                for k in range(n):
                    for a, r in enumerate(rows[k]):
                        w.stages(r, "compute", "preparing evaluation", step=k, attempt=a, **d)
            for k in reversed(range(n)):
                while not w.done() and w.log[w.pos][0] == "compute":
                    # a step recomputed from a checkpoint: one of those not after step k
                    full = [j for j in range(k + 1) if w.matches(rows[j][0][0], "compute")]
                    last = [j for j in range(k + 1) if w.matches(rows[j][-1][0], "compute")]
                    require(full or last, "a recomputed evaluation belongs to no step", reversing=k, seen=w.mismatch(rows[k][-1][0], "compute"), **d)
                    for r in rows[full[0]] if full else rows[last[0]][-1:]:
                        w.stages(r, "compute", "recomputed evaluation", reversing=k, **d)
                    rec.count("recomputed_steps")
                w.stages(rows[k][-1], "linearize", "linearization", reverse=True, step=k, **d)
            cached = None
        require(w.done(), "additional evaluations or linearizations", extra=[(e[0], e[1].get("t"), e[1]["dt"]) for e in log[w.pos:w.pos + 4]], **d)
        rec.transition(len(log))
        for e in log:
            rec.state(case["layout"], e[0], e[1]["t"], e[1]["dt"], e[1]["aii"])
        rec.trace()
    rec.outcome(case["mode"])
