"""C18: distributed runs equal serial runs for every partition.

Every composition of every quantity's first axis over the processes is one job; jobs of
one configuration run inside one MPI launch (mc/dist.py).  Reference: the serial closed
form, and for adaptive runs the step sizes of the real serial integrator."""

import itertools
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.termination_criterion import PredefinedFinalTime

from mc import common as cm
from mc.checks.c11 import Steps
from mc.core import Violation
from mc.omsys import Driver

ID = "C18"
Q, PR = cm.Q, cm.PR
CASE_CPU_LIMIT_S = 600.0
WALL_LIMIT_S = 420.0
WORKERS = 4
ASSUMPTIONS = [
    "each entry of a distributed quantity lives on exactly one process (no replication of a parallel group's child on several processes)",
    "the stage model follows OpenMDAO's convention for mixed serial and distributed variables",
    "a time variable is known to all processes",
]
SPEC = {
    "one": dict(quantities=[Q("x", 3)], params=[PR("p", 1)], time=True),
    "two": dict(quantities=[Q("x", 2), Q("y", 2)], params=[], time=False),
    "mix": dict(quantities=[Q("x", 2), Q("y", 1), Q("o", 2, kind="out")], params=[PR("p", 2)], time=True),
    "rows": dict(quantities=[Q("x", 2, 2), Q("z", 3, 1, 2)], params=[], time=True),
    "params": dict(quantities=[Q("x", 1)], params=[PR("p", 3), PR("r", 2, 2), PR("s", 2)], time=True),
    "shared": dict(quantities=[Q("x", 2)], params=[PR("p", 2), PR("s", 1)], time=True, readers=6),
    "group": dict(quantities=[Q("x", 1), Q("y", 1), Q("z", 2), Q("w", 2)], params=[PR("p", 2), PR("r", 2), PR("s", 1)], time=True,
                  decouple=[[1, 2]], parallel=[1, 2], owner=[3, 1, 2], pdecouple=[[1, 0], [1, 2], [1, 3], [2, 0], [2, 1], [2, 3]]),
}
ORDERS = ["inf", "-inf", 0.0, 0.5, 1.0, 1.5, 2.0, 3.0]
# operations (primal, forward, reverse) at the base point (0) or one differing in one entry (1)
HISTORIES = [[a, b] for a in (["c", 0], ["r", 0]) for b in (["r", 1], ["f", 1])] + [[["c", 0], ["r", 0], ["r", 1]], [["c", 1], ["f", 1], ["r", 0]]]
STALL_S = 150.0
CONFIG = dict(tol=2e-3, lower_bound=1e-4)


def compositions(n, r):
    if r == 1:
        yield [n]
        return
    for k in range(n + 1):
        for rest in compositions(n - k, r - 1):
            yield [k] + rest


def partitions(spec, r):
    """All ways to place the quantities, each serial or split along its first axis."""
    s = SPEC[spec]
    if spec == "group":
        def where(i, n):
            return [n if k == i else 0 for k in range(r)]
        yield [None, where(0, 1), where(r - 1, 2), None], [None, where(0, 2), where(r - 1, 1)]
        return
    some = {"params": [], "shared": [0]}.get(spec, range(len(s["quantities"])))
    psome = {"params": [0, 1], "shared": [0, 1]}.get(spec, [])
    qs = [[None] + list(compositions(q["shape"][0], r)) if i in some else [None] for i, q in enumerate(s["quantities"])]
    if spec in ("one", "two", "rows"):
        qs = [c[1:] for c in qs]
    ps = [[None] + list(compositions(q["shape"][0], r)) if i in psome else [None] for i, q in enumerate(s["params"])]
    for q in itertools.product(*qs):
        for p in itertools.product(*ps):
            yield list(q), list(p)


def BOUNDS(tier):
    cs = list(cases(tier))
    return (f"all compositions of the quantities' (and parameters') first axes over {'2 and 3' if tier == 'quick' else '1 to 4'} processes for "
            f"{len(SPEC)} systems incl. quantities in a parallel group; {len(cs)} launches with {sum(c['hi'] - c['lo'] for c in cs)} partitions; "
            "fixed and adaptive, all/pyrevolve checkpoints, forward and reverse, norms of 8 orders, file output; two integrations on different groups of processes at the same time; histories of operations at points that differ in one entry (on one process) or hold a NaN")


def cases(tier):
    full = tier == "thorough"
    chunk = 16

    def split(base, r):
        n = sum(1 for _ in partitions(base["spec"], r))
        for lo in range(0, n, chunk):
            yield dict(base, ranks=r, lo=lo, hi=min(lo + chunk, n))

    fixed = dict(kind="run", adaptive=False, cp="all", tab=cm.ODD3, n=2, dt=0.3, file=True)
    ranks = (1, 2, 3, 4) if full else (2, 3)
    for spec in SPEC:
        for r in ranks:
            if spec == "group" and r != 2:
                continue
            if not full and (spec, r) in (("rows", 3), ("mix", 3), ("params", 3), ("shared", 3)):
                # the larger products: every partition in the thorough tier
                continue
            if (spec, r) in (("mix", 4), ("rows", 4), ("params", 4), ("two", 4)):
                # thousands of partitions; same index arithmetic as with 3
                if spec != "two":
                    continue
            yield from split(dict(fixed, spec=spec), r)
            yield from split(dict(kind="norm", spec=spec), r)
    for spec, r in (("one", 2), ("two", 2), ("params", 2)) + ((("one", 3), ("shared", 2), ("mix", 2), ("rows", 2)) if full else ()):
        for cp in ("all", ["pyrevolve", "SingleLevel", 1]) if full or spec == "one" else ("all",):
            yield from split(dict(kind="history", spec=spec, tab=cm.ODD2, n=2, dt=0.3, cp=cp), r)
    for spec, r in (("one", 2), ("one", 3), ("two", 2), ("mix", 2), ("group", 2)) + ((("two", 3), ("rows", 2), ("one", 4)) if full else ()):
        for meas in ("simple", "improved"):
            for cp, n, T in (("all", 4, None), (["pyrevolve", "SingleLevel", 1], 4, None), ("all", None, 1.0)):
                if not full and spec != "one" and (cp, T) != ("all", 1.0) and not (cp != "all" and spec == "group"):
                    continue
                yield from split(dict(kind="run", adaptive=True, spec=spec, tab="embedded_heun_euler", measurer=meas, cp=cp, n=n, T=T, dt=0.4, file=False), r)
    for spec, r in (("one", 2), ("one", 3), ("two", 2)) + ((("rows", 2), ("mix", 2), ("one", 4)) if full else ()):
        for tab in ("ODD2", "runge_kutta_four", "embedded_second_order_three_stage_esdirk"):
            yield from split(dict(fixed, spec=spec, tab=cm.ODD2 if tab == "ODD2" else tab, cp=["pyrevolve", "SingleLevel", 1], n=3, file=tab == "ODD2"), r)
    for base in together(full):
        n = sum(1 for _ in places(base))
        for lo in range(0, n, chunk):
            yield dict(base, lo=lo, hi=min(lo + chunk, n))


def together(full):
    """Integrations on different groups of processes at the same time."""
    fixed = dict(kind="run", adaptive=False, cp="all", tab=cm.ODD2, n=2, dt=0.3, file=True)
    adaptive = dict(kind="run", adaptive=True, tab="embedded_heun_euler", measurer="improved", cp="all", n=None, T=1.0, dt=0.4, file=False)
    revolve = dict(fixed, cp=["pyrevolve", "SingleLevel", 1], n=4, file=False)
    kinds = [(fixed, adaptive), (revolve, fixed), (adaptive, dict(adaptive, n=4, T=None, measurer="simple")), (dict(kind="norm"), fixed)]
    sizes = [(1, 1), (2, 1), (1, 2)] + ([(2, 2), (3, 1), (1, 3)] if full else [])
    specs = [("one", "two"), ("mix", "one"), ("two", "one")] if full else [("one", "two")]
    for pair, size, spec in itertools.product(kinds, sizes, specs):
        yield dict(kind="together", ranks=sum(size), groups=[dict(g, spec=s, ranks=n) for g, s, n in zip(pair, spec, size)])


def serial_steps(case):
    steps = Steps()
    opts = dict(cm.QUIET)
    opts["compute_callbacks"] = [steps]
    bt, _ = cm.tableau(case["tab"])
    spec = {k: v for k, v in SPEC[case["spec"]].items()}
    term = PredefinedFinalTime(case["T"]) if case["T"] is not None else None
    drv = Driver(spec, bt, n_steps=case["n"], term=term, dt=case["dt"], adaptive=True,
                 error_controller_options=dict(config=ErrorControllerConfig(**CONFIG)),
                 error_measurer=SimpleErrorMeasurer() if case["measurer"] == "simple" else ImprovedErrorMeasurer(0.3, 0.5), **opts)
    m = drv.model
    drv.compute(0.1, m.x0(), m.p0())
    return [row[2] for row in steps.rows]


def base_job(case, file):
    """What all partitions of a case have in common."""
    base = dict(kind=case["kind"], spec=SPEC[case["spec"]])
    if case["kind"] == "norm":
        names = [q["name"] for q in SPEC[case["spec"]]["quantities"]]
        base.update(orders=ORDERS, excl=[list(e) for k in range(len(names)) for e in itertools.combinations(names, k)])
    elif case["kind"] == "history":
        base.update(tab=case["tab"], n=case["n"], dt=case["dt"], t0=0.1, cp=case["cp"], histories=HISTORIES)
    else:
        base.update(tab=case["tab"], adaptive=case["adaptive"], n=case["n"], dt=case["dt"], t0=0.1, cp=case["cp"])
        if case["file"]:
            base.update(file=file, period=1)
        if case["adaptive"]:
            base.update(config=CONFIG, measurer=case["measurer"], T=case["T"], dts=serial_steps(case))
    return base


def places(case):
    if case["kind"] == "together":
        return itertools.product(*(partitions(g["spec"], g["ranks"]) for g in case["groups"]))
    return partitions(case["spec"], case["ranks"])


def run_case(case, rec):
    r = case["ranks"]
    parts = list(places(case))[case["lo"]:case["hi"]]
    with tempfile.TemporaryDirectory(prefix="c18_") as tmp:
        if case["kind"] == "together":
            bases = [base_job(g, os.path.join(tmp, f"out{k}.h5")) for k, g in enumerate(case["groups"])]
            jobs = [dict(kind="together", sizes=[g["ranks"] for g in case["groups"]], jobs=[dict(b, parts=q, pparts=p) for b, (q, p) in zip(bases, c)]) for c in parts]
            parts = [tuple(zip(*c)) for c in parts]
        else:
            base = base_job(case, os.path.join(tmp, "out.h5"))
            jobs = [dict(base, parts=q, pparts=p) for q, p in parts]
        jf, rf = os.path.join(tmp, "jobs.json"), os.path.join(tmp, "res.json")
        with open(jf, "w", encoding="utf-8") as f:
            json.dump(jobs, f)
        env = {k: v for k, v in os.environ.items() if k != "OMPI_MCA_ess_singleton_isolated" and not k.startswith(("PMIX_", "OMPI_COMM_"))}
        env["TMPDIR"] = tmp
        cmd = ["mpirun", "-n", str(r), "--oversubscribe", "--bind-to", "none", sys.executable, "-m", "mc.dist", jf, rf]
        with open(os.path.join(tmp, "log"), "w", encoding="utf-8") as log:
            with subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, start_new_session=True,
                                  cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))) as proc:
                late = False
                try:
                    start = last = time.monotonic()
                    size = 0
                    while not late:
                        try:
                            proc.wait(2.0)
                            break
                        except subprocess.TimeoutExpired:
                            now = time.monotonic()
                            new = os.path.getsize(rf) if os.path.exists(rf) else 0
                            if new > size:
                                size, last = new, now
                            late = now - start > WALL_LIMIT_S or now - last > STALL_S
                finally:
                    if proc.poll() is None:
                        os.killpg(proc.pid, signal.SIGTERM)
                        try:
                            proc.wait(10)
                        except subprocess.TimeoutExpired:
                            os.killpg(proc.pid, signal.SIGKILL)
                            proc.wait()
        done = []
        if os.path.exists(rf):
            with open(rf, encoding="utf-8") as f:
                done = [json.loads(line) for line in f if line.endswith("\n")]
        for d, (q, p) in zip(done, parts):
            rec.transition(d["transitions"])
            rec.trace(d["traces"])
            rec.state(case.get("spec", case.get("groups")), r, q, p, case["kind"], case.get("adaptive"), case.get("tab"), case.get("cp"), case.get("measurer"))
        if len(done) == len(jobs) and proc.returncode == 0:
            rec.outcome("equal", len(done))
            return
        bad = {"what": "the distributed run did not come back" if late else f"the distributed run died (status {proc.returncode})", "detail": {}}
        for k in range(r):
            if os.path.exists(f"{rf}.bad{k}"):
                with open(f"{rf}.bad{k}", encoding="utf-8") as f:
                    bad = json.load(f)
                break
        else:
            with open(os.path.join(tmp, "log"), encoding="utf-8", errors="replace") as f:
                bad["detail"]["log"] = f.read()[-1500:]
        where = parts[len(done)] if len(done) < len(parts) else None
        raise Violation(bad["what"], partition=where, processes=r, **bad["detail"])
