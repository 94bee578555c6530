"""Driver: shards a check's case space over worker processes, merges what they
covered, writes evidence, reports violations."""

import importlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("MC_WORKERS", str(min(8, os.cpu_count() or 1))))
MAX_VIOL = 3


def load(pid):
    return importlib.import_module(f"mc.checks.{pid.lower()}")


def worker(pid, tier, shard, of, out):
    import warnings

    warnings.filterwarnings("ignore")
    import numpy as np

    np.seterr(all="ignore")
    from mc import core

    module = load(pid)
    import gc

    from openmdao.core import problem as om_problem

    gc.collect()
    gc.freeze()
    gc.set_threshold(50000, 20, 100)
    rec = core.Recorder()
    viol, samples, n, unknown = [], [], 0, 0
    cur = pathlib.Path(out + ".cur")
    stop = pathlib.Path(os.path.dirname(out)) / "stop"
    complete = True
    for i, case in enumerate(module.cases(tier)):
        if i % of != shard:
            continue
        if unknown >= MAX_VIOL:
            complete = False
            break
        if stop.exists():
            complete = False
            break
        om_problem._clear_problem_names()
        cur.write_text(json.dumps({"index": i, "case": core.jsonable(case)}))
        res = core.run_one(module, case, rec)
        n += 1
        if n <= 2:
            samples.append(core.jsonable(case))
        if res is not None:
            res.update(index=i, case=core.jsonable(case))
            viol.append(res)
            if not is_known(pid, res):
                unknown += 1
                stop.touch()
    if hasattr(module, "finish"):
        module.finish(rec)
    np.save(out + ".states.npy", np.array(sorted(rec.states), dtype=np.uint64))
    with open(out, "w", encoding="utf-8") as f:
        json.dump(
            dict(
                n=n,
                transitions=rec.transitions,
                traces=rec.traces,
                skipped=rec.skipped,
                outcomes=rec.outcomes,
                extra=rec.extra,
                violations=viol,
                samples=samples,
                complete=complete,
            ),
            f,
        )


def known_findings():
    path = ROOT / "known_findings.json"
    if not path.exists():
        return []
    return [k for k in json.loads(path.read_text())["findings"] if k.get("status") == "known"]


def is_known(pid, viol):
    for k in known_findings():
        if k["property"] != pid:
            continue
        if k["what_contains"] in viol["what"] and all(
            viol["case"].get(a) == b for a, b in k["case"].items()
        ):
            return k
    return None


def replay(path):
    import warnings

    warnings.filterwarnings("ignore")
    from mc import core

    data = json.loads(pathlib.Path(path).read_text())
    module = load(data["property"])
    scratch = tempfile.mkdtemp(prefix="mc_replay_")
    os.environ["OPENMDAO_WORKDIR"] = scratch
    os.chdir(scratch)
    try:
        res = core.run_one(module, data["case"], core.Recorder())
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    if res is None:
        print("replay: the property holds on this case")
        return 0
    print(json.dumps(res, indent=1))
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--worker":
        _, _, pid, tier, shard, of, out = sys.argv
        worker(pid, tier, int(shard), int(of), out)
        return
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"mc_{pid}_")
    try:
        rc = explore(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def import_failure(pid, tier, seed, exc, tb, t0):
    evdir = ROOT / "evidence"
    (evdir / "replay").mkdir(parents=True, exist_ok=True)
    what = f"the code can not be used: {type(exc).__name__}: {exc}"
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=False, samples=[]),
              assumptions=[], wall_s=round(time.time() - t0, 2), violations=1)
    (evdir / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    path = evdir / "replay" / f"{pid}_0.json"
    path.write_text(json.dumps(dict(property=pid, tier=tier, what=what, case={}, index=-1,
                                    detail={"traceback": tb}), indent=1))
    print(what + "\n" + tb[-1500:])
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def explore(pid, tier, seed, scratch, t0):
    import numpy as np

    try:
        module = load(pid)
    except Exception as e:  # the code under test can't even be imported
        import traceback

        return import_failure(pid, tier, seed, e, traceback.format_exc(), t0)
    of = getattr(module, "WORKERS", WORKERS)
    procs = []
    for s in range(of):
        wd = os.path.join(scratch, f"w{s}")
        os.makedirs(wd)
        env = dict(os.environ, OPENMDAO_WORKDIR=wd, TMPDIR=wd)
        cmd = [sys.executable, "-m", "mc.main", "--worker", pid, tier, str(s), str(of),
               os.path.join(scratch, f"out{s}.json")]
        log = open(os.path.join(scratch, f"log{s}"), "wb")
        procs.append(subprocess.Popen(cmd, cwd=wd, env=env, stdout=log, stderr=log,
                                      stdin=subprocess.DEVNULL))
    for p in procs:
        p.wait()
    merged = dict(n=0, transitions=0, traces=0, skipped=0)
    outcomes, extra, viols, samples, states = {}, {}, [], [], []
    complete = True
    for s, p in enumerate(procs):
        out = os.path.join(scratch, f"out{s}.json")
        if not os.path.exists(out):
            log = pathlib.Path(scratch, f"log{s}").read_text(errors="replace")[-3000:]
            cur = pathlib.Path(out + ".cur")
            info = json.loads(cur.read_text()) if cur.exists() else {"index": -1, "case": {}}
            viols.append(dict(what=f"the process running the code died (exit {p.returncode})",
                              detail={"log": log}, **info))
            complete = False
            continue
        r = json.loads(pathlib.Path(out).read_text())
        for k in merged:
            merged[k] += r[k]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
        viols += r["violations"]
        samples += r["samples"][:1]
        complete = complete and r["complete"]
        states.append(np.load(out + ".states.npy"))
    nstates = int(np.unique(np.concatenate(states)).size) if states else 0
    viols.sort(key=lambda v: v["index"])
    known, new = [], []
    for v in viols:
        k = is_known(pid, v)
        (known if k else new).append((k, v))
    coverage = dict(
        states=nstates,
        transitions=merged["transitions"],
        traces_validated_against_impl=merged["traces"],
        cases_enumerated=merged["n"],
        outside_precondition=merged["skipped"],
        exhaustive=bool(complete and not new),
        bounds=module.BOUNDS(tier),
        outcomes=outcomes,
        samples=samples[:4],
        **extra,
    )
    evdir = ROOT / "evidence"
    evdir.mkdir(exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=list(module.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    (evdir / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(f"{pid} [{tier}]: cases={merged['n']} states={nstates} "
          f"transitions={merged['transitions']} traces={merged['traces']} "
          f"skipped={merged['skipped']} outcomes={outcomes} {extra} wall={ev['wall_s']}s")
    seen = set()
    for k, v in known:
        if k["what"] not in seen:
            seen.add(k["what"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if not new:
        if merged["n"] == 0 or merged["transitions"] == 0:
            print("check error: nothing was explored")
            return 2
        return 0
    rdir = evdir / "replay"
    rdir.mkdir(exist_ok=True)
    for n, (_, v) in enumerate(new[:MAX_VIOL]):
        path = rdir / f"{pid}_{n}.json"
        path.write_text(json.dumps(dict(property=pid, tier=tier, **v), indent=1))
        print(f"  {v['what']}\n    case: {json.dumps(v['case'])[:600]}\n"
              f"    detail: {json.dumps(v['detail'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1


if __name__ == "__main__":
    main()
