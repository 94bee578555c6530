"""Exploration core: deterministic enumeration of bounded case spaces.

A check module defines
    ID        property id
    cases(tier)            -> iterator of JSON-able case dicts, simplest first; the
                              complete, finite space this tier explores
    run_case(case, rec)    -> executes one case on the real code in lockstep with the
                              reference model; raises Violation on disagreement
    BOUNDS(tier)           -> text of the bounds (goes to the evidence)
    ASSUMPTIONS            -> list of text
"""

import hashlib
import json
import os
import signal
import sys
import traceback

import numpy as np

CASE_CPU_LIMIT_S = 90.0


class Violation(Exception):
    """The property is broken on the current case."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Skip(Exception):
    """Case outside the property's precondition (counted, never silently dropped)."""


class CaseTimeout(BaseException):
    """CPU horizon of one case exceeded: the code under test does not come back."""


class HorizonExceeded(BaseException):
    """Step / evaluation horizon of a case exceeded (livelock of the code)."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def digest(*parts) -> int:
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            a = np.asarray(p)
            if a.dtype.kind in "fc":
                a = np.round(a, 10) + 0.0
            h.update(str(a.shape).encode())
            h.update(np.ascontiguousarray(a).tobytes())
        else:
            h.update(json.dumps(jsonable(p), sort_keys=True).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "big")


class Recorder:
    """Counts what an exploration actually visited."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = {}
        self.extra = {}

    def state(self, *parts):
        self.states.add(digest(*parts))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def require(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


def close(a, b, rtol=1e-9, atol=1e-11):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    m = np.isfinite(a)
    scale = np.max(np.abs(b[m])) if m.any() else 0.0
    return bool(np.all(np.abs(a[m] - b[m]) <= atol + rtol * max(scale, 1e-300)))


def require_close(a, b, what, rtol=1e-9, atol=1e-11, **detail):
    if not close(a, b, rtol, atol):
        raise Violation(what, got=jsonable(np.asarray(a)), expected=jsonable(np.asarray(b)), **detail)


def _Null():
    """Sink with a real file descriptor (pyrevolve redirects stdout at that level)."""
    return open(os.devnull, "w", encoding="utf-8")


def _on_alarm(*_):
    raise CaseTimeout()


def run_one(module, case, rec):
    """Returns None or a violation record."""
    old_stdout = sys.stdout
    sys.stdout = _Null()
    signal.signal(signal.SIGPROF, _on_alarm)
    limit = getattr(module, "CASE_CPU_LIMIT_S", CASE_CPU_LIMIT_S)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        module.run_case(case, rec)
        return None
    except Violation as v:
        return {"what": v.what, "detail": jsonable(v.detail)}
    except Skip:
        rec.skipped += 1
        return None
    except CaseTimeout:
        return {
            "what": f"the code did not finish this bounded case within {limit} s of CPU",
            "detail": {},
        }
    except HorizonExceeded as h:
        return {"what": f"the code did not finish: {h}", "detail": {}}
    except RecursionError as e:
        return {"what": f"the code recursed without bound: {e}", "detail": {}}
    except Exception as e:  # pylint: disable=broad-except
        return {
            "what": f"unexpected {type(e).__name__}: {str(e)[:300]}",
            "detail": {"traceback": traceback.format_exc()[-3000:]},
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout.close()
        sys.stdout = old_stdout


def product_dict(**axes):
    """Full cartesian product, last axis fastest."""
    import itertools

    keys = list(axes)
    for combo in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, combo))
