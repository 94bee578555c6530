"""C10: step size controllers follow their control law, fallbacks take over.

The reference automaton is written from the documented law; its coefficients are exact
fractions of the published controllers (Kennedy & Carpenter)."""

from fractions import Fraction as F
import itertools
import math

import numpy as np

from rkopenmdao import error_controllers as ecs
from rkopenmdao.error_controller import ErrorControllerConfig

from mc import common as cm
from mc.adaptive import CONTROLLER_ERRORS, CONTROLLERS, build
from mc.core import require
from mc.explore import Choices

ID = "C10"
ASSUMPTIONS = [
    "controllers are called as the integrator calls them: rejected steps are retried with the suggestion, accepted ones shift the histories",
    "step sizes within 1e-10 (relative) of the lower bound count as being at the bound",
    "control sequences whose suggestions exceed 1e100 or fall below 1e-100, or in which only rounding decides whether a law reduced the step, are cut",
]


def coefficients(name, p, args=()):
    """(alpha, beta, gamma, a, b) of  k dt (tol/e)^alpha (e1/tol)^beta (tol/e2)^gamma (dt/h1)^a (h1/h2)^b"""
    p = F(p)
    return {
        "pseudo": lambda: (0, 0, 0, 0, 0),
        "integral": lambda: (1 / (1 + p), 0, 0, 0, 0),
        "h0_110": lambda: (1 / (1 + p), 0, 0, 0, 0),
        "h_211": lambda: (1 / (4 * p), -1 / (4 * p), 0, F(-1, 4), 0),
        "h0_211": lambda: (1 / (2 * p), -1 / (2 * p), 0, F(-1, 2), 0),
        "pc": lambda: (2 / p, 1 / p, 0, 1, 0),
        "h0_220": lambda: (2 / p, 1 / p, 0, 1, 0),
        "pid": lambda: (1 / (18 * p), -1 / (9 * p), 1 / (18 * p), 0, 0),
        "h_312": lambda: (1 / (8 * p), -1 / (4 * p), 1 / (8 * p), F(-3, 8), F(-1, 8)),
        "h0_312": lambda: (1 / (4 * p), -1 / (2 * p), 1 / (4 * p), F(-3, 4), F(-1, 4)),
        "ppid": lambda: (F(6, 20) / p, F(-1, 20) / p, F(-5, 20) / p, 1, 0),
        "h_321": lambda: (1 / (3 * p), -1 / (18 * p), -5 / (18 * p), F(5, 6), F(1, 6)),
        "h0_321": lambda: (5 / (4 * p), -1 / (2 * p), -3 / (4 * p), F(1, 4), F(3, 4)),
        "h0_330": lambda: (3 / p, 3 / p, 1 / p, 2, -1),
        "h_312_general": lambda: (F(args[0]) / p, -2 * F(args[0]) / p, F(args[0]) / p, F(args[1]), F(args[2])),
        "h_321_general": lambda: (F(args[0]) / p, F(args[1]) / p, -(F(args[0]) + F(args[1])) / p, F(args[2]), 1 - F(args[2])),
        "h_330_general": lambda: (F(args[0]) / p, F(args[1]) / p, F(args[2]) / p, 2, -1),
    }[name]()


GENERAL = {"h_312_general": (0.25, -0.75, -0.125), "h_321_general": (0.5, -0.125, 0.375), "h_330_general": (1.5, 0.75, 0.25)}
ALL = CONTROLLERS + ["pseudo"] + list(GENERAL)


def law(name, p, cfg, err, dt, eh, sh, args=()):
    al, be, ga, a, b = map(float, coefficients(name, p, args))
    if err == 0:
        return dt
    v = math.log(cfg.safety_factor) + math.log(dt)
    if al:
        v += al * (math.log(cfg.tol) - math.log(err))
    if be and eh[0] != 0:
        v += be * (math.log(eh[0]) - math.log(cfg.tol))
    if ga and eh[1] != 0:
        v += ga * (math.log(cfg.tol) - math.log(eh[1]))
    if a and sh[0] != 0:
        v += a * (math.log(dt) - math.log(sh[0]))
    if b and sh[0] != 0 and sh[1] != 0:
        v += b * (math.log(sh[0]) - math.log(sh[1]))
    return math.exp(min(700.0, v))


class Fail(Exception):
    pass


def suggestion(name, p, cfg, err, dt, remaining, eh, sh, args=()):
    """(suggestion, accepted) of a single law."""
    ok = dt <= cfg.lower_bound * (1 + 1e-10) or err <= cfg.tol
    s = max(cfg.lower_bound, min(cfg.upper_bound, law(name, p, cfg, err, dt, eh, sh, args)))
    return min(s, remaining + (0 if ok else dt)), ok


class Chain:
    """Reference automaton of a chain: `level` decides until an acceptance; rejections
    decided by level i are counted for it, after too many or without reduction level
    i + 1 decides instead."""

    def __init__(self, names, p, cfg):
        self.names, self.p, self.cfg = names, p, cfg
        self.reset()

    def reset(self):
        self.level = 0
        self.tie = False  # rounding decides whether some law reduced the step
        # number of rejections seen by the levels up to i since the last acceptance
        self.rejections = [0] * len(self.names)

    def call(self, err, dt, remaining, eh, sh):
        lv = self.level
        last = len(self.names) - 1
        while True:
            s, ok = suggestion(self.names[lv], self.p, self.cfg, err, dt, remaining, eh, sh)
            if ok:
                self.reset()
                return s, True
            self.tie = self.tie or abs(s - dt) <= 1e-10 * dt
            if lv == last:
                if s >= dt:
                    self.level = lv
                    raise Fail()
                self.level = lv
                return s, False
            # fallbacks between lv and last may each have seen too many rejections
            for up in range(lv, last):
                self.rejections[up] += 1
                if s >= dt or self.rejections[up] > self.cfg.max_iter:
                    lv = up + 1
                    break
            else:
                self.level = lv
                return s, False


def BOUNDS(tier):
    return (f"17 control laws x orders 1-6 x a grid of errors, step sizes, histories, bounds and remaining times; all error sequences of "
            f"length {4 if tier == 'quick' else 6} over 6 values for all pairs of 13 controllers and selected triples x retry limits; the same through the integrator "
            f"for all embedded schemes ({len(list(cases(tier)))} cases)")


TRIPLES = [("pid", "h_211", "integral"), ("h0_330", "pc", "integral"), ("integral", "pid", "h0_321"), ("h0_211", "h_312", "h_321"),
           ("pc", "ppid", "h0_110"), ("integral", "integral", "integral")]


def cases(tier):
    for name in ALL:
        for p in range(1, 7):
            yield dict(kind="law", name=name, p=p, dense=tier == "thorough")
    depth = 4 if tier == "quick" else 6
    for chain in list(itertools.product(CONTROLLERS, repeat=2)) + TRIPLES:
        for mi in (0, 1, 2):
            if tier == "quick" and len(chain) == 2 and mi == 1 and chain[0] != "integral":
                continue
            yield dict(kind="chain", chain=list(chain), max_iter=mi, depth=depth + (len(chain) == 3))
    for tab in cm.EMBEDDED:
        for chain in (["integral"], ["h_211"], ["ppid"], ["h0_321", "integral"], ["h_312"], ["h0_330", "pid", "integral"]):
            if tier == "quick" and len(chain) == 1 and tab not in cm.EMBEDDED[:4] and chain != ["h_211"]:
                continue
            yield dict(kind="run", tab=tab, chain=chain, max_iter=1, depth=3 if tier == "quick" else 5)


CFGS = [dict(tol=1e-3), dict(tol=1e-3, safety_factor=1.0, lower_bound=0.05, upper_bound=0.4), dict(tol=2.0, safety_factor=0.5, upper_bound=0.15)]
UNITS = (1.0, 1e-11)


def same(got, ref):
    return got == ref or abs(got - ref) <= 1e-11 * abs(ref)


def run_law(case, rec):
    name, p = case["name"], case["p"]
    args = GENERAL.get(name, ())
    E = [0.0, 1e-9, 0.3, 1.0, 1.0 + 1e-9, 4.0, 1e5] if case["dense"] else [0.0, 1e-3, 1.0, 1.0 + 1e-9, 50.0]
    H = [0.0, 0.01, 1.0, 30.0] if case["dense"] else [0.0, 0.2, 3.0]
    S = [0.0, 0.02, 0.1, 0.5] if case["dense"] else [0.0, 0.07, 0.25]
    D = [0.05, 0.050001, 0.1, 0.4] if case["dense"] else [0.05, 0.13, 0.4]
    for ci, (c, unit) in enumerate(itertools.product(CFGS, UNITS)):
        c = {k: v * unit if k.endswith("bound") else v for k, v in c.items()}
        cfg = ErrorControllerConfig(**c)
        ctrl = getattr(ecs, name)(p, *args, config=cfg)
        # documented defaults and the same law as the fallback of another controller
        wrap = getattr(ecs, name)(p, *args, base=ecs.h0_110(p, config=ErrorControllerConfig(**dict(c, max_iter=0))))
        dflt = getattr(ecs, name)(p, *args)
        require(ctrl.config == ErrorControllerConfig(**c), "configuration of the controller was changed", got=ctrl.config)
        if name != "pseudo":
            require(dflt.config == ErrorControllerConfig(1e-6, 0, np.inf, 0.95, 5), "default configuration differs", got=str(dflt.config))
        for err, e1, e2, h1, h2, dt, rem in itertools.product(E, H, H, S, S, D, (np.inf, 0.06, 0.0, -0.02)):
            err, e1, e2 = (v * cfg.tol for v in (err, e1, e2))
            h1, h2, dt, rem = (v * unit for v in (h1, h2, dt, rem))
            if h1 == 0.0 and h2 != 0.0:
                continue
            eh, sh = np.array([e1, e2]), np.array([h1, h2])
            if rem < 0 and err <= cfg.tol:
                continue  # accepted steps never lie behind the final time
            kw = dict(error_measure=err, delta_t=dt, remaining_time=rem, error_history=eh, step_size_history=sh)
            s, ok = suggestion(name, p, cfg, err, dt, rem, eh, sh, args)
            rec.transition()
            for which, c_ in (("alone", ctrl), ("fallback", wrap)):
                exp = None if (not ok and s >= dt) else (s, ok)
                if which == "fallback":
                    c_.reset()
                    if ok:
                        exp = suggestion("h0_110", p, cfg, err, dt, rem, eh, sh)
                try:
                    st = c_(**kw)
                    got = (float(st.step_size_suggestion), bool(st.acceptance))
                except CONTROLLER_ERRORS:
                    got = None
                if exp is None or got is None:
                    # equality up to rounding decides between error and suggestion
                    require(exp is got or abs(s - dt) <= 1e-11 * dt, "controller does not report that it can't reduce the step", which=which,
                            got=got, law=s, **kw)
                    continue
                require(got[1] == exp[1], "wrong acceptance", which=which, got=got, expected=exp, **kw)
                require(same(got[0], exp[0]), "suggested step size is not that of the control law", which=which, got=got[0],
                        expected=exp[0], **kw)
            require(np.array_equal(eh, [e1, e2]) and np.array_equal(sh, [h1, h2]), "controller changed the histories")
            rec.state(name, p, ci, s, ok)
    rec.trace()
    rec.outcome("law")


ERR = [0.0, 0.3, 1.0, 1.5, 30.0, 1e4]


def drive(names, p, cfg, caller, errors, dt0, rec, tag):
    """Feeds the same errors to reference and code; returns False when it ended early."""
    refc = Chain(names, p, cfg)
    eh, sh, dt = np.full(2, cfg.tol), np.zeros(2), dt0
    log = []
    for e in errors:
        err = e * cfg.tol
        try:
            exp = refc.call(err, dt, 10.0, eh, sh)
        except Fail:
            exp = None
        try:
            st = caller(error_measure=err, delta_t=dt, remaining_time=10.0, error_history=eh.copy(), step_size_history=sh.copy())
            got = (float(st.step_size_suggestion), bool(st.acceptance))
        except CONTROLLER_ERRORS:
            got = None
        log.append((e, dt, got, exp))
        rec.transition()
        if refc.tie:
            rec.outcome("cut at a tie")
            return
        if exp is None or got is None:
            near = any(g is not None and abs(g[0] - dt) <= 1e-10 * dt for g in (exp, got))
            require(exp is None and got is None or near, "controller chain fails or does not fail", log=log, **tag)
            rec.outcome("chain failed explicitly")
            return
        if abs(exp[0] - got[0]) > 1e-9 * abs(exp[0]):
            require(False, "suggestion of the controller chain is not that of the responsible controller", log=log, **tag)
        require(got[1] == exp[1], "acceptance of the controller chain", log=log, **tag)
        if not (1e-100 < got[0] < 1e100):
            rec.outcome("cut")
            return
        if got[1]:
            eh, sh = np.array([err, eh[0]]), np.array([dt, sh[0]])
        dt = got[0]
        rec.state(names, e, round(math.log(dt), 6), got[1])


def run_chain(case, rec):
    names = case["chain"]
    p = 2
    cfg = ErrorControllerConfig(tol=1e-3, safety_factor=0.95, max_iter=case["max_iter"], upper_bound=0.5, lower_bound=1e-60)
    ctrl = None
    for n in names:
        ctrl = getattr(ecs, n)(p=p, config=cfg, base=ctrl)
    for errors in itertools.product(ERR, repeat=case["depth"]):
        ctrl.reset()
        drive(names, p, cfg, ctrl, errors, 0.1, rec, dict(chain=names, max_iter=case["max_iter"]))
        rec.trace()
    rec.outcome("chain")


def run_integrator(case, rec):
    """The integrator uses the smaller order, resets histories and feeds the last two accepted steps."""
    ch = Choices(case["depth"])
    alphabet = [0.0, 0.3, 1.0, 1.5, 30.0]
    tol = 1e-3

    def answer(i, a):
        c = ch.choose(i, len(alphabet))
        return tol * (0.05 if c is None else alphabet[c])

    drv, mon, _ = build(case["tab"], "scalar_tp", case["chain"], answer, tol=tol, lower=1e-60, upper=0.5, safety=0.95,
                        max_iter=case["max_iter"], dt0=0.1, n=3)
    bt, _ = cm.tableau(case["tab"])
    p = min(bt.p, bt.phat)
    cfg = ErrorControllerConfig(tol=tol, safety_factor=0.95, max_iter=case["max_iter"], upper_bound=0.5, lower_bound=1e-60)
    m = drv.model
    while True:
        ch.begin()
        mon.reset()
        failed = False
        try:
            drv.compute(0.0, m.x0(0), m.p0(0))
        except CONTROLLER_ERRORS:
            failed = True
        refc = Chain(case["chain"], p, cfg)
        eh, sh, dt = np.full(2, tol), np.zeros(2), 0.1
        log = [(a.dt, a.error / tol, a.accepted) for a in mon.attempts]
        for k, a in enumerate(mon.attempts):
            rec.transition()
            require(abs(a.dt - dt) <= 1e-9 * dt, "attempted step size is not that of the control law with the scheme's order", attempt=k, got=a.dt,
                    expected=dt, order=p, log=log)
            try:
                s, ok = refc.call(a.error, dt, np.inf, eh, sh)
            except Fail:
                require(refc.tie or failed and k == len(mon.attempts) - 1, "a step which can't be reduced was not reported", log=log)
                break
            if refc.tie:
                rec.outcome("cut at a tie")
                break
            require(ok == a.accepted, "wrong acceptance", attempt=k, log=log)
            if failed and k == len(mon.attempts) - 1:
                require(abs(s - dt) < 1e-10 * dt, "controller failed without reason", log=log)
            if ok:
                eh, sh = np.array([a.error, eh[0]]), np.array([dt, sh[0]])
            dt = s
            rec.state(case["tab"], round(math.log(dt), 6), ok)
        rec.trace()
        if not ch.advance():
            break
    rec.outcome("integrator")


def run_case(case, rec):
    {"law": run_law, "chain": run_chain, "run": run_integrator}[case["kind"]](case, rec)
