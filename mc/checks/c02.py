"""C02: every shipped scheme has its stated order, consistency and structure."""

from math import comb

import numpy as np

from rkopenmdao import butcher_tableaux as bts

from mc import trees
from mc.core import Violation, require

ID = "C02"
# Shipped coefficients are exact to rounding, except for some given with limited digits.
TOL = 2e-14
LIMITED = {"embedded_third_order_second_weak_stage_order_four_stage_dirk": 1e-10, "embedded_third_order_third_weak_stage_order_four_stage_dirk": 1e-10,
           "embedded_fourth_order_six_stage_esdirk": 5e-12, "embedded_fifth_order_six_stage_esdirk": 2e-12,
           "embedded_fourth_order_third_weak_stage_order_six_stage_dirk": 1e-13}
# name: order, embedded order (None: not embedded), stages, kind, stiffly accurate, weak stage order
# kind: erk (explicit), sdirk (one nonzero diagonal value), esdirk (explicit first stage,
# then one nonzero diagonal value), dirk (all diagonal entries nonzero)
CATALOGUE = {
    "explicit_euler": (1, None, 1, "erk", False, 1),
    "implicit_euler": (1, None, 1, "sdirk", True, 1),
    "implicit_midpoint": (2, None, 1, "sdirk", False, 1),
    "third_order_two_stage_sdirk": (3, None, 2, "sdirk", False, 1),
    "runge_kutta_four": (4, None, 4, "erk", False, 1),
    "fifth_order_five_stage_sdirk": (5, None, 5, "sdirk", False, 1),
    "embedded_heun_euler": (2, 1, 2, "erk", False, 1),
    "embedded_second_order_two_stage_sdirk": (2, 1, 2, "sdirk", True, 1),
    "embedded_second_order_three_stage_esdirk": (2, 1, 3, "esdirk", True, 2),
    "embedded_third_order_three_stage_sdirk1": (3, 2, 3, "sdirk", True, 1),
    "embedded_third_order_three_stage_sdirk2": (3, 2, 3, "sdirk", False, 1),
    "embedded_third_order_three_stage_esdirk": (3, 2, 3, "esdirk", False, 2),
    "embedded_third_order_four_stage_sdirk": (3, 2, 4, "sdirk", True, 1),
    "embedded_third_order_second_weak_stage_order_four_stage_dirk": (3, 2, 4, "dirk", True, 2),
    "embedded_third_order_third_weak_stage_order_four_stage_dirk": (3, 2, 4, "dirk", True, 3),
    "embedded_third_order_four_stage_esdirk": (3, 2, 4, "esdirk", True, 2),
    "embedded_third_order_five_stage_esdirk": (3, 2, 5, "esdirk", True, 2),
    "embedded_fourth_order_four_stage_sdirk": (4, 3, 4, "sdirk", False, 1),
    "embedded_fourth_order_five_stage_sdirk": (4, 3, 5, "sdirk", True, 1),
    "embedded_fourth_order_five_stage_esdirk": (4, 3, 5, "esdirk", True, 2),
    "embedded_fourth_order_six_stage_esdirk": (4, 3, 6, "esdirk", True, 2),
    "embedded_fourth_order_third_weak_stage_order_six_stage_dirk": (4, 3, 6, "dirk", True, 3),
    "embedded_runge_kutta_fehlberg": (5, 4, 6, "erk", False, 1),
    "embedded_fifth_order_six_stage_esdirk": (5, 4, 6, "esdirk", True, 2),
}
ASSUMPTIONS = [
    "order conditions are checked to 2e-14, for five schemes whose coefficients are given with limited digits to 1e-13..1e-10",
    "stability on the imaginary axis is decided up to 1e-8 by a logarithmic grid of 4001 (40001) points and one point of each interval of constant sign of the E-polynomial",
]


def BOUNDS(tier):
    return ("complete catalogue of 24 schemes x every rooted tree up to order stated + 1 for main and embedded weights x "
            "row sums, diagonal structure, stiff accuracy, weak stage order, stability function on the imaginary axis")


def cases(tier):
    for name in CATALOGUE:
        yield dict(name=name, part="order", tier=tier)
        yield dict(name=name, part="structure", tier=tier)
    yield dict(name="*", part="catalogue", tier=tier)


def arrays(bt):
    A = np.array(bt.butcher_matrix, dtype=float)
    b = np.array(bt.butcher_weight_vector, dtype=float)
    c = np.array(bt.butcher_time_stages, dtype=float)
    bh = np.array(bt.butcher_adaptive_weights, dtype=float) if bt.is_embedded else None
    return A, b, c, bh


def order_check(rec, A, w, p, what, rec_name):
    for k in range(1, p + 1):
        for t in trees.trees(k):
            d = trees.defect(t, A, w)
            rec.state(rec_name, what, str(t))
            rec.transition()
            require(abs(d) <= LIMITED.get(rec_name, TOL), f"{what} weights violate an order condition of their stated order", order=k, tree=str(t), defect=d)
    worst = max(abs(trees.defect(t, A, w)) for t in trees.trees(p + 1))
    rec.transition(len(trees.trees(p + 1)))
    require(worst > 1e-6, f"{what} weights have a higher order than stated", stated=p, defect=worst)


def sign_cells(A, b):
    """One point of each interval on which E(y^2) has constant sign, with the (relative)
    value there. R = P/Q with P = det(I - z(A - e b^T)) and Q = det(I - zA)."""
    def abs2(M):
        c, N = [1.0], np.eye(len(M))  # Faddeev-LeVerrier: det(I - zM) by ascending powers
        for k in range(1, len(M) + 1):
            c.append(-np.trace(M @ N) / k)
            N = M @ N + c[-1] * np.eye(len(M))
        c = np.array(c)
        w = c * 1j ** np.arange(len(c))
        full = np.convolve(w, np.conj(w))
        bound = np.array([comb(len(M), k) * np.linalg.norm(M, 2) ** k for k in range(len(c))])
        return np.real(full[::2]), np.convolve(bound, bound)[::2]
    (q, qs), (pp, ps) = abs2(A), abs2(A - np.outer(np.ones(len(b)), b))
    e = q - pp
    e[np.abs(e) < 1e-15 * (qs + ps)] = 0.0  # rounding
    r = np.roots(e[::-1]) if np.any(e) else np.zeros(0)
    edges = sorted({0.0} | {float(x.real) for x in r if x.real > 0})
    points = [(lo + hi) / 2 for lo, hi in zip(edges, edges[1:])] + [2 * edges[-1] + 1]
    return [(z, np.polyval(e[::-1], z) / np.polyval(q[::-1], z)) for z in points]


def run_case(case, rec):
    rec.trace()
    if case["part"] == "catalogue":
        listed = set(getattr(bts, "__all__", CATALOGUE))
        for name in CATALOGUE:
            require(hasattr(bts, name), "scheme is missing", name=name)
            require(name in listed, "scheme is not offered by the public list", name=name)
            rec.state(name)
            rec.transition()
        objs = [id(getattr(bts, n)) for n in CATALOGUE]
        require(len(set(objs)) == len(objs), "two names of the catalogue are the same object")
        rec.outcome("catalogue complete")
        return
    p, ph, stages, kind, sa, wso = CATALOGUE[case["name"]]
    bt = getattr(bts, case["name"])
    A, b, c, bh = arrays(bt)
    if case["part"] == "order":
        require(bt.p == p, "stated order is not the order of the scheme's name", got=bt.p, expected=p)
        require(bool(bt.is_embedded) == (ph is not None), "embedding does not fit to the name")
        order_check(rec, A, b, p, "main", case["name"])
        if ph is not None:
            require(bt.phat == ph, "stated embedded order is wrong", got=bt.phat, expected=ph)
            require(bt.min_p_order() == min(p, ph), "smaller order is wrong", got=bt.min_p_order())
            order_check(rec, A, bh, ph, "embedded", case["name"])
        else:
            require(bt.min_p_order() == p, "smaller order is wrong", got=bt.min_p_order())
        rec.outcome("orders confirmed")
        return
    s = len(b)
    tol = LIMITED.get(case["name"], TOL)
    require(bt.number_of_stages() == stages and A.shape == (stages, stages) and s == stages, "number of stages is not that of the name",
            got=bt.number_of_stages(), shape=A.shape)
    require(np.all(np.abs(A.sum(1) - c) <= tol), "row sum condition violated", defect=A.sum(1) - c)
    require(np.all(np.triu(A, 1) == 0), "stages depend on later stages")
    d = np.diag(A)
    rec.state(case["name"], A)
    rec.transition(4)
    if kind == "erk":
        require(np.all(d == 0) and bt.is_explicit() and not bt.is_diagonally_implicit(), "not explicit")
    else:
        require(bt.is_diagonally_implicit() and not bt.is_explicit() and not bt.is_implicit(), "not diagonally implicit")
        if kind == "sdirk":
            require(np.all(np.abs(d - d[0]) <= tol) and abs(d[0]) > 1e-3, "diagonal is not constant", diag=d)
        elif kind == "esdirk":
            require(np.all(A[0] == 0) and np.all(np.abs(d[1:] - d[1]) <= tol) and abs(d[1]) > 1e-3,
                    "not an explicit first stage followed by a constant diagonal", diag=d)
        else:
            require(np.all(np.abs(d) > 1e-3), "diagonal contains zeros", diag=d)
    if sa:
        require(np.all(np.abs(A[-1] - b) <= tol) and abs(c[-1] - 1) <= tol, "not stiffly accurate", last=A[-1], b=b)
    for k in range(1, wso + 1):
        tau = A @ c ** (k - 1) - c ** k / k
        v = b.copy()
        for j in range(s):
            require(abs(v @ tau) <= tol, "weak stage order too low", k=k, power=j, defect=float(v @ tau))
            v = v @ A
            rec.transition()
    if kind != "erk":
        ys = np.concatenate([[0.0], np.logspace(-4, 6, 4000 if case["tier"] == "quick" else 40000)])
        for y in ys:
            R = 1 + 1j * y * (b @ np.linalg.solve(np.eye(s) - 1j * y * A, np.ones(s)))
            if abs(R) > 1 + 1e-9:
                raise Violation("implicit scheme amplifies on the imaginary axis (not A-stable)", y=float(y), R=abs(R))
        rec.transition(len(ys))
        # between the grid points: all sign cells of E(y^2) = |Q(iy)|^2 - |P(iy)|^2
        cells = sign_cells(A, b)
        rec.transition(len(cells))
        for z, e in cells:
            require(e >= -1e-8, "implicit scheme amplifies on the imaginary axis (not A-stable)", y=float(np.sqrt(z)), E=float(e))
        require(np.all(d >= 0), "poles of the stability function in the left half plane", diag=d)
    rec.outcome("structure confirmed")
