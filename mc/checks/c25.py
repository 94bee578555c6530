"""C25: tableau objects classify, validate and represent themselves correctly."""

import itertools
import re
import warnings

import numpy as np

from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau

from mc import common as cm
from mc.core import Violation, require
from mc.omsys import Driver

ID = "C25"
ASSUMPTIONS = [
    "weights or time stages off by at least 1e-4 count as inconsistent, by at most 1e-8 as consistent; in between nothing is required",
    "any exception counts as rejection",
    "the printed form has a name line, one line per stage, a rule and one line per weight vector",
]
# magnitudes of the nonzero coefficients; every zero pattern is combined with every one
FILL = {
    "generic": lambda k: 0.1 + 0.07 * k,
    "negative": lambda k: -0.3 - 0.11 * k,
    "tiny": lambda k: 1e-300 * (k + 1),
    "cancel": lambda k: (-1.0) ** k * 0.25,
    "mixed": lambda k: (1e-17, -3.0, 1.0 / 3.0, 1e20, 0.1 + 0.2, -1e-9)[k % 6],
}


def BOUNDS(tier):
    return (f"{len(list(cases(tier)))} groups: all zero patterns with 1-{3 if tier == 'quick' else 4} stages x {len(FILL)} kinds of coefficients, plain and "
            "embedded; all size combinations 0/1-3 of the arrays; all defects of single entries; all orders; all shipped tableaux; the integrator with every zero pattern of 1-"
            f"{2 if tier == 'quick' else 3} stages")


def cases(tier):
    for fill in FILL:
        for s in (1, 2, 3):
            yield dict(kind="pattern", s=s, fill=fill, upper=None)
        if tier == "thorough":
            for u in range(64):
                yield dict(kind="pattern", s=4, fill=fill, upper=u)
    for emb in (False, True):
        for r in (1, 2, 3):
            yield dict(kind="sizes", rows=r, emb=emb)
    for s in (1, 2, 3, 4):
        for c in ("none", "sums", "ints"):
            yield dict(kind="defect", s=s, c=c)
    yield dict(kind="orders")
    for n in cm.SHIPPED:
        yield dict(kind="shipped", name=n)
    for s in (1, 2) if tier == "quick" else (1, 2, 3):
        for emb in (False, True):
            yield dict(kind="integrator", s=s, emb=emb)
    if tier == "quick":
        yield dict(kind="integrator", s=3, emb=False, few=True)


def matrix(s, bits, fill):
    A = np.zeros((s, s))
    for k in range(s * s):
        if bits >> k & 1:
            A[k // s, k % s] = FILL[fill](k)
    return A


def define(A):
    """Definition of the three classes."""
    s = len(A)
    if any(A[i, j] != 0.0 for i in range(s) for j in range(i + 1, s)):
        return "implicit"
    return "diagonal" if any(A[i, i] != 0.0 for i in range(s)) else "explicit"


def classify(bt):
    e, d, i = bt.is_explicit(), bt.is_diagonally_implicit(), bt.is_implicit()
    for v in (e, d, i):
        require(v is True or v is False or isinstance(v, (bool, np.bool_)), "a classification is not a truth value", got=repr(v))
    require(int(e) + int(d) + int(i) == 1, "a tableau is not in exactly one class", explicit=e, diagonal=d, implicit=i, A=bt.butcher_matrix)
    return "explicit" if e else "diagonal" if d else "implicit"


def build(A, b, c, bh=None, p=2, ph=1, name="some method"):
    """Construction result and whether a warning was given."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if bh is None:
            t = ButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=c, p=p, name=name)
        else:
            t = EmbeddedButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_adaptive_weights=bh, butcher_time_stages=c, p=p,
                                       phat=ph, name=name)
    return t, len(w)


def contents(t, A, b, c, bh, what):
    require(np.array_equal(t.butcher_matrix, A), "tableau has another matrix", at=what)
    require(np.array_equal(t.butcher_weight_vector, b), "tableau has other weights", at=what)
    require(np.allclose(t.butcher_time_stages, c, rtol=1e-14, atol=0.0) or np.array_equal(t.butcher_time_stages, c), "tableau has other time stages",
            at=what, got=t.butcher_time_stages, expected=c)
    require(t.number_of_stages() == len(b) and len(t) == len(b), "tableau has a wrong number of stages", at=what)
    if bh is not None:
        require(np.array_equal(t.butcher_adaptive_weights, bh), "tableau has other embedded weights", at=what)
    require(t.is_embedded == (bh is not None), "embeddedness wrong", at=what)


NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


def printed(t, A, b, c, bh, name):
    """Every coefficient appears, exactly, at its place."""
    lines = str(t).split("\n")
    s = len(b)
    require(name in lines[0], "printed form lacks the name", got=lines[0])
    body = lines[1:]
    rows = [ln for ln in body if re.search(r"\d", ln)]
    require(len(rows) == s + (1 if bh is None else 2), "printed form has a wrong number of rows", text=str(t))
    bars = {ln.index("|") for ln in body}
    require(len(bars) == 1, "columns of the printed form are not aligned", text=str(t))
    want = [([c[i]], list(A[i])) for i in range(s)] + [([], list(b))] + ([] if bh is None else [([], list(bh))])
    for ln, (left, right) in zip(rows, want):
        l, r = ln.split("|")
        for part, exp in ((l, left), (r, right)):
            got = [float(x) for x in NUM.findall(part.replace("np.float64", "").replace("np.int64", ""))]
            require(len(got) == len(exp) and all(g == e for g, e in zip(got, exp)), "printed coefficients differ", line=ln, got=got, expected=exp)


def run_pattern(case, rec):
    s = case["s"]
    n = s * s
    patterns = range(2 ** n) if case["upper"] is None else (case["upper"] | k << 6 for k in range(2 ** (n - 6)))
    b = np.array([0.1 * (i + 1) for i in range(s - 1)] + [1.0 - 0.1 * sum(range(1, s))])
    bh = b[::-1].copy()
    for bits in patterns:
        A = matrix(s, bits, case["fill"])
        A0 = A.copy()
        exp = define(A)
        rows = np.sum(A, 1)
        c = rows + 0.0
        plain, warned = build(A, b, None)
        require(warned == 0, "warning without a defect", A=A)
        contents(plain, A0, b, c, None, "plain")
        require(classify(plain) == exp, "wrong class", A=A, got=classify(plain), expected=exp)
        emb, warned = build(A, b, c, bh)
        require(warned == 0, "warning without a defect (embedded)", A=A)
        contents(emb, A0, b, c, bh, "embedded")
        require(classify(emb) == exp, "wrong class of the embedded tableau", A=A)
        derived = EmbeddedButcherTableau.from_butchertableau(plain, bh, phat=1)
        contents(derived, A0, b, c, bh, "from plain")
        require(classify(derived) == exp, "wrong class of the derived tableau", A=A)
        for part, w, order in ((emb.main_method, b, 2), (emb.embedded_method, bh, 1)):
            contents(part, A0, w, c, None, "part")
            require(classify(part) == exp and part.p == order and part.min_p_order() == order, "part of an embedded tableau wrong", A=A)
        if bits % (1 if s < 4 else 64) == 0:
            printed(plain, A0, b, c, None, "some method")
            printed(emb, A0, b, c, bh, "some method")
            printed(derived, A0, b, c, bh, "some method")
        require(np.array_equal(A, A0), "construction modified the matrix")
        rec.state(case["fill"], s, bits)
        rec.transition(6)
        rec.outcome(exp)
    rec.trace()


def run_sizes(case, rec):
    r = case["rows"]
    for cols, nb, nc, nh in itertools.product((1, 2, 3), (1, 2, 3), (None, 1, 2, 3), (1, 2, 3) if case["emb"] else (None,)):
        # values chosen such that only the sizes can be wrong
        A = np.full((r, cols), 0.5 / cols)
        b = np.full(nb, 1.0 / nb)
        c = None if nc is None else np.full(nc, 0.5)
        bh = None if nh is None else np.full(nh, 1.0 / nh)
        ok = r == cols == nb and nc in (None, r) and nh in (None, r)
        try:
            t, warned = build(A, b, c, bh)
        except Exception as exc:  # pylint: disable=broad-except
            require(not ok, "consistent sizes rejected", sizes=[r, cols, nb, nc, nh], error=repr(exc))
            rec.outcome("rejected")
        else:
            require(ok, "inconsistent sizes accepted", sizes=[r, cols, nb, nc, nh])
            contents(t, A, b, np.full(r, 0.5), bh, "sizes")
            rec.outcome("accepted")
        if ok and not case["emb"]:
            for nh2 in (1, 2, 3):
                try:
                    EmbeddedButcherTableau.from_butchertableau(t, np.full(nh2, 1.0 / nh2), phat=1)
                except Exception as exc:  # pylint: disable=broad-except
                    require(nh2 != r, "consistent embedded weights rejected", error=repr(exc))
                else:
                    require(nh2 == r, "inconsistent embedded weights accepted", sizes=[r, nh2])
                rec.transition()
        rec.state(r, cols, nb, nc, nh)
        rec.transition()
    rec.trace()


def run_defect(case, rec):
    s = case["s"]
    A = np.array([[0.2 + 0.1 * i + 0.05 * j if j <= i else 0.0 for j in range(s)] for i in range(s)])
    b = np.array([0.1 * (i + 1) for i in range(s - 1)] + [1.0 - 0.1 * sum(range(1, s))])
    if case["c"] == "ints":
        A, b = np.tril(np.ones((s, s), dtype=int)), np.array([1] + [0] * (s - 1))
    c = None if case["c"] == "none" else np.sum(A, 1)
    for what in ["weights"] + (["stages", "both", "matrix"] if c is not None else []):
        for i in range(s):
            for d in (0.0, 1e-9, -1e-9, 1e-4, -1e-4, 1.0, -1.0, 0.3, -7.0):
                if case["c"] == "ints" and d != int(d):
                    continue
                A2, b2, c2 = A.copy(), b.copy(), None if c is None else c.copy()
                if what in ("weights", "both"):
                    b2[i] += type(b2[i])(d)
                if what in ("stages", "both"):
                    c2[i] += type(c2[i])(d)
                if what == "matrix":
                    for j in range(s):
                        A2[i, j] += type(A2[i, j])(d / s) if case["c"] != "ints" else 0
                    if case["c"] == "ints":
                        A2[i, 0] += int(d)
                bad = abs(d) >= 1e-5
                for emb in (False, True):
                    t, warned = build(A2, b2, c2, b.copy() if emb else None)
                    require((warned > 0) == bad, "inconsistent coefficients are not reported" if bad else "consistent coefficients give a warning", where=what,
                            index=i, defect=d, warnings=warned)
                    cw = np.sum(A2, 1) if c is None else c2
                    contents(t, A2, b2, cw, b if emb else None, "defect")
                    if emb:
                        for part, w, order in ((t.main_method, b2, 2), (t.embedded_method, b, 1)):
                            contents(part, A2, w, cw, None, "part of a tableau with a defect")
                            require(part.p == order, "order of a part wrong", got=part.p)
                            rec.transition()
                    else:
                        derived = EmbeddedButcherTableau.from_butchertableau(t, b.copy(), phat=1)
                        contents(derived, A2, b2, cw, b, "from a tableau with a defect")
                        printed(derived, A2, b2, cw, b, t.name)
                        rec.transition()
                    printed(t, A2, b2, cw, b if emb else None, t.name)
                    rec.transition()
                rec.state(s, case["c"], what, i, d)
                rec.outcome("reported" if bad else "consistent")
    # two compensating defects of the time stages are still defects, of the weights not
    if s > 1 and case["c"] == "sums":
        for i, j in itertools.permutations(range(s), 2):
            c2, b2 = c.copy(), b.copy()
            c2[i] += 0.3
            c2[j] -= 0.3
            require(build(A, b, c2)[1] > 0, "compensating defects of time stages are not reported", i=i, j=j)
            b2[i] += 0.3
            b2[j] -= 0.3
            require(build(A, b2, c)[1] == 0, "consistent weights give a warning", i=i, j=j)
            rec.transition(2)
    rec.trace()


def run_orders(_, rec):
    A, b, bh = np.array([[0.0, 0.0], [1.0, 0.0]]), np.array([0.5, 0.5]), np.array([1.0, 0.0])
    for p, ph in itertools.product(range(0, 8), repeat=2):
        for via in ("direct", "from", "setter"):
            if via == "direct":
                t, _ = build(A, b, None, bh, p, ph)
            elif via == "from":
                t = EmbeddedButcherTableau.from_butchertableau(build(A, b, None, p=p)[0], bh, phat=ph)
            else:
                t, _ = build(A, b, None, bh, None, None)
                for attr in ("p", "phat"):
                    try:
                        v = getattr(t, attr)
                    except ValueError:
                        continue
                    raise Violation("an unknown order is not reported", attribute=attr, got=v)
                t.p, t.phat = p, ph
            require(t.p == p and t.phat == ph and t.min_p_order() == min(p, ph), "orders of an embedded tableau wrong", p=p, phat=ph, via=via)
            require(t.main_method.p == p and t.embedded_method.p == ph, "orders of the parts wrong", p=p, phat=ph, via=via)
            rec.state(p, ph, via)
            rec.transition()
        q, _ = build(A, b, None, p=p)
        require(q.p == p and q.min_p_order() == p, "order of a tableau wrong", p=p)
        u, _ = build(A, b, None, p=None)
        u.p = p
        require(u.p == p and u.min_p_order() == p, "order of a tableau wrong after setting it", p=p)
    for name in ("a", "two words", "Ä"):
        t, _ = build(A, b, None, name=name)
        require(t.name == name and str(t).startswith(name), "name lost")
        e = EmbeddedButcherTableau.from_butchertableau(t, bh, phat=1, name="E " + name)
        require(e.name == "E " + name and name in EmbeddedButcherTableau.from_butchertableau(t, bh, phat=1).name, "name of the embedded tableau wrong")
        require(name in e.main_method.name and name in e.embedded_method.name and e.main_method.name != e.embedded_method.name, "names of the parts wrong")
    rec.trace()
    rec.outcome("orders")


def run_shipped(case, rec):
    bt, ref = cm.tableau(case["name"])
    require(classify(bt) == define(ref["A"]), "wrong class of a shipped tableau")
    contents(bt, ref["A"], ref["b"], ref["c"], ref["bh"], "shipped")
    printed(bt, ref["A"], ref["b"], ref["c"], ref["bh"], bt.name)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if bt.is_embedded:
            for part, wts, order in ((bt.main_method, ref["b"], bt.p), (bt.embedded_method, ref["bh"], bt.phat)):
                contents(part, ref["A"], wts, ref["c"], None, "part")
                printed(part, ref["A"], wts, ref["c"], None, bt.name)
                require(part.p == order and not part.is_embedded, "part of a shipped tableau wrong")
            require(bt.min_p_order() == min(bt.p, bt.phat), "minimal order wrong")
        else:
            build(ref["A"], ref["b"], ref["c"])
    require(not w, "a shipped tableau is inconsistent", warnings=[str(x.message) for x in w])
    rec.state(case["name"])
    rec.transition(3)
    rec.trace()
    rec.outcome(define(ref["A"]))


def run_integrator(case, rec):
    """The integrator accepts exactly the tableaux it can integrate stage after stage."""
    s = case["s"]
    b = np.full(s, 1.0 / s)
    for bits in range(2 ** (s * s)):
        if case.get("few") and bin(bits).count("1") > 2:
            continue
        A = matrix(s, bits, "generic")
        bt, _ = build(A, b, None, b[::-1].copy() if case["emb"] else None)
        try:
            Driver(cm.SPECS["scalar"], bt, n_steps=1, **cm.QUIET)
        except Exception as exc:  # pylint: disable=broad-except
            require(define(A) == "implicit", "an explicit or diagonally implicit tableau is rejected", A=A, error=repr(exc))
            rec.outcome("rejected")
        else:
            require(define(A) != "implicit", "a tableau that is neither explicit nor diagonally implicit is integrated stage by stage", A=A)
            rec.outcome("accepted")
        rec.state(s, bits, case["emb"], "integrator")
        rec.transition()
    rec.trace()


def run_case(case, rec):
    globals()["run_" + case["kind"]](case, rec)
