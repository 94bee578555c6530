"""Shared finite alphabets: tableaux, stage model specifications, checkpointing."""

import datetime
import itertools

import numpy as np
from pyrevolve import storage as pyrevolve_storage

from rkopenmdao import butcher_tableaux as bts
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer

from mc.models import tab_of

SHIPPED = [
    "explicit_euler", "implicit_euler", "implicit_midpoint", "third_order_two_stage_sdirk", "runge_kutta_four",
    "fifth_order_five_stage_sdirk", "embedded_heun_euler", "embedded_second_order_two_stage_sdirk",
    "embedded_second_order_three_stage_esdirk", "embedded_third_order_three_stage_sdirk1",
    "embedded_third_order_three_stage_sdirk2", "embedded_third_order_three_stage_esdirk",
    "embedded_third_order_four_stage_sdirk", "embedded_third_order_second_weak_stage_order_four_stage_dirk",
    "embedded_third_order_third_weak_stage_order_four_stage_dirk", "embedded_third_order_four_stage_esdirk",
    "embedded_third_order_five_stage_esdirk", "embedded_fourth_order_four_stage_sdirk",
    "embedded_fourth_order_five_stage_sdirk", "embedded_fourth_order_five_stage_esdirk",
    "embedded_fourth_order_six_stage_esdirk", "embedded_fourth_order_third_weak_stage_order_six_stage_dirk",
    "embedded_runge_kutta_fehlberg", "embedded_fifth_order_six_stage_esdirk",
]
EMBEDDED = [n for n in SHIPPED if n.startswith("embedded")]


def make_tab(A, b, c=None, bh=None, p=1, ph=1):
    """(code object, plain reference data) of a tableau given by plain numbers."""
    A = np.array(A, dtype=float)
    b = np.array(b, dtype=float)
    cc = np.sum(A, 1) if c is None else np.array(c, dtype=float)
    ref = dict(A=A.copy(), b=b.copy(), c=cc.copy(), bh=None if bh is None else np.array(bh, dtype=float))
    cin = None if c is None else cc
    if bh is None:
        bt = ButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_time_stages=cin, p=p, name="custom")
    else:
        bt = EmbeddedButcherTableau(butcher_matrix=A, butcher_weight_vector=b, butcher_adaptive_weights=np.array(bh, dtype=float),
                                    butcher_time_stages=cin, p=p, phat=ph, name="custom")
    return bt, ref


def tableau(desc):
    """desc: name of a shipped tableau or dict(A,b,c,bh)."""
    if isinstance(desc, str):
        bt = getattr(bts, desc)
        return bt, tab_of(bt)
    return make_tab(**desc)


# asymmetric tableaux: all coefficients pairwise different, c different from row sums
ODD2 = dict(A=[[0.21, 0.0], [0.47, 0.33]], b=[0.38, 0.62], c=[0.15, 0.85])
ODD3E = dict(A=[[0, 0, 0], [0.37, 0, 0], [-0.41, 1.13, 0]], b=[0.19, 0.52, 0.29], c=[0.07, 0.44, 0.91], bh=[0.31, 0.26, 0.43])
ODD3 = dict(A=[[0.13, 0, 0], [0.39, 0.27, 0], [-0.17, 0.58, 0.41]], b=[0.23, 0.49, 0.28], c=[0.11, 0.52, 0.87], bh=[0.34, 0.17, 0.49])
# weights not summing to one, zero diagonal in the middle, negative diagonal-free row
ODD4 = dict(A=[[0.2, 0, 0, 0], [0.3, 0, 0, 0], [0, 0.45, 0.35, 0], [0.12, -0.22, 0.61, 0.0]], b=[0.3, 0.1, 0.25, 0.4],
            c=[0.3, 0.2, 1.2, -0.1], bh=[0.1, 0.4, 0.2, 0.25])


def grid_tableaux(tier):
    """Every tableau of small coefficient grids (1, 2 and 3 stages)."""
    out = []
    for a, c, b in itertools.product((0.0, 0.5, 1.0), (None, 0.3), (1.0, 0.7)):
        out.append(dict(A=[[a]], b=[b], c=None if c is None else [c]))
    vals = (0.0, 0.5, 1.0)
    for a11, a21, a22 in itertools.product(vals, (-0.25,) + vals, vals):
        for b in ([0.25, 0.75], [1.0, 0.0], [0.0, 1.0]):
            for c in (None, [0.2, 0.9]):
                out.append(dict(A=[[a11, 0], [a21, a22]], b=b, c=c))
    ent = (0.0, 0.3)
    for v in itertools.product(ent, repeat=6):
        out.append(dict(A=[[v[0], 0, 0], [v[1], v[2], 0], [v[3], v[4], v[5]]], b=[0.2, 0.3, 0.5], c=[0.1, 0.45, 0.8]))
    # rows whose entries cancel (their sum is zero although they are not), all sign patterns
    for l31, l32, a21 in itertools.product((-0.3, 0.0, 0.3), repeat=3):
        for diag in ((0.0, 0.0, 0.0), (0.3, 0.3, 0.3)):
            A = [[diag[0], 0, 0], [a21, diag[1], 0], [l31, l32, diag[2]]]
            out.append(dict(A=A, b=[0.6, -0.6, 1.0], c=[0.1, 0.45, 0.8]))
    # weights: every zero pattern with every zero pattern of the matrix (a stage without
    # weight still feeds the later stages)
    for w in ([0, 0.4, 0.6], [0.4, 0, 0.6], [0.4, 0.6, 0], [1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]):
        for v in itertools.product((0, 1), repeat=4):
            A = [[v[0] * 0.3, 0, 0], [v[1] * 0.4, v[0] * 0.3, 0], [v[2] * 0.25, v[3] * 0.35, v[0] * 0.3]]
            out.append(dict(A=A, b=w, c=[0.1, 0.45, 0.8]))
    if tier == "thorough":
        for v in itertools.product((0.0, 0.25), repeat=10):
            out.append(dict(A=[[v[0], 0, 0, 0], [v[1], v[2], 0, 0], [v[3], v[4], v[5], 0], [v[6], v[7], v[8], v[9]]],
                            b=[0.15, 0.2, 0.3, 0.35], c=[0.05, 0.35, 0.7, 1.0]))
    return out


def Q(name, *shape, kind="ode"):
    return dict(name=name, shape=list(shape), kind=kind)


def PR(name, *shape):
    return dict(name=name, shape=list(shape))


SPECS = {
    "scalar": dict(quantities=[Q("x", 1)], params=[], time=False),
    "scalar_tp": dict(quantities=[Q("x", 1)], params=[PR("p", 1)], time=True),
    "vec_scalar": dict(quantities=[Q("x", 2), Q("y", 1)], params=[PR("p", 2)], time=True),
    "mixed": dict(quantities=[Q("x", 2, 2), Q("o", 3, kind="out"), Q("y", 1)], params=[PR("p", 2), PR("r", 1)], time=True),
    "outonly": dict(quantities=[Q("o", 2, kind="out")], params=[PR("p", 1)], time=True),
    "outs": dict(quantities=[Q("o1", 1, kind="out"), Q("x", 2), Q("o2", 2, 1, kind="out")], params=[], time=False),
    "rest": dict(quantities=[Q("x", 2)], params=[], time=False, rest=True),  # starts in an equilibrium: all slopes are zero
    "tensor": dict(quantities=[Q("b", 2, 1, 2), Q("a", 1, 3)], params=[PR("s", 2, 2)], time=True),
}
LAYOUTS = ["mono", "implicit", "nested", "split", "loop"]


def checkpointing(desc):
    """desc: 'none' | 'all' | ['pyrevolve', type, n_checkpoints or None, further options] -> options."""
    if desc == "none":
        return dict(checkpointing_type=NoCheckpointer)
    if desc == "all":
        return dict(checkpointing_type=AllCheckpointer)
    _, typ, n, *more = desc
    opts = dict(revolver_type=typ)
    ropts = dict(*more)
    if n is not None:
        ropts["n_checkpoints"] = n
    if ropts:
        opts["revolver_options"] = ropts
    return dict(checkpointing_type=PyrevolveCheckpointer, checkpoint_options=opts)


QUIET = dict(compute_callbacks=[], compute_jacvec_product_fwd_callbacks=[], compute_jacvec_product_rev_callbacks=[])


class _StandingClock:
    """Stands in for the datetime module in pyrevolve, which names files by the second."""

    class datetime:  # pylint: disable=invalid-name
        @staticmethod
        def now(*_):
            return datetime.datetime(2024, 1, 1)


def standing_clock():
    """All operations of an exploration happen within one second."""
    if hasattr(pyrevolve_storage, "datetime"):
        pyrevolve_storage.datetime = _StandingClock
