"""Rooted trees and Runge-Kutta order conditions."""

from functools import lru_cache

import numpy as np


@lru_cache(None)
def trees(order):
    """All rooted trees with `order` nodes as sorted tuples of subtrees."""
    if order == 1:
        return ((),)
    out = set()

    def rec(rest, maxt, acc):
        if rest == 0:
            out.add(tuple(sorted(acc)))
            return
        for k in range(1, rest + 1):
            for t in trees(k):
                if maxt is None or (k, t) <= maxt:
                    rec(rest - k, (k, t), acc + [t])

    rec(order - 1, None, [])
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def stage_weight(t, A):
    """product over subtrees of A-weighted sums (vector over stages)"""
    v = np.ones(A.shape[0])
    for s in t:
        v = v * (A @ stage_weight(s, A))
    return v


def defect(t, A, b):
    return float(b @ stage_weight(t, A) - 1.0 / gamma(t))
