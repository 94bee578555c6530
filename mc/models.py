"""Model ODE systems used as the environment of the time integration, in two forms:
a closed-form numpy stage function (complex-safe, the reference) and OpenMDAO stage
problems in several layouts (the real code's input).

The ODE.  With X the concatenation of all `ode` quantities (flattened, in the order of
the specification), P of all parameters, t time, entry j obeys

    X_j' = c_j + 0.4 cos(t) P-term - A_j X_j - q_j X_j^2
    A_j  = a_j (1 + 0.3 sin(w_j)),   w_j = sum_{i<j} m_ji X_i + r_j.P + 0.7 t
    c_j  = 0.6 + 0.25 cos(w_j + 0.1 j)

It is nonlinear in state, parameters and time, every entry influences all later ones
with a different weight, and one diagonally implicit stage has a closed form.  An
`out` quantity (no own previous state) has the slope  s_j = sin(u_j.X + v_j.P + 0.3 t).
"""

import numpy as np


# points besides the numbered generic ones: everything zero, alternating signs
ZEROS, SIGNS = -1, -2


def sizes(items):
    return [int(np.prod(i["shape"])) for i in items]


class Model:
    """Closed form of the ODE for a specification."""

    def __init__(self, spec):
        self.spec = spec
        self.q = spec["quantities"]
        self.params = spec.get("params", [])
        self.has_time = spec.get("time", True)
        self.rest = spec.get("rest", False)  # the state zero is at rest: c = 0
        self.qsize = sizes(self.q)
        self.psize = sizes(self.params)
        self.n = sum(self.qsize)
        self.np = sum(self.psize)
        off = np.cumsum([0] + self.qsize)
        self.qslice = [slice(int(off[i]), int(off[i + 1])) for i in range(len(self.q))]
        poff = np.cumsum([0] + self.psize)
        self.pslice = [slice(int(poff[i]), int(poff[i + 1])) for i in range(len(self.params))]
        self.is_ode = np.zeros(self.n, dtype=bool)
        for i, q in enumerate(self.q):
            self.is_ode[self.qslice[i]] = q.get("kind", "ode") == "ode"
        # irrational-looking, pairwise different, deterministic coefficients
        j = np.arange(self.n) + 1.0
        self.a = 0.5 + 0.4 * np.abs(np.sin(1.7 * j))
        self.qq = 0.1 + 0.1 * np.abs(np.cos(2.3 * j))
        ii, jj = np.meshgrid(j, j)
        self.m = 0.5 * np.sin(1.3 * ii + 2.1 * jj)
        for i, k in spec.get("decouple", []):
            self.m[self.qslice[k], self.qslice[i]] = 0.0
        self.u = 0.6 * np.cos(0.9 * ii + 1.7 * jj)
        pp = np.arange(self.np) + 1.0
        self.r = 0.8 * np.sin(2.9 * j[:, None] + 1.1 * pp[None, :])
        self.v = 0.7 * np.cos(1.9 * j[:, None] + 0.7 * pp[None, :])
        for k, i in spec.get("pdecouple", []):
            self.r[self.qslice[i], self.pslice[k]] = 0.0
            self.v[self.qslice[i], self.pslice[k]] = 0.0

    # one entry's slope and stage value; arrays are (..., batch)
    def solve_entry(self, j, s, h, xprev, p, t):
        """s: known part of stage value, h: implicit factor, xprev: earlier stage
        values (list of (index, value))."""
        w = 0.7 * t if self.has_time else 0.0 * t
        for i, x in xprev:
            w = w + self.m[j, i] * x
        for k in range(self.np):
            w = w + self.r[j, k] * p[k]
        A = self.a[j] * (1 + 0.3 * np.sin(w))
        c = 0.0 * w if self.rest else 0.6 + 0.25 * np.cos(w + 0.1 * j)
        q = self.qq[j]
        b = 1 + h * A
        x = 2 * (s + h * c) / (b + np.sqrt(b * b + 4 * q * h * (s + h * c)))
        k = c - A * x - q * x * x
        return k, x

    def out_entry(self, j, xs, p, t):
        w = 0.3 * t if self.has_time else 0.0 * t
        for i, x in xs:
            w = w + self.u[j, i] * x
        for k in range(self.np):
            w = w + self.v[j, k] * p[k]
        return np.sin(w)

    def stage(self, t, x, acc, p, dt, aii):
        """Slopes k of one stage. Works on 1d arrays or (n, batch) arrays, complex ok."""
        k = [None] * self.n
        xs = []
        for j in range(self.n):
            if self.is_ode[j]:
                kj, xj = self.solve_entry(j, x[j] + dt * acc[j], dt * aii, xs, p, t)
                k[j] = kj
                xs.append((j, xj))
        for j in range(self.n):
            if not self.is_ode[j]:
                k[j] = self.out_entry(j, xs, p, t)
        return np.stack([np.asarray(v) + 0.0 * t for v in k])

    def stage_values(self, t, x, acc, p, dt, aii):
        k = self.stage(t, x, acc, p, dt, aii)
        return k, x + dt * (acc + aii * k)

    def jac(self, t, x, acc, p, dt, aii):
        """d slopes / d(t, x, acc, p): shape (n, 1 + 2n + np)."""
        n, m = self.n, self.np
        N = 1 + 2 * n + m
        v = np.concatenate([[t], x, acc, p]).astype(complex)
        V = np.repeat(v[:, None], N, axis=1)
        V[np.arange(N), np.arange(N)] += 1e-30j
        k = self.stage(V[0], V[1:1 + n], V[1 + n:1 + 2 * n], V[1 + 2 * n:], dt, aii)
        return np.imag(k) / 1e-30

    def x0(self, variant=0):
        if self.rest:
            return np.zeros(self.n)
        if variant == ZEROS:
            return np.zeros(self.n)
        if variant == SIGNS:
            return 0.35 * (-1.0) ** np.arange(self.n) * np.abs(np.sin(1.1 * (np.arange(self.n) + 1)))
        return 0.4 + 0.9 * np.abs(np.sin(1.1 * (np.arange(self.n) + 1) + 0.37 * variant))

    def p0(self, variant=0):
        if variant == ZEROS:
            return np.zeros(self.np)
        return 0.3 + 0.5 * np.cos(0.8 * (np.arange(self.np) + 1) + 0.53 * variant)


def ref_step(tab, model, t, x, p, dt):
    """One Runge-Kutta step in reference form; returns new x, stage data, embedded x."""
    A, b, c = tab["A"], tab["b"], tab["c"]
    s = len(b)
    ks = []
    for i in range(s):
        acc = 0.0 * x
        for j in range(i):
            acc = acc + A[i][j] * ks[j]
        ks.append(model.stage(t + c[i] * dt, x, acc, p, dt, A[i][i]))
    new = x + dt * sum(b[i] * ks[i] for i in range(s))
    emb = None
    if tab.get("bh") is not None:
        emb = x + dt * sum(tab["bh"][i] * ks[i] for i in range(s))
    return new, ks, emb


def ref_run(tab, model, t0, x0, p, dts):
    """Reference trajectory. Returns list of (t, x) including the start."""
    t, x = t0, x0
    out = [(t, x)]
    for dt in dts:
        x, _, _ = ref_step(tab, model, t, x, p, dt)
        t = t + dt
        out.append((t, x))
    return out


def ref_jacobian(tab, model, t0, x0, p, dts):
    """Exact Jacobian of (x_final, t_final) wrt (x0, p, t0), by complex step through
    the reference recurrence with the step sizes held fixed."""
    n, m = model.n, model.np
    N = n + m + 1
    v = np.concatenate([x0, p, [t0]]).astype(complex)
    V = np.repeat(v[:, None], N, axis=1)
    V[np.arange(N), np.arange(N)] += 1e-30j
    t, x = ref_run(tab, model, V[n + m], V[:n], V[n:n + m], dts)[-1]
    J = np.zeros((n + 1, N))
    J[:n] = np.imag(x) / 1e-30
    J[n] = np.imag(t) / 1e-30
    return J


def tab_of(bt):
    """Plain-number view of a ButcherTableau."""
    d = dict(A=np.array(bt.butcher_matrix, dtype=float), b=np.array(bt.butcher_weight_vector, dtype=float),
             c=np.array(bt.butcher_time_stages, dtype=float), bh=None)
    if bt.is_embedded:
        d["bh"] = np.array(bt.butcher_adaptive_weights, dtype=float)
    return d
