"""Workload generators and independent reference models (no repo code is used in the references)."""
import numpy as np
import autograd.numpy as anp


# ---------------------------------------------------------------- random matrices
def spd(rng, d, lo=0.2, hi=3.0):
    """Random symmetric positive definite matrix with eigenvalues log-uniform in [lo, hi]."""
    q, _ = np.linalg.qr(rng.randn(d, d))
    ev = np.exp(rng.uniform(np.log(lo), np.log(hi), size=d))
    m = (q * ev) @ q.T
    return (m + m.T) / 2


def stable(rng, d, lo=0.5, hi=1.05):
    """Random well conditioned transition matrix."""
    q1, _ = np.linalg.qr(rng.randn(d, d))
    q2, _ = np.linalg.qr(rng.randn(d, d))
    return (q1 * rng.uniform(lo, hi, size=d)) @ q2


# ---------------------------------------------------------------- functions in the repo's calling convention
def affine(A, b, style='batch'):
    """x -> A x + b for x of shape (d,) or (n, d); output (n, m) ('batch') or (m,) for a (d,) input ('vec')."""
    if style == 'batch':
        def func(x, t=None, u=None):
            return anp.einsum('ij,kj->ki', A, anp.atleast_2d(x)) + b
    else:
        def func(x, t=None, u=None):
            return anp.dot(x, A.T) + b
    return func


def affine_tu(A, b, B=None, c=None, style='batch', log=None):
    """Time/input dependent affine map: (A + t B) x + b + u c."""
    d = A.shape[0]
    B = np.zeros_like(A) if B is None else B
    c = np.zeros(d) if c is None else c

    def func(x, t=None, u=None):
        tt = 0.0 if t is None else t
        uu = 0.0 if u is None else u
        if log is not None:
            log.append((t, u))
        M = A + tt * B
        off = b + uu * c
        if style == 'batch':
            return anp.einsum('ij,kj->ki', M, anp.atleast_2d(x)) + off
        return anp.dot(x, M.T) + off
    return func


# ---------------------------------------------------------------- exact linear Gaussian posterior
def lg_posterior(m0, P0, As, bs, Qs, Cs, ds, Rs, ys, upto=None):
    """
    Exact posterior marginals of x_1..x_T of
        x_0 ~ N(m0, P0), x_t = As[t] x_{t-1} + bs[t] + N(0, Qs[t]), y_t = Cs[t] x_t + ds[t] + N(0, Rs[t])
    by dense conditioning of the joint Gaussian over x_0..x_T (information form), not by recursion.
    upto=k: marginals of x_1..x_k given y_1..y_k.
    """
    T = len(As) if upto is None else upto
    d = len(m0)
    n = d * (T + 1)
    L = np.zeros((n, n))
    h = np.zeros(n)
    P0i = np.linalg.inv(P0)
    L[:d, :d] += P0i
    h[:d] += P0i @ m0
    for t in range(T):
        Qi = np.linalg.inv(Qs[t])
        a = slice(t * d, (t + 1) * d)
        b = slice((t + 1) * d, (t + 2) * d)
        L[a, a] += As[t].T @ Qi @ As[t]
        L[b, b] += Qi
        L[a, b] -= As[t].T @ Qi
        L[b, a] -= Qi @ As[t]
        h[a] -= As[t].T @ Qi @ bs[t]
        h[b] += Qi @ bs[t]
        Ri = np.linalg.inv(Rs[t])
        L[b, b] += Cs[t].T @ Ri @ Cs[t]
        h[b] += Cs[t].T @ Ri @ (ys[t] - ds[t])
    S = np.linalg.inv(L)
    S = (S + S.T) / 2
    m = np.linalg.solve(L, h)
    return [(m[(t + 1) * d:(t + 2) * d], S[(t + 1) * d:(t + 2) * d, (t + 1) * d:(t + 2) * d]) for t in range(T)]


# ---------------------------------------------------------------- distances
def gdist(m, P, m_ref, P_ref):
    """Largest deviation of mean / covariance in units of the reference standard deviations."""
    m = np.asarray(m, dtype=float)
    P = np.asarray(P, dtype=float)
    if m.shape != np.shape(m_ref) or P.shape != np.shape(P_ref):
        return float('inf')
    if not (np.all(np.isfinite(m)) and np.all(np.isfinite(P))):
        return float('inf')
    s = np.sqrt(np.diag(P_ref))
    return float(max(np.max(np.abs(m - m_ref) / s), np.max(np.abs(P - P_ref) / np.outer(s, s))))


# ---------------------------------------------------------------- nonlinear functions with known Jacobians
def smooth_map(rng, d, m, kind=None, scale=0.4, style='batch'):
    """
    A random smooth map R^d -> R^m in the library's calling convention together with its exact Jacobian.
    -> (func, plain, jac, kind); plain: (d,) -> (m,) in plain numpy, jac: (d,) -> (m, d)
    """
    kind = kind or ['tanh', 'sin', 'quadratic', 'mixed'][rng.randint(4)]
    A = rng.randn(m, d) * 0.8
    c = rng.randn(m)
    W = rng.randn(m, d) * 0.7
    p = rng.randn(m)
    B = rng.randn(m, d, d)
    B = (B + np.transpose(B, (0, 2, 1))) / 2

    def terms(X, xp):
        out = xp.dot(X, A.T) + c
        if kind in ('tanh', 'mixed'):
            out = out + scale * 2 * xp.tanh(xp.dot(X, W.T) + p)
        if kind in ('sin', 'mixed'):
            out = out + scale * 2 * xp.sin(xp.dot(X, W.T) + p)
        if kind == 'quadratic':
            out = out + scale * xp.einsum('ni,kij,nj->nk', X, B, X)
        return out

    def func(x, t=None, u=None):
        X = anp.atleast_2d(x)
        out = terms(X, anp)
        return out if style == 'batch' or anp.ndim(x) > 1 else out[0]

    def plain(x):
        return terms(np.atleast_2d(np.asarray(x, dtype=float)), np)[0]

    def jac(x):
        x = np.asarray(x, dtype=float)
        J = A.copy()
        z = W @ x + p
        if kind in ('tanh', 'mixed'):
            J = J + scale * 2 * (1 - np.tanh(z) ** 2)[:, None] * W
        if kind in ('sin', 'mixed'):
            J = J + scale * 2 * np.cos(z)[:, None] * W
        if kind == 'quadratic':
            J = J + scale * 2 * np.einsum('kij,j->ki', B, x)
        return J
    return func, plain, jac, kind, dict(A=A, c=c, B=B, scale=scale)


def gauss_args(rng, d, spread=3.0, lo=0.2, hi=3.0):
    return rng.randn(d) * spread, spd(rng, d, lo, hi)


# ---------------------------------------------------------------- linear Gaussian models
def sizes(rng, dmax, mmax, Tmax, big=0.0, long=0.0):
    """State dimension, measurement dimension, chain length; occasionally far beyond the usual ones."""
    d, m, T = rng.randint(1, dmax + 1), rng.randint(1, mmax + 1), rng.randint(1, Tmax + 1)
    k = rng.rand()
    if k < big:
        d, m = rng.randint(8, 16), rng.randint(1, 10)
    elif k < big + long:
        d, m, T = rng.randint(1, 3), rng.randint(1, 3), rng.randint(33, 70)
    return d, m, T


def odd_measurements(rng, ys):
    """Now and then measurements that real recordings contain: exact zeros, equal repetitions, whole numbers."""
    k = rng.rand()
    ys = [np.asarray(y) for y in ys]
    if k < .06:
        return [np.zeros_like(y) if rng.rand() < .5 else y for y in ys]
    if k < .09:
        return [ys[0].copy() for _ in ys]
    if k < .13:
        return [np.round(y).astype(int) if i == 0 or rng.rand() < .3 else y for i, y in enumerate(ys)]
    return ys


class LG:
    """A random linear Gaussian state-space model; x_1 is reached by the first transition from the prior."""

    def __init__(self, rng, d=None, m=None, T=None, dmax=4, mmax=3, Tmax=8, style=None, big=0.0, long=0.0):
        d_, m_, T_ = sizes(rng, dmax, mmax, Tmax, big, long)
        self.d, self.m, self.T = d or d_, m or m_, T or T_
        self.A, self.b = stable(rng, self.d), rng.randn(self.d)
        self.C, self.c = rng.randn(self.m, self.d), rng.randn(self.m)
        self.Q, self.R = spd(rng, self.d), spd(rng, self.m)
        self.m0, self.P0 = rng.randn(self.d) * 2, spd(rng, self.d)
        self.style = style or ['batch', 'vec'][rng.randint(2)]
        rest = rng.rand() < .06                # a system at rest, measured to be at rest: exactly what was predicted
        if rest:
            self.b, self.c, self.m0 = 0 * self.b, 0 * self.c, 0 * self.m0
        self.f = affine(self.A, self.b, self.style)
        self.h = affine(self.C, self.c, self.style)
        x = self.m0 + np.linalg.cholesky(self.P0) @ rng.randn(self.d)
        self.xs, self.ys = [], []
        for _ in range(self.T):
            x = self.A @ x + self.b + np.linalg.cholesky(self.Q) @ rng.randn(self.d)
            self.xs.append(x)
            self.ys.append(self.C @ x + self.c + np.linalg.cholesky(self.R) @ rng.randn(self.m) * 1.5)
        self.ys = odd_measurements(rng, self.ys)
        if rest:
            n = rng.randint(1, self.T + 1)
            self.ys = [0 * y if i < n else y for i, y in enumerate(self.ys)]

    def in_units(self, si, so):
        """The same model with states measured in units of si and measurements in units of so."""
        self.b, self.m0, self.c = self.b * si, self.m0 * si, self.c * so
        self.Q, self.P0, self.R, self.C = self.Q * si ** 2, self.P0 * si ** 2, self.R * so ** 2, self.C * so / si
        self.xs, self.ys = [x * si for x in self.xs], [y * so for y in self.ys]
        self.f, self.h = affine(self.A, self.b, self.style), affine(self.C, self.c, self.style)
        return self

    def posterior(self, upto=None):
        T = self.T
        return lg_posterior(self.m0, self.P0, [self.A] * T, [self.b] * T, [self.Q] * T, [self.C] * T,
                            [self.c] * T, [self.R] * T, self.ys, upto)

    def describe(self):
        return dict(d=self.d, m=self.m, T=self.T, style=self.style)
