"""Independent reference models.  Nothing here calls the repository."""
import numpy as np


def logpdf(x, m, P):
    """Gaussian log density via Cholesky."""
    x, m, P = np.atleast_1d(x).astype(float), np.atleast_1d(m).astype(float), np.atleast_2d(P).astype(float)
    L = np.linalg.cholesky(P)
    z = np.linalg.solve(L, x - m)
    return float(-0.5 * z @ z - np.sum(np.log(np.diag(L))) - 0.5 * len(m) * np.log(2 * np.pi))


# ---------------------------------------------------------------- moment matching
def unscented(plain, m, P, alpha=1.0, beta=2.0, kappa=1.0):
    """Scaled unscented transform (Wan & van der Merwe), symmetric Cholesky-column sigma points, term by term."""
    n = len(m)
    lam = alpha ** 2 * (n + kappa) - n
    L = np.linalg.cholesky((P + P.T) / 2)
    pts = [m] + [m + np.sqrt(n + lam) * L[:, i] for i in range(n)] + [m - np.sqrt(n + lam) * L[:, i] for i in range(n)]
    wm = [lam / (n + lam)] + [0.5 / (n + lam)] * (2 * n)
    wc = list(wm)
    wc[0] += 1 - alpha ** 2 + beta
    ys = [plain(p) for p in pts]
    mean = sum(w * y for w, y in zip(wm, ys))
    cov = sum(w * np.outer(y - mean, y - mean) for w, y in zip(wc, ys))
    cross = sum(w * np.outer(p - m, y - mean) for w, p, y in zip(wc, pts, ys))
    return mean, cov, cross


def linearised(plain, jac, m, P):
    J = jac(m)
    return plain(m), J @ P @ J.T, P @ J.T


# ---------------------------------------------------------------- Gaussian recursions from given moments
def condition(m, P, zm, zS, xz, y):
    """Bayes: x | z = y for jointly Gaussian (x, z); zS includes the noise. Information-free, via block conditioning."""
    K = np.linalg.solve(zS, xz.T).T
    return m + K @ (np.atleast_1d(y) - zm), P - K @ zS @ K.T


def rts(m, P, xm, xS, xc, nm, nP):
    """Condition x on x_next ~ N(nm, nP) through the joint N([m, xm], [[P, xc], [xc', xS]])."""
    J = np.linalg.solve(xS, xc.T).T
    return m + J @ (nm - xm), P + J @ (nP - xS) @ J.T


def product(a, b):
    """N(a) * N(b), normalised, from moments."""
    (m1, P1), (m2, P2) = a, b
    I1, I2 = np.linalg.inv(P1), np.linalg.inv(P2)
    P = np.linalg.inv(I1 + I2)
    return P @ (I1 @ m1 + I2 @ m2), P


def is_pd(P):
    try:
        np.linalg.cholesky(P)
        return True
    except np.linalg.LinAlgError:
        return False


def min_eig(P):
    P = np.asarray(P, dtype=float)
    return float(np.min(np.linalg.eigvalsh((P + P.T) / 2)))
