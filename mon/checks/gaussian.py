"""C01 parameter duality, C02 algebra, C03 scores and samples, C24 linear algebra guards."""
import numpy as np

import gen
import ref
from core import family
from StateModel import Gaussian, GaussianFactor
from StateModel.Gaussian import natural_to_moment, moment_to_natural
from Utils.Metrics import rmse, nll, node_metrics
from Utils.linalg import jittered_chol, jittered_solve, symmetrize, validate_covariance
from numpy.linalg import LinAlgError

READS = ('mean', 'cov', 'precision', 'shift')


def _spd_any(rng, d):
    """SPD with random overall scale and anisotropy; returns (matrix, condition number)."""
    scale = 10.0 ** rng.uniform(-5, 6)
    spread = 10.0 ** rng.uniform(0, 4) if rng.rand() < (.9 if d < 9 else .5) else 10.0 ** rng.uniform(4, 8)
    q, _ = np.linalg.qr(rng.randn(d, d))
    ev = np.exp(rng.uniform(0, np.log(spread), d)) * scale
    ev *= min(1.0, 1e9 / ev.max())             # from 1e10 on, a state counts as flat
    if rng.rand() < 0.3:
        q = np.eye(d)
    P = (q * ev) @ q.T
    return (P + P.T) / 2, ev.max() / ev.min()


def _rel(a, b):
    return np.max(np.abs(a - b)) / np.max(np.abs(b))


@family('C01', quick=480, thorough=40000, needs={'reads': 1000, 'natural': 50, 'moment': 50})
def duality(case, rng):
    """Gaussians of dimension 1-8 over 11 decades of scale, built from moments or naturals, the four views read in
    random order and repeatedly, copied and round-tripped; oracle: dense inverse and Cholesky, bytes unchanged."""
    d = rng.randint(1, 9) if rng.rand() < .96 else rng.randint(9, 41)
    P, cond = _spd_any(rng, d)
    mean = rng.randn(d) * 10.0 ** rng.uniform(-1, 2) * np.sqrt(np.max(np.diag(P)))
    Lam = np.linalg.inv(P)
    Lam = (Lam + Lam.T) / 2
    shift = Lam @ mean
    kind = ['moment', 'natural'][rng.randint(2)]
    case.describe(d=d, kind=kind, scale=float(P.max()), cond=float(cond))
    case.event(kind)
    P0, mean0, Lam0, shift0 = P.copy(), mean.copy(), Lam.copy(), shift.copy()
    g = Gaussian(mean, P) if kind == 'moment' else \
        (Gaussian.from_natural(precision=Lam, shift=shift) if rng.rand() < .5 else Gaussian(precision_mat=Lam, shift_vec=shift))
    tol = 1e-11 * cond + 1e-10
    msc = np.max(np.abs(mean)) + np.sqrt(np.max(np.diag(P)))
    want = {'mean': (mean0, tol * cond * msc), 'cov': (P0, tol * np.max(np.abs(P0))),
            'precision': (Lam0, tol * np.max(np.abs(Lam0))),
            'shift': (shift0, tol * cond * (np.max(np.abs(shift0)) + np.max(np.abs(Lam0)) * msc))}
    seen = {}
    order = list(rng.permutation(READS)) + list(rng.choice(READS, size=rng.randint(0, 6)))
    copies = [g]
    for name in order:
        x = copies[rng.randint(len(copies))]
        v = getattr(x, name)
        case.event('reads')
        w, t = want[name]
        case.near(v, w, t, kind + ' state: ' + name, order=order)
        case.observe(v)
        if id(x) == id(g):
            if name in seen:
                case.check(np.array_equal(seen[name], v), name + ' changed between two reads', order=order)
            seen[name] = np.array(v, copy=True)
        if rng.rand() < 0.35:
            c = copies[rng.randint(len(copies))].copy()
            case.check(c is not g, 'copy returned the object itself')
            copies.append(c)
        case.check(x.dim == d, 'dim', got=x.dim, want=d)
    for name in READS:
        v = np.array(getattr(g, name))
        if name in ('cov', 'precision'):
            case.near(v, v.T, 1e-12 * np.max(np.abs(v)), name + ' symmetric')
    case.check(np.array_equal(P, P0) and np.array_equal(mean, mean0) and np.array_equal(Lam, Lam0)
               and np.array_equal(shift, shift0), 'constructor arguments were modified')
    # mutual consistency of the four views, independent of how the state was made
    case.near(g.precision @ g.cov, np.eye(d), 1e-12 * cond * d + 1e-9, 'precision is the inverse of cov')
    case.near(g.shift, g.precision @ g.mean, want['shift'][1], 'shift is precision times mean')
    # Cholesky factor
    L = g.chol_cov
    case.check(np.allclose(L, np.tril(L)), 'chol_cov is lower triangular')
    case.near(L @ L.T, g.cov, 1e-10 * np.max(np.abs(P)), 'chol_cov squares to cov')
    # functional conversions
    m2, c2 = natural_to_moment(Lam, shift)
    case.near(m2, mean0, want['mean'][1], 'natural_to_moment mean')
    case.near(c2, P0, want['cov'][1], 'natural_to_moment cov')
    l2, s2 = moment_to_natural(mean, P)
    case.near(l2, Lam0, want['precision'][1], 'moment_to_natural precision')
    case.near(s2, shift0, want['shift'][1], 'moment_to_natural shift')
    case.check(np.array_equal(P, P0) and np.array_equal(Lam, Lam0), 'conversion modified its arguments')
    # a copy is a state of its own
    c = g.copy()
    views = {n: np.array(getattr(g, n)) for n in READS}
    if rng.rand() < .5:
        c.mean, c.cov = mean0 + 1.0, 2.0 * P0
    else:
        c.precision, c.shift = 2.0 * Lam0, shift0 + 1.0
    for name in READS:
        case.check(np.array_equal(getattr(g, name), views[name]), 'assigning to a copy changed the original', view=name)


@family('C01', quick=160, thorough=8000, needs={'states': 600})
def lookalikes(case, rng):
    """Sequences of states that hardly differ (in one entry, in the mean only, in scale only; also very small and very
    large ones) built one after the other and read in random order: each agrees with the dense inverse of its own
    arguments to rounding error, so that none is mistaken for another."""
    d = rng.randint(1, 6)
    scale = 10.0 ** rng.uniform(-13, 4)
    P = gen.spd(rng, d, .2, 3)
    m = rng.randn(d)
    todo = []
    for _ in range(rng.randint(3, 8)):
        k = rng.randint(5)
        near = 10.0 ** rng.uniform(-9, -2)
        if k == 0:
            P = P * (1 + near)
        elif k == 1:
            i = rng.randint(d)
            P = P.copy()
            P[i, i] *= 1 + near
        elif k == 2:
            m = m * (1 + near)
        elif k == 3:
            m = m[::-1].copy()
        else:
            m = -m
        todo.append((m * np.sqrt(scale), P * scale))
    case.describe(d=d, scale=scale, n=len(todo))
    made = []
    for m_, P_ in todo:
        L = np.linalg.inv(P_)
        L = (L + L.T) / 2
        natural = rng.rand() < .5
        made.append((Gaussian.from_natural(L, L @ m_) if natural else Gaussian(m_, P_), m_, P_, L))
        case.event('states')
        if rng.rand() < .5:
            getattr(made[-1][0], READS[rng.randint(4)])
    for k in rng.permutation(len(made)):
        g, m_, P_, L = made[k]
        for name in rng.permutation(READS):
            want = {'mean': m_, 'cov': P_, 'precision': L, 'shift': L @ m_}[name]
            case.near(getattr(g, name), want, 1e-11, 'look-alike: ' + name, scale=np.abs(want).max())
        case.near(g.nll(m_ + np.sqrt(np.diag(P_))), -ref.logpdf(m_ + np.sqrt(np.diag(P_)), m_, P_), 1e-8, 'look-alike: score', scale=100)
    case.observe(m, P)


@family('C01', quick=160, thorough=8000, needs={'mixed': 150})
def mixed_units(case, rng):
    """States whose coordinates have very different units (six decades): every view agrees with the dense reference
    relative to the scale of each entry, small correlations included; what was given is reported unchanged."""
    d = rng.randint(2, 7)
    u = 10.0 ** rng.uniform(-3, 3, d)
    C = gen.spd(rng, d, .2, 3)
    if rng.rand() < .4:                       # hardly correlated
        C = np.diag(np.diag(C)) + (C - np.diag(np.diag(C))) * 10.0 ** rng.uniform(-8, -1)
    m0 = rng.randn(d)
    P, m = C * np.outer(u, u), m0 * u
    Ci = np.linalg.inv(C)
    Ci = (Ci + Ci.T) / 2
    L, h = Ci / np.outer(u, u), (Ci @ m0) / u
    natural = rng.rand() < .5
    case.describe(d=d, natural=natural, units=u)
    case.event('mixed')
    g = Gaussian.from_natural(L.copy(), h.copy()) if natural else Gaussian(m.copy(), P.copy())
    want = {'mean': (m, u), 'cov': (P, np.outer(u, u)), 'precision': (L, 1 / np.outer(u, u)), 'shift': (h, 1 / u)}
    for name in rng.permutation(READS):
        w, sc = want[name]
        case.near(getattr(g, name) / sc, w / sc, 1e-9, 'mixed units: ' + name)
    off = ~np.eye(d, dtype=bool)
    case.near((np.asarray(g.cov) / P)[off], np.ones(d * d - d), 1e-6, 'mixed units: each correlation',
              scale=np.maximum(1, 1e-9 / np.abs(C))[off])
    for name, w in (('precision', L), ('shift', h)) if natural else (('mean', m), ('cov', P)):
        case.check(np.array_equal(getattr(g, name), w), 'what was given is reported as given', view=name)
    k = g.copy() if rng.rand() < .5 else Gaussian(g.mean, g.cov)
    case.near((k * g).cov / np.outer(u, u), C / 2, 1e-9, 'mixed units: product')
    case.observe(g.precision, g.cov)


@family('C01', quick=160, thorough=8000, needs={'improper': 100, 'balanced': 20})
def improper(case, rng):
    """Natural states with a negative or indefinite precision (also one whose trace cancels): never reported with a positive definite covariance,
    and moments still invert the naturals."""
    d = rng.randint(1, 7)
    q, _ = np.linalg.qr(rng.randn(d, d))
    ev = np.exp(rng.uniform(-2, 2, d)) * np.where(rng.rand(d) < .5, -1, 1)
    ev[rng.randint(d)] = -abs(ev[0]) - 0.05
    ev = ev * 10.0 ** rng.uniform(-3, 3)
    Lam = (q * ev) @ q.T
    Lam = (Lam + Lam.T) / 2
    if d > 1 and rng.rand() < .3:             # balanced: the trace is zero, or nearly so
        case.event('balanced')
        k = rng.randint(3)
        if k == 0:                            # swapped variances
            v = 10.0 ** rng.uniform(-3, 3) * 2.0 ** rng.randint(-3, 4, d)
            Lam = np.diag(v) - np.diag(np.roll(v, 1)) if np.ptp(v) else np.diag([v[0], -v[0]] + [0.0] * (d - 2))
        elif k == 1:                          # correlations only
            Lam = rng.randn(d, d) * 10.0 ** rng.uniform(-3, 3)
            Lam = Lam + Lam.T
            Lam = Lam - np.diag(np.diag(Lam))
        else:
            Lam = Lam - np.eye(d) * (np.trace(Lam) - 10.0 ** rng.uniform(-14, -8)) / d
        ev = np.linalg.eigvalsh(Lam)
    shift = rng.randn(d) * np.abs(ev).max()
    case.describe(d=d, eigenvalues=ev)
    g = Gaussian.from_natural(Lam, shift)
    case.event('improper')
    case.check(ref.min_eig(g.cov) < 0, 'improper state reported with a positive definite covariance',
               precision=Lam, cov=g.cov)
    case.raises(LinAlgError, lambda: validate_covariance(g), 'validate_covariance on an improper state')
    # the library regularises with +1e-10, so stay well away from that
    if np.min(np.abs(ev)) > 1e-3:
        cond = np.max(np.abs(ev)) / np.min(np.abs(ev))
        case.near(g.cov @ Lam, np.eye(d), 1e-6 + 1e-12 * cond, 'cov inverts an indefinite precision')
        case.near(Lam @ g.mean, shift, (1e-6 + 1e-11 * cond) * np.max(np.abs(shift)), 'mean solves precision mean = shift')
    for name in rng.permutation(READS)[:rng.randint(0, 5)]:
        getattr(g, name)
    c = g.copy()
    case.near(c.precision, Lam, 1e-12 * np.abs(Lam).max(), 'precision of a copy of an improper state')
    case.near(c.shift, shift, 1e-12 * np.abs(shift).max(), 'shift of a copy of an improper state')
    case.check(ref.min_eig(c.cov) < 0, 'copy of an improper state reported with a positive definite covariance')
    case.observe(g.cov, g.mean)


@family('C01', quick=60, thorough=800, needs={'flat': 60})
def flat(case, rng):
    """Unit factors and vague marginals in every dimension; equality between states across parametrisations."""
    d = rng.randint(1, 12)
    case.describe(d=d)
    read = Gaussian.as_factor(d)
    for name in rng.permutation(READS)[:rng.randint(1, 5)]:
        getattr(read, name)
    for f in (Gaussian.as_factor(d), GaussianFactor(d), Gaussian.as_factor(d).copy(), read, read.copy(), read.copy().copy()):
        case.event('flat')
        case.check(np.array_equal(f.precision, np.zeros((d, d))) and np.array_equal(f.shift, np.zeros(d)),
                   'unit factor has zero natural parameters')
        case.check(f.dim == d, 'dim')
        case.near(f.mean, np.zeros(d), 1e-12, 'unit factor mean')
        case.near(f.cov, 1e10 * np.eye(d), 1.0, 'unit factor covariance')
    g = Gaussian.as_marginal(d)
    case.near(g.mean, np.zeros(d), 0.0 + 1e-300, 'vague marginal mean')
    case.near(g.cov, 1e10 * np.eye(d), 1.0, 'vague marginal covariance')
    case.near(g.precision, 1e-10 * np.eye(d), 1e-16, 'vague marginal precision')
    # equality
    m, P = gen.gauss_args(rng, d)
    big = 10.0 ** rng.uniform(0, 8) if rng.rand() < .5 else 1.0
    P = P * big
    p1, p2 = Gaussian(m, P), Gaussian.from_natural(np.linalg.inv(P), np.linalg.inv(P) @ m)
    case.check(p1 == p2 and p2 == p1, 'a state equals itself in the other parametrisation')

    def state(m_, P_):                       # in either parametrisation
        return Gaussian(m_, P_) if rng.rand() < .5 else Gaussian.from_natural(np.linalg.inv(P_), np.linalg.inv(P_) @ m_)

    case.check(state(m, P) == state(m, P), 'equal states in any parametrisation')
    k = rng.randint(d)
    m2 = m.copy()
    m2[k] += 0.5 + abs(m[k])
    case.check(not (state(m, P) == state(m2, P)), 'states with different means compare equal', k=k)
    P2 = P.copy()
    P2[k, k] += 0.5 + P[k, k]
    case.check(not (state(m, P) == state(m, P2)), 'states with different covariances compare equal', k=k)
    if d > 1:                                # the same variances, other correlations
        i, j = rng.choice(d, 2, replace=False)
        flip = np.eye(d)
        flip[i, i] = -1
        P3 = np.diag(np.diag(P)) if rng.rand() < .5 else flip @ P @ flip
        if np.any(np.abs(P3 - P) > .02 * np.abs(P) + .02):
            p1, p3 = state(m, P), state(m, P3)
            case.check(not (p1 == p3) and not (p3 == p1), 'states with different correlations compare equal')
            case.event('correlations')
    case.observe(m, P)


@family('C01', quick=80, thorough=3000, needs={'integers': 80})
def integers(case, rng):
    """States given by whole numbers, lists or scalars in some of their arguments (and fractions in the others): every
    view agrees with the dense reference."""
    d = rng.randint(1, 5)
    m = rng.randint(-4, 5, d)
    P = gen.spd(rng, d, .05, 3) if rng.rand() < .7 else np.diag(rng.randint(1, 6, d))
    how = rng.randint(3)
    first = [m, list(map(int, m)), m.astype(np.float32)][how]
    if d == 1 and rng.rand() < .3:
        first = int(m[0])
    natural = rng.rand() < .4
    case.describe(d=d, natural=natural, how=how, whole_matrix=P.dtype.kind == 'i')
    case.event('integers')
    Pi = np.linalg.inv(P)
    Pi = (Pi + Pi.T) / 2
    if natural:
        g = Gaussian(precision_mat=P, shift_vec=first)
        want = {'precision': P, 'shift': m, 'cov': Pi, 'mean': Pi @ m}
    else:
        g = Gaussian(first, P)
        want = {'mean': m, 'cov': P, 'precision': Pi, 'shift': Pi @ m}
    if rng.rand() < .5:
        g = g.copy()
    for name in rng.permutation(READS):
        case.near(np.asarray(getattr(g, name), dtype=float), want[name], 1e-9, 'whole numbers: ' + name, scale=1 + np.abs(want[name]).max())
    case.near(g.nll(want['mean'] + .5), -ref.logpdf(want['mean'] + .5, want['mean'], want['cov']), 1e-7, 'whole numbers: score', scale=10)
    h = g * Gaussian(np.zeros(d), np.eye(d))
    case.near(h.precision, want['precision'] + np.eye(d), 1e-9, 'whole numbers: product', scale=1 + np.abs(want['precision']).max())
    case.near((g ** .5).shift, .5 * np.asarray(want['shift']), 1e-9, 'whole numbers: power', scale=1 + np.abs(want['shift']).max())
    case.observe(want['mean'], want['cov'])


# ---------------------------------------------------------------- C02
def _rand_state(rng, d, proper=True):
    m, P = gen.gauss_args(rng, d)
    s = 10.0 ** rng.uniform(-2, 2)
    P, m = P * s, m * np.sqrt(s)
    if rng.rand() < .5:
        Lam = np.linalg.inv(P)
        Lam = (Lam + Lam.T) / 2
        return Gaussian.from_natural(Lam, Lam @ m), m, P
    return Gaussian(m, P), m, P


def _nat(g):
    return np.array(g.precision), np.array(g.shift)


@family('C02', quick=400, thorough=30000, needs={'products': 400, 'quotients': 400, 'powers': 400})
def algebra(case, rng):
    """Random states in both parametrisations (some views already cached), random expression; oracle: dense
    natural-parameter arithmetic, product moments by independent formula, density identities, operands untouched."""
    d = rng.randint(1, 7) if rng.rand() < .96 else rng.randint(8, 31)
    (a, ma, Pa), (b, mb, Pb), (c, mc, Pc) = [_rand_state(rng, d) for _ in range(3)]
    if d < 7 and rng.rand() < .12:                  # whole numbers, as typed in
        B = rng.randint(-2, 3, (d, d))
        whole = B @ B.T + np.eye(d, dtype=int) * rng.randint(1, 4)
        s = rng.randint(-5, 6, d)
        Pa = np.linalg.inv(whole)
        ma = Pa @ s
        a = Gaussian.from_natural(whole, s)
        if rng.rand() < .5:
            (a, ma, Pa), (b, mb, Pb) = (b, mb, Pb), (a, ma, Pa)
        case.event('whole_numbers')
    for g in (a, b, c):
        for name in READS:
            if rng.rand() < .3:
                getattr(g, name)
    case.describe(d=d)
    Ia, Ib, Ic = np.linalg.inv(Pa), np.linalg.inv(Pb), np.linalg.inv(Pc)
    sa, sb, sc = Ia @ ma, Ib @ mb, Ic @ mc
    big = max(np.abs(Ia).max(), np.abs(Ib).max(), np.abs(Ic).max())
    sbig = max(np.abs(sa).max(), np.abs(sb).max(), np.abs(sc).max())
    tol = 1e-8
    snap = [(g, {n: np.array(getattr(g.copy(), n)) for n in READS}) for g in (a, b, c)]

    def nat(g, I, s, what, mult=1.0):
        case.near(g.precision, I, tol * big * mult, what + ': precision')
        case.near(g.shift, s, tol * sbig * mult, what + ': shift')
        case.observe(g.precision, g.shift)

    ab = a * b
    case.event('products')
    nat(ab, Ia + Ib, sa + sb, 'product')
    pm, pP = ref.product((ma, Pa), (mb, Pb))
    case.near(ab.mean, pm, 1e-6, 'product mean', scale=np.sqrt(np.diag(pP)))
    case.near(ab.cov, pP, 1e-6, 'product cov', scale=np.sqrt(np.outer(np.diag(pP), np.diag(pP))))
    nat(b * a, Ia + Ib, sa + sb, 'commuted product')
    nat((a * b) * c, Ia + Ib + Ic, sa + sb + sc, 'product of three', 3)
    nat(a * (b * c), Ia + Ib + Ic, sa + sb + sc, 'reassociated product', 3)
    q = a / b
    case.event('quotients')
    nat(q, Ia - Ib, sa - sb, 'quotient')
    nat((a * b) / b, Ia, sa, 'quotient undoes product', 3)
    nat((a / b) * b, Ia, sa, 'product undoes quotient', 3)
    nat(a / a, np.zeros((d, d)), np.zeros(d), 'self quotient')
    for p in (rng.uniform(0.05, 3), 1, 2, -rng.uniform(.1, 2), 0, 0.5, 1.0 / rng.uniform(.1, 1), 10.0 ** rng.uniform(-6, -1), rng.randint(3, 20)):
        case.event('powers')
        m = max(1.0, abs(p))
        nat(a ** p, p * Ia, p * sa, 'power', m)
        nat((a * b) ** p, p * (Ia + Ib), p * (sa + sb), 'power of product', 3 * m)
        r = rng.uniform(.1, 2)
        nat((a ** p) * (a ** r), (p + r) * Ia, (p + r) * sa, 'powers add', 4 * m)
        if p > 0.01:
            g = a ** p
            case.near(g.mean, ma, 1e-6, 'power keeps the mean', scale=np.sqrt(np.diag(Pa)))
            case.near(g.cov, Pa / p, 1e-6, 'power divides the covariance', scale=np.sqrt(np.outer(np.diag(Pa), np.diag(Pa))) / p)
            back = g ** (1.0 / p)
            nat(back, Ia, sa, 'power and inverse power', 10)
    unit = Gaussian.as_factor(d)
    nat(a * unit, Ia, sa, 'unit on the right')
    nat(unit * a, Ia, sa, 'unit on the left')
    nat(a / unit, Ia, sa, 'division by the unit')
    nat(unit / a, -Ia, -sa, 'reciprocal')
    # densities, seen through the public score only
    xs = [ma + np.linalg.cholesky(Pa) @ rng.randn(d) for _ in range(4)]
    lp = [(-ab.nll(x)) + a.nll(x) + b.nll(x) for x in xs]
    spread = max(abs(a.nll(x)) + abs(b.nll(x)) for x in xs)
    case.near(np.array(lp) - lp[0], np.zeros(4), 1e-6 * (1 + spread), 'log density of the product minus log densities is constant')
    p = rng.uniform(.2, 2)
    ap = a ** p
    lp = [ap.nll(x) - p * a.nll(x) for x in xs]
    case.near(np.array(lp) - lp[0], np.zeros(4), 1e-6 * (1 + spread), 'log density of the power is the scaled log density')
    for g, views in snap:
        for n, v in views.items():
            case.near(getattr(g, n), v, 1e-9 * (np.abs(v).max() + 1e-300), 'operand ' + n + ' after the operations')


def _message(rng, d):
    """Natural parameters of a message as they occur in inference: not necessarily a density."""
    kind = ['flat', 'mean-only', 'rank-one', 'negative', 'indefinite', 'traceless', 'cross-only', 'integer', 'tiny', 'huge',
            'one-entry'][rng.randint(11)]
    A = rng.randn(d, d)
    A = (A + A.T) / 2
    s = rng.randn(d)
    if kind == 'flat':
        A, s = np.zeros((d, d)), np.zeros(d)
    elif kind == 'mean-only':
        A = np.zeros((d, d))
    elif kind == 'rank-one':
        v = rng.randn(d)
        A = np.outer(v, v)
    elif kind == 'negative':
        A = -gen.spd(rng, d)
    elif kind == 'traceless':
        w = rng.randint(-4, 5, d).astype(float)
        w[-1] -= w.sum()
        A = A - np.diag(np.diag(A)) + np.diag(w)
    elif kind == 'cross-only':
        A = A - np.diag(np.diag(A))
    elif kind == 'integer':
        A = rng.randint(-3, 4, (d, d)).astype(float)
        A = A + A.T
        s = rng.randint(-3, 4, d).astype(float)
    elif kind == 'tiny':
        A, s = A * 1e-9, s * 1e-9
    elif kind == 'huge':
        A, s = A * 1e9, s * 1e9
    elif kind == 'one-entry':
        k = rng.randint(d)
        B = np.zeros((d, d))
        B[k, k] = A[k, k]
        A, s = B, s * (np.arange(d) == k)
    if rng.rand() < .4:
        s = np.zeros(d)
    if rng.rand() < .3:
        A = np.asfortranarray(A)
    return kind, A, s


@family('C02', quick=600, thorough=40000, needs={'messages': 1200})
def messages(case, rng):
    """Arithmetic of messages that are no densities (flat, mean-only, rank-one, negative, indefinite, traceless or purely
    off-diagonal precisions, structural zeros, tiny and huge, C and Fortran order), some with moments already read; oracle:
    natural parameters add, subtract and scale; results are new states; operands keep their bytes."""
    d = rng.randint(1, 6)
    (ka, A, s), (kb, B, r) = _message(rng, d), _message(rng, d)
    case.describe(d=d, kinds=[ka, kb])
    case.event('messages', 2)
    A0, s0, B0, r0 = A.copy(), s.copy(), B.copy(), r.copy()
    a, b = Gaussian.from_natural(A, s), Gaussian.from_natural(B, r)
    if rng.rand() < .3:
        m, P = gen.gauss_args(rng, d)
        a = Gaussian(m, P)
        A0 = np.linalg.inv(P)
        s0 = A0 @ m
        ka = 'moments'
    for g in (a, b):
        if rng.rand() < .5:
            try:
                getattr(g, READS[rng.randint(4)])
            except (LinAlgError, Warning, ValueError):
                pass                     # a singular precision has no moments
    big, sbig = max(np.abs(A0).max(), np.abs(B0).max(), 1e-300), max(np.abs(s0).max(), np.abs(r0).max(), 1e-300)
    p = [0, 1, -1, 2, .5, rng.uniform(-2, 2)][rng.randint(6)]
    for what, got, wP, ws, k in (('product', a * b, A0 + B0, s0 + r0, 1), ('commuted product', b * a, A0 + B0, s0 + r0, 1),
                                 ('quotient', a / b, A0 - B0, s0 - r0, 1), ('power', a ** p, p * A0, p * s0, 2),
                                 ('power of the other', b ** p, p * B0, p * r0, 2), ('square', a * a, 2 * A0, 2 * s0, 2),
                                 ('self quotient', b / b, 0 * B0, 0 * r0, 1), ('round trip', (a * b) / b, A0, s0, 2)):
        case.near(got.precision, wP, 1e-9 * big * k, what + ' of messages: precision', kinds=[ka, kb])
        case.near(got.shift, ws, 1e-9 * sbig * k, what + ' of messages: shift', kinds=[ka, kb])
        case.check(got is not a and got is not b, what + ' returned an operand')
        case.observe(got.precision, got.shift)
    case.near(a.precision, A0, 1e-9 * big, 'operand precision afterwards')
    case.near(a.shift, s0, 1e-9 * sbig, 'operand shift afterwards')
    case.check(np.array_equal(B, B0) and np.array_equal(b.precision, B0) and np.array_equal(b.shift, r0),
               'the other operand afterwards', kind=kb)


@family('C02', quick=80, thorough=6000, needs={'chain_ops': 400})
def factor_ledger(case, rng):
    """A long random history of multiplying factors in and dividing (powers of) them out again, as the message
    passing does; oracle: an independent ledger of natural parameters."""
    d = rng.randint(1, 5)
    state, m, P = _rand_state(rng, d)
    Lam, s = np.linalg.inv(P), np.linalg.solve(P, m)
    pool = [_rand_state(rng, d) for _ in range(3)]
    live = []
    n = rng.randint(6, 40)
    big, sbig = np.abs(Lam).max(), np.abs(s).max()
    for _ in range(n):
        if live and rng.rand() < .5:
            k, p = live.pop(rng.randint(len(live)))
            g, gm, gP = pool[k]
            state = state / (g ** p)
            Lam, s = Lam - p * np.linalg.inv(gP), s - p * np.linalg.solve(gP, gm)
        else:
            k, p = rng.randint(3), rng.uniform(.1, 1.5)
            g, gm, gP = pool[k]
            state = state * (g ** p)
            Lam, s = Lam + p * np.linalg.inv(gP), s + p * np.linalg.solve(gP, gm)
            live.append((k, p))
        if rng.rand() < .3:
            state = state.copy()
        if rng.rand() < .3:
            state.mean
        case.event('chain_ops')
        big, sbig = max(big, np.abs(Lam).max()), max(sbig, np.abs(s).max())
        case.near(state.precision, Lam, 1e-8 * big * n, 'precision along a history of products and quotients')
        case.near(state.shift, s, 1e-8 * sbig * n, 'shift along a history of products and quotients')
    case.describe(d=d, ops=n)
    case.observe(state.precision, state.shift)


# ---------------------------------------------------------------- C03
class _Node:
    def __init__(self, g):
        self.marginal = g


@family('C03', quick=300, thorough=20000, needs={'scores': 1000})
def scores(case, rng):
    """Sequences of random states and truths (vector or 1 x d rows): log score against an independent Cholesky
    log-density, squared error, RMSE, mean NLL and the node metrics (in the documented order)."""
    d, T = rng.randint(1, 7), rng.randint(1, 9)
    if rng.rand() < .04:
        d, T = rng.randint(7, 61), rng.randint(20, 150)
    states, refs, truth = [], [], []
    rows = rng.rand() < .5
    for _ in range(T):
        g, m, P = _rand_state(rng, d)
        far = rng.uniform(0, 4) if rng.rand() < .7 else 10.0 ** rng.uniform(0, 5)     # also confidently wrong states
        x = m + np.linalg.cholesky(P) @ rng.randn(d) * far
        states.append(g)
        refs.append((m, P))
        truth.append(x[None, :] if rows else x)
    unit = np.ones(d)
    if rng.rand() < (.25 if d < 10 else .7):   # in units of their own, small and large
        unit = 10.0 ** (rng.uniform(-9, 9) * (1 if d < 10 else 1.5) + rng.uniform(-1, 1, d))
        refs = [(m * unit, P * np.outer(unit, unit)) for m, P in refs]
        states = [Gaussian(m, P) for m, P in refs]
        truth = [x * unit for x in truth]
    case.describe(d=d, T=T, rows=rows, unit=unit)
    nl, se = [], []
    for g, (m, P), x in zip(states, refs, truth):
        xx = np.ravel(x)
        case.event('scores')
        want = -ref.logpdf(xx, m, P)
        case.near(np.squeeze(g.nll(x)), want, 1e-6 * (1 + abs(want)), 'nll')
        w2 = float(np.sum((m - xx) ** 2))
        case.near(np.squeeze(g.squared_error(x)), w2, 1e-6 * (w2 + 1e-6), 'squared error')
        nl.append(want)
        se.append(w2)
        case.observe(want, w2)
    R, N = np.sqrt(np.mean(se)), np.mean(nl)
    case.near(rmse(states, truth), R, 1e-6 * (R + 1e-3), 'rmse')
    case.near(nll(states, truth), N, 1e-6 * (1 + abs(N)), 'mean nll')
    got = node_metrics([_Node(g) for g in states], truth)
    case.check(len(got) == 2, 'node_metrics returns a pair')
    case.near(got[0], R, 1e-6 * (R + 1e-3), 'node_metrics rmse')
    case.near(got[1], N, 1e-6 * (1 + abs(N)), 'node_metrics nll')
    # scores follow the pairing of states and truths
    if T > 1:
        case.near(rmse(states[::-1], truth[::-1]), R, 1e-6 * (R + 1e-3), 'rmse of the reversed pairing')
    if rng.rand() < .15:                       # a truth that is not a number (or out of any range) cannot be scored away
        k = rng.randint(T)
        lost = [np.array(x) for x in truth]
        lost[k][..., rng.randint(d)] = [np.nan, np.inf][rng.randint(2)]
        with np.errstate(all='ignore'):
            pair = node_metrics([_Node(g) for g in states], lost)
        case.check(not np.isfinite(pair[0]) and not np.isfinite(pair[1]), 'metrics of an undefined truth are not finite', got=pair)
        case.event('undefined_truth')


@family('C03', quick=160, thorough=8000, needs={'mixed': 500})
def mixed_scores(case, rng):
    """States whose components have very different units (up to ten decades, as position and turn rate have): the score
    is still minus the log density, over single points, batches of points and whole trajectories."""
    d, T = rng.randint(2, 7), rng.randint(1, 7)
    u = 10.0 ** rng.uniform(-5, 5, d)
    states, truth, want = [], [], []
    rows = rng.rand() < .5
    for _ in range(T):
        m0, C = rng.randn(d), gen.spd(rng, d, .1, 3)
        m, P = m0 * u, C * np.outer(u, u)
        z = rng.randn(5, d) * rng.uniform(.2, 6)
        w = np.array([-(ref.logpdf(zz, m0, C) - np.log(u).sum()) for zz in z])
        g = Gaussian(m, P)
        for k in range(2):
            case.event('mixed')
            case.near(np.squeeze(g.nll(z[k] * u)), w[k], 1e-6 * (1 + abs(w[k])), 'score across units')
        case.near(np.squeeze(g.nll((z[0] * u)[None, :])), w[0], 1e-6 * (1 + abs(w[0])), 'score of a row')
        case.near(g.nll(z * u), w, 1e-6 * (1 + np.abs(w).max()), 'scores of a batch')
        states.append(g)
        truth.append((z[0] * u)[None, :] if rows else z[0] * u)
        want.append(w[0])
        case.observe(w)
    case.describe(d=d, T=T, units=u)
    case.near(nll(states, truth), np.mean(want), 1e-6 * (1 + np.abs(want).max()), 'mean score across units')


@family('C03', quick=120, thorough=6000, needs={'close': 500})
def close_errors(case, rng):
    """Errors that are small next to the coordinates (a metre in a hundred kilometres), or large: squared error and root
    mean square error to rounding, in double precision, also when the same trajectory is measured in other units."""
    d, T = rng.randint(1, 6), rng.randint(1, 40)
    unit = 10.0 ** rng.uniform(-6, 6)
    where = rng.randn(d) * 10.0 ** rng.uniform(-1, 5)
    size = 10.0 ** rng.uniform(-5, 1)
    case.describe(d=d, T=T, unit=unit, size=size)
    states, truth, se = [], [], []
    for _ in range(T):
        m = (where + rng.randn(d)) * unit
        x = m + rng.randn(d) * size * unit
        states.append(Gaussian(m, gen.spd(rng, d) * unit ** 2))
        truth.append(x)
        w = float(np.sum((m - x) ** 2))
        se.append(w)
        case.event('close')
        case.near(np.squeeze(states[-1].squared_error(x)) / w, 1, 1e-9, 'squared error of a close estimate')
    R = np.sqrt(np.mean(se))
    case.near(rmse(states, truth) / R, 1, 1e-9, 'root mean square error of close estimates')
    case.near(node_metrics([_Node(g) for g in states], truth)[0] / R, 1, 1e-9, 'node metrics of close estimates')
    case.check(np.squeeze(states[0].squared_error(states[0].mean)) == 0, 'no error at the mean')
    case.observe(se)


@family('C03', quick=24, thorough=400, needs={'draws': 100000})
def samples(case, rng):
    """Seeded draws: shape, reproducibility from the global seed, and sample moments within 6.5 standard errors."""
    d = rng.randint(1, 5)
    g, m, P = _rand_state(rng, d)
    if rng.rand() < .5:                       # other units, per component
        u = 10.0 ** rng.uniform(-7, 5) * 10.0 ** (rng.uniform(-1.5, 1.5, d) * (rng.rand() < .5))
        m, P = m * u, P * np.outer(u, u)
        g = Gaussian(m, P)
    elif d > 1 and rng.rand() < .4:           # singular covariance
        B = rng.randn(d, rng.randint(1, d)) * rng.uniform(.3, 3)
        P = B @ B.T
        g = Gaussian(m, P)
        case.event('singular')
    n = 20000
    s = rng.randint(2 ** 31 - 1)
    np.random.seed(s)
    X = g.sample(n)
    np.random.seed(s)
    X2 = g.sample(n)
    case.describe(d=d)
    case.event('draws', n)
    case.check(X.shape == (n, d), 'sample shape', shape=X.shape)
    case.check(np.array_equal(X, X2), 'draws depend only on the seed')
    case.near(X.mean(0), m, 6.5 / np.sqrt(n), 'sample mean', scale=np.sqrt(np.diag(P)))
    S = np.cov(X.T).reshape(d, d)
    se = np.sqrt((np.outer(np.diag(P), np.diag(P)) + P ** 2) / n)
    case.near(S, P, 6.5, 'sample covariance', scale=se)
    case.check(np.abs(np.diff(X[:, 0])).max() > 0, 'draws vary')
    # independent draws: their mean is not the exact mean, no draw repeats another or mirrors it
    case.check(np.abs((X.mean(0) - m) / np.sqrt(np.diag(P) / n)).max() > 1e-7, 'the sample mean varies like a sample mean')
    key = np.sort(X[:, 0] - m[0])
    case.check(np.diff(key).min() > 0, 'all draws differ')
    both = np.sort(np.abs(key))
    case.check(np.diff(both).min() > 1e-14 * (np.sqrt(P[0, 0]) + abs(m[0])), 'no draw is the mirror image of another')
    for k in (1, 2, rng.randint(3, 9)):
        case.check(np.shape(g.sample(k)) == (k, d), 'shape of a few draws', n=k, shape=np.shape(g.sample(k)))
    # many small requests are distributed like a big one
    k = [1, 1, 2, 5][rng.randint(4)]
    n = 1500
    X = np.array([g.sample(k) for _ in range(n)]).reshape(n, k, d)
    Z = X.reshape(n * k, d)
    case.near(Z.mean(0), m, 6.5 / np.sqrt(n * k), 'mean of small requests', scale=np.sqrt(np.diag(P)))
    se = np.sqrt((np.outer(np.diag(P), np.diag(P)) + P ** 2) / (n * k))
    case.near(np.cov(Z.T).reshape(d, d), P, 7, 'covariance of small requests', scale=se)
    if k > 1:
        c = np.mean((X[:, 0] - m) * (X[:, 1] - m), axis=0) / np.diag(P)
        case.near(c, np.zeros(d), 7 / np.sqrt(n), 'draws of one request are independent')
    case.observe(X[:5])


# ---------------------------------------------------------------- C24
@family('C24', quick=400, thorough=30000, needs={'pd': 100, 'not_pd': 100, 'solves': 200, 'singular': 100})
def guards(case, rng):
    """Random symmetric matrices with prescribed spectra: validate_covariance raises LinAlgError exactly when the
    covariance is not positive definite; jittered factor and solve reproduce their matrix; arguments untouched."""
    d = rng.randint(1, 9) if rng.rand() < .95 else rng.randint(9, 41)
    q, _ = np.linalg.qr(rng.randn(d, d))
    ev = np.exp(rng.uniform(-3, 3, d))
    want_pd = rng.rand() < .5
    if want_pd and rng.rand() < .2:                 # badly conditioned, yet well away from the rounding boundary
        ev = 10.0 ** rng.uniform(-12, 0, d)
        case.event('badly_conditioned')
    if not want_pd:
        k = rng.randint(1, d + 1)
        ev[:k] *= -1
        rng.shuffle(ev)
    A = (q * ev) @ q.T * 10.0 ** rng.uniform(-3, 3)
    A = (A + A.T) / 2
    case.describe(d=d, pd=bool(want_pd))
    A0 = A.copy()
    g = Gaussian(rng.randn(d), A)
    if want_pd:
        case.event('pd')
        case.check(validate_covariance(g) is None or True, 'accepts')
    else:
        case.event('not_pd')
        case.raises(LinAlgError, lambda: validate_covariance(g), 'validate_covariance on an indefinite covariance')
        g2 = Gaussian.from_natural(A, rng.randn(d))
        case.raises(LinAlgError, lambda: validate_covariance(g2), 'validate_covariance on an indefinite precision')
    # exactly singular or undefined covariances are not positive definite either
    k = rng.randint(d)
    sing = np.diag(rng.randint(1, 5, d).astype(float))
    how = rng.randint(4)
    if how == 0:
        sing[k, k] = 0.0
    elif how == 1:
        sing = np.ones((d, d)) if d > 1 else np.zeros((1, 1))
    elif how == 2:
        sing = np.zeros((d, d))
    else:
        sing[k, :] = sing[:, k] = np.nan
    case.event('singular')
    case.raises(LinAlgError, lambda: validate_covariance(Gaussian(np.zeros(d), sing)),
                'validate_covariance on a covariance that is ' + ('undefined' if how == 3 else 'singular'))
    big = np.abs(A).max()
    jit = [None, 1e-10, 1e-3, 0.5, 0.0, 0][rng.randint(6)]
    kw = {} if jit is None else {'jitter': jit}
    J = A + (1e-10 if jit is None else jit) * np.eye(d)
    if ref.min_eig(J) > 1e-9 * big:
        L = jittered_chol(A, **kw)
        case.check(np.allclose(L, np.tril(L)), 'lower factor')
        case.near(L @ L.T, J, 1e-11 * np.abs(J).max(), 'jittered_chol factors a + jitter I')
        U = jittered_chol(A, lower=False, **kw)
        case.check(np.allclose(U, np.triu(U)), 'upper factor')
        case.near(U.T @ U, J, 1e-11 * np.abs(J).max(), 'upper jittered_chol factors a + jitter I')
    elif ref.min_eig(J) < -1e-9 * big:
        case.raises(LinAlgError, lambda: jittered_chol(A, **kw), 'jittered_chol of an indefinite matrix')
    cond = np.linalg.cond(J)
    B = rng.randn(d, rng.randint(1, 4))
    B0 = B.copy()
    if cond < 1e8:
        for assume in ('gen', 'pos'):
            case.event('solves')
            X = jittered_solve(A, B, assume_a=assume, **kw)
            case.near(J @ X, B, 1e-13 * cond * d * 100 + 1e-9, 'jittered_solve solves (a + jitter I) x = b')
    case.check(np.array_equal(A, A0) and np.array_equal(B, B0), 'an argument was modified')
    M = rng.randn(d, d)
    M0 = M.copy()
    S = symmetrize(M)
    case.check(np.array_equal(M, M0), 'symmetrize modified its argument')
    case.near(S, (M + M.T) / 2, 1e-15, 'symmetrize')
    case.observe(A, B)
