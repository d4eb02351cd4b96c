"""C06 measurement, C07 time and C08 backward projections of the estimator."""
import numpy as np
from numpy.linalg import LinAlgError

import gen
import ref
from core import family
from checks.transforms import ut_params, full, make_state, freeze, unchanged, cross_dims, Kept
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
from MomentMatching.Estimator import Estimator

POWERS = (0.1, 0.3, 0.5, 0.8, 1, 1.0, 1.0, 1.6)


def any_power(rng):
    return POWERS[rng.randint(len(POWERS))] if rng.rand() < .7 else float(rng.uniform(.1, 2))


class Moments:
    """A transform together with the reference that predicts what it returns."""

    def __init__(self, rng, d, kind=None):
        self.kind = kind or ['UT', 'TT', 'MCT'][rng.choice(3, p=[.45, .4, .15])]
        self.params = ut_params(rng, d) if self.kind == 'UT' else {}
        self.t = UnscentedTransform(dim=d, **self.params) if self.kind == 'UT' else \
            TaylorTransform(dim=d) if self.kind == 'TT' else MonteCarloTransform(dim=d, number_of_samples=600)
        self.seed = rng.randint(2 ** 31 - 1)

    def arm(self):
        np.random.seed(self.seed)

    def expect(self, fn, plain, jac, m, P, state):
        if self.kind == 'UT':
            return ref.unscented(plain, m, P, **full(self.params))
        if self.kind == 'TT':
            return ref.linearised(plain, jac, m, P)
        np.random.seed(self.seed)
        return tuple(np.array(v) for v in self.t(fn, state))


def a_map(rng, d, m):
    """Nonlinear or affine map with plain version and Jacobian."""
    if rng.rand() < .35:
        A, b = rng.randn(m, d), rng.randn(m)
        style = 'batch'
        return gen.affine(A, b, style), (lambda x: A @ x + b), (lambda x: A), 'affine', (A, b)
    fn, plain, jac, kind, raw = gen.smooth_map(rng, d, m)
    return fn, plain, jac, kind, None


def in_units(fn, plain, jac, aff, si, so):
    """The same map with its input measured in units of si and its output in units of so."""
    if np.ndim(si) == 0 and np.ndim(so) == 0 and si == 1 and so == 1:
        return fn, plain, jac, aff
    if aff is not None:
        aff = (aff[0] * so / si, aff[1] * so)
    return (lambda x, t=None, u=None: fn(x / si) * so, lambda x: plain(np.asarray(x) / si) * so,
            lambda x: jac(np.asarray(x) / si) * so / si, aff)


def units(rng):
    return 1.0 if rng.rand() < .6 else 10.0 ** rng.uniform(-4, 4)


def again(proj, *args):
    """Use the estimator once more; a state whose moments are not proper (negative weights) may be refused."""
    try:
        proj(*args)
    except LinAlgError:
        pass


def sdev(P):
    return np.sqrt(np.abs(np.diag(P)))


@family('C06', quick=500, thorough=40000, needs={'meas': 400, 'info_form': 60, 'as_predicted': 10})
def measurement(case, rng):
    """Random prior states, maps, powers, noise and measurements (scalar, 0-d or vector) through every transform.
    Oracle: conditioning of the joint moments with R/power; for affine maps also the information form; covariance
    never above the prior; nothing passed in is modified; same answer twice."""
    d, mdim = cross_dims(rng, 5)
    mom = Moments(rng, d)
    fn, plain, jac, kind, aff = a_map(rng, d, mdim)
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    R = gen.spd(rng, mdim, .05, 4)
    Q = gen.spd(rng, d)
    si, so = units(rng), units(rng)
    fn, plain, jac, aff = in_units(fn, plain, jac, aff, si, so)
    m, P, R = m * si, P * si ** 2, R * so ** 2
    power = any_power(rng)
    est = Estimator(trans_map=None, meas_map=mom.t, trans_noise=Q, meas_noise=R, power=power,
                    damping=[1, .5][rng.randint(2)])
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    far = 2.0 if rng.rand() < .75 else 10.0 ** rng.uniform(0, 6)        # also measurements nobody expects
    y = plain(m) + rng.randn(mdim) * far * so
    k = rng.rand()
    if k < .05:
        y = np.zeros(mdim)
    elif k < .12:                              # exactly what was predicted
        mom.arm()
        y = np.array(mom.t(fn, state)[0])
        case.event('as_predicted')
    meas = y
    if mdim == 1:
        meas = [y, np.squeeze(y), float(y[0])][rng.randint(3)]
    case.describe(transform=mom.kind, d=d, m=mdim, map=kind, power=power, meas=type(meas).__name__, units=(si, so))
    zm, zS, xz = mom.expect(fn, plain, jac, m, P, state)
    S = zS + R / power
    if ref.min_eig(S) < 1e-6 * so ** 2:
        case.trivial('innovation covariance not safely positive')
        return
    R0, y0 = R.copy(), np.array(meas)
    want_m, want_P = ref.condition(m, P, zm, S, xz, y)
    for rep in range(2):
        mom.arm()
        out = est.proj_meas(fn, state, meas)
        case.event('meas')
        sc = sdev(P) + 1e-3 * si
        case.check(np.shape(out.mean) == (d,), 'posterior mean is a vector', shape=np.shape(out.mean))
        case.near(out.mean, want_m, 1e-6, 'posterior mean', scale=sc + np.abs(want_m) + 1e-5 * far * si)
        case.near(out.cov, want_P, 1e-6, 'posterior covariance', scale=np.outer(sc, sc) + np.abs(want_P).max())
        case.near(out.cov, out.cov.T, 1e-12 * (1 + np.abs(out.cov).max()), 'posterior covariance symmetric')
        gap = ref.min_eig((P - out.cov) / np.outer(sc, sc))
        case.check(gap > -1e-7, 'the posterior covariance exceeds the prior in some direction', gap=gap)
        case.check(np.array_equal(R, R0) and est.measurement_noise is R, 'the measurement noise was modified')
        case.check(np.array_equal(np.array(meas), y0), 'the measurement was modified')
        unchanged(case, state, snap, 'proj_meas')
        case.observe(out.mean, out.cov)
    if aff is not None and mom.kind != 'MCT':
        case.event('info_form')
        A, b = aff
        Lam = np.linalg.inv(P) + power * A.T @ np.linalg.inv(R) @ A
        h = np.linalg.solve(P, m) + power * A.T @ np.linalg.solve(R, y - b)
        P2 = np.linalg.inv(Lam)
        case.near(out.cov, P2, 1e-6, 'information form covariance', scale=np.outer(sc, sc))
        case.near(out.mean, P2 @ h, 1e-6, 'information form mean', scale=sc + np.abs(P2 @ h) + 1e-3 * far * si)
    # a state handed out earlier stays what it was when the estimator is used again
    mine = freeze(out)
    m2, P2 = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    again(est.proj_meas, fn, Gaussian(m2 * si, P2 * si ** 2), plain(m2 * si))
    unchanged(case, out, mine, 'proj_meas (the state returned by the previous call)')


@family('C06', quick=120, thorough=6000, needs={'refused': 60})
def measurement_refuses(case, rng):
    """Improper prior states (indefinite covariance) and innovation covariances that are not positive definite are
    refused with LinAlgError by every deterministic transform, and nothing is modified."""
    d, mdim = cross_dims(rng, 4)
    kind = ['UT', 'TT'][rng.randint(2)]
    mom = Moments(rng, d, kind)
    fn, plain, jac, mkind, aff = a_map(rng, d, mdim)
    m, P = gen.gauss_args(rng, d, lo=.3, hi=3)
    R = gen.spd(rng, mdim)
    which = ['state', 'noise'][rng.randint(2)]
    if which == 'state':
        q, _ = np.linalg.qr(rng.randn(d, d))
        ev = rng.uniform(.3, 3, d)
        ev[rng.randint(d)] *= -1
        P = (q * ev) @ q.T
        P = (P + P.T) / 2
    else:
        R = R - 1e4 * np.eye(mdim)
    est = Estimator(None, mom.t, np.eye(d), R, power=any_power(rng), damping=1)
    state = Gaussian(m, P)
    case.describe(transform=kind, d=d, m=mdim, improper=which)
    R0, P0 = R.copy(), P.copy()
    case.event('refused')
    if which == 'noise' and kind == 'UT':
        # an unscented covariance may be large for strong nonlinearities; stay with cases that are clearly negative
        zm, zS, _ = ref.unscented(plain, m, P, **full(mom.params))
        if ref.min_eig(zS + R / est.power) > -1:
            case.trivial('not negative')
            return
    case.raises(LinAlgError, lambda: est.proj_meas(fn, state, plain(m)), 'measurement update with an improper ' + which)
    case.check(np.array_equal(R, R0) and np.array_equal(P, P0), 'an argument was modified')
    case.observe(P, R)


@family('C07', quick=500, thorough=40000, needs={'time': 400, 'pred_power': 60})
def time_update(case, rng):
    """Random states, maps, powers and noise: the projection is the predictive distribution raised to the power
    (mean of the transform, (covariance + Q)/power), symmetric, positive definite, a fresh state, inputs intact."""
    d = 1 if rng.rand() < .2 else rng.randint(1, 6)
    mom = Moments(rng, d)
    fn, plain, jac, kind, aff = a_map(rng, d, d)
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    Q = gen.spd(rng, d, .05, 4)
    si = units(rng)
    fn, plain, jac, aff = in_units(fn, plain, jac, aff, si, si)
    m, P, Q = m * si, P * si ** 2, Q * si ** 2
    power = any_power(rng)
    est = Estimator(mom.t, None, Q, np.eye(2), power=power, damping=[1, .5][rng.randint(2)])
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    xm, xS, _ = mom.expect(fn, plain, jac, m, P, state)
    S = (xS + Q)
    case.describe(transform=mom.kind, d=d, map=kind, power=power, units=si)
    if ref.min_eig(S) < 1e-6 * si ** 2:
        case.trivial('predictive covariance not safely positive')
        return
    Q0 = Q.copy()
    for rep in range(2):
        mom.arm()
        out = est.proj_trans(fn, state)
        case.event('time')
        sc = sdev(S)
        case.check(np.shape(out.mean) == (d,), 'mean is a vector')
        case.near(out.mean, xm, 1e-7, 'projected mean', scale=sc + np.abs(xm))
        case.near(out.cov, S / power, 1e-7, 'projected covariance', scale=np.outer(sc, sc) / power + np.abs(S).max())
        case.near(out.cov, out.cov.T, 1e-12 * (1 + np.abs(out.cov).max()), 'symmetric')
        case.check(ref.is_pd(out.cov), 'positive definite')
        case.check(np.array_equal(Q, Q0) and est.transition_noise is Q, 'the transition noise was modified')
        unchanged(case, state, snap, 'proj_trans')
        case.observe(out.mean, out.cov)
    if aff is not None and mom.kind != 'MCT':
        case.event('pred_power')
        A, b = aff
        pred = Gaussian(A @ m + b, A @ P @ A.T + Q) ** power
        case.near(out.precision, pred.precision, 1e-6 * (si ** -2 + np.abs(pred.precision).max()), 'equals the powered predictive (precision)')
        case.near(out.shift, pred.shift, 1e-6 * (1 / si + np.abs(pred.shift).max()), 'equals the powered predictive (shift)')
    mine = freeze(out)
    m2, P2 = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    again(est.proj_trans, fn, Gaussian(m2 * si, P2 * si ** 2))
    unchanged(case, out, mine, 'proj_trans (the state returned by the previous call)')


@family('C07', quick=80, thorough=4000, needs={'refused': 60})
def time_refuses(case, rng):
    """A projection that is not a proper Gaussian is refused with LinAlgError, never returned."""
    d = rng.randint(1, 6)
    kind = ['UT', 'TT'][rng.randint(2)]
    mom = Moments(rng, d, kind)
    fn, plain, jac, mkind, aff = a_map(rng, d, d)
    m, P = gen.gauss_args(rng, d, lo=.3, hi=3)
    Q = gen.spd(rng, d) - 1e4 * np.eye(d)
    v = rng.randn(d)
    if rng.rand() < .5:
        Q = gen.spd(rng, d) - 1e4 * np.outer(v, v) / (v @ v)
    est = Estimator(mom.t, None, Q, np.eye(1), power=any_power(rng), damping=1)
    xm, xS, _ = mom.expect(fn, plain, jac, m, P, None)
    case.describe(transform=kind, d=d)
    case.event('refused')
    if ref.min_eig(xS + Q) > -1:
        case.trivial('not negative')
        return
    case.raises(LinAlgError, lambda: est.proj_trans(fn, Gaussian(m, P)), 'improper time projection')
    case.observe(P, Q)


def info_back(m, P, A, b, Qp, cm, cP, power):
    """p(x) ~ N(x; m, P) * integral N(x'; A x + b, Qp) N(x'; cm, cP)^power dx', joint information form."""
    d = len(m)
    Qi, Ci = np.linalg.inv(Qp), power * np.linalg.inv(cP)
    L = np.zeros((2 * d, 2 * d))
    h = np.zeros(2 * d)
    L[:d, :d] = np.linalg.inv(P) + A.T @ Qi @ A
    L[:d, d:] = -A.T @ Qi
    L[d:, :d] = -Qi @ A
    L[d:, d:] = Qi + Ci
    h[:d] = np.linalg.solve(P, m) - A.T @ Qi @ b
    h[d:] = Qi @ b + Ci @ cm
    S = np.linalg.inv(L)
    return (S @ h)[:d], S[:d, :d]


@family('C08', quick=600, thorough=40000, needs={'back': 400, 'info_form': 60, 'rts': 60, 'as_predicted': 20})
def backward(case, rng):
    """Random states, next-state beliefs, maps, powers and noise: smoothing of the joint moments towards the next
    belief (the given next marginal for standard EP, predictive times cavity^power otherwise); for affine maps against
    the joint information form; smoothing towards the prediction itself changes nothing; inputs intact."""
    d = 1 if rng.rand() < .2 else rng.randint(1, 6)
    mom = Moments(rng, d)
    fn, plain, jac, kind, aff = a_map(rng, d, d)
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    Q = gen.spd(rng, d, .05, 4)
    si = units(rng)
    fn, plain, jac, aff = in_units(fn, plain, jac, aff, si, si)
    m, P, Q = m * si, P * si ** 2, Q * si ** 2
    power = any_power(rng)
    est = Estimator(mom.t, None, Q, np.eye(2), power=power, damping=[1, .5][rng.randint(2)])
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    xm, xS, xc = mom.expect(fn, plain, jac, m, P, state)
    S = xS + Q / power
    if ref.min_eig(S) < 1e-6 * si ** 2:
        case.trivial('predictive covariance not safely positive')
        return
    cm, cP = gen.gauss_args(rng, d, lo=.3, hi=5)
    cm, cP = cm * si + xm, cP * si ** 2
    cav = make_state(rng, d, cm, cP)
    nm, nP = gen.gauss_args(rng, d, lo=.1, hi=3)
    nm, nP = nm * si + xm, nP * si ** 2
    k = rng.rand()
    if k < .12:                                # beliefs that agree with the prediction in the mean, or in the covariance, only
        mom.arm()
        cm = nm = np.array(mom.t(fn, state)[0])
        cav = make_state(rng, d, cm, cP)
        case.event('as_predicted')
    elif k < .2:
        nP = S * (1 + 1e-3 * (rng.rand() < .5))
    nxt = make_state(rng, d, nm, nP) if rng.rand() < .7 else None
    csnap, nsnap = freeze(cav), freeze(nxt) if nxt is not None else None
    case.describe(transform=mom.kind, d=d, map=kind, power=power, units=si, next_state=nxt is not None)
    Q0 = Q.copy()
    if power == 1 and nxt is not None:
        case.event('rts')
        tm, tP = nm, nP
    else:
        tm, tP = ref.product((xm, S), (cm, cP / power))
    want_m, want_P = ref.rts(m, P, xm, S, xc, tm, tP)
    for rep in range(2):
        mom.arm()
        out = est.proj_back(fn, state, cav, next_state=nxt) if nxt is not None or rng.rand() < .5 else est.proj_back(fn, state, cav)
        case.event('back')
        sc = sdev(P) + 1e-3 * si
        case.check(np.shape(out.mean) == (d,), 'mean is a vector')
        case.near(out.mean, want_m, 1e-6, 'smoothed mean', scale=sc + np.abs(want_m))
        case.near(out.cov, want_P, 1e-6, 'smoothed covariance', scale=np.outer(sc, sc) + np.abs(want_P).max())
        case.near(out.cov, out.cov.T, 1e-12 * (1 + np.abs(out.cov).max()), 'symmetric')
        case.check(np.array_equal(Q, Q0) and est.transition_noise is Q, 'the transition noise was modified')
        unchanged(case, state, snap, 'proj_back')
        unchanged(case, cav, csnap, 'proj_back (cavity)')
        if nxt is not None:
            unchanged(case, nxt, nsnap, 'proj_back (next marginal)')
        case.observe(out.mean, out.cov)
    if aff is not None and mom.kind != 'MCT' and not (power == 1 and nxt is not None):
        case.event('info_form')
        A, b = aff
        im, iP = info_back(m, P, A, b, Q / power, cm, cP, power)
        case.near(out.cov, iP, 1e-6, 'information form covariance', scale=np.outer(sc, sc))
        case.near(out.mean, im, 1e-6, 'information form mean', scale=sc + np.abs(im))
    mine = freeze(out)
    m2, P2 = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    again(est.proj_back, fn, Gaussian(m2 * si, P2 * si ** 2), cav)
    unchanged(case, out, mine, 'proj_back (the state returned by the previous call)')
    if power == 1:
        # a next belief equal to the prediction carries no information
        mom.arm()
        same = est.proj_back(fn, state, cav, next_state=Gaussian(xm, S))
        case.near(same.mean, m, 1e-6, 'prediction as next belief keeps the mean', scale=sc + np.abs(m))
        case.near(same.cov, P, 1e-6, 'prediction as next belief keeps the covariance', scale=np.outer(sc, sc))
        # and the marginal predictive*cavity gives the same answer as leaving the next marginal out
        pm, pP = ref.product((xm, S), (cm, cP))
        mom.arm()
        a = est.proj_back(fn, state, cav, next_state=Gaussian(pm, pP))
        mom.arm()
        b_ = est.proj_back(fn, state, cav)
        case.near(a.mean, b_.mean, 1e-6, 'next marginal and cavity forms agree (mean)', scale=sc + np.abs(b_.mean))
        case.near(a.cov, b_.cov, 1e-6, 'next marginal and cavity forms agree (cov)', scale=np.outer(sc, sc))


# ---------------------------------------------------------------- very different units in one problem
def mixed_problem(rng, mdim=None):
    """A problem in plain units, and a unit for each component of the state (six decades) and of the output."""
    d = rng.randint(1, 7)
    mdim = rng.randint(1, 6) if mdim is None else d
    mom = Moments(rng, d, ['UT', 'TT'][rng.randint(2)])
    fn, plain, jac, kind, aff = a_map(rng, d, mdim)
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=3)
    si = 10.0 ** rng.uniform(-3, 3, d)
    return d, mdim, mom, fn, plain, jac, m, P, si


def scaled_state(rng, m, P, u):
    if rng.rand() < .6:
        return Gaussian(m * u, P * np.outer(u, u))
    L = np.linalg.inv(P)
    return Gaussian.from_natural((L + L.T) / 2 / np.outer(u, u), L @ m / u)


def same_in_units(case, out, u, want_m, want_P, what):
    s = sdev(want_P)
    case.near(out.mean / u, want_m, 1e-6, 'mixed units: %s mean' % what, scale=s + 1e-2 * (1 + np.abs(want_m).max()))
    case.near(out.cov / np.outer(u, u), want_P, 1e-6, 'mixed units: %s covariance' % what, scale=np.outer(s, s) + 1e-2 * np.abs(want_P).max())
    case.observe(want_m, want_P)


@family('C06', quick=160, thorough=8000, needs={'mixed': 100})
def mixed_measurement(case, rng):
    """Measurement updates where every component of the state (six decades) and of the measurement (twelve decades) has
    its own unit: the update in plain units, entry by entry."""
    d, mdim, mom, fn, plain, jac, m, P, si = mixed_problem(rng)
    so = 10.0 ** rng.uniform(-6, 6, mdim)
    R = gen.spd(rng, mdim, .05, 4)
    power = any_power(rng)
    zm, zS, xz = mom.expect(fn, plain, jac, m, P, None)
    S = zS + R / power
    if ref.min_eig(S) < 1e-3:
        case.trivial('innovation covariance not safely positive')
        return
    y = plain(m) + rng.randn(mdim) * 2
    est = Estimator(None, mom.t, np.eye(d), R * np.outer(so, so), power=power, damping=1)
    case.describe(transform=mom.kind, d=d, m=mdim, power=power, state_units=si, measurement_units=so)
    case.event('mixed')
    out = est.proj_meas(in_units(fn, plain, jac, None, si, so)[0], scaled_state(rng, m, P, si), y * so)
    want_m, want_P = ref.condition(m, P, zm, S, xz, y)
    same_in_units(case, out, si, want_m, want_P, 'posterior')


@family('C07', quick=160, thorough=8000, needs={'mixed': 100})
def mixed_prediction(case, rng):
    """Time updates of states whose components have very different units (six decades)."""
    d, _, mom, fn, plain, jac, m, P, si = mixed_problem(rng, 'd')
    Q = gen.spd(rng, d, .05, 4)
    power = any_power(rng)
    xm, xS, _ = mom.expect(fn, plain, jac, m, P, None)
    if ref.min_eig(xS + Q) < 1e-3:
        case.trivial('predictive covariance not safely positive')
        return
    so = 10.0 ** rng.uniform(-3, 3, d)        # the next state may even be described in other units
    est = Estimator(mom.t, None, Q * np.outer(so, so), np.eye(1), power=power, damping=1)
    case.describe(transform=mom.kind, d=d, power=power, state_units=si, next_units=so)
    case.event('mixed')
    out = est.proj_trans(in_units(fn, plain, jac, None, si, so)[0], scaled_state(rng, m, P, si))
    same_in_units(case, out, so, xm, (xS + Q) / power, 'predicted')


@family('C08', quick=160, thorough=8000, needs={'mixed': 100})
def mixed_backward(case, rng):
    """Backward projections of states whose components have very different units (six decades)."""
    d, _, mom, fn, plain, jac, m, P, si = mixed_problem(rng, 'd')
    Q = gen.spd(rng, d, .05, 4)
    power = any_power(rng)
    xm, xS, xc = mom.expect(fn, plain, jac, m, P, None)
    S = xS + Q / power
    if ref.min_eig(S) < 1e-3:
        case.trivial('predictive covariance not safely positive')
        return
    so = 10.0 ** rng.uniform(-3, 3, d)
    cm, cP = gen.gauss_args(rng, d, lo=.3, hi=5)
    nm, nP = gen.gauss_args(rng, d, lo=.1, hi=3)
    if rng.rand() < .2:                             # beliefs far from what was predicted
        cm, nm = cm * 10.0 ** rng.uniform(2, 5), nm * 10.0 ** rng.uniform(2, 5)
    cm, nm = cm + xm, nm + xm
    est = Estimator(mom.t, None, Q * np.outer(so, so), np.eye(1), power=power, damping=1)
    given = rng.rand() < .5
    tm, tP = (nm, nP) if power == 1 and given else ref.product((xm, S), (cm, cP / power))
    case.describe(transform=mom.kind, d=d, power=power, state_units=si, next_units=so, next_state=bool(given))
    case.event('mixed')
    out = est.proj_back(in_units(fn, plain, jac, None, si, so)[0], scaled_state(rng, m, P, si), scaled_state(rng, cm, cP, so),
                        next_state=scaled_state(rng, nm, nP, so) if given else None)
    want_m, want_P = ref.rts(m, P, xm, S, xc, tm, tP)
    same_in_units(case, out, si, want_m, want_P, 'smoothed')
