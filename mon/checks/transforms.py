"""C04 exactness on affine maps, C05 what each transform computes on nonlinear maps."""
import numpy as np

import autograd.numpy as anp

import gen
import ref
from core import family
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform


class Tap:
    """Monitor at the boundary of the user function: what the transform evaluates and what it gets back."""

    def __init__(self, func):
        self.func, self.calls, self.args = func, [], []

    def __call__(self, x, *a, **k):
        y = self.func(x, *a, **k)
        try:
            self.calls.append((np.array(x, dtype=float), np.array(y, dtype=float)))
        except (TypeError, ValueError):      # autograd boxes
            self.calls.append(None)
        return y


def ut_params(rng, d):
    """The parameter sets the repository uses plus random ones with n + lambda > 0."""
    k = rng.randint(7)
    if k == 0:
        return {}
    if k == 6:                             # tightly scaled points, as in the textbooks
        return dict(alpha=float(10.0 ** rng.uniform(-3, 0)), beta=2, kappa=[0, 1, 3 - d][rng.randint(3)] if d < 3 else rng.randint(2))
    if k == 5:
        # neighbours on a grid, so that different settings have equal sums, products and single values
        return dict(alpha=[1, .5, 2][rng.randint(3)], beta=[0, 1, 2, 3][rng.randint(4)], kappa=[0, 1, 2, 3][rng.randint(4)])
    if k == 1:
        return dict(alpha=1, beta=2, kappa=rng.randint(1, 4))
    if k == 2:
        return dict(alpha=1, beta=0., kappa=3 - d)
    if k == 3:
        return dict(alpha=2, beta=1., kappa=3)
    return dict(alpha=rng.uniform(.4, 1.5), beta=rng.uniform(0, 3), kappa=rng.uniform(.2, 3))


def full(params):
    p = dict(alpha=1, beta=2, kappa=1)
    p.update(params)
    return p


def lost_digits(params, d):
    """Tightly scaled points have central weights up to -1e6: so much is lost to rounding in any formulation."""
    p = full(params)
    return max(1.0, 1e-4 * abs(1 - d / (p['alpha'] ** 2 * (d + p['kappa']))))


def make_state(rng, d, m, P):
    if rng.rand() < .5:
        return Gaussian(m.copy(), P.copy())
    Lam = np.linalg.inv(P)
    return Gaussian.from_natural((Lam + Lam.T) / 2, Lam @ m)


def freeze(state):
    return {n: np.array(getattr(state, n)) for n in ('mean', 'cov', 'precision', 'shift')}


def unchanged(case, state, snap, what):
    for n, v in snap.items():
        case.check(np.array_equal(np.asarray(getattr(state, n)), v), what + ': the input state was modified', view=n)


def reused(case, T, fn, state, what):
    """The very same function and state objects again, after the caller has written into the arrays it was given."""
    first = T(fn, state)
    want = [np.array(v) for v in first]
    for v in first:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v += 1.0
    for a, b in zip(T(fn, state), want):
        case.check(np.array_equal(np.asarray(a), b, equal_nan=True), what + ': the same call gives the same result again', got=a, want=b)


class Kept:
    """Results handed out by earlier calls: they belong to the caller and later calls leave them alone."""

    def __init__(self, case):
        self.case, self.items = case, []

    def add(self, *arrays):
        self.items.append([(a, np.array(a)) for a in arrays])

    def verify(self, what):
        for item in self.items:
            for a, v in item:
                self.case.check(np.array_equal(np.asarray(a), v, equal_nan=True), what + ': a result of an earlier call changed')


def cross_dims(rng, dmax=6):
    """Keep the degenerate corners (1-d state, 1-d output) frequent and large dimensions present."""
    if rng.rand() < .03:
        return rng.randint(9, 31), rng.randint(1, 13)
    d = 1 if rng.rand() < .2 else rng.randint(1, dmax + 1)
    m = 1 if rng.rand() < .25 else rng.randint(1, dmax + 1)
    return d, m


def mixed_scales(rng, d, mdim, natural):
    """A unit per component of the state and of the output (a state given by its precision has to be inverted)."""
    w = 3 if natural else 6
    return 10.0 ** rng.uniform(-w, w, d), 10.0 ** rng.uniform(-6, 6, mdim)


def rescaled(fn, si, so):
    return lambda x, t=None, u=None: fn(x / si) * so


def against(case, rng, kind, d, mdim, fn, want, m, P, params, tol):
    """One transform in units that differ from component to component against what it gives in plain units."""
    natural = rng.rand() < .4
    si, so = mixed_scales(rng, d, mdim, natural)
    T = UnscentedTransform(dim=d, **params) if kind == 'UT' else TaylorTransform(dim=d)
    ms, Ps = m * si, P * np.outer(si, si)
    state = Gaussian(ms, Ps)
    if natural:
        L = np.linalg.inv(P)
        state = Gaussian.from_natural((L + L.T) / 2 / np.outer(si, si), L @ m / si)
    mean, cov, cross = T(rescaled(fn, si, so), state)
    case.describe(kind=kind, d=d, m=mdim, params=params, natural=natural, state_units=si, output_units=so)
    case.event('mixed')
    wm, wS, wc = want
    sy = np.sqrt(np.abs(np.diag(wS))) + 1e-2 * (1 + np.abs(wm))
    sx = np.sqrt(np.diag(P))
    case.near(mean / so, wm, tol, 'mixed units: mean', scale=sy)
    case.near(cov / np.outer(so, so), wS, tol, 'mixed units: covariance', scale=np.outer(sy, sy))
    case.near(cross / np.outer(si, so), wc, tol, 'mixed units: cross-covariance', scale=np.outer(sx, sy))
    case.observe(mean, cov)


@family('C04', quick=200, thorough=10000, needs={'mixed': 190})
def mixed_units(case, rng):
    """Affine maps of states whose components, and outputs whose components, have very different units (up to twelve
    decades): exact in every entry relative to its own unit."""
    d, mdim = cross_dims(rng)
    kind = ['UT', 'TT'][rng.randint(2)]
    m, P = gen.gauss_args(rng, d, lo=.1, hi=3)
    A, b = rng.randn(mdim, d), rng.randn(mdim)
    against(case, rng, kind, d, mdim, gen.affine(A, b, ['batch', 'vec'][rng.randint(2)]), (A @ m + b, A @ P @ A.T, P @ A.T),
            m, P, ut_params(rng, d), 1e-6)


@family('C05', quick=200, thorough=10000, needs={'mixed': 190})
def mixed_units_nonlinear(case, rng):
    """Nonlinear maps of states and to outputs with very different units: the documented moments in every entry
    relative to its own unit."""
    d, mdim = cross_dims(rng, 5)
    kind = ['UT', 'TT'][rng.randint(2)]
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=.1, hi=2)
    fn, plain, jac, fkind, raw = gen.smooth_map(rng, d, mdim)
    params = ut_params(rng, d)
    want = ref.unscented(plain, m, P, **full(params)) if kind == 'UT' else ref.linearised(plain, jac, m, P)
    against(case, rng, kind, d, mdim, fn, want, m, P, params, 1e-6 * lost_digits(params, d))


@family('C04', quick=500, thorough=40000, needs={'UT': 100, 'TT': 100, 'MCT': 40})
def affine_exact(case, rng):
    """y = A x + b for every combination of state and output dimension, both calling conventions, random unscented
    parameters, states in either parametrisation, covariances over 6 decades.  Oracle: A m + b, A P A', P A' (for
    Monte Carlo: the same identities relative to the sample actually drawn, seen at the function boundary)."""
    d, mdim = cross_dims(rng)
    kind = ['UT', 'TT', 'UT', 'TT', 'MCT'][rng.randint(5)]
    s = 10.0 ** rng.uniform(-3, 3)
    m, P = gen.gauss_args(rng, d, lo=0.05, hi=5.0)
    m, P = m * s, P * s * s
    A, b = rng.randn(mdim, d), rng.randn(mdim) * s
    style = ['batch', 'vec'][rng.randint(2)]
    if kind == 'MCT':
        style = 'batch'
    tap = Tap(gen.affine(A, b, style))
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    params = ut_params(rng, d)
    n = rng.randint(d + 2, 400)
    T = UnscentedTransform(dim=d, **params) if kind == 'UT' else \
        TaylorTransform(dim=d) if kind == 'TT' else MonteCarloTransform(dim=d, number_of_samples=n)
    case.describe(kind=kind, d=d, m=mdim, style=style, scale=s, params=params if kind == 'UT' else {})
    case.event(kind)
    for rep in range(2):
        tap.calls.clear()
        mean, cov, cross = T(tap, state)
        sy = np.sqrt(np.diag(A @ P @ A.T)) + 1e-9 * s
        sx = np.sqrt(np.diag(P))
        if kind == 'MCT':
            case.check(len(tap.calls) >= 1 and tap.calls[-1] is not None, 'function evaluated on the sample')
            X = tap.calls[-1][0]
            case.check(X.shape == (n, d), 'draws as many samples as asked for', shape=X.shape, n=n)
            m_, P_ = X.mean(0), np.cov(X.T).reshape(d, d)
        else:
            m_, P_ = m, P
        case.near(mean, A @ m_ + b, 1e-7, kind + ' mean of an affine map', scale=sy + 1e-3 * np.abs(A @ m_ + b).max())
        case.near(np.reshape(cov, (mdim, mdim)), A @ P_ @ A.T, 1e-6, kind + ' covariance of an affine map', scale=np.outer(sy, sy))
        case.near(np.reshape(cross, np.shape(cross) or (1, 1)), P_ @ A.T, 1e-6, kind + ' cross-covariance (state rows, output columns)',
                  scale=np.outer(sx, sy))
        case.check(np.shape(cov) == (mdim, mdim), 'covariance shape', got=np.shape(cov))
        unchanged(case, state, snap, kind)
        # callers add noise into the returned arrays: that must not reach the transform or the state
        mean += 1.0
        cov += 7.0
        cross += 3.0
        case.observe(mean, cov)
        unchanged(case, state, snap, kind + ' after in-place use of the result')


def sequence(rng, d, n):
    """Gaussians given to one object one after the other: unrelated ones, equal ones, and ones that hardly differ."""
    out = []
    for _ in range(n):
        k = rng.randint(5) if out else 0
        if k < 2:
            far = 10.0 ** rng.uniform(0, 4) if rng.rand() < .2 else 1.5
            out.append(gen.gauss_args(rng, d, spread=far, lo=0.1, hi=2.0))
            continue
        m, P = out[-1]
        near = 10.0 ** rng.uniform(-7, -2)
        if k == 2:
            m = m + near * rng.randn(d) * (1 + np.abs(m))
        elif k == 3:
            P = P * (1 + near)
        elif len(out) > 1:
            m = out[-2][0]
        out.append((m.copy(), P.copy()))
    return out


@family('C05', quick=300, thorough=30000, needs={'ut': 300})
def unscented(case, rng):
    """Random smooth nonlinear maps: unscented moments against an independent implementation; for quadratic maps the
    mean against the closed form E f(x); output-affine equivariance; one object reused over different states."""
    d, mdim = cross_dims(rng, 5)
    settings = [ut_params(rng, d) for _ in range(rng.randint(1, 5))]
    Ts = [UnscentedTransform(dim=d, **params) for params in settings]
    fn, plain, jac, kind, raw = gen.smooth_map(rng, d, mdim)
    case.describe(d=d, m=mdim, kind=kind, params=settings)
    states = sequence(rng, d, 2 + rng.randint(3))
    kept = Kept(case)
    for rep, (m, P) in enumerate(states):
        if rep and rng.rand() < .3:
            fn, plain, jac, kind, raw = gen.smooth_map(rng, d, mdim)
        k = rng.randint(len(Ts))
        T, p = Ts[k], full(settings[k])
        state = make_state(rng, d, m, P)
        snap = freeze(state)
        mean, cov, cross = T(fn, state)
        case.event('ut')
        kept.verify('UT')
        kept.add(mean, cov, cross)
        rm, rS, rc = ref.unscented(plain, m, P, **p)
        sc = 1.0 + np.sqrt(np.abs(np.diag(rS)))
        lost = lost_digits(settings[k], d)
        case.near(mean, rm, 1e-9 * lost, 'unscented mean', scale=sc + np.abs(rm))
        case.near(cov, rS, 1e-8 * lost, 'unscented covariance', scale=np.outer(sc + np.abs(rm), sc + np.abs(rm)))
        case.near(cross, rc, 1e-8 * lost, 'unscented cross-covariance', scale=(sc + np.abs(rm))[None, :] * np.sqrt(np.diag(P))[:, None])
        case.near(cov, cov.T, 1e-9 * (1 + np.abs(cov).max()), 'covariance symmetric')
        if rng.rand() < .3:
            reused(case, T, fn, state, 'UT')
        unchanged(case, state, snap, 'UT')
        case.observe(mean, cov, cross)
        if kind == 'quadratic':
            case.event('quadratic')
            want = raw['A'] @ m + raw['c'] + raw['scale'] * (np.einsum('kij,ij->k', raw['B'], P + np.outer(m, m)))
            case.near(mean, want, 1e-7 * lost, 'unscented mean is exact for quadratics', scale=1 + np.abs(want).max())
        # output-affine equivariance: T(G f + g) = (G mean + g, G cov G', cross G')
        r = rng.randint(1, 4)
        G, g = rng.randn(r, mdim), rng.randn(r)
        m2, S2, c2 = T(lambda x: fn(x) @ G.T + g, state)
        case.near(m2, G @ mean + g, 1e-7 * lost, 'mean of a transformed output', scale=1 + np.abs(G @ mean + g).max())
        case.near(S2, G @ cov @ G.T, 1e-6 * lost, 'covariance of a transformed output', scale=1 + np.abs(G @ cov @ G.T).max())
        case.near(c2, cross @ G.T, 1e-6 * lost, 'cross-covariance of a transformed output', scale=1 + np.abs(cross @ G.T).max())


@family('C05', quick=300, thorough=20000, needs={'tt': 300, 'flat': 300})
def taylor(case, rng):
    """Random smooth maps: Taylor moments against f(m), J P J', P J' with the analytic Jacobian at the state mean."""
    d, mdim = cross_dims(rng, 5)
    style = ['batch', 'vec'][rng.randint(2)]
    fn, plain, jac, kind, raw = gen.smooth_map(rng, d, mdim, style=style)
    T = TaylorTransform(dim=d)
    case.describe(d=d, m=mdim, kind=kind, style=style)
    kept = Kept(case)
    for rep, (m, P) in enumerate(sequence(rng, d, 2 + rng.randint(4))):
        if rep and rng.rand() < .2:
            fn, plain, jac, kind, raw = gen.smooth_map(rng, d, mdim, style=style)
        state = make_state(rng, d, m, P)
        snap = freeze(state)
        mean, cov, cross = T(fn, state)
        case.event('tt')
        kept.verify('TT')
        kept.add(mean, cov, cross)
        rm, rS, rc = ref.linearised(plain, jac, m, P)
        case.near(mean, rm, 1e-10, 'Taylor mean', scale=1 + np.abs(rm).max())
        case.near(cov, rS, 1e-10, 'Taylor covariance', scale=1 + np.abs(rS).max())
        case.near(cross, rc, 1e-10, 'Taylor cross-covariance', scale=1 + np.abs(rc).max())
        if rng.rand() < .3:
            reused(case, T, fn, state, 'TT')
        unchanged(case, state, snap, 'TT')
        case.observe(mean, cov, cross)
    # maps that are flat at the state mean, altogether or in some outputs
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=0.1, hi=2.0)
    m = np.where(rng.rand(d) < .3, 0.0, m)
    live = rng.rand(mdim) < rng.rand()
    a, c = np.where(live, rng.randn(mdim), 0.0), rng.randn(mdim)
    w = rng.randn(mdim, d)
    even = rng.rand() < .5

    def flat(x, t=None, u=None):
        z = anp.dot(x, w.T) * a
        z = z + c + (anp.dot(x - m, w.T) ** 2 if even else 0.0)
        return z

    state = make_state(rng, d, m, P)
    mean, cov, cross = T(flat, state)
    case.event('flat')
    J = a[:, None] * w
    mean_, c0 = c + J @ state.mean, 1 + np.abs(J).max() ** 2
    case.near(mean, mean_, 1e-9, 'Taylor mean of a map that is flat at the mean', scale=1 + np.abs(mean_).max())
    case.check(np.shape(cov) == (mdim, mdim) and np.shape(cross) == (d, mdim), 'shapes for a flat map',
               cov=np.shape(cov), cross=np.shape(cross))
    case.near(cov, J @ P @ J.T, 1e-9, 'Taylor covariance of a map that is flat at the mean', scale=c0 * (1 + np.abs(P).max()))
    case.near(cross, P @ J.T, 1e-9, 'Taylor cross-covariance of a map that is flat at the mean', scale=c0 * (1 + np.abs(P).max()))
    # the exported finite-difference Jacobian approximates the same matrix (vector-valued calling convention)
    x = rng.randn(d)
    if mdim > 1:
        J = TaylorTransform.numerical_jacobian(plain, x)
        case.near(J, jac(x), 1e-5, 'numerical Jacobian', scale=1 + np.abs(jac(x)).max())


@family('C05', quick=120, thorough=6000, needs={'mc': 120})
def monte_carlo(case, rng):
    """Monte Carlo moments are the unbiased sample moments of the draws seen at the function boundary; the draws come
    from the state (large-sample z tests), differ between calls, and are reproducible from the global seed."""
    d, mdim = cross_dims(rng, 4)
    fn, plain, jac, kind, raw = gen.smooth_map(rng, d, mdim)
    n = [50, 500, 4000][rng.randint(3)] if rng.rand() < .92 else int(rng.randint(20000, 40000))
    T = MonteCarloTransform(dim=d, number_of_samples=n)
    m, P = gen.gauss_args(rng, d, spread=1.5, lo=0.1, hi=2.0)
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    tap = Tap(fn)
    case.describe(d=d, m=mdim, kind=kind, n=n)
    s = rng.randint(2 ** 31 - 1)
    np.random.seed(s)
    out = T(tap, state)
    kept = Kept(case)
    kept.add(*out)
    np.random.seed(s)
    again = T(fn, state)
    for a, b in zip(out, again):
        case.check(np.array_equal(a, b), 'result is a function of the seed')
    third = T(tap, state)
    case.check(not np.array_equal(tap.calls[0][0], tap.calls[-1][0]), 'fresh draws on every call')
    case.event('mc')
    fourth = T(tap, state)
    case.check(not np.array_equal(tap.calls[-2][0], tap.calls[-1][0]), 'fresh draws on every call, for the same arguments too')
    case.check(len(tap.calls) == 3 and not np.array_equal(third[0], fourth[0]), 'fresh moments on every call')
    kept.verify('MCT')
    X, Y = tap.calls[0]
    case.check(X.shape == (n, d), 'sample size', shape=X.shape)
    case.check(len(np.unique(X[:, 0])) == n, 'independent draws never coincide', distinct=len(np.unique(X[:, 0])))
    mirrored = np.isin(np.round(2 * m[0] - X[:, 0], 9), np.round(X[:, 0], 9)).mean()
    case.check(mirrored < .5, 'independent draws are not mirror images of each other', fraction=mirrored)
    dx, dy = X - X.mean(0), Y - Y.mean(0)
    mean, cov, cross = out
    sc = 1 + np.abs(Y).max()
    case.near(mean, Y.mean(0), 1e-9, 'sample mean', scale=sc)
    case.near(np.reshape(cov, (mdim, mdim)), dy.T @ dy / (n - 1), 1e-9, 'sample covariance', scale=sc ** 2)
    case.near(np.reshape(cross, (d, mdim)), dx.T @ dy / (n - 1), 1e-9, 'sample cross-covariance', scale=sc * (1 + np.abs(X).max()))
    case.near(X.mean(0), m, 6.5 / np.sqrt(n), 'draws are centred on the state', scale=np.sqrt(np.diag(P)))
    S = np.cov(X.T).reshape(d, d)
    se = np.sqrt((np.outer(np.diag(P), np.diag(P)) + P ** 2) / n)
    if n >= 500:
        case.near(S, P, 7.5, 'draws have the covariance of the state', scale=se)
    unchanged(case, state, snap, 'MCT')
    case.observe(X[:3], mean)


@family('C05', quick=6, thorough=60, needs={'default_samples': 6})
def monte_carlo_default(case, rng):
    """The default Monte Carlo transform uses ten thousand draws."""
    d = rng.randint(1, 4)
    tap = Tap(gen.smooth_map(rng, d, 2)[0])
    T = MonteCarloTransform(dim=d)
    m, P = gen.gauss_args(rng, d)
    out = T(tap, Gaussian(m, P))
    case.event('default_samples')
    case.describe(d=d)
    case.check(tap.calls[0][0].shape == (10000, d), 'default number of samples', shape=tap.calls[0][0].shape)
    case.observe(out[0])


@family('C04', quick=120, thorough=8000, needs={'degenerate': 100})
def degenerate(case, rng):
    """Affine maps of states whose covariance is singular (some directions known exactly): still exact, no failure."""
    d, mdim = rng.randint(2, 7), rng.randint(1, 6)
    r = rng.randint(0, d)
    F = rng.randn(d, r) if r else np.zeros((d, 1))
    P = F @ F.T
    if rng.rand() < .4:
        keep = rng.rand(d) < .5
        P = np.diag(np.where(keep, rng.uniform(.1, 3, d), 0.0))
    m = rng.randn(d)
    A, b = rng.randn(mdim, d), rng.randn(mdim)
    if rng.rand() < .4:                        # outputs that are constant
        A = A * (rng.rand(mdim, 1) < .6)
    kind = ['UT', 'TT'][rng.randint(2)]
    # the unscented transform factors a singular covariance with an absolute jitter of 1e-10: larger rounding errors are refused
    unit = 1.0 if rng.rand() < .5 else 10.0 ** (rng.uniform(-8, 6) if kind == 'TT' else rng.uniform(-.5, 1))
    m, P, b = m * unit, P * unit ** 2, b * unit
    T = UnscentedTransform(dim=d, **ut_params(rng, d)) if kind == 'UT' else TaylorTransform(dim=d)
    state = Gaussian(m, P)
    case.describe(kind=kind, d=d, m=mdim, rank=int(np.linalg.matrix_rank(P)), unit=unit)
    case.event('degenerate')
    mean, cov, cross = T(gen.affine(A, b, ['batch', 'vec'][rng.randint(2)]), state)
    case.near(mean, A @ m + b, 1e-6, kind + ' mean', scale=unit + np.abs(A @ m + b).max())
    case.near(cov, A @ P @ A.T, 1e-6, kind + ' covariance', scale=unit ** 2 + np.abs(A @ P @ A.T).max())
    case.near(cross, P @ A.T, 1e-6, kind + ' cross-covariance', scale=unit ** 2 + np.abs(P @ A.T).max())
    case.check(np.array_equal(state.cov, P) and np.array_equal(state.mean, m), 'the input state was modified')
    case.observe(mean, cov)
