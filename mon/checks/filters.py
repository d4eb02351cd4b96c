"""C18-C23: Gaussian filters and smoothers, iterated filters, causality and reuse, change of units."""
import numpy as np
from numpy.linalg import LinAlgError

import gen
import ref
from core import family
from checks.transforms import make_state, freeze, unchanged, cross_dims, Kept
from checks.estimator import Moments, a_map, sdev
from checks.ep import timed_system
from eplab import (Model, any_dt, any_model, benchmark_model, chain, estimator_for, lg_model, margin, smooth_model, transforms)
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform
from ExpectationPropagation.Iterations import ep_fwd_back_updates, kalman_filter as graph_filter
from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
from Systems import DynamicSystemModel, GaussianNoise


def states_near(case, got, want, tol, what, **kw):
    case.check(len(got) == len(want), what + ': number of states', got=len(got), want=len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        m, P = (w.mean, w.cov) if hasattr(w, 'mean') else w
        case.check(np.shape(g.mean) == np.shape(m), what + ': mean is a vector', shape=np.shape(g.mean))
        case.near(gen.gdist(g.mean, g.cov, m, P), 0, tol, what, step=i, **kw)


# ---------------------------------------------------------------- C18
@family('C18', quick=200, thorough=12000, needs={'filtered': 800, 'smoothed': 600, 'drifting': 40})
def kalman_exact(case, rng):
    """Time- and input-dependent linear models, random step length, start time, input and prior override, unscented or
    Taylor moments (possibly different ones for the measurement): filtered states equal p(x_i | y_1..y_i) and smoothed
    states p(x_i | y_1..y_T) from dense conditioning; times and inputs seen at the function boundary."""
    d, m, T = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 12)
    if rng.rand() < .15:
        T = 1
    if rng.rand() < .07:
        d, m, T = gen.sizes(rng, 4, 4, 12, .4, .6)
    dt = any_dt(rng)
    system, log, M = timed_system(rng, d, m, dt, T)
    ys = gen.odd_measurements(rng, [rng.randn(m) * 2 for _ in range(T)])
    shape = rng.randint(3)
    given = [y if shape == 0 else y[None, :] if shape == 1 else (np.array(y[0]) if m == 1 else y) for y in ys]
    te, ue = np.zeros(m), np.zeros(m)
    if rng.rand() < .4:                        # sensors that drift with time and respond to the input
        te, ue = rng.randn(m) * .5, rng.randn(m)
    rest = rng.rand() < .08                    # a system at rest: the first measurements are exactly what was predicted
    if rest:
        for k in ('b', 'c', 'e', 'm0'):
            M[k][...] = 0
        te[...], ue[...] = 0, 0
        n = rng.randint(1, T + 1)
        ys = [0 * y if i < n else y for i, y in enumerate(ys)]
        given = [y if shape == 0 else y[None, :] if shape == 1 else (np.array(y[0]) if m == 1 else y) for y in ys]
        case.event('at_rest')
    sensor = system.measurement

    def drifting(x, t=None, u=None):
        return sensor(x) + (0.0 if t is None else t) * te + (0.0 if u is None else u) * ue
    if te.any():
        system.measurement = drifting
        case.event('drifting')
    tk, tt, mt = transforms(rng, d, ['UT', 'TT'][rng.randint(2)])
    if rng.rand() < .4:
        mt = transforms(rng, d, ['UT', 'TT'][rng.randint(2)])[1]
    ks = KalmanFilterSmoother(tt, system, mt) if rng.rand() < .7 else KalmanFilterSmoother(tt, system)
    t0 = [0.0, 0.0, float(rng.uniform(-3, 10)), -dt * rng.randint(1, 5)][rng.randint(4)]
    if rng.rand() < .08:                       # far from the origin, say a time stamp
        t0 = float(10.0 ** rng.uniform(1, 5))
        M['B'] *= 5 / t0
        te *= 5 / t0
    u = [None, None, float(rng.randn()), 0.0][rng.randint(4)]
    kw, skw = {}, {}
    if u is not None:
        kw['u'] = skw['u'] = u
    if t0 or rng.rand() < .2:
        kw['t_zero'] = skw['t_zero'] = t0
    m0, P0 = M['m0'], M['P0']
    if rng.rand() < (0 if rest else .4):
        m0, P0 = gen.gauss_args(rng, d)
        kw['prior_state'] = Gaussian(m0, P0)
    uu = 0.0 if u is None else u
    ts = [t0 + i * dt for i in range(T)]
    As, bs = [M['A'] + t * M['B'] for t in ts], [M['b'] + uu * M['c']] * T
    args = (m0, P0, As, bs, [M['Q']] * T, [M['C']] * T, [M['e'] + t * te + uu * ue for t in ts], [M['R']] * T, ys)
    case.describe(d=d, m=m, T=T, dt=dt, t_zero=t0, u=u, transform=tk, drifting=bool(te.any()), prior='prior_state' in kw, shape=int(shape))
    Q0, R0 = M['Q'].copy(), M['R'].copy()
    log.clear()
    filt = ks.kalman_filter(given, **kw)
    times = []
    for t, u_, _ in log:
        case.check(u_ == uu, 'input seen by the transition', got=u_, want=uu)
        if not times or abs(times[-1] - t) > 1e-9:
            times.append(t)
    case.check(all(r == u and (r is None) == (u is None) for _, r in log.raw), 'input handed to the transition as given', want=u)
    case.check(len(times) == T and np.allclose(times, ts), 'times seen by the transition in the filter', got=times[:5], want=ts[:5])
    case.event('filtered', T)
    for i in range(T) if T < 20 else sorted(rng.choice(T, 8, replace=False)):
        pm, pP = gen.lg_posterior(*args, upto=i + 1)[i]
        case.near(gen.gdist(filt[i].mean, filt[i].cov, pm, pP), 0, 1e-7, 'filtered state', step=i)
    keep = [(np.array(s.mean), np.array(s.cov)) for s in filt]
    log.clear()
    smooth = ks.kalman_smoother(filt, **skw)
    times = []
    for t, u_, _ in log:
        case.check(u_ == uu, 'input seen by the smoother', got=u_, want=uu)
        if not times or abs(times[-1] - t) > 1e-9:
            times.append(t)
    case.check(all(r == u and (r is None) == (u is None) for _, r in log.raw), 'input handed to the smoother as given', want=u)
    case.check(np.allclose(times, ts[:0:-1]), 'times seen by the transition in the smoother', got=times[:5], want=ts[:0:-1][:5])
    case.event('smoothed', T)
    states_near(case, smooth, gen.lg_posterior(*args), 1e-7, 'smoothed state')
    case.check(all(np.array_equal(a, s.mean) and np.array_equal(b, s.cov) for (a, b), s in zip(keep, filt)),
               'smoothing modified the filtered states')
    case.check(np.array_equal(smooth[-1].mean, filt[-1].mean) and np.array_equal(smooth[-1].cov, filt[-1].cov),
               'the last smoothed state is the last filtered state')
    for a, b in zip(smooth, filt):
        s = np.sqrt(np.diag(b.cov))
        case.check(ref.min_eig((b.cov - a.cov) / np.outer(s, s)) > -1e-8, 'smoothing increased the uncertainty of a linear model')
    case.check(np.array_equal(system.system_noise.cov, Q0) and np.array_equal(system.measurement_noise.cov, R0), 'a noise covariance was modified')
    for s in smooth:
        case.observe(s.mean, s.cov)


# ---------------------------------------------------------------- C19
@family('C19', quick=300, thorough=20000, needs={'predict': 300, 'correct': 300, 'smooth': 300, 'as_predicted': 10})
def steps(case, rng):
    """Single predict / correct / smooth steps on random nonlinear maps with every transform against independent
    moments and Gaussian conditioning; inputs, noises and states untouched; fresh results on repeated calls."""
    d, mdim = cross_dims(rng, 4)
    mom = Moments(rng, d)
    fn, plain, jac, kind, _ = a_map(rng, d, d)
    hn, hplain, hjac, hkind, _ = a_map(rng, d, mdim)
    Q, R = gen.spd(rng, d, .05, 3), gen.spd(rng, mdim, .05, 3)
    m, P = gen.gauss_args(rng, d, 1.5, .1, 3)
    if rng.rand() < .3:                        # everything in units of metres instead of micrometres, or the reverse
        return steps_in_units(case, rng, d, mdim, (fn, plain, jac, kind), (hn, hplain, hjac, hkind), Q, R, m, P)
    # both functions may depend on time and input
    tv, uv = 0.0, None
    df, eh = np.zeros((2, d)), np.zeros((2, mdim))
    if rng.rand() < .6:
        tv = float(rng.uniform(-2, 5))
        uv = None if rng.rand() < .3 else float(rng.randn())
        df, eh = rng.randn(2, d), rng.randn(2, mdim)
    seen = []

    def driven(func, g):
        def call(x, t=None, u=None):
            seen.append((t, u))
            return func(x) + (0.0 if t is None else t) * g[0] + (0.0 if u is None else u) * g[1]
        return call
    fp0, hp0, off = plain, hplain, np.array([tv, 0.0 if uv is None else uv])
    plain, hplain = (lambda x: fp0(x) + off @ df), (lambda x: hp0(x) + off @ eh)
    system = DynamicSystemModel(d, mdim, driven(fn, df), driven(hn, eh), GaussianNoise(d, Q), GaussianNoise(mdim, R), Gaussian(m, P))
    fn, hn = (lambda x, fn=fn: fn(x) + off @ df), (lambda x, hn=hn: hn(x) + off @ eh)
    ks = KalmanFilterSmoother(mom.t, system) if rng.rand() < .5 else KalmanFilterSmoother(mom.t, system, mom.t)
    state = make_state(rng, d, m, P)
    snap = freeze(state)
    Q0, R0 = Q.copy(), R.copy()
    xm, xS, xc = [np.array(v) for v in mom.expect(fn, plain, jac, m, P, state)]
    zm, zS, zc = [np.array(v) for v in mom.expect(hn, hplain, hjac, m, P, state)]
    S, Z = xS + Q, zS + R
    case.describe(transform=mom.kind, d=d, m=mdim, f=kind, h=hkind, t=tv, u=uv)
    kept = Kept(case)
    far = 1.0 if rng.rand() < .8 else 10.0 ** rng.uniform(2, 6)      # outliers
    y = hplain(m) + rng.randn(mdim) * far
    nm, nP = gen.gauss_args(rng, d, 1, .1, 2)
    nm = nm * far + xm
    if rng.rand() < .15:                       # measurements and beliefs that are exactly what was predicted
        mom.arm()
        y = np.array(mom.t(lambda x: system.measurement(x, t=tv, u=uv), state)[0])
        mom.arm()
        nm = np.array(mom.t(lambda x: system.transition(x, t=tv, u=uv), state)[0])
        case.event('as_predicted')
    nxt = make_state(rng, d, nm, nP)
    nsnap = freeze(nxt)
    for rep in range(2):
        out = state
        if ref.min_eig(S) > 1e-6:
            mom.arm()
            out = ks.predict(state, t=tv, u=uv)
            case.event('predict')
            sc = sdev(S) + 1e-3
            case.near(out.mean, xm, 1e-7, 'predicted mean', scale=sc + np.abs(xm))
            case.near(out.cov, S, 1e-7, 'predicted covariance', scale=np.outer(sc, sc) + np.abs(S).max())
            case.observe(out.mean, out.cov)
            mom.arm()
            out = ks.smooth(state, nxt, t=tv, u=uv)
            case.event('smooth')
            wm, wP = ref.rts(m, P, xm, S, xc, nm, nP)
            sc = sdev(P)
            case.near(out.mean, wm, 1e-6, 'smoothed mean', scale=sc + np.abs(wm))
            case.near(out.cov, wP, 1e-6, 'smoothed covariance', scale=np.outer(sc, sc) + np.abs(wP).max())
            case.observe(out.mean, out.cov)
        if ref.min_eig(Z) > 1e-6:
            mom.arm()
            out = ks.correct(state, np.squeeze(y), t=tv, u=uv)
            case.event('correct')
            wm, wP = ref.condition(m, P, zm, Z, zc, y)
            sc = sdev(P)
            case.near(out.mean, wm, 1e-6, 'corrected mean', scale=sc + np.abs(wm))
            case.near(out.cov, wP, 1e-6, 'corrected covariance', scale=np.outer(sc, sc) + np.abs(wP).max())
            case.observe(out.mean, out.cov)
        case.check(all(e == (tv, uv) for e in seen), 'time and input reach the functions as given', want=(tv, uv))
        # the same object used for another state in between leaves earlier results alone
        m2, P2 = gen.gauss_args(rng, d, 1.5, .1, 3)
        other = Gaussian(m2, P2)
        for call in ((lambda: ks.predict(other, t=tv, u=uv)), (lambda: ks.correct(other, np.squeeze(y), t=tv, u=uv)),
                     (lambda: ks.smooth(other, nxt, t=tv, u=uv))):
            kept.verify('filter step')
            res = call()
            kept.add(res.mean, res.cov, out.mean, out.cov)
        kept.verify('filter step')
        unchanged(case, state, snap, 'filter step')
        unchanged(case, nxt, nsnap, 'filter step (next state)')
        case.check(np.array_equal(Q, Q0) and np.array_equal(R, R0), 'a noise covariance was modified')


def steps_in_units(case, rng, d, mdim, F, H, Q, R, m, P):
    """One step of each kind in other units is the same step."""
    spread = [1, 4][rng.randint(2)]
    su = 10.0 ** (rng.uniform(-6, 6) + rng.uniform(-1, 1, d))
    so = 10.0 ** (rng.uniform(-6, 6) + rng.uniform(-spread, spread, mdim))
    SU, SO = np.outer(su, su), np.outer(so, so)
    kind = ['UT', 'TT'][rng.randint(2)]
    params = dict(alpha=1, beta=rng.randint(3), kappa=rng.randint(1, 4))
    T = UnscentedTransform(dim=d, **params) if kind == 'UT' else TaylorTransform(dim=d)
    f = lambda x, t=None, u=None: F[0](x / su) * su
    h = lambda x, t=None, u=None: H[0](x / su) * so
    system = DynamicSystemModel(d, mdim, f, h, GaussianNoise(d, Q * SU), GaussianNoise(mdim, R * SO), Gaussian(m * su, P * SU))
    ks = KalmanFilterSmoother(T, system)

    def moments(G):
        if kind == 'TT':
            return ref.linearised(G[1], G[2], m, P)
        return ref.unscented(G[1], m, P, **params)
    xm, xS, xc = moments(F)
    zm, zS, zc = moments(H)
    case.describe(transform=kind, d=d, m=mdim, state_units=su, output_units=so)
    state = Gaussian(m * su, P * SU)
    y = H[1](m) + rng.randn(mdim)
    nm, nP = gen.gauss_args(rng, d, 1, .1, 2)
    nm = nm + xm
    for name, out, (wm, wP) in (
            ('predict', ks.predict(state), (xm, xS + Q)),
            ('correct', ks.correct(state, np.squeeze(y * so)), ref.condition(m, P, zm, zS + R, zc, y)),
            ('smooth', ks.smooth(state, Gaussian(nm * su, nP * SU)), ref.rts(m, P, xm, xS + Q, xc, nm, nP))):
        case.event(name)
        sc = sdev(P) if name != 'predict' else sdev(wP)
        case.near(np.asarray(out.mean) / su, wm, 1e-6, name + ' in other units: mean', scale=sc + np.abs(wm))
        case.near(np.asarray(out.cov) / SU, wP, 1e-6, name + ' in other units: covariance', scale=np.outer(sc, sc) + 1e-3 * np.abs(wP).max())
        case.observe(out.mean, out.cov)


@family('C19', quick=100, thorough=6000, needs={'runs': 60})
def recursion(case, rng):
    """Whole nonlinear and benchmark runs against an independent recursion built on the reference moments."""
    if rng.rand() < .7:
        model = smooth_model(rng, Tmax=10)
        fp, fj, hp, hj = model.plain
        fs = [(fp, fj)] * model.T
    else:
        model = benchmark_model(rng, 'UNGM', Tmax=15)
        fs = [((lambda x, t=t: .5 * x + 25 * x / (1 + x ** 2) + 8 * np.cos(1.2 * t)),
               (lambda x, t=t: np.atleast_2d(.5 + 25 * (1 - x ** 2) / (1 + x ** 2) ** 2))) for t in range(model.T)]
        hp, hj = (lambda x: x ** 2 / 20), (lambda x: np.atleast_2d(x / 10))
    kind = ['UT', 'TT'][rng.randint(2)]
    tk, tt, mt = transforms(rng, model.d, kind)
    ks = KalmanFilterSmoother(tt, model.system, mt)
    case.describe(transform=kind, **model.describe())
    Q, R = model.system.system_noise.cov, model.system.measurement_noise.cov
    kap = {id(tt): 3, id(mt): 2}

    def moments(t, plain, jac, m, P):
        return ref.unscented(plain, m, P, 1, 2, kap[id(t)]) if kind == 'UT' else ref.linearised(plain, jac, m, P)
    try:
        filt = ks.kalman_filter([np.asarray(y) for y in model.ys])
    except LinAlgError:
        filt = None
    m, P = np.array(model.system.init_state.mean), np.array(model.system.init_state.cov)
    out, pred = [], []
    ok = True
    for y, (f, fj) in zip(model.ys, fs):
        xm, xS, xc = moments(tt, f, fj, m, P)
        pred.append((xm, xS + Q, xc))
        zm, zS, zc = moments(mt, hp, hj, xm, xS + Q)
        m, P = ref.condition(xm, xS + Q, zm, zS + R, zc, np.ravel(y))
        P = (P + P.T) / 2
        if margin(P) < 1e-7:
            ok = False
            break
        out.append((m, P))
    if not ok:
        case.trivial('the reference filter lost positive definiteness')
        return
    case.check(filt is not None, 'the filter failed where the reference recursion does not')
    case.event('runs')
    states_near(case, filt, out, 1e-6, 'nonlinear filter')
    sm = [out[-1]]
    for i in range(model.T - 2, -1, -1):
        m, P = out[i]
        xm, xS, xc = pred[i + 1]
        sm.insert(0, ref.rts(m, P, xm, xS, xc, *sm[0]))
    if min(margin(P) for _, P in sm) < 1e-7:
        return
    smooth = ks.kalman_smoother(filt)
    states_near(case, smooth, sm, 1e-6, 'nonlinear smoother')
    case.check(np.array_equal(smooth[-1].mean, filt[-1].mean) and np.array_equal(smooth[-1].cov, filt[-1].cov),
               'the last smoothed state is the last filtered state')
    for s in smooth:
        case.observe(s.mean, s.cov)


# ---------------------------------------------------------------- iterated filters
def nl_model(rng, Tmax=6, timed=False):
    """Smooth model with known Jacobians; optionally a time-dependent drift.  -> (system, f(x,t), F(x,t), h, H, ys)"""
    d, m, T = [rng.randint(1, 4) if rng.rand() < .8 else rng.randint(4, 7) for _ in range(2)] + [rng.randint(1, Tmax + 1)]
    f, fp, fj, fk, fr = gen.smooth_map(rng, d, d, ['tanh', 'sin'][rng.randint(2)], scale=.3)
    fr['A'][...] = gen.stable(rng, d, .4, .95)
    style = ['batch', 'vec'][rng.randint(2)]
    h, hp, hj, hk, hr = gen.smooth_map(rng, d, m, ['tanh', 'sin', 'quadratic', 'mixed'][rng.randint(4)], scale=.25, style=style)
    drift = rng.randn(d) * .5
    Q, R = gen.spd(rng, d, .05, 1), gen.spd(rng, m, .2, 2)
    m0, P0 = gen.gauss_args(rng, d, 1, .2, 1.5)
    dt = any_dt(rng)

    hdrift, push, hpush = rng.randn(m) * .5 * (rng.rand() < .5), rng.randn(d), rng.randn(m) * (rng.rand() < .5)

    # the filters are given the model in units of their own, one per component of the state and of the measurement
    su = 10.0 ** (rng.uniform(-5, 5) + rng.uniform(-1.5, 1.5, d)) if rng.rand() < .3 else np.ones(d)
    w = 10.0 ** (rng.uniform(-3, 3) + rng.uniform(-3, 3, m)) if rng.rand() < .3 else np.ones(m)

    def ft(x, t=None, u=None):
        return (f(x / su) + (0.0 if t is None else t) * drift + (0.0 if u is None else u) * push) * su

    def ht(x, t=None, u=None):
        return (h(x / su) + (0.0 if t is None else t) * hdrift + (0.0 if u is None else u) * hpush) * w

    def lift(m, P):
        return Gaussian(m * su, P * np.outer(su, su))

    def plain(states):
        return [Gaussian(s.mean / su, s.cov / np.outer(su, su)) for s in states]
    system = DynamicSystemModel(d, m, ft, ht, GaussianNoise(d, Q * np.outer(su, su)), GaussianNoise(m, R * np.outer(w, w)),
                                lift(m0, P0), dt=dt)
    x = m0 + np.linalg.cholesky(P0) @ rng.randn(d)
    ys = []
    for i in range(T):
        x = fp(x) + i * dt * drift + np.linalg.cholesky(Q) @ rng.randn(d)
        ys.append(hp(x) + i * dt * hdrift + np.linalg.cholesky(R) @ rng.randn(m))
    ys = gen.odd_measurements(rng, ys)
    return dict(system=system, d=d, m=m, T=T, dt=dt, Q=Q, R=R, m0=m0, P0=P0, ys=ys, style=style, kinds=fk + '/' + hk,
                given=[y * w for y in ys], w=w, su=su, lift=lift, plain=plain,
                f=lambda x, t, u=0.0: fp(x) + t * drift + u * push, F=lambda x, t: fj(x),
                h=lambda x, t, u=0.0: hp(x) + t * hdrift + u * hpush, H=hj)


def ys_shapes(rng, ys):
    k = rng.randint(2)
    return [y if k == 0 else y[None, :] for y in ys]


@family('C20', quick=160, thorough=10000, needs={'updates': 400, 'stationary': 20})
def iekf(case, rng):
    """Iterated EKF on random smooth models with vector measurements and time-dependent dynamics: after k iterations
    every update equals k Gauss-Newton steps computed in information form; one iteration is the extended Kalman
    filter; converged updates are stationary points of the local MAP objective."""
    M = nl_model(rng)
    n = rng.randint(1, 12)
    case.describe(d=M['d'], m=M['m'], T=M['T'], iterations=n, style=M['style'], kinds=M['kinds'], state_units=M['su'], units=M['w'])
    filt = IEKF(M['system'], M['d'])
    ys = ys_shapes(rng, M['given'])
    kw = {}
    t0 = 0.0
    m, P = M['m0'], M['P0']
    if rng.rand() < .3:
        t0 = kw['t_zero'] = float(rng.uniform(0, 3))
    if rng.rand() < .3:
        m, P = gen.gauss_args(rng, M['d'], 1, .2, 1.5)
        kw['prior_state'] = M['lift'](m, P)
    u = 0.0
    if rng.rand() < .3:
        u = kw['u'] = float(rng.randn())
    if rng.rand() < .4:                           # previous use with another number of iterations
        filt(ys[:1], num_iter=rng.randint(1, 12))
    raw = filt(ys, num_iter=n, **kw)
    got = M['plain'](raw)
    case.check(len(got) == M['T'], 'one state per measurement')
    Ri = np.linalg.inv(M['R'])
    for i, y in enumerate(M['ys']):
        t = t0 + i * M['dt']
        F = M['F'](m, t)
        pm, pP = M['f'](m, t, u), F @ P @ F.T + M['Q']
        Pi = np.linalg.inv(pP)
        x = pm
        for k in range(n):
            H = M['H'](x)
            L = Pi + H.T @ Ri @ H
            new = np.linalg.solve(L, Pi @ pm + H.T @ Ri @ (y - M['h'](x, t, u) + H @ x))
            step, x = np.abs(new - x).max(), new
        C = np.linalg.inv(L)
        case.event('updates')
        if np.abs(x - pm).max() > 1e3:
            case.trivial('Gauss-Newton diverges on this case')
            return
        # follow the code's own trajectory, so that a chaotic iteration does not accumulate differences
        case.near(gen.gdist(got[i].mean, got[i].cov, x, C), 0, 1e-5, 'iterated update = Gauss-Newton steps', step=i, iterations=n)
        if step < 1e-9:
            case.event('stationary')
            g = Pi @ (got[i].mean - pm) - M['H'](got[i].mean).T @ Ri @ (y - M['h'](got[i].mean, t, u))
            case.near(g, np.zeros(M['d']), 1e-5, 'converged update is stationary', scale=1 + np.abs(Pi).max() * np.abs(pm).max())
        m, P = np.array(got[i].mean), np.array(got[i].cov)
        case.observe(m, P)
    if n == 1:
        ekf = KalmanFilterSmoother(TaylorTransform(dim=M['d']), M['system']).kalman_filter(ys, **kw)
        states_near(case, raw, ekf, 1e-7, 'one iteration is the extended Kalman filter')
    if n > 1 and rng.rand() < .5:
        states_near(case, filt(ys, num_iter=1, **kw), KalmanFilterSmoother(TaylorTransform(dim=M['d']), M['system']).kalman_filter(ys, **kw),
                    1e-7, 'one iteration after several is the extended Kalman filter')
    again = filt(ys, num_iter=n, **kw)
    states_near(case, again, raw, 1e-9, 'a second run of the same object')


@family('C20', quick=60, thorough=3000, needs={'runs': 60})
def iekf_linear(case, rng):
    """On linear models the iterated filter is the Kalman filter for any number of iterations."""
    model = lg_model(rng, Tmax=8)
    n = rng.randint(1, 8)
    case.describe(iterations=n, **model.describe())
    got = IEKF(model.system, model.d)(ys_shapes(rng, model.ys), num_iter=n)
    case.event('runs')
    want = [model.lg.posterior(upto=i + 1)[i] for i in range(model.T)]
    states_near(case, got, want, 1e-6, 'iterated filter on a linear model')
    for s in got:
        case.observe(s.mean, s.cov)


@family('C21', quick=120, thorough=8000, needs={'iterations': 250, 'stationary': 6})
def ieks(case, rng):
    """Iterated EKS on random smooth models with time-dependent dynamics: one iteration is the extended smoother, every
    later iteration equals the dense solution of the model linearised around the previous trajectory, converged
    trajectories are stationary points of the joint MAP objective, and the same object can be run again and on other
    measurements."""
    M = nl_model(rng)
    n = rng.randint(1, 6)
    case.describe(d=M['d'], m=M['m'], T=M['T'], iterations=n, style=M['style'], kinds=M['kinds'], state_units=M['su'], units=M['w'])
    T, d = M['T'], M['d']
    ys = ys_shapes(rng, M['given'])
    sm = IEKS(M['system'], d)
    if rng.rand() < .4:                           # previous use on something else
        sm([y + rng.randn(M['m']) * M['w'] for y in ys], num_iter=rng.randint(1, 3))
    raw = sm(ys, num_iter=n)
    got = M['plain'](raw)
    ks = KalmanFilterSmoother(TaylorTransform(dim=d), M['system'])
    eks = ks.kalman_smoother(ks.kalman_filter(ys))
    traj = [(np.array(s.mean), np.array(s.cov)) for s in M['plain'](eks)]
    case.event('iterations')
    for k in range(n - 1):
        lin = [M['m0']] + [m for m, _ in traj[:-1]]
        Fs = [M['F'](x, i * M['dt']) for i, x in enumerate(lin)]
        bs = [M['f'](x, i * M['dt']) - F @ x for i, (x, F) in enumerate(zip(lin, Fs))]
        Hs = [M['H'](m) for m, _ in traj]
        cs = [M['h'](m, i * M['dt']) - H @ m for i, ((m, _), H) in enumerate(zip(traj, Hs))]
        traj = gen.lg_posterior(M['m0'], M['P0'], Fs, bs, [M['Q']] * T, Hs, cs, [M['R']] * T, M['ys'])
        case.event('iterations')
        if max(np.abs(m).max() for m, _ in traj) > 1e3:
            case.trivial('Gauss-Newton diverges on this case')
            return
    states_near(case, got, traj, 1e-4 if n > 3 else 1e-5, 'iterated smoother = Gauss-Newton steps', iterations=n)
    if n > 1 and rng.rand() < .5:
        states_near(case, sm(ys, num_iter=1), eks, 1e-7, 'one iteration after several is the extended smoother')
    again = sm(ys, num_iter=n)
    states_near(case, again, raw, 1e-8, 'a second run of the same object')
    # the object still filters with the nonlinear model
    f2 = sm.kalman_filter(ys)
    states_near(case, f2, ks.kalman_filter(ys), 1e-8, 'the object still is a nonlinear filter afterwards')
    for s in got:
        case.observe(s.mean, s.cov)
    if case.index % 3:
        return
    a, b = M['plain'](sm(ys, num_iter=25)), M['plain'](sm(ys, num_iter=26))
    if max(np.abs(x.mean - y.mean).max() for x, y in zip(a, b)) < 1e-9:
        case.event('stationary')
        xs = [s.mean for s in b]
        Qi, Ri = np.linalg.inv(M['Q']), np.linalg.inv(M['R'])
        # prior of x_1 seen through the linearisation at the prior mean
        F0 = M['F'](M['m0'], 0.0)
        P1 = np.linalg.inv(F0 @ M['P0'] @ F0.T + M['Q'])
        for i in range(T):
            pred = M['f'](M['m0'] if i == 0 else xs[i - 1], i * M['dt'])
            g = (P1 if i == 0 else Qi) @ (xs[i] - pred)
            g = g - M['H'](xs[i]).T @ Ri @ (M['ys'][i] - M['h'](xs[i], i * M['dt']))
            if i < T - 1:
                g = g - M['F'](xs[i], (i + 1) * M['dt']).T @ Qi @ (xs[i + 1] - M['f'](xs[i], (i + 1) * M['dt']))
            case.near(g, np.zeros(d), 1e-4, 'converged trajectory is stationary', scale=1 + np.abs(Qi).max() * (1 + np.abs(xs[i]).max()))


@family('C21', quick=60, thorough=3000, needs={'runs': 60})
def ieks_linear(case, rng):
    """On linear models the iterated smoother is the exact smoother for any number of iterations; on the benchmark
    systems it runs, stays finite and is repeatable."""
    case.event('runs')
    n = rng.randint(1, 7)
    if rng.rand() < .6:
        model = lg_model(rng, Tmax=8)
        case.describe(iterations=n, **model.describe())
        got = IEKS(model.system, model.d)(ys_shapes(rng, model.ys), num_iter=n)
        states_near(case, got, model.lg.posterior(), 1e-6, 'iterated smoother on a linear model')
    else:
        model = benchmark_model(rng, ['UNGM', 'BOT', 'BOTT', 'L96'][rng.randint(4)], Tmax=8)
        case.describe(iterations=n, **model.describe())
        sm = IEKS(model.system, model.d)
        got = sm(model.ys, num_iter=n)
        states = sm(model.ys, num_iter=n)
        case.check(len(got) == model.T, 'one state per measurement')
        for a, b in zip(got, states):
            case.check(np.shape(a.mean) == (model.d,) and np.shape(a.cov) == (model.d, model.d), 'shapes')
            case.check(np.all(np.isfinite(a.mean)), 'finite')
            case.check(np.allclose(a.mean, b.mean, rtol=1e-9, atol=1e-9), 'a second run of the same object')
    for s in got:
        case.observe(s.mean, s.cov)


@family('C21', quick=60, thorough=3000, needs={'failed': 40})
def ieks_failing(case, rng):
    """A run that fails somewhere (a numerical failure, a mistake in the functions of the user, an interrupt): the error
    surfaces, the object still holds the model itself and not a linearisation, and the next run is as good as a first one."""
    M = nl_model(rng)
    T, d, ys = M['T'], M['d'], ys_shapes(rng, M['given'])
    n = rng.randint(1, 5)
    system = M['system']
    err = [LinAlgError, ValueError, KeyboardInterrupt][rng.randint(3)]
    calls, at = [0], [None]

    def failing(func):
        def call(x, t=None, u=None):
            calls[0] += 1
            if calls[0] == at[0]:
                raise err('injected')
            return func(x, t=t, u=u)
        return call
    inner = system.transition, system.measurement
    system.transition, system.measurement = failing(inner[0]), failing(inner[1])
    clean = IEKS(system, d)(ys, num_iter=n)
    total = calls[0]
    sm = IEKS(system, d)
    if rng.rand() < .4:
        sm(ys, num_iter=2)
    calls[0], at[0] = 0, int(rng.randint(1, total + 1))
    case.describe(d=d, m=M['m'], T=T, iterations=n, error=err.__name__, call=at[0], calls=total)
    case.raises(err, lambda: sm(ys, num_iter=n), 'a failure inside a run of the iterated smoother')
    case.event('failed')
    at[0] = None
    ks = KalmanFilterSmoother(TaylorTransform(dim=d), system)
    if rng.rand() < .7:
        filt = sm.kalman_filter(ys)
        states_near(case, filt, ks.kalman_filter(ys), 1e-8, 'filtering with the object after a failed run')
        states_near(case, sm.kalman_smoother(filt), ks.kalman_smoother(filt), 1e-8, 'smoothing with the object after a failed run')
    states_near(case, sm(ys, num_iter=n), clean, 1e-8, 'a run after a failed run')
    for s in clean:
        case.observe(s.mean, s.cov)


# ---------------------------------------------------------------- C22
def restartable(rng):
    if rng.rand() < .4:                      # dynamics that depend on time and input
        d, m, T = gen.sizes(rng, 4, 4, 10, .03, .05)
        dt = any_dt(rng)
        system = timed_system(rng, d, m, dt, T)[0]
        return Model('linear-timed', system, d, m, gen.odd_measurements(rng, [rng.randn(m) * 2 for _ in range(T)]))
    return any_model(rng, Tmax=10, p=(.2, .4, .4), big=.03, long=.05)


@family('C22', quick=120, thorough=8000, needs={'prefix': 200, 'chunks': 100})
def causality(case, rng):
    """Nonlinear and benchmark models: filtering a prefix gives the prefix of the filtered states, later measurements
    never change earlier filtered states, filtering in chunks that restart from the last state and time equals one
    run, and running the same object twice gives the same answer (filter, iterated filter and forward pass of the graph)."""
    model = restartable(rng)
    while model.T < 2:
        model = restartable(rng)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    ys = [np.asarray(y) for y in model.ys]
    k = rng.randint(1, model.T)
    which = ['filter', 'iekf', 'graph'][rng.randint(3)]
    case.describe(transform=tk, which=which, cut=k, **model.describe())
    other = ys[:k] + [y + 1.0 + rng.randn(*np.shape(y)) * .1 for y in ys[k:]]

    if which == 'graph':
        def run(y):
            model.ys = y
            nodes = chain(model, estimator_for(model, tt, mt, 1.0, 1.0))
            graph_filter(nodes)
            return [n.marginal for n in nodes]
        full, pre, alt = run(ys), run(ys[:k]), run(other)
    else:
        dt = model.system.dt
        # the clock may start anywhere, in particular so that the continuation starts at time zero
        t0 = [None, 0.0, float(rng.uniform(-5, 5)), -k * dt][rng.randint(4)]
        base = {} if t0 is None else {'t_zero': t0}
        skw = dict(base)
        if model.name == 'linear-timed' and rng.rand() < .5:
            base['u'] = skw['u'] = float(rng.randn())
        case.describe(t_zero=t0, u=base.get('u'))
        alone = rng.rand() < .5

        def build():
            if which == 'iekf':
                return IEKF(model.system, model.d)
            return KalmanFilterSmoother(tt, model.system) if alone else KalmanFilterSmoother(tt, model.system, mt)
        obj = build()
        raw = (lambda y, **kw: obj.kalman_filter(y, **kw)) if which == 'filter' else (lambda y, **kw: obj(y, num_iter=3, **kw))
        call = lambda y, **kw: raw(y, **dict(base, **kw))
        try:
            full, pre, alt = call(ys), call(ys[:k]), call(other)
        except LinAlgError:
            case.trivial('the filter failed on this case')
            return

    def same(a, b, what, tol=1e-9):
        case.check(len(a) == len(b), what + ': length')
        for x, y in zip(a, b):
            s = 1 + np.abs(y.mean).max()
            case.near(x.mean, y.mean, tol, what + ' (mean)', scale=s)
            case.near(x.cov, y.cov, tol, what + ' (cov)', scale=1e-12 + np.abs(y.cov).max())
    same(pre, full[:k], 'prefix of the measurements')
    same(alt[:k], full[:k], 'later measurements')
    case.event('prefix', 2 * k)
    if which != 'graph':
        tk_ = (t0 or 0.0) + k * dt
        if t0 is not None and t0 < 0 and abs(tk_) < 1e-12:
            tk_ = 0.0
        rest = call(ys[k:], prior_state=full[k - 1], t_zero=tk_)
        same(rest, full[k:], 'continuing from the last state and time', 1e-7)
        same(call(ys), full, 'second run of the same object', 1e-12)
        # a used object, given another clock, input or prior, answers like one that has never been used
        turn = {'t_zero': float(rng.uniform(-3, 3))} if rng.rand() < .7 else {}
        if model.name == 'linear-timed' and rng.rand() < .5:
            turn['u'] = float(rng.randn())
        if rng.rand() < .3:
            turn['prior_state'] = Gaussian(*gen.gauss_args(rng, model.d, 1, .1, 2))
        used = obj
        try:
            a = call(ys, **turn)
        except LinAlgError:
            a = None
        obj = build()
        try:
            b = call(ys, **turn)
        except LinAlgError:
            b = None
        obj = used
        case.check((a is None) == (b is None), 'a used object refuses what a new one does', turn=turn)
        if a is not None:
            same(a, b, 'a used object under another clock, input or prior', 1e-12)
        case.event('chunks', model.T - k)
        if which == 'filter':
            a, b = obj.kalman_smoother(full, **skw), obj.kalman_smoother(full, **skw)
            same(a, b, 'second smoothing run', 1e-12)
            # chunked smoothing: the tail of the smoothed states is the smoothed tail
            tail = obj.kalman_smoother(full[k:], **dict(skw, t_zero=tk_))
            same(tail, a[k:], 'smoothing the tail on its own', 1e-7)
    for s in full:
        case.observe(s.mean, s.cov)


# ---------------------------------------------------------------- C23
@family('C23', quick=120, thorough=8000, needs={'compared': 200})
def units(case, rng):
    """Change of units: rescaling and shifting the state coordinates (and mixing them, for Taylor moments), and
    applying any invertible affine map to the measurements, transforms filter, smoother and power-EP results
    accordingly on random nonlinear models."""
    model = smooth_model(rng, Tmax=5)
    d, m = model.d, model.m
    kind = ['UT', 'TT'][rng.randint(2)]
    D = np.diag(rng.uniform(.3, 3, d))
    if kind == 'TT' and rng.rand() < .6:
        D = gen.stable(rng, d, .5, 2)
    s = rng.randn(d)
    q, _ = np.linalg.qr(rng.randn(m, m))
    G = q * rng.uniform(.4, 2.5, m)
    g = rng.randn(m)
    zoom = 1.0
    if rng.rand() < .6:                    # units far apart: milli-, kilo-, radians for degrees
        zoom = 10.0 ** rng.uniform(-4, 4)
        G, g = G * zoom, g * zoom
    mixed = rng.rand() < .3
    if mixed:                              # and different ones for each component of the measurement
        own = 10.0 ** rng.uniform(-4, 4, m)
        G, g = own[:, None] * np.diag(np.abs(np.diag(G)) + .1), own * g
    wide = 1.0
    if rng.rand() < .4:
        wide = 10.0 ** rng.uniform(-1, 1)
        D = D * wide
    Di = np.linalg.inv(D)
    f0, h0 = model.system.transition, model.system.measurement
    import autograd.numpy as anp

    def back(x):
        return anp.dot(anp.atleast_2d(x) - s, Di.T)
    f1 = lambda x, t=None, u=None: anp.dot(anp.atleast_2d(f0(back(x))), D.T) + s
    h1 = lambda x, t=None, u=None: anp.dot(anp.atleast_2d(h0(back(x))), G.T) + g
    Q, R, p = model.system.system_noise.cov, model.system.measurement_noise.cov, model.system.init_state
    sys1 = DynamicSystemModel(d, m, f1, h1, GaussianNoise(d, D @ Q @ D.T), GaussianNoise(m, G @ R @ G.T),
                              Gaussian(D @ p.mean + s, D @ p.cov @ D.T), dt=model.system.dt)
    model1 = Model('mapped', sys1, d, m, [G @ y + g for y in model.ys])
    _, tt, mt = transforms(rng, d, kind)
    power, damping = [1.0, .8, .5][rng.randint(3)], [1.0, .8][rng.randint(2)]
    case.describe(transform=kind, power=power, damping=damping, measurement_scale=zoom, state_scale=wide, mixed=bool(mixed),
                  **model.describe())

    def results(mod):
        ks = KalmanFilterSmoother(tt, mod.system, mt)
        filt = ks.kalman_filter(mod.ys)
        sm = ks.kalman_smoother(filt)
        nodes = chain(mod, estimator_for(mod, tt, mt, power, damping))
        for _ in range(3):
            ep_fwd_back_updates(nodes)
        return filt, sm, [n.marginal for n in nodes]
    try:
        a, b = results(model), results(model1)
    except LinAlgError:
        case.trivial('the filter failed on this case')
        return
    for name, x, y in zip(('filter', 'smoother', 'EP'), a, b):
        for u, v in zip(x, y):
            if margin(u.cov) < 1e-6:
                continue
            case.event('compared')
            # borderline EP updates may be accepted in one set of units only, so be generous with EP
            case.near(gen.gdist(v.mean, v.cov, D @ u.mean + s, D @ u.cov @ D.T), 0, 1e-6 if name != 'EP' else 1e-4,
                      name + ' after a change of units')
    for u in a[2]:
        case.observe(u.mean, u.cov)
