"""C25-C26: simulation of state-space models, the benchmark systems."""
import math
import os
import sys

import numpy as np
import autograd
import autograd.numpy as anp

import gen
from core import family
from StateModel import Gaussian
from MomentMatching import TaylorTransform, UnscentedTransform
from Systems.DynamicSystem import DynamicSystem
from Systems import (DynamicSystemModel, GaussianNoise, UniformNonlinearGrowthModel, BearingsOnlyTracking,
                     BearingsOnlyTrackingTurn, TestDynamics, L96)
_bot = sys.modules['Systems.BearingsOnlyTracking']
_l96 = sys.modules['Systems.L96']


def seed_from(rng):
    return int(rng.randint(2 ** 31 - 1))


def z_mean(case, e, what, zmax=6.0):
    """e: whitened residuals (n, k), i.i.d. standard normal under the model."""
    e = np.asarray(e, dtype=float)
    n = e.shape[0]
    case.near(np.abs(e.mean(axis=0)).max() * np.sqrt(n), 0, zmax, what + ' mean (z)')
    case.near(np.abs((e ** 2).mean(axis=0) - 1).max() * np.sqrt(n / 2), 0, zmax * 1.5, what + ' variance (z)')
    c = e.T @ e / n
    off = c - np.diag(np.diag(c))
    case.near(np.abs(off).max() * np.sqrt(n), 0, zmax * 1.2, what + ' correlation (z)')


# ---------------------------------------------------------------- C25
def sim_model(rng, d, m, noise):
    """A nonlinear, time-dependent model whose functions log the calls made to them."""
    A = gen.stable(rng, d, .3, .9)
    b, w = rng.randn(d), rng.randn(d)
    C, c = rng.randn(m, d), rng.randn(m)
    log = {'f': [], 'h': []}

    def f_plain(x, t):
        return A @ x + b * np.cos(.7 * t) + .5 * np.tanh(w * x)

    def h_plain(x):
        return C @ x + c + .3 * np.sin(x.sum())

    style = ['vec', 'batch'][rng.randint(2)]

    def f(x, t=None, u=None):
        log['f'].append((np.array(x, dtype=float), t))
        X = anp.atleast_2d(x)
        out = anp.dot(X, A.T) + b * anp.cos(.7 * (t or 0)) + .5 * anp.tanh(w * X)
        return out if style == 'batch' or anp.ndim(x) > 1 else out[0]

    def h(x, t=None, u=None):
        log['h'].append(np.array(x, dtype=float))
        X = anp.atleast_2d(x)
        out = anp.dot(X, C.T) + c + .3 * anp.sin(anp.sum(X, axis=1, keepdims=True))
        return out if style == 'batch' or anp.ndim(x) > 1 else out[0]

    if noise == 'none':
        Q, R = np.zeros((d, d)), np.zeros((m, m))
    elif noise == 'singular':
        v, r = rng.randn(d), rng.randn(m)
        Q, R = np.outer(v, v), np.outer(r, r)
    else:
        Q, R = gen.spd(rng, d), gen.spd(rng, m)
    mq = rng.randn(d) if rng.rand() < .3 else None
    mr = rng.randn(m) if rng.rand() < .3 else None
    m0 = rng.randn(d) * 3
    P0 = np.zeros((d, d)) if rng.rand() < .5 else gen.spd(rng, d)
    dt = [1, .5, .1, 2, 1 / 3, .0125, float(rng.uniform(.001, 3))][rng.randint(7)]
    system = DynamicSystemModel(d, m, f, h, GaussianNoise(d, Q, mq) if mq is not None else GaussianNoise(d, Q),
                                GaussianNoise(m, R, mr) if mr is not None else GaussianNoise(m, R),
                                Gaussian(m0, P0) if P0.any() else Gaussian(m0, 1e-20 * np.eye(d)), dt=dt)
    mq = np.zeros(d) if mq is None else mq
    mr = np.zeros(m) if mr is None else mr
    return system, dict(f=f_plain, h=h_plain, Q=Q, R=R, mq=mq, mr=mr, m0=m0, P0=P0, dt=dt, style=style, log=log)


def flat(a, d):
    return np.asarray(a, dtype=float).reshape(d)


@family('C25', quick=400, thorough=20000, needs={'steps': 4000, 'noise_free_steps': 500})
def follows_model(case, rng):
    """Random nonlinear time-dependent models (no noise, rank-one noise, full noise; zero and nonzero noise means):
    every item is one transition from the previous state at its time plus transition noise, its measurement is taken
    at the new state; exact without noise, in the right subspace for rank-one noise, right distribution otherwise.
    Same seed gives same data, and no returned array shares memory with another, the start state or the model."""
    d, m = rng.randint(1, 5), rng.randint(1, 4)
    noise = ['none', 'singular', 'full', 'full'][rng.randint(4)]
    system, M = sim_model(rng, d, m, noise)
    N = [rng.randint(1, 8), rng.randint(8, 40)][rng.randint(2)] if rng.rand() > .05 else 0
    t0 = [0.0, 0.0, float(rng.uniform(-5, 20))][rng.randint(3)]
    x0 = rng.randn(d) * 2 if rng.rand() < .6 else None
    if x0 is not None and rng.rand() < .25:
        x0 = x0 * (rng.rand(d) < .5) * (rng.rand() < .5)      # at the origin, or on an axis
    if x0 is not None and M['style'] == 'batch' and rng.rand() < .3:
        x0 = x0[None, :]
    kw = {}
    if x0 is not None:
        kw['x_zero'] = x0.copy()
    if t0:
        kw['t_zero'] = t0
    case.describe(d=d, m=m, N=N, noise=noise, t_zero=t0, dt=M['dt'], start=x0 is not None, style=M['style'])
    s = seed_from(rng)
    np.random.seed(s)
    data = system.simulate(N, **kw)
    case.check(len(data) == N, 'number of simulated steps', got=len(data), want=N)
    if x0 is not None:
        case.check(np.array_equal(kw['x_zero'], x0), 'the start state given to simulate is not changed')
    # repeatable
    np.random.seed(s)
    again = system.simulate(N, **kw)
    for (x, y), (x2, y2) in zip(data, again):
        case.check(np.array_equal(x, x2) and np.array_equal(y, y2), 'same seed, same trajectory')
    if N == 0:
        return
    # no aliasing
    arrays = [a for item in data for a in item] + ([kw['x_zero']] if 'x_zero' in kw else []) + [system.init_state.mean]
    for i in range(len(arrays)):
        for j in range(i + 1, min(i + 4, len(arrays))):
            case.check(not np.shares_memory(arrays[i], arrays[j]), 'simulated arrays are independent')
    case.check(not any(np.shares_memory(arrays[-1], a) for a in arrays[:-1]), 'states do not alias the prior')
    # the transition, step by step
    first = M['log']['f'][0][0].ravel()
    prev = flat(x0, d) if x0 is not None else first
    if x0 is None and not M['P0'].any():
        case.near(first, M['m0'], 1e-6, 'start state drawn from the prior')
    ex, ey = [], []
    for i, (x, y) in enumerate(data):
        case.check(np.size(x) == d and np.size(y) == m, 'sizes of state and measurement', x=np.shape(x), y=np.shape(y))
        x, y = flat(x, d), flat(y, m)
        ex.append(x - M['f'](prev, t0 + i * M['dt']) - M['mq'])
        ey.append(y - M['h'](x) - M['mr'])
        prev = x
        case.event('steps')
    ex, ey = np.array(ex), np.array(ey)
    case.observe(ex, ey)
    if noise == 'none':
        case.event('noise_free_steps', N)
        case.near(ex, np.zeros_like(ex), 1e-6, 'noise-free states follow the transition')
        case.near(ey, np.zeros_like(ey), 1e-6, 'noise-free measurements are taken at the new state')
    elif noise == 'singular':
        for e, S, what in ((ex, M['Q'], 'transition'), (ey, M['R'], 'measurement')):
            w, V = np.linalg.eigh(S)
            v = V[:, -1]
            case.near(e - np.outer(e @ v, v), np.zeros_like(e), 1e-5, what + ' noise lies in its subspace')
            case.near(np.abs(e @ v).max() / np.sqrt(w[-1]), 0, 6.5, what + ' noise size (z)')
            if N >= 8:
                case.check(np.abs(e @ v).max() > 1e-3 * np.sqrt(w[-1]), what + ' noise is present')
    else:
        for e, S, what in ((ex, M['Q'], 'transition'), (ey, M['R'], 'measurement')):
            z = np.linalg.solve(np.linalg.cholesky(S), e.T).T
            case.near(np.abs(z).max(), 0, 6.8, what + ' noise size (z)')
            if N >= 8:
                # chi-square with N*k degrees of freedom, Wilson-Hilferty
                k = z.size
                q = ((z ** 2).sum() / k) ** (1 / 3.)
                case.near((q - (1 - 2 / (9. * k))) / np.sqrt(2 / (9. * k)), 0, 6.0, what + ' noise power (z)')


@family('C25', quick=8, thorough=120, needs={'long_runs': 8})
def noise_statistics(case, rng):
    """Long simulations: whitened transition and measurement residuals are standard normal, uncorrelated across
    components, over time, and with one another; start states have the prior's mean and covariance."""
    d, m = rng.randint(1, 4), rng.randint(1, 4)
    system, M = sim_model(rng, d, m, 'full')
    N = 4000
    x0 = rng.randn(d)
    case.describe(d=d, m=m, N=N)
    np.random.seed(seed_from(rng))
    data = system.simulate(N, x_zero=x0)
    X = np.array([flat(x, d) for x, _ in data])
    Y = np.array([flat(y, m) for _, y in data])
    prev = np.vstack([x0, X[:-1]])
    ex = np.array([x - M['f'](p, i * M['dt']) - M['mq'] for i, (x, p) in enumerate(zip(X, prev))])
    ey = np.array([y - M['h'](x) - M['mr'] for x, y in zip(X, Y)])
    zx = np.linalg.solve(np.linalg.cholesky(M['Q']), ex.T).T
    zy = np.linalg.solve(np.linalg.cholesky(M['R']), ey.T).T
    z = np.hstack([zx, zy])
    z_mean(case, z, 'noise')
    lag = z[1:].T @ z[:-1] / (N - 1)
    case.near(np.abs(lag).max() * np.sqrt(N - 1), 0, 7.0, 'noise over time (z)')
    case.event('long_runs')
    case.observe(z)
    # start states
    P0 = gen.spd(rng, d)
    m0 = rng.randn(d)
    still = DynamicSystemModel(d, d, lambda x, t=None, u=None: x * 1.0, lambda x, t=None, u=None: x * 1.0,
                               GaussianNoise(d, np.zeros((d, d))), GaussianNoise(d, np.zeros((d, d))),
                               Gaussian(m0, P0))
    starts = np.array([flat(still.simulate(1)[0][0], d) for _ in range(1500)])
    z0 = np.linalg.solve(np.linalg.cholesky(P0), (starts - m0).T).T
    z_mean(case, z0, 'start state')
    case.event('start_states', 1500)


@family('C25', quick=60, thorough=2000, needs={'noise_models': 50})
def noise_models(case, rng):
    """Noise models: defaults (zero mean, identity covariance of the stated dimension), sample shapes, mean and
    covariance of samples; a model refuses noise whose dimension differs from its own."""
    d = rng.randint(1, 6)
    given_cov, given_mean = rng.rand() < .6, rng.rand() < .6
    S = gen.spd(rng, d) if given_cov else np.eye(d)
    mu = rng.randn(d) * 3 if given_mean else np.zeros(d)
    kw = {}
    if given_cov:
        kw['cov'] = S
    if given_mean:
        kw['mean'] = mu
    noise = GaussianNoise(dimension=d, **kw)
    case.describe(d=d, cov=given_cov, mean=given_mean)
    case.event('noise_models')
    case.near(noise.cov, S, 1e-12, 'covariance of the noise model')
    case.near(np.ravel(noise.mean), mu, 1e-12, 'mean of the noise model')
    case.check(noise.dimension == d, 'dimension of the noise model')
    case.check(np.shape(noise.sample()) == (d,), 'one sample is a vector', shape=np.shape(noise.sample()))
    n = 3000
    xs = noise.sample(size=n)
    case.check(np.shape(xs) == (n, d), 'shape of many samples', shape=np.shape(xs))
    z_mean(case, np.linalg.solve(np.linalg.cholesky(S), (xs - mu).T).T, 'noise samples')
    case.observe(xs[:3])
    wrong = d + 1
    ident = lambda x, t=None, u=None: x
    prior = Gaussian(np.zeros(d), np.eye(d))
    case.raises((AssertionError, ValueError), lambda: DynamicSystemModel(
        d, d, ident, ident, GaussianNoise(wrong, np.eye(wrong)), GaussianNoise(d, np.eye(d)), prior),
        'transition noise of another dimension')
    case.raises((AssertionError, ValueError), lambda: DynamicSystemModel(
        d, d, ident, ident, GaussianNoise(d, np.eye(d)), GaussianNoise(wrong, np.eye(wrong)), prior),
        'measurement noise of another dimension')
    ok = DynamicSystemModel(d, d, ident, ident, noise, GaussianNoise(d, np.eye(d) * 2), prior)
    case.near(ok.transition_noise.cov, S, 1e-12, 'transition noise of the model')
    case.near(ok.measurement_noise.cov, np.eye(d) * 2, 1e-12, 'measurement noise of the model')
    x = rng.randn(d)
    case.near(ok.measure(x), x, 1e-12, 'measure() evaluates the measurement function')


class Pendulum(DynamicSystem):
    """A user's own system, derived directly from the abstract class."""

    def __init__(self, rng, d, m, noise):
        self.A, self.w = gen.stable(rng, d, .3, .9), rng.randn(d)
        self.C, self.c = rng.randn(m, d), rng.randn(m)
        Q, R = (np.zeros((d, d)), np.zeros((m, m))) if noise == 'none' else (gen.spd(rng, d), gen.spd(rng, m))
        self.system_noise = GaussianNoise(d, Q)
        self.measurement_noise = GaussianNoise(m, R)
        self.init_state = Gaussian(rng.randn(d) * 3, gen.spd(rng, d))
        self.dt = float(rng.choice([1, .5, .1, 1 / 3, 2.5]))

    def transition(self, x, u=None, t=None, *args, **kwargs):
        return self.A @ x + self.w * np.cos(.7 * t) + .5 * np.tanh(self.w * x)

    def measure(self, x, *args, **kwargs):
        return self.C @ x + self.c + .3 * np.sin(x.sum())


@family('C25', quick=120, thorough=4000, needs={'subclass_steps': 1500})
def own_subclass(case, rng):
    """A user's class derived directly from the abstract DynamicSystem: the same step-by-step checks as for the
    ready-made model, start states from the prior."""
    d, m = rng.randint(1, 5), rng.randint(1, 4)
    noise = ['none', 'full'][rng.randint(2)]
    system = Pendulum(rng, d, m, noise)
    N = int(rng.randint(1, 40))
    t0 = 0.0 if rng.rand() < .5 else float(rng.uniform(-5, 20))
    x0 = rng.randn(d) * 2
    case.describe(d=d, m=m, noise=noise, N=N, t_zero=t0, dt=system.dt)
    kw = {'t_zero': t0} if t0 else {}
    s = seed_from(rng)
    runs = []
    for _ in range(2):
        np.random.seed(s)
        given = x0.copy()
        runs.append(system.simulate(N, x_zero=given, **kw))
        case.check(np.array_equal(given, x0), 'the start state given to simulate is not changed')
    data = runs[0]
    case.check(len(data) == N, 'number of simulated steps', got=len(data), want=N)
    for a, b in zip(*runs):
        case.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), 'same seed, same trajectory')
    arrays = [a for item in data for a in item]
    for i in range(len(arrays)):
        for j in range(i + 1, min(i + 4, len(arrays))):
            case.check(not np.shares_memory(arrays[i], arrays[j]), 'simulated arrays are independent')
    prev, ex, ey = x0, [], []
    for i, (x, y) in enumerate(data):
        x, y = flat(x, d), flat(y, m)
        ex.append(x - system.transition(prev, t=t0 + i * system.dt))
        ey.append(y - system.measure(x))
        prev = x
        case.event('subclass_steps')
    case.observe(ex, ey)
    for e, S, what in ((np.array(ex), system.system_noise.cov, 'transition'),
                       (np.array(ey), system.measurement_noise.cov, 'measurement')):
        if noise == 'none':
            case.near(e, np.zeros_like(e), 1e-6, 'noise-free ' + what)
            continue
        z = np.linalg.solve(np.linalg.cholesky(S), e.T).T
        case.near(np.abs(z).max(), 0, 6.8, what + ' noise size (z)')
        if N >= 8:
            k = z.size
            q = ((z ** 2).sum() / k) ** (1 / 3.)
            case.near((q - (1 - 2 / (9. * k))) / np.sqrt(2 / (9. * k)), 0, 6.0, what + ' noise power (z)')
    # without a start state: one noise-free step from a prior draw
    still = Pendulum(rng, d, m, 'none')
    still.transition = lambda x, t=None, **k: x * 1.0
    xs = np.array([flat(still.simulate(1)[0][0], d) for _ in range(30)])
    z = np.linalg.solve(np.linalg.cholesky(still.init_state.cov), (xs - np.ravel(still.init_state.mean)).T).T
    case.near(np.abs(z).max(), 0, 6.8, 'start states are drawn from the prior (z)')
    q = ((z ** 2).mean()) ** (1 / 3.)
    case.near((q - (1 - 2 / (9. * z.size))) / np.sqrt(2 / (9. * z.size)), 0, 6.0, 'spread of the start states (z)')

    class Incomplete(DynamicSystem):
        def transition(self, x, u=None, t=None):
            return x
    case.raises(TypeError, Incomplete, 'a system without a measurement function cannot be built')


@family('C25', quick=60, thorough=2000, needs={'passed_on': 500})
def passed_on(case, rng):
    """Models whose functions hand back the very array they were given (a random walk observed directly), or one they
    keep: the start state, the states returned and what the functions keep are all separate from each other."""
    d = rng.randint(1, 5)
    Q = gen.spd(rng, d) if rng.rand() < .8 else np.zeros((d, d))
    R = gen.spd(rng, d) if rng.rand() < .8 else np.zeros((d, d))
    kept = rng.randn(d)
    kept0 = kept.copy()
    walk = rng.rand() < .7
    system = DynamicSystemModel(system_dim=d, measurement_dim=d, transition=(lambda x, t=None, u=None: x) if walk else (lambda x, t=None, u=None: kept),
                                measurement=lambda x, t=None, u=None: x, system_noise=GaussianNoise(dimension=d, cov=Q),
                                measurement_noise=GaussianNoise(dimension=d, cov=R), init_distribution=Gaussian(rng.randn(d), gen.spd(rng, d)), dt=rng.uniform(.1, 2))
    N = rng.randint(2, 30)
    x0 = rng.randn(d)
    given = x0.copy()
    seen = []
    case.describe(d=d, N=N, walk=bool(walk))
    np.random.seed(seed_from(rng))
    for x, y in system.simulate(N, given):
        seen.append((x, y, np.array(x), np.array(y)))
    case.check(np.array_equal(given, x0), 'the start state given to simulate is not changed')
    case.check(np.array_equal(kept, kept0), 'an array kept by the transition is not changed')
    prev = x0
    for x, y, xc, yc in seen:
        case.event('passed_on')
        case.check(np.array_equal(x, xc) and np.array_equal(y, yc), 'a simulated item is not changed by later steps')
        case.check(not np.shares_memory(x, y) and not np.shares_memory(x, given), 'simulated arrays are independent')
        for e, S in ((xc - (prev if walk else kept0), Q), (yc - xc, R)):
            if S.any():
                case.near(np.abs(np.linalg.solve(np.linalg.cholesky(S), e)).max(), 0, 6.8, 'noise size (z)')
                case.check(np.abs(e).max() > 0, 'noise is present')
            else:
                case.near(e, np.zeros(d), 1e-12, 'no noise')
        prev = xc
    case.observe(*[xc for _, _, xc, _ in seen])


# ---------------------------------------------------------------- C26: independent references
def ref_turn(x, dt):
    """Coordinated turn, integrated analytically by complex numbers with a series for small angles."""
    px, vx, py, vy, w = [float(v) for v in x]
    a = w * dt
    v = complex(vx, vy)
    if abs(a) < 1e-4:
        g = complex(1 - a * a / 6 + a ** 4 / 120, a / 2 - a ** 3 / 24)
    else:
        g = (np.exp(1j * a) - 1) / (1j * a)
    p = complex(px, py) + v * dt * g
    v2 = v * np.exp(1j * a)
    return np.array([p.real, v2.real, p.imag, v2.imag, w])


def ref_l96_rate(x, F):
    n = len(x)
    return np.array([(x[(i + 1) % n] - x[i - 2]) * x[i - 1] - x[i] + F for i in range(n)])


def ref_rk4(rate, x, dt):
    k1 = rate(x)
    k2 = rate(x + dt / 2 * k1)
    k3 = rate(x + dt / 2 * k2)
    k4 = rate(x + dt * k3)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def ref_bearings(x, y, sensors):
    return np.array([math.atan2(y - s[1], x - s[0]) for s in sensors])


def white_acceleration(dt, q):
    """Covariance of (position, velocity) after dt of white-noise acceleration of density q, by quadrature."""
    nodes, weights = np.polynomial.legendre.leggauss(6)
    s = (nodes + 1) / 2 * dt
    G = np.array([s, np.ones_like(s)])
    return q * (G * (weights / 2 * dt)) @ G.T


class Bench:
    def __init__(self, name, system, d, m, f, h, state, Q, R, m0, P0, tscale, sensors=None, dt=None):
        self.name, self.system, self.d, self.m = name, system, d, m
        self.f, self.h, self.state = f, h, state
        self.Q, self.R, self.m0, self.P0 = Q, R, m0, P0
        self.sensors, self.dt = sensors, dt


def sensor_list(rng, spread):
    S = _bot.Sensor
    return [S(x=float(rng.uniform(-spread, spread)), y=float(rng.uniform(-spread, spread)))
            for _ in range(rng.randint(1, 7) if rng.rand() < .85 else rng.randint(7, 21))]


def beside(rng, x, at, sensors):
    """Now and then right next to a sensor, or exactly above, below or to the right of it."""
    k = rng.rand()
    if k < .2:
        s = sensors[rng.randint(len(sensors))]
        s = (s.x, s.y) if hasattr(s, 'x') else s
        off = rng.randn(2) * 10.0 ** rng.uniform(-8, 0)
        if k < .05:
            off[0] = 0.0
        elif k < .08:
            off[:] = abs(off[0]), 0.0
        x[at[0]], x[at[1]] = s[0] + off[0], s[1] + off[1]
    return x


def bench(rng, name=None):
    name = name or ['UNGM', 'BOT', 'BOTT', 'BOTT', 'L96', 'TEST'][rng.randint(6)]
    if name == 'UNGM':
        return Bench(name, UniformNonlinearGrowthModel(), 1, 1,
                     lambda x, t: np.array([x[0] / 2 + 25 * x[0] / (1 + x[0] ** 2) + 8 * math.cos(1.2 * t)]),
                     lambda x: np.array([x[0] ** 2 / 20]), lambda: rng.randn(1) * 10.0 ** rng.uniform(-2, 3),
                     np.eye(1), 10 * np.eye(1), np.zeros(1), 5 * np.eye(1), 1)
    if name == 'TEST':
        return Bench(name, TestDynamics(), 1, 1, lambda x, t: np.array([x[0] % 10 + .1 * t]),
                     lambda x: x * 100, lambda: rng.randn(1) * 30,
                     np.zeros((1, 1)), np.zeros((1, 1)), np.zeros(1), 1e-4 * np.eye(1), 1)
    if name == 'BOT':
        kw = {}
        dt, q, r = .1, .01, .001
        if rng.rand() < .5:
            dt = kw['delta_t'] = float(rng.uniform(.05, 2))
        if rng.rand() < .5:
            q = kw['Q_sigma'] = float(rng.uniform(.01, 1))
        if rng.rand() < .5:
            r = kw['R_sigma'] = float(rng.uniform(.001, 1))
        sensors = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
        pick = rng.randint(3)
        if pick == 1:
            sensors = kw['sensor_list'] = sensor_list(rng, 20)
        elif pick == 2:
            kw['sensor_list'] = None
        W = white_acceleration(dt, q)
        Q = np.zeros((4, 4))
        for a, b in ((0, 2), (1, 3)):
            Q[np.ix_([a, b], [a, b])] = W
        F = np.eye(4)
        F[0, 2] = F[1, 3] = dt
        return Bench(name, BearingsOnlyTracking(**kw), 4, len(sensors), lambda x, t: F @ x,
                     lambda x: ref_bearings(x[0], x[1], sensors), lambda: beside(rng, rng.randn(4) * 6, (0, 1), sensors),
                     Q, r * np.eye(len(sensors)), np.array([0, 0, 1., 0]), .1 * np.eye(4), 1, sensors, dt)
    if name == 'BOTT':
        kw = {}
        dt, q, r = 1.0, [.1, 1.75e-4], math.sqrt(10) * 1e-3
        if rng.rand() < .5:
            dt = kw['delta_t'] = float(rng.uniform(.05, 3))
        if rng.rand() < .5:
            q = kw['Q_sigma'] = [float(rng.uniform(.05, 2)), float(rng.uniform(1e-4, 1e-2))]
        if rng.rand() < .5:
            r = float(rng.uniform(1e-3, .1))
            kw['R_sigma'] = [r]
        sensors = [(-20000, 20000), (20000, 20000), (-20000, -20000), (20000, -20000)]
        pick = rng.randint(3)
        if pick == 1:
            sensors = kw['sensor_list'] = sensor_list(rng, 30000)
        elif pick == 2:
            kw['sensor_list'] = None
        W = white_acceleration(dt, q[0])
        Q = np.zeros((5, 5))
        for a, b in ((0, 1), (2, 3)):
            Q[np.ix_([a, b], [a, b])] = W
        Q[4, 4] = dt * q[1]

        def state():
            w = [rng.uniform(-.3, .3), rng.uniform(-3, 3), 0.0, 10. ** rng.uniform(-12, -2), -np.deg2rad(3)][rng.randint(5)]
            return beside(rng, np.r_[rng.randn() * 1000, rng.randn() * 300, rng.randn() * 1000, rng.randn() * 300, w], (0, 2), sensors)
        return Bench(name, BearingsOnlyTrackingTurn(**kw), 5, len(sensors), lambda x, t: ref_turn(x, dt),
                     lambda x: ref_bearings(x[0], x[2], sensors), state,
                     Q, r ** 2 * np.eye(len(sensors)), np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                     np.diag([100, 10, 100, 10, 1e-4]), 1, sensors, dt)
    dim = rng.randint(4, 13) if rng.rand() < .9 else rng.randint(13, 41)
    x0 = rng.randn(dim) * 4
    path = os.path.abspath('l96_bench_{}.npy'.format(rng.randint(10 ** 9)))
    np.save(path, x0)
    kw = {}
    F, dt, q, r = 8, .05, .1, 1
    if rng.rand() < .5:
        F = kw['F'] = float(rng.uniform(0, 12))
    if rng.rand() < .5:
        dt = kw['delta_t'] = float(rng.uniform(.01, .2))
    if rng.rand() < .5:
        q, r = kw['Q_sigma'], kw['R_sigma'] = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
    system = L96(dim=dim, init_cond_path=path, **kw)
    os.unlink(path)
    return Bench(name, system, dim, dim, lambda x, t: ref_rk4(lambda z: ref_l96_rate(z, F), x, dt), lambda x: x ** 2,
                 lambda: rng.randn(dim) * 5, q * np.eye(dim), r * np.eye(dim), x0, np.eye(dim), 1, dt=dt)


def scale_of(v):
    return np.maximum(1.0, np.abs(v))


@family('C26', quick=600, thorough=30000, needs={'states': 2000, 'jacobians': 150})
def equations(case, rng):
    """The benchmark systems with random parameters at random states (targets that turn, crawl and move straight,
    bearings in all four quadrants): transition, measurement, noise covariances, prior, dimensions equal an independent
    statement of the equations; batches act row by row; linearisation equals numerical differentiation."""
    B = bench(rng)
    S = B.system
    case.describe(system=B.name, d=B.d, m=B.m, dt=B.dt, sensors=len(B.sensors or []))
    case.check(S.system_dim == B.d and S.measurement_dim == B.m, 'dimensions', got=[S.system_dim, S.measurement_dim])
    case.near(S.transition_noise.cov, B.Q, 1e-10, 'transition noise covariance', scale=max(1e-12, np.abs(B.Q).max()))
    case.near(S.measurement_noise.cov, B.R, 1e-10, 'measurement noise covariance', scale=max(1e-12, np.abs(B.R).max()))
    case.near(S.init_state.mean, B.m0, 1e-10, 'prior mean', scale=scale_of(B.m0))
    case.near(S.init_state.cov, B.P0, 1e-10, 'prior covariance', scale=np.abs(B.P0).max())
    n = rng.randint(2, 7)
    X = np.array([B.state() for _ in range(n)])
    t = [float(rng.randint(0, 60)), float(rng.uniform(-5, 60)), 10.0 ** rng.uniform(1, 6)][rng.randint(3)]
    keep = X.copy()
    if B.name in ('UNGM', 'TEST'):
        fx, hx = S.transition(X, t=t), S.measurement(X)
    else:
        fx, hx = S.transition(X, t=t), S.measurement(X, t=t)
    case.check(np.array_equal(X, keep), 'the states given to a system are not changed')
    case.check(np.shape(fx) == (n, B.d) and np.shape(hx) == (n, B.m), 'batch shapes', f=np.shape(fx), h=np.shape(hx))
    for i in range(n):
        wf, wh = B.f(X[i], t), B.h(X[i])
        tol_f = 1e-7 if B.name == 'BOTT' and abs(X[i][-1]) < 1e-3 else 1e-9 + 1e-14 * t
        sf = np.maximum(scale_of(wf), np.abs(X[i]).max() * 1e-2)
        case.near(fx[i], wf, tol_f, 'transition', scale=sf, state=X[i])
        case.near(hx[i], wh, 1e-9, 'measurement', scale=scale_of(wh), state=X[i])
        one_f = S.transition(X[i], t=t)
        one_h = S.measurement(X[i])
        case.near(np.ravel(one_f), wf, tol_f, 'transition of one state', scale=sf, state=X[i])
        case.near(np.ravel(one_h), wh, 1e-9, 'measurement of one state', scale=scale_of(wh), state=X[i])
        case.event('states')
    case.observe(fx, hx)
    # derivative seen by the Taylor transform
    if B.name == 'TEST':
        return
    x = B.state()
    dist = min(np.hypot(x[0] - s[0], x[1 if B.name == 'BOT' else 2] - s[1]) for s in
               [(q.x, q.y) if hasattr(q, 'x') else q for q in B.sensors]) if B.sensors else np.inf
    if dist < 1e-2 * (1 if B.name == 'BOT' else 1e3):
        return                           # too close to a sensor for finite differences
    for func, want in ((lambda z: S.transition(z, t=t), lambda z: B.f(z, t)), (lambda z: S.measurement(z), B.h)):
        J = np.array(autograd.jacobian(lambda z: anp.ravel(func(z)))(x), dtype=float)
        J = J.reshape(-1, B.d)
        N = np.zeros_like(J)
        for k in range(B.d):
            e = np.zeros(B.d)
            hstep = min(1e-4 * max(1.0, abs(x[k])), 1e-3 * dist) if not (B.name == 'BOTT' and k == 4) else 1e-3
            e[k] = hstep
            # fourth order central difference of the independent reference
            N[:, k] = (8 * (want(x + e) - want(x - e)) - (want(x + 2 * e) - want(x - 2 * e))) / (12 * hstep)
        jump = np.abs(N).max() > 1e3 * max(1.0, np.abs(J).max())
        if jump:      # a bearing wrapped by 2*pi between the points
            case.event('wrapped')
            continue
        case.near(J, N, 2e-5, 'Jacobian', scale=np.maximum(np.abs(N).max(), 1e-6), state=x)
        case.event('jacobians')


@family('C26', quick=120, thorough=5000, needs={'flows': 100})
def dynamics_laws(case, rng):
    """Laws of motion: a turning target keeps its speed and turn rate, and two short steps equal one long step; a
    target without turn moves on a straight line; the L96 step has the energy behaviour and rotational symmetry of its
    equations and fourth-order accuracy; the generated L96 initial condition is a state of the given forcing's flow."""
    which = ['turn', 'line', 'l96', 'l96-order', 'l96-init'][rng.choice(5, p=[.3, .2, .25, .17, .08])]
    case.describe(law=which)
    case.event('flows')
    if which == 'turn':
        a, b = rng.uniform(.1, 2, size=2)
        x = np.r_[rng.randn(4) * 100, rng.uniform(-2, 2) * [1, .01, 1e-5][rng.randint(3)]]
        sa, sb, sab = (BearingsOnlyTrackingTurn(delta_t=s) for s in (a, b, a + b))
        y = sab.transition(x)[0]
        z = sb.transition(sa.transition(x)[0])[0]
        case.near(z, y, 1e-6, 'two steps equal one', scale=np.maximum(1, np.abs(y)))
        case.near(np.hypot(y[1], y[3]), np.hypot(x[1], x[3]), 1e-7, 'speed', scale=100)
        case.near(y[4], x[4], 1e-12, 'turn rate')
        chord = np.hypot(y[0] - x[0], y[2] - x[2])
        ang = x[4] * (a + b)
        want = np.hypot(x[1], x[3]) * (a + b) * abs(np.sinc(ang / 2 / np.pi))
        case.near(chord, want, 1e-6, 'chord', scale=max(1, want))
        case.observe(y)
    elif which == 'line':
        a, b = rng.uniform(.1, 2, size=2)
        x = rng.randn(4) * 10
        y = BearingsOnlyTracking(delta_t=a + b).transition(x)[0]
        z = BearingsOnlyTracking(delta_t=b).transition(BearingsOnlyTracking(delta_t=a).transition(x)[0])[0]
        case.near(z, y, 1e-9, 'two steps equal one', scale=np.maximum(1, np.abs(y)))
        case.near(y[2:], x[2:], 1e-12, 'velocity')
        v = np.r_[x[0], x[2], x[1], x[3], 0.0]
        w = BearingsOnlyTrackingTurn(delta_t=a + b).transition(v)[0]
        case.near(w[[0, 2]], y[:2], 1e-7, 'no turn is a straight line', scale=np.maximum(1, np.abs(y[:2])))
        case.observe(y, w)
    elif which.startswith('l96') and which != 'l96-init':
        dim, F = rng.randint(4, 12), float(rng.uniform(0, 12))
        path = os.path.abspath('l96_law_{}.npy'.format(rng.randint(10 ** 9)))
        np.save(path, np.ones(dim))
        mk = lambda dt: L96(dim=dim, F=F, delta_t=dt, init_cond_path=path).transition
        x = rng.randn(dim) * 3
        if which == 'l96':
            f = mk(.05)
            k = rng.randint(dim)
            case.near(np.ravel(f(np.roll(x, k))), np.roll(np.ravel(f(x)), k), 1e-9, 'rotational symmetry', scale=10)
            e = mk(1e-4)
            y = np.ravel(e(x))
            rate = (y @ y - x @ x) / 2 / 1e-4
            case.near(rate, -(x @ x) + F * x.sum(), 2e-2, 'energy balance', scale=max(1.0, x @ x * 10))
            case.near(np.ravel(f(np.full(dim, F))), np.full(dim, F), 1e-10, 'equilibrium')
            case.observe(y)
        else:
            fine = x.copy()
            g = mk(.1 / 64)
            for _ in range(64):
                fine = np.ravel(g(fine))
            e1 = np.abs(np.ravel(mk(.1)(x)) - fine).max()
            h = mk(.05)
            e2 = np.abs(np.ravel(h(np.ravel(h(x)))) - fine).max()
            case.near(e1, 0, 1.0, 'one coarse step', scale=max(1.0, np.abs(x).max()))
            if e1 > 1e-7:
                case.check(e2 < e1 / 6, 'halving the step reduces the error like a high-order scheme', e1=e1, e2=e2)
            case.observe(fine)
        os.unlink(path)
    else:
        if rng.rand() < .5:
            dim, F = rng.randint(4, 12), float(rng.uniform(.1, .6))
            x = _l96.generate_L96_initial_condition(dim, F)
            case.check(np.shape(x) == (dim,), 'generated initial condition is a vector', shape=np.shape(x))
            case.near(x, np.full(dim, F), 1e-6, 'weak forcing relaxes to the equilibrium')
        else:
            dim, F = rng.randint(18, 41), 8
            x = _l96.generate_L96_initial_condition(dim, F)
            case.check(np.shape(x) == (dim,), 'generated initial condition is a vector', shape=np.shape(x))
            case.check(np.all(np.abs(x) < 40), 'initial condition is on the attractor')
            case.check(np.std(x) > 1, 'initial condition has left the unstable equilibrium', std=float(np.std(x)))
        case.observe(x)


@family('C26', quick=40, thorough=1200, needs={'files': 30})
def l96_files(case, rng):
    """The L96 system takes its prior mean from the given file; without the file it generates one, of the asked
    dimension and forcing; a file of another dimension is refused."""
    dim = rng.randint(4, 9)
    path = os.path.abspath('l96_file_{}.npy'.format(rng.randint(10 ** 9)))
    case.event('files')
    kind = ['given', 'wrong', 'absent', 'none'][rng.choice(4, p=[.4, .3, .2, .1])]
    case.describe(dim=dim, kind=kind)
    if kind == 'given':
        x0 = rng.randn(dim)
        np.save(path, x0)
        s = L96(dim=dim, init_cond_path=path)
        case.near(s.init_state.mean, x0, 1e-12, 'prior mean from the file')
        case.near(np.load(path), x0, 0 + 1e-300, 'the file is not changed')
        os.unlink(path)
        case.observe(x0)
    elif kind == 'wrong':
        np.save(path, rng.randn(dim + rng.randint(1, 3)))
        case.raises((AssertionError, ValueError), lambda: L96(dim=dim, init_cond_path=path), 'file of another dimension')
        os.unlink(path)
    else:
        F = float(rng.uniform(.1, .6))
        s = L96(dim=dim, F=F, init_cond_path=path) if kind == 'absent' else L96(dim=dim, F=F)
        case.near(s.init_state.mean, np.full(dim, F), 1e-6, 'generated prior mean')
        case.observe(s.init_state.mean)
