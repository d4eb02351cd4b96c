"""Workloads and monitors for the message-passing checks."""
import os

import numpy as np

import gen
import ref
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
from MomentMatching.Estimator import Estimator
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from Systems import (DynamicSystemModel, GaussianNoise, UniformNonlinearGrowthModel, BearingsOnlyTracking,
                     BearingsOnlyTrackingTurn, L96)

KINDS = ('fwd_update', 'meas_update', 'back_update')
FACTOR = {'fwd_update': 'forward_factor', 'meas_update': 'measurement_factor', 'back_update': 'back_factor'}
VIEWS = ('marginal', 'forward_factor', 'measurement_factor', 'back_factor')


# ---------------------------------------------------------------- models
class Model:
    def __init__(self, name, system, d, m, ys, lg=None, plain=None):
        self.name, self.system, self.d, self.m, self.ys, self.lg = name, system, d, m, ys, lg
        self.T = len(ys)
        self.plain = plain

    def describe(self):
        return dict(model=self.name, d=self.d, m=self.m, T=self.T)


def lg_model(rng, **kw):
    lg = gen.LG(rng, **kw)
    if rng.rand() < .15:                   # small units; large ones would meet the vague initial marginals (variance 1e10)
        lg.in_units(10.0 ** rng.uniform(-4, .5), 10.0 ** rng.uniform(-3, 3))
    system = DynamicSystemModel(lg.d, lg.m, lg.f, lg.h, GaussianNoise(lg.d, lg.Q), GaussianNoise(lg.m, lg.R),
                                Gaussian(lg.m0, lg.P0))
    return Model('linear', system, lg.d, lg.m, lg.ys, lg)


def smooth_model(rng, dmax=4, mmax=3, Tmax=8, big=0.0, long=0.0):
    d, m, T = gen.sizes(rng, dmax, mmax, Tmax, big, long)
    A = gen.stable(rng, d, .4, .95)
    kf = ['tanh', 'sin'][rng.randint(2)]
    f, fp, fj, fk, fr = gen.smooth_map(rng, d, d, kf, scale=.3)
    fr['A'][...] = A                       # keep the dynamics bounded
    h, hp, hj, hk, hr = gen.smooth_map(rng, d, m, ['tanh', 'sin', 'quadratic'][rng.randint(3)], scale=.2)
    Q, R = gen.spd(rng, d, .05, 1), gen.spd(rng, m, .1, 2)
    m0, P0 = gen.gauss_args(rng, d, 1, .2, 2)
    system = DynamicSystemModel(d, m, f, h, GaussianNoise(d, Q), GaussianNoise(m, R), Gaussian(m0, P0),
                                dt=any_dt(rng))
    x = m0 + np.linalg.cholesky(P0) @ rng.randn(d)
    ys = []
    for _ in range(T):
        x = fp(x) + np.linalg.cholesky(Q) @ rng.randn(d)
        ys.append(hp(x) + np.linalg.cholesky(R) @ rng.randn(m))
    ys = gen.odd_measurements(rng, ys)
    if rng.rand() < .08:                       # a first measurement that is exactly what the linearised model predicts
        ys[0] = np.ravel(h(f(np.array(m0))))
    if rng.rand() < .12:
        s = 10.0 ** rng.uniform(-3, .5)
        system = DynamicSystemModel(d, m, lambda x, t=None, u=None: f(x / s) * s, lambda x, t=None, u=None: h(x / s) * s,
                                    GaussianNoise(d, Q * s ** 2), GaussianNoise(m, R * s ** 2), Gaussian(m0 * s, P0 * s ** 2),
                                    dt=system.dt)
        plain = (lambda x: fp(x / s) * s, lambda x: fj(x / s), lambda x: hp(x / s) * s, lambda x: hj(x / s))
        return Model('smooth-' + fk + '-' + hk, system, d, m, [y * s for y in ys], plain=plain)
    return Model('smooth-' + fk + '-' + hk, system, d, m, ys, plain=(fp, fj, hp, hj))


def any_dt(rng):
    return [1, .5, 1, .1, 2, 1 / 3, .0125, .001, 1e-4, float(rng.uniform(.001, 3))][rng.randint(10)]


def l96_system(rng, dim=None, **kw):
    dim = dim or rng.randint(4, 7)
    path = os.path.abspath('l96_x0_{}.npy'.format(dim))
    np.save(path, 8.0 * np.ones(dim) + rng.randn(dim) * 2)
    return L96(dim=dim, init_cond_path=path, **kw)


def benchmark_model(rng, name=None, Tmax=8, long=0.0):
    name = name or ['UNGM', 'BOT', 'BOTT', 'L96'][rng.randint(4)]
    system = {'UNGM': UniformNonlinearGrowthModel, 'BOT': BearingsOnlyTracking,
              'BOTT': BearingsOnlyTrackingTurn, 'L96': lambda: l96_system(rng)}[name]()
    T = rng.randint(1, Tmax + 1)
    if rng.rand() < long and name in ('UNGM', 'BOT'):
        T = rng.randint(33, 60)
    np.random.seed(rng.randint(2 ** 31 - 1))
    ys = [y for _, y in system.simulate(T)]
    if name in ('UNGM', 'L96') and rng.rand() < .15:
        ys = gen.odd_measurements(rng, ys)
    return Model(name, system, system.system_dim, system.measurement_dim, ys)


def any_model(rng, Tmax=8, p=(.35, .35, .3), big=0.0, long=0.0):
    k = rng.choice(3, p=p)
    return lg_model(rng, Tmax=Tmax, big=big, long=long) if k == 0 else smooth_model(rng, Tmax=Tmax, big=big, long=long) if k == 1 \
        else benchmark_model(rng, Tmax=Tmax, long=long)


def transforms(rng, d, kind=None):
    kind = kind or ['UT', 'TT', 'MCT'][rng.choice(3, p=[.5, .4, .1])]
    if kind == 'UT':
        return kind, UnscentedTransform(dim=d, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=d, alpha=1, beta=2, kappa=2)
    if kind == 'TT':
        return kind, TaylorTransform(dim=d), TaylorTransform(dim=d)
    return kind, MonteCarloTransform(dim=d, number_of_samples=300), MonteCarloTransform(dim=d, number_of_samples=300)


def estimator_for(model, trans, meas, power, damping):
    return Estimator(trans_map=trans, meas_map=meas, trans_noise=model.system.transition_noise.cov,
                     meas_noise=model.system.measurement_noise.cov, power=power, damping=damping)


def chain(model, est, farg_list=None):
    nodes = build_nodes(N=model.T, dim=model.d)
    nodes = node_estimator(nodes=nodes, estimator=est)
    if farg_list is None:
        return node_system(nodes=nodes, system_model=model.system, measurements=model.ys)
    return node_system(nodes=nodes, system_model=model.system, measurements=model.ys, farg_list=farg_list)


# ---------------------------------------------------------------- schedules
def schedule(rng, T, rounds, kind=None):
    """A list of (node, update) pairs."""
    kind = kind or ['sweep', 'immediate', 'random', 'filter-then-smoother', 'wild'][rng.randint(5)]
    out = []
    for r in range(rounds):
        if kind == 'sweep' or (kind == 'filter-then-smoother' and r % 2 == 0):
            out += [(i, k) for i in range(T) for k in KINDS[:2]]
            out += [(i, KINDS[2]) for i in reversed(range(T))]
        elif kind == 'filter-then-smoother':
            out += [(i, k) for i in range(T) for k in KINDS]
        elif kind == 'immediate':
            out += [(i, k) for i in range(T) for k in KINDS]
        elif kind == 'random':
            ups = [(i, k) for i in range(T) for k in KINDS]
            rng.shuffle(ups)
            out += ups
        else:                                  # unfair, repetitive
            out += [(rng.randint(T), KINDS[rng.randint(3)]) for _ in range(3 * T)]
    return kind, out


def perform(nodes, sched):
    for i, k in sched:
        getattr(nodes[i], k)()


# ---------------------------------------------------------------- monitors
def nat(g):
    return np.array(g.precision, dtype=float), np.array(g.shift, dtype=float)


def node_state(node):
    return {v: nat(getattr(node, v)) for v in VIEWS}


def same_state(a, b):
    return all(np.array_equal(a[v][0], b[v][0]) and np.array_equal(a[v][1], b[v][1]) for v in VIEWS)


def state_dist(a, b):
    """Largest deviation of naturals, relative to the largest natural of each view."""
    worst = 0.0
    for v in VIEWS:
        for x, y in zip(a[v], b[v]):
            s = max(np.abs(x).max(), np.abs(y).max(), 1e-12)
            worst = max(worst, float(np.abs(x - y).max() / s))
    return worst


class Fault:
    """What to do at the n-th projection call (0-based, over all kinds)."""

    def __init__(self, at, mode, rng):
        self.at, self.mode, self.rng = set(at), mode, rng


class Boom(Exception):
    pass


class Probe:
    """Wraps the three projections of a real Estimator: records the calls, optionally injects a failure."""

    def __init__(self, est, fault=None):
        self.est, self.fault = est, fault
        self.calls = []
        self.count = 0
        self._t, self._m, self._b = est.proj_trans, est.proj_meas, est.proj_back
        est.proj_trans, est.proj_meas, est.proj_back = self.proj_trans, self.proj_meas, self.proj_back

    def _run(self, rec, thunk):
        n, self.count = self.count, self.count + 1
        rec['state_nat'] = nat(rec['state'])
        self.calls.append(rec)
        rec['out'] = rec['exc'] = None
        if self.fault is not None and n in self.fault.at:
            rec['injected'] = self.fault.mode
            mode, d = self.fault.mode, rec['state'].dim
            if mode == 'LinAlgError':
                rec['exc'] = np.linalg.LinAlgError('injected')
            elif not isinstance(mode, str):
                rec['exc'] = mode('injected')
            if rec['exc'] is not None:
                raise rec['exc']
            if mode == 'late-LinAlgError':       # after the real work was done
                thunk()
                rec['exc'] = np.linalg.LinAlgError('injected')
                raise rec['exc']
            if mode == 'indefinite':
                rec['out'] = Gaussian(np.zeros(d), np.diag(np.r_[-np.ones(1), np.ones(d - 1)]))
            elif mode == 'negative':
                rec['out'] = Gaussian(np.ones(d), -2.0 * np.eye(d))
            elif mode == 'nan':
                rec['out'] = Gaussian(np.zeros(d), np.full((d, d), np.nan))
            elif mode == 'wide':
                # a proper projection, much wider than the cavity: the quotient may be improper
                rec['out'] = Gaussian(np.ones(d) * 3, 1e6 * np.eye(d))
            return rec['out']
        try:
            rec['out'] = thunk()
        except BaseException as e:
            rec['exc'] = e
            raise
        return rec['out']

    def proj_trans(self, func, state):
        return self._run(dict(kind='fwd_update', func=func, state=state), lambda: self._t(func, state))

    def proj_meas(self, func, state, meas):
        return self._run(dict(kind='meas_update', func=func, state=state, meas=np.array(meas, dtype=float)),
                         lambda: self._m(func, state, meas))

    def proj_back(self, func, state, next_fwd_cavity, next_state=None):
        rec = dict(kind='back_update', func=func, state=state, cavity=next_fwd_cavity, next_state=next_state)
        rec['cavity_nat'] = nat(next_fwd_cavity)
        rec['next_nat'] = None if next_state is None else nat(next_state)
        return self._run(rec, lambda: self._b(func, state, next_fwd_cavity, next_state=next_state))


class Watch:
    """
    Observes every update of every node through the public entry points: snapshot before, projections made during,
    snapshot after.  Calls back on_update(record) online.
    """

    def __init__(self, nodes, probe, on_update):
        self.nodes, self.probe, self.on_update = nodes, probe, on_update
        self.log = []
        for i, node in enumerate(nodes):
            for k in KINDS:
                setattr(node, k, self._wrap(i, k, getattr(node, k)))

    def _wrap(self, i, kind, call):
        def update(*a, **kw):
            pre = [node_state(n) for n in self.nodes]
            held = [{v: getattr(n, v) for v in VIEWS} for n in self.nodes]
            first = len(self.probe.calls)
            exc = None
            try:
                out = call(*a, **kw)
            except BaseException as e:
                exc, out = e, None
            post = [node_state(n) for n in self.nodes]
            rec = dict(node=i, kind=kind, pre=pre, post=post, held=held, calls=self.probe.calls[first:], exc=exc,
                       step=len(self.log))
            self.log.append((i, kind))
            self.on_update(rec)
            if exc is not None:
                raise exc
            return out
        return update


def margin(P):
    """Relative smallest eigenvalue of a symmetric matrix (None if not finite)."""
    P = np.asarray(P, dtype=float)
    if not np.all(np.isfinite(P)):
        return -1.0
    w = np.linalg.eigvalsh((P + P.T) / 2)
    return float(w[0] / max(abs(w[-1]), abs(w[0]), 1e-300))


def powered(a, p):
    return p * a[0], p * a[1]


def add(*xs):
    return sum(x[0] for x in xs), sum(x[1] for x in xs)


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]
