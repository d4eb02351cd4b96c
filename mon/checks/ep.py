"""C09-C18: the factor graph and its message passing."""
import copy
import itertools
import sys

import numpy as np
from numpy.linalg import LinAlgError

import gen
import ref
from core import family
from eplab import (KINDS, FACTOR, VIEWS, Boom, Fault, Model, Probe, Watch, add, any_dt, any_model, benchmark_model, chain,
                   estimator_for, l96_system, lg_model, margin, nat, node_state, perform, powered, same_state,
                   schedule, smooth_model, state_dist, sub, transforms)
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform
from MomentMatching.Estimator import Estimator
from ExpectationPropagation.Nodes import Node, build_nodes, node_estimator, node_system
from ExpectationPropagation.Iterations import ep_fwd_back_updates, ep_update, kalman_filter, kalman_smoother
from Filters.KalmanFilter import KalmanFilterSmoother
from Systems import DynamicSystemModel, GaussianNoise

POWERS = (0.1, 0.3, 0.5, 0.8, 1.0, 1.0, 1, 1.5)
DAMPINGS = (1.0, 1.0, 1, 0.8, 0.5, 0.2)


def power_damping(rng):
    if rng.rand() < .2:                       # values that are not round in any way
        return float(rng.uniform(.1, 2)), float(rng.uniform(.1, 1))
    return POWERS[rng.randint(len(POWERS))], DAMPINGS[rng.randint(len(DAMPINGS))]


def setup(case, rng, Tmax=6, p=(.35, .35, .3), kind=None, power=None, damping=None):
    model = any_model(rng, Tmax=Tmax, p=p, big=.03, long=.02)
    tk, tt, mt = transforms(rng, model.d, kind)
    pw, dp = power_damping(rng)
    pw = pw if power is None else power
    dp = dp if damping is None else damping
    est = estimator_for(model, tt, mt, pw, dp)
    case.describe(transform=tk, power=pw, damping=dp, **model.describe())
    return model, est


def mag(*nats):
    """Largest precision / shift entry among natural-parameter pairs."""
    return max(np.abs(n[0]).max() for n in nats), max(np.abs(n[1]).max() for n in nats)


def near_nat(case, got, want, what, tol, floor=(0.0, 0.0)):
    p = max(np.abs(want[0]).max(), np.abs(got[0]).max(), floor[0], 1e-14)
    s = max(np.abs(want[1]).max(), np.abs(got[1]).max(), floor[1], 1e-14)
    case.near(got[0], want[0], tol, what + ' (precision)', scale=p)
    case.near(got[1], want[1], tol, what + ' (shift)', scale=s)


# ---------------------------------------------------------------- C09
class Ledger:
    """marginal = base x (forward x measurement x backward factor)^(1/power), per node, after every update."""

    def __init__(self, case, nodes, power):
        self.case, self.power = case, power
        self.base, self.peak = [], []
        for n in nodes:
            s = node_state(n)
            f = add(s['forward_factor'], s['measurement_factor'], s['back_factor'])
            self.base.append(sub(s['marginal'], powered(f, 1.0 / power)))
            self.peak.append(mag(s['marginal'], powered(f, 1.0 / power)))

    def __call__(self, i, s):
        f = add(s['forward_factor'], s['measurement_factor'], s['back_factor'])
        rhs = add(self.base[i], powered(f, 1.0 / self.power))
        m = mag(s['marginal'], *(powered(s[v], 1.0 / self.power) for v in VIEWS[1:]))
        self.peak[i] = tuple(max(a, b) for a, b in zip(self.peak[i], m))
        self.case.event('ledger')
        near_nat(self.case, s['marginal'], rhs, 'marginal = base * (product of factors)^(1/power)', 1e-8, self.peak[i])


@family('C09', quick=160, thorough=9000, needs={'ledger': 2000, 'accepted': 500})
def factorisation(case, rng):
    """Random models, transforms, powers, dampings, schedules (fair, unfair, random), optional injected failures and
    custom initial factors; online ledger of natural parameters after every single update on every node."""
    model, est = setup(case, rng)
    kind, sched = schedule(rng, model.T, rng.randint(1, 5))
    fault = None
    if rng.rand() < .3:
        n = max(1, len(sched) // 4)
        fault = Fault(rng.randint(0, len(sched), n), ['LinAlgError', 'indefinite', 'wide'][rng.randint(3)], rng)
    probe = Probe(est, fault)
    nodes = chain(model, est)
    custom = rng.rand() < .25
    if custom:
        for n in nodes:
            def small():
                P = gen.spd(rng, model.d, 20, 400)
                return Gaussian.from_natural(np.linalg.inv(P), np.linalg.solve(P, rng.randn(model.d)))
            n.forward_factor, n.measurement_factor, n.back_factor = small(), small(), small()
            n.marginal = Gaussian.as_marginal(model.d) * \
                ((n.forward_factor * n.measurement_factor * n.back_factor) ** (1 / est.power))
    case.describe(schedule=kind, faults=fault.mode if fault else None, custom_factors=custom)
    ledger = Ledger(case, nodes, est.power)

    def on(rec):
        for i, s in enumerate(rec['post']):
            ledger(i, s)
        if not same_state(rec['pre'][rec['node']], rec['post'][rec['node']]):
            case.event('accepted')
    Watch(nodes, probe, on)
    perform(nodes, sched)
    case.event('updates', len(sched))
    for n in nodes:
        case.observe(*nat(n.marginal))


# ---------------------------------------------------------------- C10
def func_matches(case, got, want, d, rng, what):
    x = rng.randn(2, d)
    case.check(np.allclose(got(x), want(x), rtol=1e-12, atol=1e-12), what)


def protocol_monitor(case, nodes, est, model, rng, prior):
    """Offline oracle for one update record: cavity, arguments, damped power update, admissibility."""
    a, g = est.power, est.damping
    T = len(nodes)

    def on(rec):
        i, kind = rec['node'], rec['kind']
        pre, post = rec['pre'][i], rec['post'][i]
        case.event('updates')
        if kind == 'back_update' and i == T - 1:
            case.check(len(rec['calls']) == 0 and same_state(pre, post), 'the last node has no backward message')
            case.event('last_node')
            return
        case.check(len(rec['calls']) == 1, 'one projection per update', n=len(rec['calls']))
        c = rec['calls'][0]
        case.check(c['kind'] == kind, 'projection of the right kind', got=c['kind'], want=kind)
        # --- arguments
        if kind == 'fwd_update':
            if i == 0:
                cav = nat(prior)
            else:
                p = rec['pre'][i - 1]
                cav = sub(p['marginal'], powered(p['back_factor'], 1.0 / a))
            func_matches(case, c['func'], nodes[i].trans_func, model.d, rng, 'forward message uses the transition of its own node')
        elif kind == 'meas_update':
            cav = sub(pre['marginal'], pre['measurement_factor'])
            func_matches(case, c['func'], model.system.measurement, model.d, rng, 'measurement message uses the measurement function')
            case.near(c['meas'], np.squeeze(model.ys[i]), 1e-12, 'measurement message uses the measurement of its node')
        else:
            cav = sub(pre['marginal'], pre['back_factor'])
            nx = rec['pre'][i + 1]
            func_matches(case, c['func'], nodes[i + 1].trans_func, model.d, rng, 'backward message uses the transition into the next node')
            near_nat(case, c['cavity_nat'], sub(nx['marginal'], powered(nx['forward_factor'], 1.0 / a)),
                     'forward cavity of the next node', 1e-10, mag(nx['marginal'], powered(nx['forward_factor'], 1 / a)))
            if c['next_nat'] is not None:
                near_nat(case, c['next_nat'], nx['marginal'], 'next marginal', 1e-12)
            case.check(c['next_nat'] is not None or a != 1, 'standard EP smooths towards the next marginal')
        near_nat(case, c['state_nat'], cav, kind + ': cavity', 1e-10, mag(pre['marginal'], pre[FACTOR[kind]]))
        # --- update law
        changed = not same_state(pre, post)
        if c['exc'] is not None:
            case.event('refused')
            case.check(not changed, 'a failed projection changed the node')
            return
        out = c['out']
        try:
            proj = nat(out)
        except LinAlgError:                # a singular covariance: not a proper projection
            case.event('refused')
            case.check(not changed, 'an improper projection changed the node')
            return
        F = pre[FACTOR[kind]]
        if kind == 'fwd_update':
            newF = add(powered(F, 1 - g), powered(proj, g))
            newM = add(pre['marginal'], powered(sub(newF, F), 1.0 / a))
        else:
            ratio = sub(proj, pre['marginal'])
            newF = add(F, powered(ratio, g))
            newM = add(pre['marginal'], powered(ratio, g / a))
        floor = mag(pre['marginal'], F, proj, powered(proj, 1 / a), powered(F, 1 / a))
        m_proj, m_new = margin(out.cov), margin(newM[0])
        if changed:
            case.event('accepted')
            near_nat(case, post[FACTOR[kind]], newF, kind + ': new factor', 1e-9, floor)
            near_nat(case, post['marginal'], newM, kind + ': new marginal', 1e-9, floor)
            case.check(m_proj > -1e-9, 'an improper projection was accepted', margin=m_proj)
            # an (almost) zero precision reads as flat, the library regularises precisions by a jitter of 1e-10, and the sum
            # is only known up to rounding of its terms
            flat = np.abs(newM[0]).max() < max(1e-9, 1e-12 * floor[0]) or ref.min_eig(newM[0]) > -2e-10
            case.check(m_new > -1e-9 or flat, 'an improper marginal was accepted', margin=m_new)
        else:
            delta = max(np.abs(newM[0] - pre['marginal'][0]).max() / floor[0],
                        np.abs(newM[1] - pre['marginal'][1]).max() / max(floor[1], 1e-300))
            if m_proj > 1e-6 and m_new > 1e-6 and np.trace(newM[0]) > 1e-6 and delta > 1e-9:
                case.check(False, 'an admissible update was dropped', kind=kind, m_proj=m_proj, m_new=m_new)
            case.event('unchanged')
        for v in VIEWS:
            if v not in ('marginal', FACTOR[kind]):
                case.check(np.array_equal(pre[v][0], post[v][0]) and np.array_equal(pre[v][1], post[v][1]),
                           kind + ' changed ' + v)
    return on


@family('C10', quick=160, thorough=9000, needs={'accepted': 1000, 'last_node': 50, 'refused': 1})
def protocol(case, rng):
    """Every update of a random run (random model, transform, power, damping, schedule, injected failures) checked
    against the power-EP message equations from the recorded projection: cavity, function, measurement, new factor
    with damping, new marginal with power, admissible updates applied and inadmissible ones dropped."""
    model, est = setup(case, rng)
    kind, sched = schedule(rng, model.T, rng.randint(1, 5))
    fault = None
    if rng.rand() < .3:
        fault = Fault(rng.randint(0, len(sched), max(1, len(sched) // 5)),
                      ['LinAlgError', 'indefinite', 'wide', 'negative'][rng.randint(4)], rng)
    case.describe(schedule=kind, faults=fault.mode if fault else None)
    probe = Probe(est, fault)
    nodes = chain(model, est)
    Watch(nodes, probe, protocol_monitor(case, nodes, est, model, rng, model.system.init_state))
    perform(nodes, sched)
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C10', quick=24, thorough=600, needs={'updates': 100})
def endurance(case, rng):
    """The message equations again, after many sweeps: what an update does never depends on how many came before."""
    pw, dp = power_damping(rng)
    model = [linear_model, lambda r, **k: any_model(r, Tmax=3, p=(.5, .5, 0))][rng.randint(2)](rng, Tmax=3)
    est = fresh(model, pw, dp, ['UT', 'TT'][rng.randint(2)], 0)
    nodes = chain(model, est)
    n = int([15, 60, 130, 260][rng.choice(4, p=[.3, .4, .2, .1])])
    case.describe(power=pw, damping=dp, sweeps=n, **model.describe())
    for _ in range(n):
        ep_fwd_back_updates(nodes)
    probe = Probe(est)
    nodes = node_estimator(nodes=nodes, estimator=est)
    Watch(nodes, probe, protocol_monitor(case, nodes, est, model, rng, model.system.init_state))
    perform(nodes, schedule(rng, model.T, 2)[1])
    # other measurements move the marginals again, so that the updates looked at are not all at a fixed point
    model.ys = [y + 1.0 + rng.randn(*np.shape(y)) for y in model.ys]
    for node, y in zip(nodes, model.ys):
        node.meas = np.squeeze(y)
    perform(nodes, schedule(rng, model.T, 2)[1])
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C10', quick=60, thorough=2000, needs={'sweeps': 60})
def sweeps(case, rng):
    """Order in which the four shipped schedules visit the nodes, observed at the update entry points."""
    T = rng.randint(1, 9) if rng.rand() < .9 else rng.randint(30, 200)
    log = []

    class N:
        def __init__(self, i):
            for k in KINDS:
                setattr(self, k, lambda i=i, k=k: log.append((i, k)))
    fwd = [(i, k) for i in range(T) for k in KINDS[:2]]
    back = [(i, 'back_update') for i in reversed(range(T))]
    every = [(i, k) for i in range(T) for k in KINDS]
    case.describe(T=T)
    for sweep, want in ((kalman_filter, fwd), (kalman_smoother, back), (ep_fwd_back_updates, fwd + back), (ep_update, every)):
        log.clear()
        sweep([N(i) for i in range(T)])
        case.event('sweeps')
        # the very last backward update has no effect, so visiting it is optional
        got = [e for e in log if e != (T - 1, 'back_update')]
        case.check(got == [e for e in want if e != (T - 1, 'back_update')], 'order of updates in ' + sweep.__name__, got=log)
    case.observe(T)


# ---------------------------------------------------------------- C11
FOREIGN = (Boom, ValueError, TypeError, AttributeError, KeyError, IndexError, ArithmeticError, FloatingPointError,
           ZeroDivisionError, OverflowError, RuntimeError, NotImplementedError, AssertionError, OSError, StopIteration,
           KeyboardInterrupt, SystemExit)


def fresh(model, power, damping, tk, seed):
    rng = np.random.RandomState(seed)
    _, tt, mt = transforms(rng, model.d, tk)
    return estimator_for(model, tt, mt, power, damping)


@family('C11', quick=90, thorough=5000, needs={'faults': 300, 'soft': 100, 'hard': 50})
def failure_points(case, rng):
    """Fault enumeration: a short run is repeated with a failure injected at each projection call in turn (numerical
    failure before or after the work, indefinite / negative / NaN projection, foreign exception, interrupt).  Oracles:
    the failing update leaves every node bit-identical; numerical failures are absorbed and the rest of the run is
    bit-identical to the run without that update; other exceptions surface, and the run can be resumed."""
    model = any_model(rng, Tmax=4)
    tk = ['UT', 'TT'][rng.randint(2)]
    power, damping = power_damping(rng)
    kind, sched = schedule(rng, model.T, rng.randint(1, 3))
    sched = [(i, k) for i, k in sched if not (k == 'back_update' and i == model.T - 1)]
    mode = ['LinAlgError', 'late-LinAlgError', 'indefinite', 'negative', 'nan', 'foreign', 'foreign'][rng.randint(7)]
    if mode == 'foreign':
        mode = FOREIGN[rng.randint(len(FOREIGN))]
    case.describe(transform=tk, power=power, damping=damping, schedule=kind, mode=getattr(mode, '__name__', mode), points=len(sched), **model.describe())
    points = range(len(sched)) if len(sched) <= 14 else sorted(rng.choice(len(sched), 14, replace=False))
    for at in points:
        est = fresh(model, power, damping, tk, 0)
        probe = Probe(est, Fault([at], mode, rng))
        nodes = chain(model, est)
        case.event('faults')
        for n, (i, k) in enumerate(sched):
            pre = [node_state(x) for x in nodes]
            objs = [[getattr(x, v) for v in VIEWS] for x in nodes]
            exc = None
            try:
                getattr(nodes[i], k)()
            except BaseException as e:
                exc = e
            if n == at:
                post = [node_state(x) for x in nodes]
                case.check(all(same_state(a, b) for a, b in zip(pre, post)), 'the failed update left a trace',
                           at=at, update=k, node=i)
                if not isinstance(mode, str):
                    case.event('hard')
                    case.check(isinstance(exc, mode) and 'injected' in str(exc), 'a foreign exception was swallowed', mode=mode)
                else:
                    case.event('soft')
                    case.check(exc is None, 'a numerical failure escaped from the update', got=repr(exc))
            else:
                case.check(exc is None, 'an update failed although nothing was injected', got=repr(exc))
        est2 = fresh(model, power, damping, tk, 0)
        nodes2 = chain(model, est2)
        perform(nodes2, [u for n, u in enumerate(sched) if n != at])
        worst = max(state_dist(node_state(a), node_state(b)) for a, b in zip(nodes, nodes2))
        case.near(worst, 0.0, 1e-9, 'the run continues as if the failed update had been skipped', at=at)
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C11', quick=120, thorough=6000, needs={'rejected': 80})
def rejected(case, rng):
    """Updates whose projection is proper but whose new marginal is not (a message that carries more than the marginal,
    or a step extrapolated by damping / power > 1 towards a wide projection): the update raises nothing and every node of
    the graph keeps its bytes, for each of the three kinds of update at any node."""
    model = any_model(rng, Tmax=5)
    kind = KINDS[rng.randint(3)]
    if kind == 'back_update' and model.T == 1:
        kind = 'fwd_update'
    tk = ['UT', 'TT'][rng.randint(2)]
    power, damping = power_damping(rng)
    if kind != 'fwd_update':
        power = damping * rng.uniform(.2, .8)
    est = fresh(model, power, damping, tk, 0)
    forced = []

    def switch(func):
        return lambda *a, **k: forced[0] if forced else func(*a, **k)
    for name in ('proj_trans', 'proj_meas', 'proj_back'):
        setattr(est, name, switch(getattr(est, name)))
    nodes = chain(model, est)
    for _ in range(rng.randint(1, 3)):
        ep_fwd_back_updates(nodes)
    i = rng.randint(model.T - (kind == 'back_update'))
    n = nodes[i]
    L, h = nat(n.marginal)
    case.describe(transform=tk, power=power, damping=damping, kind=kind, node=int(i), **model.describe())
    if margin(L) < 1e-10:
        case.trivial('badly conditioned marginal')
        return
    c = rng.uniform(1.1, 3) / damping
    if kind == 'fwd_update':
        n.forward_factor = Gaussian.from_natural(c * power * L, c * power * h)
    cov = np.linalg.inv(L)
    wide = Gaussian(n.marginal.mean + rng.randn(model.d), 1e3 * (cov + cov.T) / 2)
    forced.append(wide)
    pre = [node_state(x) for x in nodes]
    getattr(n, kind)()
    case.event('rejected')
    post = [node_state(x) for x in nodes]
    case.check(all(same_state(a, b) for a, b in zip(pre, post)), 'a rejected update left a trace', kind=kind)
    case.observe(L, h)


@family('C11', quick=80, thorough=4000, needs={'failures': 80})
def model_errors(case, rng):
    """The transition or measurement function of the user itself fails at some call: numerical failures are absorbed, any
    other exception surfaces from the update; either way no node changes, and with the function working again the run
    continues to the same end as one in which the failing update was left out (or, retried, as if nothing had happened)."""
    model = any_model(rng, Tmax=4)
    tk = ['UT', 'TT'][rng.randint(2)]
    power, damping = power_damping(rng)
    kind, sched = schedule(rng, model.T, rng.randint(1, 3))
    sched = [(i, k) for i, k in sched if not (k == 'back_update' and i == model.T - 1)]
    if not sched:                            # one node, and only backward updates drawn
        sched = [(0, 'fwd_update')]
    error = (LinAlgError,) * 5 + FOREIGN
    error = error[rng.randint(len(error))]
    at = rng.randint(len(sched))
    case.describe(transform=tk, power=power, damping=damping, schedule=kind, error=error.__name__, at=int(at), **model.describe())
    system = model.system
    f, h = system.transition, system.measurement
    armed = [False]

    def failing(func):
        def call(*a, **k):
            if armed[0]:
                raise error('injected')
            return func(*a, **k)
        return call
    try:
        system.transition, system.measurement = failing(f), failing(h)
        nodes = chain(model, fresh(model, power, damping, tk, 0))
        for n, (i, k) in enumerate(sched):
            if n == at:
                pre = [node_state(x) for x in nodes]
                armed[0] = True
                exc = None
                try:
                    getattr(nodes[i], k)()
                except BaseException as e:
                    exc = e
                armed[0] = False
                case.event('failures')
                post = [node_state(x) for x in nodes]
                case.check(all(same_state(a, b) for a, b in zip(pre, post)), 'a failing model left a trace', update=k)
                # an improper cavity may be refused before the model is even asked
                if error is LinAlgError:
                    case.check(exc is None, 'a numerical failure of the model escaped', got=repr(exc))
                    continue
                if exc is None:
                    cav = nodes[i].marginal / getattr(nodes[i], FACTOR[k])
                    case.check(k == 'meas_update' and margin(cav.cov) < 1e-9, 'an error of the model was swallowed',
                               error=error.__name__, update=k)
                else:
                    case.check(isinstance(exc, error) and 'injected' in str(exc), 'another error surfaced', got=repr(exc))
            getattr(nodes[i], k)()
        system.transition, system.measurement = f, h
        other = chain(model, fresh(model, power, damping, tk, 0))
        perform(other, [u for n, u in enumerate(sched) if n != at or error is not LinAlgError])
    finally:
        system.transition, system.measurement = f, h
    worst = max(state_dist(node_state(a), node_state(b)) for a, b in zip(nodes, other))
    case.near(worst, 0.0, 1e-9, 'the run continues from the failure')
    for n in nodes:
        case.observe(*nat(n.marginal))


class _Interrupter:
    """Raise KeyboardInterrupt at the n-th call of a Python function made while active (an interrupt arriving there)."""

    def __init__(self, at=None):
        self.at, self.seen, self.fired = at, 0, False

    def _call(self, frame, what, arg):
        if what == 'call' and frame.f_globals is not globals():
            if self.at is not None and self.seen >= self.at and not self._inside(frame, 'autograd'):
                self.fired = True
                sys.settrace(None)
                raise KeyboardInterrupt('injected')
            self.seen += 1

    @staticmethod
    def _inside(frame, package):
        # autograd itself drops exceptions raised while it names its wrappers
        while frame is not None:
            if '/%s/' % package in frame.f_code.co_filename:
                return True
            frame = frame.f_back
        return False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)


@family('C11', quick=40, thorough=2500, needs={'interrupts': 150})
def interrupts(case, rng):
    """An interrupt (or an exit request) arrives at any function call made during an update, inside the library, numpy or
    scipy.  It surfaces, every node is as before that update, and the resumed run is bit-identical to an undisturbed one."""
    model = any_model(rng, Tmax=4)
    tk = ['UT', 'TT'][rng.randint(2)]
    power, damping = power_damping(rng)
    kind, sched = schedule(rng, model.T, 1)
    sched = [(i, k) for i, k in sched if not (k == 'back_update' and i == model.T - 1)]
    case.describe(transform=tk, power=power, damping=damping, schedule=kind, updates=len(sched), **model.describe())
    calm, nodes = [chain(model, fresh(model, power, damping, tk, 0)) for _ in range(2)]
    for i, k in sched:
        getattr(calm[i], k)()
        before = [node_state(x) for x in nodes]
        # count the calls of this update on a snapshot that is thrown away
        trial = copy.deepcopy(nodes)
        with _Interrupter() as count:
            getattr(trial[i], k)()
        for at in sorted(set(rng.randint(0, max(count.seen, 1), size=3))):
            trial = copy.deepcopy(nodes)
            exc = None
            with _Interrupter(at) as stop:
                try:
                    getattr(trial[i], k)()
                except BaseException as e:
                    exc = e
            if not stop.fired:
                continue
            case.event('interrupts')
            case.check(isinstance(exc, KeyboardInterrupt), 'an interrupt was swallowed', call=int(at), update=k, node=i)
            case.check(all(same_state(a, node_state(b)) for a, b in zip(before, trial)), 'the interrupted update left a trace',
                       call=int(at), update=k, node=i)
            getattr(trial[i], k)()
            case.check(all(same_state(node_state(a), node_state(b)) for a, b in zip(calm, trial)),
                       'the run does not go on from an interrupted update', call=int(at), update=k, node=i)
        getattr(nodes[i], k)()
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C11', quick=40, thorough=1500, needs={'storms': 40})
def failure_storm(case, rng):
    """Many failures in one run, through whole sweeps: a sweep never raises for numerical failures, other updates of
    the same sweep still happen, and once the failures stop a linear model reaches the exact posterior."""
    model = linear_model(rng, Tmax=5)
    tk = ['UT', 'TT'][rng.randint(2)]
    power = [1.0, .5, .8][rng.randint(3)]
    est = fresh(model, power, 1.0, tk, 0)
    nper = 3 * model.T - 1
    k = rng.randint(1, 3)
    at = [n for n in range(k * nper) if rng.rand() < .4]
    mode = ['LinAlgError', 'late-LinAlgError', 'indefinite', 'negative'][rng.randint(4)]
    Probe(est, Fault(at, mode, rng))
    nodes = chain(model, est)
    case.describe(transform=tk, power=power, mode=mode, failures=len(at), **model.describe())
    log = []

    def counted(i, kind, call):
        def update(*a, **kw):
            log.append((i, kind))
            return call(*a, **kw)
        return update
    for i, n in enumerate(nodes):
        for kind in KINDS:
            setattr(n, kind, counted(i, kind, getattr(n, kind)))
    T = model.T
    fwd = [(i, kind) for i in range(T) for kind in KINDS[:2]]
    back = [(i, 'back_update') for i in reversed(range(T - 1))]
    every = [(i, kind) for i in range(T) for kind in KINDS if (i, kind) != (T - 1, 'back_update')]
    for _ in range(k):
        for sweep, want in [((ep_fwd_back_updates, fwd + back),), ((ep_update, every),),
                            ((kalman_filter, fwd), (kalman_smoother, back))][rng.randint(3)]:
            log.clear()
            sweep(nodes)
            case.check([e for e in log if e != (T - 1, 'back_update')] == want,
                       'a failed update kept the sweep from visiting the others', sweep=sweep.__name__, got=log, failures=at)
    case.event('storms')
    for _ in range(model.T + 3):
        ep_fwd_back_updates(nodes)
    for i, (m, P) in enumerate(model.lg.posterior()):
        case.near(gen.gdist(nodes[i].marginal.mean, nodes[i].marginal.cov, m, P), 0, 1e-5,
                  'exact posterior after the failures stopped', node=i)
        case.observe(*nat(nodes[i].marginal))


# ---------------------------------------------------------------- C12
@family('C12', quick=200, thorough=12000, needs={'marginals': 3000, 'hostile': 40})
def proper(case, rng):
    """Hostile workloads (outlying measurements, tiny or huge noise, strong nonlinearity, any power and damping, any
    schedule, all transforms): after every update every marginal is finite, symmetric and positive definite, and the
    library's own validation accepts it."""
    hostile = rng.rand() < .6
    model, est = setup(case, rng, p=(.2, .3, .5))
    if hostile:
        case.event('hostile')
        how = rng.randint(4)
        if how == 0:
            model.ys = [np.asarray(y) + rng.standard_t(1.2, np.shape(y)) * 50 for y in model.ys]
        elif how == 1:
            est.measurement_noise = est.measurement_noise * 10.0 ** rng.uniform(-6, 3)
        elif how == 2:
            est.transition_noise = est.transition_noise * 10.0 ** rng.uniform(-4, 4)
        else:
            est.power = float(10.0 ** rng.uniform(-1.5, .4))
        case.describe(hostile=int(how), power=est.power)
    kind, sched = schedule(rng, model.T, rng.randint(1, 6))
    case.describe(schedule=kind)
    nodes = chain(model, est)

    def watch():
        for n in nodes:
            g = n.marginal
            case.event('marginals')
            P, m = np.asarray(g.cov), np.asarray(g.mean)
            case.check(P.shape == (model.d, model.d) and m.shape == (model.d,), 'shapes', cov=P.shape, mean=m.shape)
            case.check(np.all(np.isfinite(P)) and np.all(np.isfinite(m)), 'a marginal is not finite', mean=m)
            case.check(np.array_equal(P, P.T) or np.abs(P - P.T).max() <= 1e-9 * np.abs(P).max(), 'a marginal covariance is not symmetric')
            case.check(ref.is_pd(P), 'a marginal covariance is not positive definite', margin=margin(P))
    watch()
    for i, k in sched:
        before = nodes[i].marginal
        getattr(nodes[i], k)()
        if nodes[i].marginal is not before:
            case.event('accepted')
        watch()
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C12', quick=120, thorough=6000, needs={'proposals': 500, 'improper': 300})
def proposals(case, rng):
    """Projections forced on any kind of update at any node of graphs of up to 16 dimensions: proper ones, indefinite ones
    with a positive diagonal or a positive determinant, and proper ones that make the new marginal improper in a single
    direction once damping / power extrapolates.  After every update every marginal is still a proper Gaussian."""
    model = any_model(rng, Tmax=4, p=(.5, .3, .2), big=.3)
    tk = ['UT', 'TT'][rng.randint(2)]
    power, damping = power_damping(rng)
    est = fresh(model, power, damping, tk, 0)
    forced = []

    def switch(func):
        return lambda *a, **k: forced[0] if forced else func(*a, **k)
    for name in ('proj_trans', 'proj_meas', 'proj_back'):
        setattr(est, name, switch(getattr(est, name)))
    nodes = chain(model, est)
    case.describe(transform=tk, power=power, damping=damping, **model.describe())
    ep_fwd_back_updates(nodes)
    d = model.d
    for _ in range(8):
        i, kind = rng.randint(model.T), KINDS[rng.randint(3)]
        n = nodes[i]
        P = np.array(n.marginal.cov)
        s = np.sqrt(np.diag(P))
        how = rng.randint(5)
        v = rng.randn(d)
        if how == 0:
            prop = Gaussian(n.marginal.mean + s * rng.randn(d), P * rng.uniform(.5, 3))
        elif how == 1 and d > 1:                # correlations beyond one
            a, b = rng.choice(d, 2, replace=False)
            bad = np.diag(s ** 2)
            bad[a, b] = bad[b, a] = rng.uniform(1.01, 3) * s[a] * s[b] * [-1, 1][rng.randint(2)]
            prop = Gaussian(n.marginal.mean, bad)
            case.event('improper')
        elif how == 2:                          # one or two negative directions
            q, _ = np.linalg.qr(rng.randn(d, d))
            ev = rng.uniform(.5, 2, d)
            ev[:min(d, rng.randint(1, 3))] *= -rng.uniform(.01, 1)
            prop = Gaussian(n.marginal.mean, s[:, None] * ((q * ev) @ q.T) * s[None, :])
            case.event('improper')
        elif how == 3:                          # takes almost everything that is known in one direction
            L = np.linalg.inv(P)
            L = L - rng.uniform(.5, .999) * np.outer(v, v) / (v @ P @ v)
            C = np.linalg.inv((L + L.T) / 2)
            prop = Gaussian(n.marginal.mean, (C + C.T) / 2)
        else:
            prop = Gaussian(n.marginal.mean + s, P * 10.0 ** rng.uniform(-3, 6))
        forced.append(prop)
        getattr(n, kind)()
        forced.clear()
        case.event('proposals')
        for g in (x.marginal for x in nodes):
            C, m = np.asarray(g.cov), np.asarray(g.mean)
            case.check(np.all(np.isfinite(C)) and np.all(np.isfinite(m)), 'a marginal is not finite', how=how, update=kind)
            case.check(np.abs(C - C.T).max() <= 1e-9 * np.abs(C).max(), 'a marginal covariance is not symmetric', how=how)
            r = np.sqrt(np.abs(np.diag(C)))
            case.check(np.all(np.diag(C) > 0) and ref.min_eig(C / np.outer(r, r)) > -1e-8,
                       'a marginal covariance is not positive definite', how=how, update=kind, margin=margin(C))
        if rng.rand() < .3:
            perform(nodes, schedule(rng, model.T, 1)[1])
    for n in nodes:
        case.observe(*nat(n.marginal))


# ---------------------------------------------------------------- C13
@family('C13', quick=60, thorough=2000, needs={'graphs': 60})
def inputs_kept(case, rng):
    """Building a graph, from any array a user may hold (NaN entries for missing values, whole numbers, read-only,
    strided, transposed or stacked arrays, lists), and advancing it leaves the user's objects as they were, byte by byte."""
    d, m, T = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 7)
    system, log, mats = timed_system(rng, d, m, any_dt(rng), T)
    data = rng.randn(T, m) * 3
    missing = rng.rand(T) < .3 if rng.rand() < .6 else np.zeros(T, bool)
    data[missing] = np.nan
    how = rng.randint(6)
    if how == 0:
        ys = data
    elif how == 1:
        ys = data[:, None, :]
    elif how == 2:
        ys = np.asfortranarray(np.repeat(data, 2, axis=0))[::2]
    elif how == 3:
        ys = [y for y in data]
    elif how == 4:
        ys = np.where(np.isnan(data), 0, np.round(data)).astype(int)
    else:
        ys = data.T.copy().T
    locked = isinstance(ys, np.ndarray) and rng.rand() < .3
    if locked:
        ys.flags.writeable = False
    named = [('t', 'u'), ('t',), ('u',), ()][rng.randint(4)]
    fargs = [{k: float(rng.randn()) for k in named} for i in range(T)] if rng.rand() < .4 else None
    case.describe(d=d, m=m, T=T, how=int(how), missing=int(missing.sum()), locked=locked, fargs=fargs is not None)
    kept = copy.deepcopy(ys)
    fkept = copy.deepcopy(fargs)
    writable = [np.asarray(y).flags.writeable for y in ys] + [getattr(ys, 'flags', None) and ys.flags.writeable]
    sysm = {n: np.array(getattr(system.init_state, n)) for n in ('mean', 'cov')}

    def verify(what):
        same = all(np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f') for a, b in zip(ys, kept))
        case.check(same and len(ys) == T, what + ': the measurements were modified')
        case.check([np.asarray(y).flags.writeable for y in ys] + [getattr(ys, 'flags', None) and ys.flags.writeable] == writable,
                   what + ': the measurements were locked')
        case.check(fargs == fkept, what + ': the keyword arguments were modified')
        case.check(all(np.array_equal(getattr(system.init_state, n), v) for n, v in sysm.items()), what + ': the prior was modified')
    tt = UnscentedTransform(dim=d) if rng.rand() < .5 else TaylorTransform(dim=d)
    est = Estimator(tt, tt, mats['Q'], mats['R'], power=1, damping=1)
    if fargs is None and rng.rand() < .5:
        nodes = build_nodes(N=T, dim=d, estimator=est, system=system, measurements=ys)
    else:
        nodes = node_system(node_estimator(build_nodes(N=T, dim=d), est), system, ys, **({} if fargs is None else {'farg_list': fargs}))
    case.event('graphs')
    verify('building a graph')
    for i, n in enumerate(nodes):
        case.check(np.array_equal(np.ravel(n.meas), np.ravel(ys[i]), equal_nan=np.asarray(ys[i]).dtype.kind == 'f'),
                   'a node holds the measurement it was given', node=i)
        n.fwd_update()
        if not (missing[i] and how != 4):
            n.meas_update()
    for n in reversed(nodes):
        n.back_update()
    verify('message passing')
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C13', quick=120, thorough=7000, needs={'updates': 1000, 'held': 2000})
def locality(case, rng):
    """Random runs: an update changes only its own node's marginal and own factor; states handed out earlier keep
    their values for the rest of the run; measurements, noises, prior and means given by the user stay as they were."""
    model, est = setup(case, rng, Tmax=5)
    kind, sched = schedule(rng, model.T, rng.randint(1, 4))
    case.describe(schedule=kind)
    probe = Probe(est)
    sysm = model.system
    user = {'prior mean': sysm.init_state.mean, 'prior cov': sysm.init_state.cov,
            'system noise': sysm.system_noise.cov, 'measurement noise': sysm.measurement_noise.cov}
    user.update({'measurement %d' % i: y for i, y in enumerate(model.ys)})
    frozen = {k: np.array(v) for k, v in user.items()}
    nodes = chain(model, est)
    held = {}

    def on(rec):
        case.event('updates')
        for j in range(len(nodes)):
            for v in VIEWS:
                own = j == rec['node'] and v in ('marginal', FACTOR[rec['kind']])
                a, b = rec['pre'][j][v], rec['post'][j][v]
                if not own:
                    case.check(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]),
                               'an update changed something that is not its own', node=rec['node'], kind=rec['kind'], other=j, view=v)
                # objects handed out before
                o = rec['held'][j][v]
                if id(o) not in held:
                    held[id(o)] = (o, a)
        for name, v in frozen.items():
            case.check(np.array_equal(np.asarray(user[name]), v), 'an update modified ' + name)
    Watch(nodes, probe, on)
    perform(nodes, sched)
    for o, v in held.values():
        case.event('held')
        got = nat(o)
        case.check(np.array_equal(got[0], v[0]) and np.array_equal(got[1], v[1]), 'a state handed out earlier changed its value')
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C13', quick=60, thorough=3000, needs={'pairs': 60, 'snapshots': 60})
def isolation(case, rng):
    """Two graphs advanced in a random interleaving give bit-identical results to running each alone, also when they
    share system, measurements and estimator; deep copies taken between sweeps stay as they were while the original
    moves on, and can be advanced themselves to the same result."""
    model = any_model(rng, Tmax=5)
    tk = ['UT', 'TT'][rng.randint(2)]
    pds = [power_damping(rng) for _ in range(2)]
    shared = rng.rand() < .4
    if shared:
        pds[1] = pds[0]
    models = [model, model]
    if not shared and rng.rand() < .4:           # another system of the same dimension
        models[1] = lg_model(rng, d=model.d, Tmax=5)
    sch = [schedule(rng, x.T, 2)[1] for x in models]
    transforms_shared = not shared and rng.rand() < .5
    case.describe(transform=tk, settings=pds, shared_estimator=shared, shared_transforms=transforms_shared,
                  other_system=models[1] is not model, **model.describe())
    alone = []
    for x, (p, g), s in zip(models, pds, sch):
        nodes = chain(x, fresh(x, p, g, tk, 0))
        perform(nodes, s)
        alone.append([node_state(n) for n in nodes])
    ests = [fresh(x, p, g, tk, 0) for x, (p, g) in zip(models, pds)]
    if shared:
        ests[1] = ests[0]
    elif transforms_shared:
        _, tt, mt = transforms(rng, model.d, tk)
        ests = [estimator_for(x, tt, mt, p, g) for x, (p, g) in zip(models, pds)]
    pair = [chain(x, e) for x, e in zip(models, ests)]
    pos = [0, 0]
    while pos[0] < len(sch[0]) or pos[1] < len(sch[1]):
        k = rng.randint(2)
        if pos[k] >= len(sch[k]):
            k = 1 - k
        perform(pair[k], sch[k][pos[k]:pos[k] + 1])
        pos[k] += 1
    case.event('pairs')
    for a, b in zip(pair, alone):
        case.near(max(state_dist(node_state(n), s) for n, s in zip(a, b)), 0.0, 1e-12,
                  'interleaved graphs behave as if alone')
    # deep copies, and shallow copies of single nodes
    nodes = chain(model, fresh(model, pds[0][0], pds[0][1], tk, 0))
    single = [n.copy() for n in nodes]
    single_kept = [node_state(n) for n in single]
    ep_fwd_back_updates(nodes)
    case.check(all(same_state(node_state(a), b) for a, b in zip(single, single_kept)), 'a copy of a node moved with the original')
    snap = copy.deepcopy(nodes)
    kept = [node_state(n) for n in snap]
    case.check(all(same_state(node_state(a), b) for a, b in zip(nodes, kept)), 'a deep copy equals the original')
    ep_fwd_back_updates(nodes)
    case.event('snapshots')
    case.check(all(same_state(node_state(a), b) for a, b in zip(snap, kept)), 'a deep copy moved with the original')
    moved = [node_state(n) for n in nodes]
    ep_fwd_back_updates(snap)
    case.check(all(same_state(node_state(a), b) for a, b in zip(nodes, moved)), 'advancing the copy moved the original')
    case.near(max(state_dist(node_state(a), b) for a, b in zip(snap, moved)), 0.0, 1e-12, 'the copy advances to the same result')
    for n in nodes:
        case.observe(*nat(n.marginal))


# ---------------------------------------------------------------- C14
class Log(list):
    """Arguments of every evaluation; raw: exactly as they were passed."""

    def __init__(self):
        super().__init__()
        self.raw = []

    def clear(self):
        super().clear()
        self.raw.clear()


def timed_system(rng, d, m, dt, T):
    """Time and input dependent linear system; logs (t, u) of every evaluation of the transition."""
    A, b = gen.stable(rng, d, .5, .9), rng.randn(d)
    B, c = 0.02 * min(1.0, 10 / (T * dt)) * rng.randn(d, d), rng.randn(d)      # bounded over the whole chain
    C, e = rng.randn(m, d), rng.randn(m)
    Q, R = gen.spd(rng, d), gen.spd(rng, m)
    log = Log()
    base = gen.affine_tu(A, b, B, c)

    def f(x, t=None, u=None, bias=0.0):
        log.append((0.0 if t is None else t, 0.0 if u is None else u, bias))
        log.raw.append((t, u))
        return base(x, t=t, u=u) + bias
    m0, P0 = gen.gauss_args(rng, d, 1)
    system = DynamicSystemModel(d, m, f, gen.affine(C, e), GaussianNoise(d, Q), GaussianNoise(m, R), Gaussian(m0, P0), dt=dt)
    return system, log, dict(A=A, b=b, B=B, c=c, C=C, e=e, Q=Q, R=R, m0=m0, P0=P0)


@family('C14', quick=200, thorough=10000, needs={'fwd': 200, 'back': 200, 'graphs': 200})
def binding(case, rng):
    """Chains of 1 to 12 nodes over a time- and input-dependent system with random step length: structure of the
    chain, and - observed at the boundary of the user's functions and of the projections - which time, input,
    measurement and prior every update uses, with default times or explicit keyword arguments, staged or one-call build."""
    d, m = rng.randint(1, 4), rng.randint(1, 4)
    T = 1 if rng.rand() < .12 else rng.randint(1, 13)
    dt = any_dt(rng)
    if rng.rand() < .05:
        d, m, T = rng.randint(1, 3), rng.randint(1, 3), rng.randint(33, 60)
    system, log, mats = timed_system(rng, d, m, dt, T)
    shapes = rng.randint(3)
    ys = gen.odd_measurements(rng, [rng.randn(m) for _ in range(T)])
    given = [y if shapes == 0 else y[None, :] if shapes == 1 else (float(y[0]) if m == 1 else y) for y in ys]
    if rng.rand() < .3 and shapes != 2:
        given = np.array(given)
    fargs = None
    if rng.rand() < .5:
        names = [('t', 'u'), ('t', 'u', 'bias'), ('t', 'bias'), ('bias',), ('u',)][rng.randint(5)]
        fargs = [{k: float(rng.randn()) for k in names} for _ in range(T)]
        want = [(f.get('t', 0.0), f.get('u', 0.0), f.get('bias', 0.0)) for f in fargs]
    else:
        want = [(i * dt, 0.0, 0.0) for i in range(T)]
    tk, tt, mt = transforms(rng, d, ['UT', 'TT'][rng.randint(2)])
    est = Estimator(tt, mt, mats['Q'], mats['R'], power=[1, .5][rng.randint(2)], damping=1)
    probe = Probe(est)
    given_args = copy.deepcopy(fargs)
    onecall = fargs is None and rng.rand() < .4
    case.describe(d=d, m=m, T=T, dt=dt, shape=int(shapes), explicit=fargs is not None, onecall=onecall, transform=tk)
    if onecall:
        nodes = build_nodes(N=T, dim=d, estimator=est, system=system, measurements=given)
    elif rng.rand() < .5:
        nodes = node_system(nodes=build_nodes(N=T, dim=d, estimator=est), system_model=system, measurements=given,
                            **({} if fargs is None else {'farg_list': fargs}))
    else:
        nodes = build_nodes(N=T, dim=d)
        nodes = node_system(nodes, system, given, fargs) if fargs is not None else node_system(nodes, system, given)
        nodes = node_estimator(nodes=nodes, estimator=est)
    case.event('graphs')
    case.check(fargs == given_args, 'binding leaves the keyword arguments of the caller alone', got=fargs, want=given_args)
    if fargs is not None and rng.rand() < .3:           # the caller goes on using those dictionaries
        for f in fargs:
            f.update(t=1e3, u=-1e3)
    case.check(len(nodes) == T, 'number of nodes', got=len(nodes))
    for i, n in enumerate(nodes):
        case.check(n.index == i and n.dim == d, 'index and dimension', node=i)
        case.check((n.prev_node is (nodes[i - 1] if i else None)) and (n.next_node is (nodes[i + 1] if i < T - 1 else None)),
                   'neighbours', node=i)
        case.near(n.marginal.cov, 1e10 * np.eye(d), 1.0, 'nodes start vague')
        for v in VIEWS[1:]:
            case.near(getattr(n, v).precision, np.zeros((d, d)), 1e-12, 'factors start as the unit')
    objs = [id(getattr(n, v)) for n in nodes for v in VIEWS]
    case.check(len({id(n) for n in nodes}) == T, 'nodes are distinct')
    for rnd in range(2):
        for i, n in enumerate(nodes):
            log.clear()
            k0 = len(probe.calls)
            n.fwd_update()
            case.event('fwd')
            case.check(len(log) > 0, 'the forward message evaluates the transition', node=i)
            case.check(all(np.abs(np.subtract(e, want[i])).max() < 1e-9 for e in log),
                       'time and arguments of a forward message', node=i, got=log[:2], want=want[i])
            if i == 0:
                near_nat(case, probe.calls[k0]['state_nat'], nat(system.init_state), 'the first node starts from the prior', 1e-12)
            k0 = len(probe.calls)
            n.meas_update()
            case.event('meas')
            case.near(np.ravel(probe.calls[k0]['meas']), ys[i], 1e-12, 'measurement of a node', node=i)
        for i in reversed(range(T)):
            log.clear()
            nodes[i].back_update()
            if i == T - 1:
                case.check(len(log) == 0, 'the last node evaluates no transition backwards')
                continue
            case.event('back')
            case.check(len(log) > 0 and all(np.abs(np.subtract(e, want[i + 1])).max() < 1e-9 for e in log),
                       'time and arguments of a backward message', node=i, got=log[:2], want=want[i + 1])
    case.observe(*ys)
    # and end to end: the exact posterior of the time-varying model
    As = [mats['A'] + t * mats['B'] for t, u, bias in want]
    bs = [mats['b'] + u * mats['c'] + bias for t, u, bias in want]
    post = gen.lg_posterior(mats['m0'], mats['P0'], As, bs, [mats['Q']] * T, [mats['C']] * T, [mats['e']] * T, [mats['R']] * T, ys)
    for i, (pm, pP) in enumerate(post):
        case.near(gen.gdist(nodes[i].marginal.mean, nodes[i].marginal.cov, pm, pP), 0, 1e-5, 'posterior of the time-varying model', node=i)


@family('C14', quick=60, thorough=3000, needs={'rebound': 60})
def rebinding(case, rng):
    """A graph that has already been used with one estimator and one system is given another estimator (other power,
    damping, noise, transform), another system (other prior, functions, step) or both: from then on every update uses
    the new ones only, by the message equations."""
    first = any_model(rng, Tmax=5, p=(.5, .5, 0))
    second = lg_model(rng, d=first.d, T=first.T, m=first.m)
    pw, dp = power_damping(rng)
    est = fresh(first, pw, dp, ['UT', 'TT'][rng.randint(2)], 0)
    old = Probe(est)
    nodes = chain(first, est)
    for _ in range(rng.randint(0, 3)):
        ep_fwd_back_updates(nodes)
    pw, dp = power_damping(rng)
    what = ['estimator', 'system', 'both'][rng.randint(3)]
    model = first if what == 'estimator' else second
    case.describe(rebound=what, power=pw, damping=dp, **model.describe())
    used = len(old.calls)
    probe = old
    if what != 'system':
        est = fresh(model, pw, dp, ['UT', 'TT'][rng.randint(2)], 0)
        probe = Probe(est)
        nodes = node_estimator(nodes=nodes, estimator=est)
    if what != 'estimator':
        nodes = node_system(nodes=nodes, system_model=model.system, measurements=model.ys)
    case.event('rebound')
    case.check(all(n.power == est.power and n.damping == est.damping for n in nodes), 'power and damping of the nodes')
    watched = protocol_monitor(case, nodes, est, model, rng, model.system.init_state)
    Watch(nodes, probe, watched)
    perform(nodes, schedule(rng, model.T, 2)[1])
    if what != 'system':
        case.check(len(old.calls) == used, 'the former estimator is not asked any more')
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C14', quick=40, thorough=2000, needs={'handmade': 40})
def handmade(case, rng):
    """Nodes made one by one, some with their own starting marginal and starting messages and with neighbours given at
    once or linked later: each starts with what it was given, and the graph runs like one built by the library that
    was put into the same state."""
    model = any_model(rng, Tmax=5, p=(.5, .5, 0))
    pw, dp = power_damping(rng)
    tk = ['UT', 'TT'][rng.randint(2)]
    T, d = model.T, model.d
    case.describe(power=pw, damping=dp, **model.describe())
    twin = chain(model, fresh(model, pw, dp, tk, 0))
    mine = []
    for i in range(T):
        kw = {}
        if rng.rand() < .5:
            kw['marginal_init'] = Gaussian(*gen.gauss_args(rng, d, lo=1, hi=5))
        if rng.rand() < .4:
            kw['factor_init'] = tuple(Gaussian(rng.randn(d), gen.spd(rng, d, 5, 50)) if rng.rand() < .7 else Gaussian.as_factor(d)
                                      for _ in range(3))
        early = rng.rand() < .5
        if mine and early:
            kw['prev_node'] = mine[-1]
        if i or rng.rand() < .5:
            kw['index'] = i
        n = Node(d, **kw)
        case.event('handmade')
        case.check(n.index == i and n.dim == d and n.prev_node is (mine[-1] if mine and early else None) and n.next_node is None,
                   'what a node was made with', node=i)
        start = kw.get('marginal_init', Gaussian.as_marginal(d))
        near_nat(case, nat(n.marginal), nat(start), 'starting marginal', 1e-12)
        factors = kw.get('factor_init', tuple(Gaussian.as_factor(d) for _ in range(3)))
        for name, f in zip(('measurement_factor', 'back_factor', 'forward_factor'), factors):
            near_nat(case, nat(getattr(n, name)), nat(f), 'starting ' + name, 1e-12)
            setattr(twin[i], name, f.copy())
        twin[i].marginal = start.copy()
        if mine:
            n.prev_node = mine[-1]
            mine[-1].next_node = n
        mine.append(n)
    last = Node(d, next_node=mine[0])
    case.check(last.next_node is mine[0] and last.prev_node is None, 'a node made before another one')
    mine = node_estimator(nodes=mine, estimator=fresh(model, pw, dp, tk, 0))
    mine = node_system(nodes=mine, system_model=model.system, measurements=model.ys)
    plan = schedule(rng, T, 2)[1]
    perform(mine, plan)
    perform(twin, plan)
    for a, b in zip(mine, twin):
        for v in VIEWS:
            near_nat(case, nat(getattr(a, v)), nat(getattr(b, v)), 'run of a handmade graph: ' + v, 1e-9)
        case.observe(*nat(a.marginal))


class TimedLG:
    """A linear Gaussian model whose dynamics change over time, with the interface of gen.LG that is used here."""

    def __init__(self, rng, dmax=4, mmax=3, Tmax=8, big=0.0, long=0.0):
        self.d, self.m, self.T = gen.sizes(rng, dmax, mmax, Tmax, big, long)
        self.dt = any_dt(rng)
        self.system, self.log, self.mats = timed_system(rng, self.d, self.m, self.dt, self.T)
        self.ys = gen.odd_measurements(rng, [rng.randn(self.m) * 2 for _ in range(self.T)])

    def posterior(self, upto=None):
        M, T = self.mats, self.T
        return gen.lg_posterior(M['m0'], M['P0'], [M['A'] + i * self.dt * M['B'] for i in range(T)], [M['b']] * T, [M['Q']] * T,
                                [M['C']] * T, [M['e']] * T, [M['R']] * T, self.ys, upto)


def linear_model(rng, **kw):
    if rng.rand() < .55:
        return lg_model(rng, **kw)
    lg = TimedLG(rng, **kw)
    return Model('linear-timed', lg.system, lg.d, lg.m, lg.ys, lg)


# ---------------------------------------------------------------- C15
def lg_err(nodes, post):
    return max(gen.gdist(n.marginal.mean, n.marginal.cov, m, P) for n, (m, P) in zip(nodes, post))


@family('C15', quick=160, thorough=9000, needs={'sweeps': 300})
def exact(case, rng):
    """Random linear Gaussian models (dims 1-5, chains 1-12), unscented and Taylor, powers 0.1-2: after one undamped
    forward-backward sweep every marginal equals the posterior from dense conditioning of the joint Gaussian, after
    the forward half it equals the filtering distribution, and further sweeps stay there."""
    model = linear_model(rng, dmax=5, mmax=4, Tmax=12, big=.04, long=.04)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    power = POWERS[rng.randint(len(POWERS))] if rng.rand() < .7 else float(rng.uniform(.1, 2))
    est = estimator_for(model, tt, mt, power, 1.0)
    nodes = chain(model, est)
    case.describe(transform=tk, power=power, **model.describe())
    tol = 1e-6
    if power > 1:           # cavities may be indefinite, and those are inverted with a jitter of 1e-10
        tol += 1e-11 / min(ref.min_eig(P) for _, P in model.lg.posterior())
    kalman_filter(nodes)
    for i in range(model.T):
        m, P = model.lg.posterior(upto=i + 1)[i]
        case.near(gen.gdist(nodes[i].marginal.mean, nodes[i].marginal.cov, m, P), 0, tol, 'filtering marginal', node=i)
    kalman_smoother(nodes)
    post = model.lg.posterior()
    case.near(lg_err(nodes, post), 0, tol, 'posterior after one sweep')
    case.event('sweeps')
    for r in range(3):
        (ep_fwd_back_updates if rng.rand() < .7 else ep_update)(nodes)
        case.event('sweeps')
        case.near(lg_err(nodes, post), 0, tol, 'the exact posterior is a fixed point', round=r)
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C15', quick=40, thorough=2000, needs={'sweeps': 40})
def exact_from_anywhere(case, rng):
    """The same model reached through different powers and transforms gives the same marginals, and a graph that has
    converged for one measurement sequence re-converges after the measurements are replaced."""
    model = linear_model(rng, dmax=3, mmax=3, Tmax=6)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    est = estimator_for(model, tt, mt, [1.0, .5][rng.randint(2)], 1.0)
    nodes = chain(model, est)
    ep_fwd_back_updates(nodes)
    case.describe(transform=tk, power=est.power, **model.describe())
    case.near(lg_err(nodes, model.lg.posterior()), 0, 1e-6, 'posterior')
    model.lg.ys = [y + rng.randn(model.m) * 3 for y in model.lg.ys]
    model.ys = model.lg.ys
    nodes = node_system(nodes=nodes, system_model=model.system, measurements=model.ys)
    for _ in range(model.T + 2):
        ep_fwd_back_updates(nodes)
        case.event('sweeps')
    case.near(lg_err(nodes, model.lg.posterior()), 0, 1e-5, 'posterior after new measurements were attached')
    for n in nodes:
        case.observe(*nat(n.marginal))


# ---------------------------------------------------------------- C16
@family('C16', quick=80, thorough=4000, needs={'rounds': 500})
def any_schedule(case, rng):
    """Bounded progress: starting from vague marginals, updates in a fresh random order every round (every message once
    per round), powers up to 1, no damping: within 2T+8 rounds every marginal is the exact posterior and stays there."""
    model = linear_model(rng, dmax=3, mmax=3, Tmax=6)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    power = [1.0, 1.0, .8, .5, .3][rng.randint(5)]
    est = estimator_for(model, tt, mt, power, 1.0)
    nodes = chain(model, est)
    post = model.lg.posterior()
    case.describe(transform=tk, power=power, **model.describe())
    for r in range(2 * model.T + 10):
        perform(nodes, schedule(rng, model.T, 1, 'random')[1])
        case.event('rounds')
        if r >= 2 * model.T + 7:
            case.near(lg_err(nodes, post), 0, 1e-5, 'exact posterior within the bound under a random fair schedule', round=r)
    for n in nodes:
        case.observe(*nat(n.marginal))


@family('C16', quick=60, thorough=3000, needs={'rounds': 500})
def damped(case, rng):
    """Damped power EP (damping 0.3-0.9, power up to 1) on linear models: the distance to the exact posterior becomes
    small within a number of sweeps proportional to log(1/tol)/log(1/(1-damping)), and the undamped sweep that follows
    leaves it there."""
    model = linear_model(rng, dmax=3, mmax=3, Tmax=5)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    power, damping = [1.0, .8, .5][rng.randint(3)], [.9, .8, .5, .3][rng.randint(4)]
    est = estimator_for(model, tt, mt, power, damping)
    nodes = chain(model, est)
    post = model.lg.posterior()
    case.describe(transform=tk, power=power, damping=damping, **model.describe())
    n = int(4 * np.log(1e7) / -np.log1p(-damping)) + 10
    errs = []
    for r in range(n):
        ep_fwd_back_updates(nodes)
        case.event('rounds')
        errs.append(lg_err(nodes, post))
        if errs[-1] < 1e-7:
            break
    case.near(errs[-1], 0, 1e-4, 'damped sweeps converge to the exact posterior', sweeps=len(errs), tail=errs[-3:])
    for n in nodes:
        case.observe(*nat(n.marginal))


# ---------------------------------------------------------------- C17
@family('C17', quick=120, thorough=6000, needs={'compared': 400})
def ep_is_kalman(case, rng):
    """Nonlinear, benchmark and linear models with unscented or Taylor moments: the first undamped standard EP sweep
    reproduces the Gaussian filter (after its forward half) and the Gaussian smoother (after its backward half)."""
    model = any_model(rng, Tmax=10, p=(.15, .5, .35), big=.03, long=.04)
    tk, tt, mt = transforms(rng, model.d, ['UT', 'TT'][rng.randint(2)])
    one = [1, 1.0][rng.randint(2)]
    est = estimator_for(model, tt, mt, one, one)
    nodes = chain(model, est)
    ks = KalmanFilterSmoother(tt, model.system, mt)
    case.describe(transform=tk, **model.describe())
    ys = [np.asarray(y) for y in model.ys]
    try:
        filt = ks.kalman_filter(ys)
        smooth = ks.kalman_smoother(filt)
    except LinAlgError:
        case.trivial('the filter itself failed')
        return
    if min(margin(s.cov / np.sqrt(np.outer(np.diag(s.cov), np.diag(s.cov)))) for s in filt + smooth) < 1e-7:
        case.trivial('the filter lost positive definiteness')
        return
    tol = {'BOTT': 1e-3, 'UNGM': 1e-4}.get(model.name, 1e-5)
    # Marginals start from the vague N(0, 1e10): that precision stays in them, and unstable models blow it up.  Measure how
    # much by filtering with it.
    off = []
    try:
        vague, state, dt = [], model.system.init_state, model.system.dt
        for k, y in enumerate(ys):
            state = ks.predict(state, t=k * dt)
            P = np.linalg.inv(np.linalg.inv(state.cov) + 1e-10 * np.eye(model.d))
            state = Gaussian(P @ np.linalg.solve(state.cov, state.mean), (P + P.T) / 2)
            state = ks.correct(state, y.squeeze(), t=k * dt)
            vague.append(state)
        for ours, theirs in zip((vague, ks.kalman_smoother(vague)), (filt, smooth)):
            off += [gen.gdist(a.mean, a.cov, b.mean, b.cov) for a, b in zip(ours, theirs)]
    except LinAlgError:
        pass
    if len(off) < 2 * model.T or not np.all(np.isfinite(off)) or max(off) > 1e-3:
        case.trivial('the outcome hangs on the last digits')
        return
    tol = max(tol, 20 * max(off))
    kalman_filter(nodes)
    for n, s in zip(nodes, filt):
        case.event('compared')
        case.near(gen.gdist(n.marginal.mean, n.marginal.cov, s.mean, s.cov), 0, tol, 'forward half = Gaussian filter ' + model.name)
    kalman_smoother(nodes)
    for n, s in zip(nodes, smooth):
        case.near(gen.gdist(n.marginal.mean, n.marginal.cov, s.mean, s.cov), 0, tol, 'one sweep = Gaussian smoother ' + model.name)
        case.observe(s.mean, s.cov)
