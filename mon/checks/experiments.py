"""C27-C31: storage, logging of iterations, experiment sweeps, component-wise metrics, plots."""
import gc
import importlib
import os
import shutil
import sqlite3

import numpy as np
from numpy.linalg import LinAlgError

import gen
import ref
from core import family
from eplab import (Boom, benchmark_model, chain, estimator_for, l96_system, lg_model, smooth_model, transforms)
from StateModel import Gaussian
from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
from MomentMatching.Estimator import Estimator
from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
from ExpectationPropagation import Iterations
from Systems import DynamicSystemModel, GaussianNoise, UniformNonlinearGrowthModel, BearingsOnlyTracking, \
    BearingsOnlyTrackingTurn, L96
from Utils import Database


def exp_module(name):
    return importlib.import_module('Experiments.' + name)


def scratch(rng, suffix='.db'):
    p = os.path.abspath('t{}{}'.format(rng.randint(10 ** 9), suffix))
    if os.path.exists(p):
        os.unlink(p)
    return p


def connect(path):
    con = Database.open_database(path)
    con.execute('PRAGMA synchronous=OFF')
    return con


def drop(path):
    for s in ('', '-journal', '-wal', '-shm'):
        if os.path.exists(path + s):
            os.unlink(path + s)


def same(a, b):
    """Bit-for-bit equal arrays, NaNs included."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def same_item(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(y, np.ndarray):
        return same(x, y)
    if isinstance(y, list):
        return len(x) == len(y) and all(same_item(a, b) for a, b in zip(x, y))
    return x == y or (x != x and y != y)


# ---------------------------------------------------------------- C27
def odd_array(rng):
    shape = tuple(rng.randint(0 if rng.rand() < .15 else 1, 5) for _ in range(rng.randint(0, 4)))
    kind = rng.randint(6)
    if kind == 0:
        a = rng.randint(-2 ** 31, 2 ** 31 - 1, size=shape)
    elif kind == 1:
        a = np.asarray(rng.randn(*shape)).astype(np.float32)
    elif kind == 2:
        a = np.asarray(rng.randn(*shape)) > 0
    elif kind == 3:
        a = rng.randn(*shape) * 10.0 ** rng.randint(-300, 300)
    else:
        a = rng.randn(*shape)
    a = np.asarray(a)
    if a.dtype == float and a.size and rng.rand() < .3:
        a = a.copy()
        a.flat[rng.randint(a.size)] = [np.nan, np.inf, -np.inf, -0.0, 5e-324][rng.randint(5)]
    if a.ndim >= 2 and rng.rand() < .3:
        a = np.asfortranarray(a)
    if a.ndim >= 1 and rng.rand() < .3:
        a = np.concatenate([a, a])[::2]
    return a


@family('C27', quick=200, thorough=8000, needs={'arrays': 400, 'lists': 200})
def values(case, rng):
    """Arrays of every shape, order and dtype (empty, 0-d, strided, with NaN, infinities, subnormals) and nested lists
    stored in a database file come back bit for bit after commit, close and reopen."""
    path = scratch(rng)
    con = connect(path)
    con.execute('CREATE TABLE v (i INT, a NParray, p pickle)')
    kept = []
    for i in range(rng.randint(2, 7)):
        a = odd_array(rng)
        lst = [rng.randn(*[rng.randint(1, 4) for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(0, 4))] if rng.rand() < .6 else \
            [[float(rng.randn()), 'x', [1, None]], [None, rng.randn(2), 3, float('nan')], [None], [rng.randn(3), None, rng.randn(3)],
             [rng.randn(2), [rng.randn(2, 2), {'k': 1}]],
             # arrays of one shape, of different types and memory orders
             [rng.randn(2, 3).astype(t) if i % 2 else np.asfortranarray(rng.randn(2, 3)).astype(t, order='K')
              for i, t in enumerate(rng.choice(['f8', 'f4', 'i8', '?', '>f8', 'c16'], rng.randint(2, 5)))]][rng.randint(6)]
        keep = a.copy(order='K')
        con.execute('INSERT INTO v VALUES (?, ?, ?)', (i, a, lst))
        case.check(same(a, keep), 'storing an array leaves it unchanged')
        kept.append((a, lst))
        case.event('arrays')
        case.event('lists')
    con.commit()
    con.close()
    con = connect(path)
    rows = con.execute('SELECT i, a, p FROM v ORDER BY i').fetchall()
    case.check(len(rows) == len(kept), 'rows read back', got=len(rows), want=len(kept))
    for (i, a, p), (wa, wp) in zip(rows, kept):
        case.check(isinstance(a, np.ndarray) and same(a, wa), 'array read back', index=i, got=a, want=wa)
        case.check(isinstance(p, list) and len(p) == len(wp), 'list read back', index=i)
        for x, y in zip(p, wp):
            case.check(same_item(x, y), 'list item read back', index=i, got=x, want=y)
        if wa.dtype == float:
            case.observe(np.nan_to_num(wa))
    case.describe(n=len(kept), shapes=[list(a.shape) for a, _ in kept], dtypes=[str(a.dtype) for a, _ in kept])
    con.close()
    drop(path)


@family('C27', quick=150, thorough=6000, needs={'operations': 1500, 'reopens': 100, 'rejected_duplicates': 60})
def tables(case, rng):
    """Random histories of create, insert, commit, rollback, crash (close without commit) and reopen on several tables
    and seeds, against a model of the two stores: simulated data keeps the first value per (seed, step); results
    keep the last value per (transform, seed, iteration, power, damping); every other row is untouched; a reader
    on another connection sees exactly what was committed."""
    path = scratch(rng)
    con = connect(path)
    dyn_names, exp_names = ['UNGM_SIM', 'BOT_SIM'], ['UNGM_EXP', 'BOT_EXP']
    live = {n: {} for n in dyn_names + exp_names}
    for n in dyn_names:
        Database.create_dynamics_table(con.cursor(), name=n)
    for n in exp_names:
        Database.create_experiment_table(con.cursor(), table_name=n)
    con.commit()
    done = {n: dict(v) for n, v in live.items()}
    seeds, powers = [1, 101, [7, 2 ** 31 + 5, 2 ** 32 - 1][rng.randint(3)]], [.1, .30000000000000004, 1.0]

    def audit(c, model, who):
        for n in dyn_names:
            rows = c.execute('SELECT Seed, t, X, Y FROM {} ORDER BY Seed, t'.format(n)).fetchall()
            case.check([r[:2] for r in rows] == sorted(model[n]), who + ': (seed, step) keys of ' + n,
                       got=[r[:2] for r in rows], want=sorted(model[n]))
            for s, t, X, Y in rows:
                x, y = model[n][(s, t)]
                case.check(same(X, x) and same(Y, y), who + ': state and measurement of ' + n, seed=s, t=t)
        for n in exp_names:
            rows = c.execute('SELECT Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance FROM {}'
                             .format(n)).fetchall()
            # SQLite has no NaN: an undefined metric comes back as NULL
            got = {r[:5]: tuple(None if isinstance(v, float) and v != v else v for v in r[5:]) for r in rows}
            case.check(len(got) == len(rows), who + ': one row per key in ' + n)
            case.check(got == model[n], who + ': results in ' + n, got=len(got), want=len(model[n]))

    ops = rng.randint(8, 22)
    trail = []
    for _ in range(ops):
        case.event('operations')
        k = rng.choice(['dyn', 'exp', 'commit', 'rollback', 'crash', 'create'], p=[.3, .3, .16, .08, .08, .08])
        if k == 'dyn' and rng.rand() < .2:
            k = 'sparse'
        trail.append(k[0])
        if k == 'dyn':
            n, s = dyn_names[rng.randint(2)], seeds[rng.randint(3)]
            steps = rng.randint(1, 5) if rng.rand() < .96 else [rng.randint(90, 260), rng.randint(1000, 1200)][rng.randint(2)]
            data = [(rng.randn(1, 2), rng.randn(1, 3)) for _ in range(steps)]
            Database.insert_dynamics_data(con.cursor(), n, data, s)
            for t, (x, y) in enumerate(data):
                if (s, t) in live[n]:
                    case.event('rejected_duplicates')
                live[n].setdefault((s, float(t)), (x, y))
        elif k == 'sparse':                   # single steps on record already, put there by someone else
            n, s, t = dyn_names[rng.randint(2)], seeds[rng.randint(3)], int(rng.randint(0, 5))
            x, y = rng.randn(1, 2), rng.randn(1, 3)
            con.execute('INSERT OR IGNORE INTO {} (Seed, t, X, Y) VALUES (?, ?, ?, ?)'.format(n), (s, t, x, y))
            live[n].setdefault((s, float(t)), (x, y))
        elif k == 'exp':
            n = exp_names[rng.randint(2)]
            row = Database.Exp_Data(['UT', 'TT', 'UT', 'ut'][rng.randint(4)], seeds[rng.randint(3)], int(rng.randint(1, 4)),
                                    powers[rng.randint(3)], [1.0, .8][rng.randint(2)], float(rng.randn()),
                                    float(rng.randn()), [float(rng.randn())], [], [])._asdict()
            del row['Nodes']
            for f in ('RMSE', 'NLL'):          # failed runs have undefined or unbounded metrics
                if rng.rand() < .12:
                    row[f] = [float('nan'), float('inf'), np.float64('nan'), np.float64(rng.randn())][rng.randint(4)]
            key = tuple(row[f] for f in ('Transform', 'Seed', 'Iter', 'Power', 'Damping'))
            Database.insert_experiment_data(con.cursor(), n, row)
            live[n][key] = tuple(None if row[f] != row[f] else row[f] for f in ('RMSE', 'NLL')) + (row['Mean'], row['Variance'])
        elif k == 'create':
            n = rng.randint(2)
            Database.create_dynamics_table(con.cursor(), name=dyn_names[n])
            Database.create_experiment_table(con.cursor(), table_name=exp_names[n])
        elif k == 'commit':
            con.commit()
            done = {n: dict(v) for n, v in live.items()}
        elif k == 'rollback':
            con.rollback()
            live = {n: dict(v) for n, v in done.items()}
        else:
            con.close()
            con = connect(path)
            live = {n: dict(v) for n, v in done.items()}
            case.event('reopens')
        audit(con, live, 'writer')
    other = connect(path)
    audit(other, done, 'reader')
    other.close()
    con.commit()
    con.close()
    con = connect(path)
    audit(con, live, 'after reopening')
    con.close()
    drop(path)
    case.describe(history=''.join(trail))
    case.observe([len(live[n]) for n in sorted(live)])


@family('C27', quick=20, thorough=400, needs={'defaults': 20})
def default_file(case, rng):
    """Without a file name the database is temp.db of the current directory, with typed columns."""
    case.event('defaults')
    here = os.getcwd()
    d = os.path.abspath('cwd{}'.format(rng.randint(10 ** 9)))
    os.makedirs(d)
    try:
        os.chdir(d)
        con = Database.open_database()
        Database.create_dynamics_table(con.cursor())
        a = rng.randn(2, 2)
        Database.insert_dynamics_data(con.cursor(), 'UNGM', [(a, a[0])], 5)
        con.commit()
        con.close()
        case.check(os.listdir(d) == ['temp.db'], 'default file', got=os.listdir(d))
        con = Database.open_database(os.path.join(d, 'temp.db'))
        (s, t, x, y), = con.execute('SELECT Seed, t, X, Y FROM UNGM').fetchall()
        case.check(s == 5 and t == 0 and same(x, a) and same(y, a[0]), 'default table read back')
        con.close()
        case.observe(a)
    finally:
        os.chdir(here)
        shutil.rmtree(d)
    case.describe(default=True)


# ---------------------------------------------------------------- metrics used as oracles
def metric_rows(states, truth):
    se = [float(np.sum((np.ravel(g.mean) - np.ravel(x)) ** 2)) for g, x in zip(states, truth)]
    nl = [-float(ref.logpdf(np.ravel(x), np.ravel(g.mean), np.atleast_2d(g.cov))) for g, x in zip(states, truth)]
    return np.sqrt(np.mean(se)), np.mean(nl)


PARTS = {'position': [0, 2], 'velocity': [1, 3], 'angle': [4]}


def component_rows(states, truth):
    out = {}
    for q, idx in PARTS.items():
        out[q] = metric_rows([Gaussian(np.ravel(g.mean)[idx], np.atleast_2d(g.cov)[np.ix_(idx, idx)]) for g in states],
                             [np.ravel(x)[idx] for x in truth])
    return out


class _N:
    def __init__(self, g):
        self.marginal = g


def near_rel(case, got, want, tol, what, **kw):
    case.near(got, want, tol, what, scale=max(1.0, abs(want)), **kw)


def run_reference(model, xs, kind, power, damping, n):
    """Independent run: own driver, own metrics.  -> list over iterations of the marginals of every node."""
    d = model.d
    if kind == 'UT':
        tt, mt = UnscentedTransform(dim=d, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=d, alpha=1, beta=2, kappa=2)
    else:
        tt, mt = TaylorTransform(dim=d), TaylorTransform(dim=d)
    nodes = chain(model, estimator_for(model, tt, mt, power, damping))
    out = []
    for _ in range(n):
        for node in nodes:
            node.fwd_update()
            node.meas_update()
        for node in reversed(nodes):
            node.back_update()
        out.append([Gaussian(np.array(v.marginal.mean), np.array(v.marginal.cov)) for v in nodes])
    return out


def simulate(system, T, seed):
    np.random.seed(seed)
    data = system.simulate(T)
    return [x for x, _ in data], [y for _, y in data]


class Wrapped:
    """A model over a given system and measurements."""

    def __init__(self, system, ys):
        self.system, self.ys, self.d, self.m, self.T = system, ys, system.system_dim, system.measurement_dim, len(ys)


# ---------------------------------------------------------------- C28
@family('C28', quick=60, thorough=2500, needs={'iterations': 70, 'crashes': 8, 'commits_seen': 70})
def iteration_log(case, rng):
    """Logged EP runs on linear, smooth and benchmark models, continuing from a random iteration number, with a crash
    (exception in a random update of a random sweep) in a third of them, watched from a second connection before each
    sweep: after sweep k exactly the rows of sweeps 1..k are durable, each with the metrics of the marginals at that
    moment (recomputed independently), nothing else in the tables changes, and the marginals are those of the unlogged
    sweeps."""
    parts = rng.rand() < .35
    if parts:
        model = benchmark_model(rng, 'BOTT', Tmax=5)
    else:
        model = [lambda: lg_model(rng, Tmax=5), lambda: smooth_model(rng, Tmax=5), lambda: benchmark_model(rng, Tmax=5)][rng.randint(3)]()
    many = rng.rand() < .12
    if many:
        parts, model = False, lg_model(rng, Tmax=3)
    T = model.T
    xs, ys = simulate(model.system, T, rng.randint(2 ** 31 - 1))
    model.ys = ys
    kind = ['UT', 'TT'][rng.randint(2)]
    if parts:
        kind = 'UT'
    power, damping = float([1, .8, 1.0][rng.randint(3)]), float([1, .6][rng.randint(2)])
    d = model.d
    mk = lambda: estimator_for(model, *(transforms(rng, d, kind)[1:] + (power, damping)))
    nodes = chain(model, mk())
    n = rng.randint(1, 5) if not many else rng.randint(11, 30)
    start = [0, 0, int(rng.randint(1, 30))][rng.randint(3)]
    seed = int(rng.randint(1, 1000))
    crash = (rng.randint(n), rng.randint(T), ['fwd_update', 'meas_update', 'back_update'][rng.randint(3)]) \
        if rng.rand() < .35 else None
    exc_type = [Boom, LinAlgError, KeyboardInterrupt][rng.randint(3)]
    try:
        want = run_reference(model, xs, kind, power, damping, n)
    except LinAlgError:
        case.trivial('the estimation itself fails on this model')
        return
    case.describe(model=type(model.system).__name__, d=d, T=T, kind=kind, power=power, damping=damping, n=n, start=start,
                  crash=None if crash is None else list(map(str, crash)), parts=parts)
    path = scratch(rng)
    con, other = connect(path), connect(path)
    if parts:
        mod = exp_module('EP_Sweep_BearingsOnly')
        table = 'BOTT_EXP'
        mod.create_experiment_table(con.cursor(), table)
        exp = mod.Exp_Data(kind, None, seed, start, power, damping, 0.0, 0.0)
        run, cols = mod.ep_iterations, 'Quantity, Transform, Seed, Iter, Power, Damping, RMSE, NLL'
    else:
        mod = Iterations
        table = 'X_EXP'
        Database.create_experiment_table(con.cursor(), table)
        exp = Database.Exp_Data(kind, seed, start, power, damping, 0.0, 0.0, 0.0, 0.0, [])
        run, cols = mod.ep_iterations, "'all', Transform, Seed, Iter, Power, Damping, RMSE, NLL"
    con.commit()
    # rows of other runs, which must survive
    con.execute('INSERT INTO {} (Transform, Seed, Iter, Power, Damping, RMSE, NLL) VALUES (?,?,?,?,?,?,?)'.format(table),
                ('MCT', seed, 1, power, damping, 1.25, -3.5))
    con.commit()

    def rows(k):
        out = []
        for i in range(k):
            if parts:
                for q, (r, l) in component_rows(want[i], xs).items():
                    out.append((q, i + 1 + start, r, l))
            else:
                out.append(('all', i + 1 + start) + metric_rows(want[i], xs))
        return sorted(out)

    def audit(c, k, who):
        got = c.execute("SELECT {} FROM {} WHERE Transform = '{}'".format(cols, table, kind)).fetchall()
        w = rows(k)
        case.check(sorted((g[0], g[3]) for g in got) == [(r[0], r[1]) for r in w], who + ': logged iterations',
                   got=sorted((g[0], g[3]) for g in got), want=[(r[0], r[1]) for r in w])
        for g, r in zip(sorted(got, key=lambda g: (g[0], g[3])), w):
            case.check((g[2], g[4], g[5]) == (seed, power, damping), who + ': settings of the row', got=list(g))
            near_rel(case, g[6], r[2], 1e-5, who + ': logged RMSE', row=list(r))
            near_rel(case, g[7], r[3], 1e-5, who + ': logged NLL', row=list(r))
        o = c.execute("SELECT Seed, Iter, Power, Damping, RMSE, NLL FROM {} WHERE Transform = 'MCT'".format(table)).fetchall()
        case.check(o == [(seed, 1, power, damping, 1.25, -3.5)], who + ': rows of other runs', got=o)

    sweep = [0]
    first, target = nodes[0], None
    inner = first.fwd_update

    def watch(*a, **kw):
        audit(other, sweep[0], 'durable before sweep {}'.format(sweep[0] + 1))
        case.event('commits_seen')
        sweep[0] += 1
        return inner(*a, **kw)
    first.fwd_update = watch
    if crash is not None:
        cs, ci, ck = crash
        call = getattr(nodes[ci], ck)

        def boom(*a, **kw):
            if (sweep[0] - 1 if not (ci == 0 and ck == 'fwd_update') else sweep[0]) == cs:
                raise exc_type('injected')
            return call(*a, **kw)
        setattr(nodes[ci], ck, boom)
    args = dict(max_iter=n, x_true=xs, conn=con, exp_data=exp, table_name=table)
    if rng.rand() < .7:
        args['print_result'] = False
    before = tuple(exp)
    try:
        run(nodes, **args)
        ended = n
        case.check(crash is None, 'the failure of an update is not swallowed')
    except exc_type:
        case.check(crash is not None, 'no failure without an injected one')
        ended = crash[0]
        case.event('crashes')
    case.check(tuple(exp) == before, 'the record passed in is not changed')
    case.event('iterations', ended)
    audit(other, ended, 'durable at the end')
    audit(con, ended, 'visible to the writer at the end')
    if crash is None:
        for node, g in zip(nodes, want[-1]):
            case.near(gen.gdist(node.marginal.mean, node.marginal.cov, g.mean, g.cov), 0, 1e-6,
                      'logging does not alter the sweeps')
    case.observe([r[2] for r in rows(ended)])
    con.close()
    other.close()
    drop(path)


@family('C28', quick=20, thorough=500, needs={'silent_runs': 20})
def no_truth(case, rng):
    """Without a ground truth the iterations run and log nothing."""
    model = lg_model(rng, Tmax=4)
    nodes = chain(model, estimator_for(model, *(transforms(rng, model.d, 'UT')[1:] + (1, 1))))
    n = rng.randint(1, 4)
    want = run_reference(model, None, 'UT', 1, 1, n)
    path = scratch(rng)
    con = connect(path)
    Database.create_experiment_table(con.cursor(), 'X_EXP')
    con.commit()
    exp = Database.Exp_Data('UT', 1, 0, 1, 1, 0.0, 0.0, 0.0, 0.0, [])
    Iterations.ep_iterations(nodes, max_iter=n, conn=con, exp_data=exp, table_name='X_EXP')
    case.event('silent_runs')
    case.check(con.execute('SELECT count(*) FROM X_EXP').fetchone() == (0,), 'nothing is logged without a truth')
    for node, g in zip(nodes, want[-1]):
        case.near(gen.gdist(node.marginal.mean, node.marginal.cov, g.mean, g.cov), 0, 1e-6, 'iterations run')
        case.observe(node.marginal.mean)
    case.describe(n=n, **model.describe())
    con.close()
    drop(path)


# ---------------------------------------------------------------- C29
class Guarded:
    """Raise a chosen exception at the n-th evaluation of the transition inside the estimation."""

    def __init__(self, func):
        self.func, self.at, self.exc, self.count = func, None, None, 0

    def __call__(self, x, t=None, u=None):
        self.count += 1
        if self.at is not None and self.count == self.at:
            raise self.exc('injected')
        return self.func(x, t=t, u=u)


def sweep_system(rng):
    if rng.rand() < .5:
        m = lg_model(rng, d=rng.randint(1, 3), m=rng.randint(1, 3), T=2)
        return m.system, m.d
    while True:
        m = smooth_model(rng, dmax=2, mmax=2, Tmax=2)
        if m.system.dt == 1:
            return m.system, m.d


class Sweeper:
    """A results database driven through full_sweep, with a model of what it must contain."""

    def __init__(self, case, rng, parts):
        self.case, self.rng, self.parts = case, rng, parts
        self.path = scratch(rng)
        if parts:
            self.mod = exp_module('EP_Sweep_BearingsOnly')
            self.system, self.d = BearingsOnlyTrackingTurn(), 5
        else:
            self.mod = exp_module('EP_FullSweep')
            self.system, self.d = sweep_system(rng)
        self.T = rng.randint(1, 4)
        self.guard = Guarded(self.system.transition)
        self.system.transition = self.guard
        self.con = connect(self.path)
        Database.create_dynamics_table(self.con.cursor(), name='S_SIM')
        (self.mod if parts else Database).create_experiment_table(self.con.cursor(), table_name='S_EXP')
        self.con.commit()
        self.cache = {}

    def reopen(self):
        self.con.close()
        self.con = connect(self.path)

    def truth(self, seed):
        at, self.guard.at = self.guard.at, None
        try:
            return simulate(self.system, self.T, seed)
        finally:
            self.guard.at = at

    def rows(self, seed, kind, power, damping, n):
        """What the sweep of these settings logs: {(part, iteration): (rmse, nll)}."""
        key = (seed, kind, power, damping, n)
        if key not in self.cache:
            at, self.guard.at = self.guard.at, None
            try:
                xs, ys = self.truth(seed)
                run = run_reference(Wrapped(self.system, ys), xs, kind, power, damping, n)
            finally:
                self.guard.at = at
            out = {}
            for i, states in enumerate(run):
                if self.parts:
                    for q, v in component_rows(states, xs).items():
                        out[(q, i + 1)] = v
                else:
                    out[('all', i + 1)] = metric_rows(states, xs)
            self.cache[key] = out
        return self.cache[key]

    def sweep(self, seeds, kinds, powers, dampings, n, override=False):
        config = self.mod.Config(con=self.con, system=self.system, timesteps=self.T, sys_dim=self.d, num_iter=n,
                                 dyn_table_name='S_SIM', exp_table_name='S_EXP')
        return self.mod.full_sweep(config, seeds, kinds, powers, dampings, override)

    def stored(self):
        q = 'Quantity' if self.parts else "'all'"
        rows = self.con.execute('SELECT Transform, Seed, Power, Damping, {}, Iter, RMSE, NLL FROM S_EXP'.format(q)).fetchall()
        out = {}
        for r in rows:
            self.case.check(r[:6] not in out, 'one row per setting and iteration', row=list(r))
            out[r[:6]] = r[6:]
        return out

    def audit(self, model, who):
        """model: {(kind, seed, power, damping): list of (part, iteration) -> (rmse, nll)}"""
        want = {}
        for key, rows in model.items():
            for (q, i), v in rows.items():
                want[key + (q, float(i))] = v
        got = self.stored()
        self.case.check(set(got) == set(want), who + ': logged settings and iterations',
                        missing=sorted(map(str, set(want) - set(got)))[:6], extra=sorted(map(str, set(got) - set(want)))[:6])
        for k in got:
            near_rel(self.case, got[k][0], want[k][0], 1e-4, who + ': RMSE', setting=list(map(str, k)))
            near_rel(self.case, got[k][1], want[k][1], 1e-4, who + ': NLL', setting=list(map(str, k)))
        self.case.event('rows_audited', len(got))

    def audit_data(self, seeds, who):
        rows = self.con.execute('SELECT Seed, t, X, Y FROM S_SIM ORDER BY Seed, t').fetchall()
        want = []
        for s in sorted(set(int(s) for s in seeds)):
            xs, ys = self.truth(s)
            want += [(s, float(t), x, y) for t, (x, y) in enumerate(zip(xs, ys))]
        self.case.check([r[:2] for r in rows] == [w[:2] for w in want], who + ': simulated steps on record',
                        got=[r[:2] for r in rows], want=[w[:2] for w in want])
        for r, w in zip(rows, want):
            self.case.near(r[2], w[2], 1e-9, who + ': recorded states', seed=w[0])
            self.case.near(r[3], w[3], 1e-9, who + ': recorded measurements', seed=w[0])

    def close(self):
        self.con.close()
        drop(self.path)


def grid(rng):
    seeds = [int(s) for s in rng.choice([3, 101, 202, 7], size=rng.randint(1, 3), replace=False)]
    if rng.rand() < .3:
        seeds = list(np.array(seeds))
    kinds = [['UT'], ['TT'], ['UT', 'TT']][rng.randint(3)]
    powers = [[1.0], list(np.linspace(.1, 1, 10)[[7, 9]]), np.array([.30000000000000004]),
              [.5, .52], [.995, 1.0]][rng.randint(5)]
    dampings = [[1.0], [1.0, .8], [.9, .91], [1 / 1.5]][rng.randint(4)]
    return seeds, kinds, powers, dampings


def settings(seeds, kinds, powers, dampings):
    return [(k, int(s), float(p), float(g)) for s in seeds for k in kinds for p in powers for g in dampings]


@family('C29', quick=40, thorough=1500, needs={'sweeps': 80, 'skipped': 10, 'rerun': 8, 'rows_audited': 800})
def histories(case, rng):
    """Random histories of sweeps over seeds x transforms x powers x dampings with different iteration counts, with and
    without override, closing and reopening the results in between; saved results are marked so that a rerun shows.
    Finished settings are skipped, unfinished ones and overridden ones are redone, every row carries the metrics of
    an independent run of the same seed and settings, and the recorded data is the seed's simulation."""
    S = Sweeper(case, rng, parts=rng.rand() < .3)
    model, used, trail, grids = {}, [], [], []
    for _ in range(rng.randint(2, 5)):
        seeds, kinds, powers, dampings = grid(rng)
        n = rng.randint(1, 4)
        if grids and rng.rand() < .4:              # the same again, perhaps with more iterations
            (seeds, kinds, powers, dampings), last = grids[rng.randint(len(grids))]
            n = last + rng.randint(0, 2)
        grids.append(((seeds, kinds, powers, dampings), n))
        override = rng.rand() < .25
        # mark some saved results: their values tell a rerun from a skip
        if model and rng.rand() < .7:
            keys = sorted(model)
            for key in [keys[rng.randint(len(keys))] for _ in range(3)]:
                S.con.execute('UPDATE S_EXP SET RMSE = 77.5, NLL = -11.5 WHERE Transform = ? AND Seed = ? AND Power = ? '
                              'AND Damping = ?', key)
                model[key] = {k: (77.5, -11.5) for k in model[key]}
            S.con.commit()
        case.event('sweeps')
        S.sweep(seeds, kinds, powers, dampings, n, override)
        for key in settings(seeds, kinds, powers, dampings):
            have = model.setdefault(key, {})
            if not override and any(i == n for _, i in have):
                case.event('skipped')
                continue
            if have:
                case.event('rerun')
            k, s, p, g = key
            have.update(S.rows(s, k, p, g, n))
        used += list(seeds)
        trail.append([len(seeds), kinds, len(powers), len(dampings), n, bool(override)])
        if rng.rand() < .3:
            S.con.commit()
            S.reopen()
        S.audit(model, 'after a sweep')
        S.audit_data(used, 'after a sweep')
    case.describe(system=type(S.system).__name__, d=S.d, T=S.T, parts=S.parts, history=trail)
    case.observe([v[0] for v in S.stored().values()])
    S.close()


class Killed(Exception):
    pass


class FlakyConnection:
    """A connection that is lost at the n-th statement or commit (before or after it takes effect)."""

    def __init__(self, con, at=None, after=False):
        self._con, self.at, self.after, self.count = con, at, after, 0

    def _step(self, thunk):
        self.count += 1
        if self.count == self.at and not self.after:
            raise Killed('connection lost')
        out = thunk()
        if self.count == self.at:
            raise Killed('connection lost')
        return out

    def execute(self, *a):
        return self._step(lambda: self._con.execute(*a))

    def executemany(self, *a):
        return self._step(lambda: self._con.executemany(*a))

    def commit(self):
        return self._step(self._con.commit)

    def cursor(self):
        return FlakyCursor(self, self._con.cursor())

    def __getattr__(self, name):
        return getattr(self._con, name)

    def __enter__(self):
        self._con.__enter__()
        return self

    def __exit__(self, *a):
        return self._con.__exit__(*a)


class FlakyCursor:
    def __init__(self, owner, cur):
        self._owner, self._cur = owner, cur

    def execute(self, *a):
        self._owner._step(lambda: self._cur.execute(*a))
        return self

    def executemany(self, *a):
        self._owner._step(lambda: self._cur.executemany(*a))
        return self

    def __getattr__(self, name):
        return getattr(self._cur, name)

    def __iter__(self):
        return iter(self._cur)


@family('C29', quick=56, thorough=2000, needs={'disturbed': 20, 'resumed': 40})
def failures(case, rng):
    """A sweep disturbed at a random point: a linear algebra failure inside an update (absorbed) or while scoring (costs
    that setting), a kill inside an evaluation, or the database connection lost at a random statement or commit.  Other
    settings are as in an undisturbed sweep, what was saved is a prefix of iterations with the right values, and after
    a reopen the rerun completes the table to the undisturbed one."""
    S = Sweeper(case, rng, parts=rng.rand() < .35)
    seeds, kinds, powers, dampings = grid(rng)
    todo = settings(seeds, kinds, powers, dampings)
    n = rng.randint(1, 4)
    full = {k: S.rows(k[1], k[0], k[2], k[3], n) for k in todo}
    mode = ['absorbed', 'score', 'score', 'score', 'KeyboardInterrupt', 'Boom', 'connection', 'connection', 'connection'][rng.randint(9)]
    case.describe(system=type(S.system).__name__, T=S.T, n=n, settings=len(todo), mode=mode, parts=S.parts)
    # count the evaluations and statements of an undisturbed sweep, on a throw-away database
    twin = Sweeper.__new__(Sweeper)
    twin.__dict__.update(S.__dict__)
    twin.path = scratch(rng)
    twin.con = connect(twin.path)
    Database.create_dynamics_table(twin.con.cursor(), name='S_SIM')
    (S.mod if S.parts else Database).create_experiment_table(twin.con.cursor(), table_name='S_EXP')
    twin.con.commit()
    raw = twin.con
    twin.con = counter = FlakyConnection(raw)
    S.guard.count = 0
    twin.sweep(seeds, kinds, powers, dampings, n)
    twin.con = raw
    twin.audit(full, 'undisturbed')
    evaluations, statements = S.guard.count, counter.count
    twin.close()

    raw, flaky = S.con, None
    inner_nll, scored = Gaussian.nll, [0]
    at = None
    if mode == 'connection':
        at = int(rng.randint(1, statements + 1))
        flaky = S.con = FlakyConnection(raw, at, after=rng.rand() < .5)
    elif mode == 'score':
        scores = S.T * (3 if S.parts else 1)
        at = int(rng.randint(1, len(todo) * n * scores + 1))
        if rng.rand() < .5:                   # within the very first iteration of one of the seeds
            at = (at - 1) % scores + 1 + int(rng.randint(len(seeds))) * (len(todo) // len(seeds)) * n * scores

        def nll(self, *a, **kw):
            scored[0] += 1
            if scored[0] == at:
                raise LinAlgError('injected')
            return inner_nll(self, *a, **kw)
        Gaussian.nll = nll
    else:
        # the guard sees the evaluations of the simulation too; do not fail those (T per seed, in front)
        per_seed = evaluations // len(seeds)
        which = rng.randint(len(seeds))
        lo = which * per_seed + S.T + 1
        at = int(rng.randint(lo, max(lo + 1, (which + 1) * per_seed + 1)))
        S.guard.count, S.guard.at = 0, at
        S.guard.exc = {'absorbed': LinAlgError, 'KeyboardInterrupt': KeyboardInterrupt, 'Boom': Boom}[mode]
    ended = None
    try:
        S.sweep(seeds, kinds, powers, dampings, n)
    except (KeyboardInterrupt, Boom, Killed) as e:
        ended = type(e).__name__
    finally:
        Gaussian.nll = inner_nll
        S.con = raw
        fired = {'connection': lambda: flaky.count >= at, 'score': lambda: scored[0] >= at}.get(
            mode, lambda: S.guard.count >= at)()
        S.guard.at = None
    want_end = {'KeyboardInterrupt': 'KeyboardInterrupt', 'Boom': 'Boom', 'connection': 'Killed'}.get(mode)
    case.check(ended == (want_end if fired else None), 'numerical failures are absorbed, a kill is not', ended=ended)
    case.event('disturbed', int(fired))
    case.event('fired ' + mode, int(fired))
    if ended is None:
        S.audit_data(seeds, 'right after the sweep')
    S.reopen()                                # whatever was not committed is lost
    got = S.stored()
    bad = set()
    for k, v in got.items():
        case.check(k[:4] in full, 'no rows of other settings', row=list(map(str, k)))
        w = full[k[:4]][(k[4], int(k[5]))]
        if mode == 'absorbed':
            if abs(v[0] - w[0]) > 1e-4 * max(1, abs(w[0])) or abs(v[1] - w[1]) > 1e-4 * max(1, abs(w[1])):
                bad.add(k[:4])
            continue
        near_rel(case, v[0], w[0], 1e-4, 'RMSE saved around the failure')
        near_rel(case, v[1], w[1], 1e-4, 'NLL saved around the failure')
    case.check(len(bad) <= 1, 'a failure inside an update stays inside its setting', settings=len(bad))
    complete = 0
    for key in todo:
        its = sorted(set(int(k[5]) for k in got if k[:4] == key))
        case.check(its == list(range(1, len(its) + 1)), 'saved iterations are a prefix', got=its)
        complete += its == list(range(1, n + 1))
        for i in its:
            if S.parts:
                case.check(sum(1 for k in got if k[:4] == key and int(k[5]) == i) == 3,
                           'all parts of an iteration are saved together')
    if mode == 'absorbed' or not fired:
        case.check(complete == len(todo), 'every setting is complete', complete=complete, of=len(todo))
    elif mode == 'score':
        case.check(complete == len(todo) - 1, 'a failing score costs exactly its setting', complete=complete, of=len(todo))
    S.sweep(seeds, kinds, powers, dampings, n, override=mode == 'absorbed')
    case.event('resumed')
    S.audit(full, 'after resuming')
    S.audit_data(seeds, 'after resuming')
    case.observe([v[0] for v in S.stored().values()], [at])
    S.close()


@family('C29', quick=60, thorough=1000, needs={'selected': 60})
def selection(case, rng):
    """The transforms a sweep selects by name (any case): the unscented pair with the stated parameters, Taylor, Monte
    Carlo with the asked number of samples; by the moments they give."""
    case.event('selected')
    mod = exp_module('EP_FullSweep')
    d = rng.randint(1, 5)
    name = ['UT', 'ut', 'TT', 'tt', 'MCT', 'mct', 'Ut'][rng.randint(7)]
    case.describe(d=d, name=name)
    m, P = gen.gauss_args(rng, d, 1, .2, 2)
    f, plain, jac, k, _ = gen.smooth_map(rng, d, rng.randint(1, 4))
    g = Gaussian(m, P)
    if name.upper() == 'UT':
        kw = {}
        par = dict(alpha1=1, alpha2=1, beta1=2, beta2=2, kappa1=3, kappa2=2)
        for q in par:
            if rng.rand() < .5:
                par[q] = kw[q] = float(rng.uniform(.5, 3))
        a, b = mod.select_transform(id=name, dim=d, **kw)
        for t, i in ((a, '1'), (b, '2')):
            want = ref.unscented(plain, m, P, par['alpha' + i], par['beta' + i], par['kappa' + i])
            got = t(f, g)
            for x, y, what in zip(got, want, ('mean', 'covariance', 'cross-covariance')):
                case.near(np.squeeze(x), np.squeeze(y), 1e-7, 'unscented ' + what, scale=max(1, np.abs(y).max()))
                case.observe(y)
    elif name.upper() == 'TT':
        a, b = mod.select_transform(id=name, dim=d)
        J = jac(m)
        for t in (a, b):
            got = t(f, g)
            for x, y, what in zip(got, (plain(m), J @ P @ J.T, P @ J.T), ('mean', 'covariance', 'cross-covariance')):
                y = np.asarray(y)
                ok = np.squeeze(x).shape == np.squeeze(y).shape
                x = np.squeeze(x)
                y = np.squeeze(y)
                if what == 'cross-covariance' and (not ok or np.abs(x - y).max() > 1e-7 * max(1, np.abs(y).max())):
                    y = y.T                     # either orientation is judged elsewhere
                case.near(x, y, 1e-7, 'Taylor ' + what, scale=max(1, np.abs(y).max()))
                case.observe(y)
    else:
        n = int(rng.choice([2000, 10000, 20000]))
        np.random.seed(rng.randint(2 ** 31 - 1))
        before = np.random.get_state()[1:3]
        a, b = mod.select_transform(id=name, dim=d, samples=n)
        after = np.random.get_state()[1:3]
        case.check(np.array_equal(before[0], after[0]) and before[1] == after[1], 'selecting a transform leaves the random generator alone')
        for t in (a, b):
            np.random.seed(rng.randint(2 ** 31 - 1))
            eye, drawn = gen.affine(np.eye(d), np.zeros(d)), []
            mm, S, C = t(lambda x: drawn.append(np.size(x) // d) or eye(x), g)
            case.check(abs(sum(drawn) - n) <= 1, 'number of draws', got=drawn, n=n)
            case.near(np.squeeze(mm), np.squeeze(m), 7 / np.sqrt(n), 'Monte Carlo mean', scale=np.squeeze(np.sqrt(np.diag(P))))
            case.check(np.abs(np.squeeze(mm) - np.squeeze(m)).max() > 0, 'Monte Carlo moments are sampled')
            case.observe(mm)


@family('C29', quick=5, thorough=15, needs={'command_runs': 5})
def command(case, rng):
    """The command-line sweeps end to end on a benchmark: every (seed, transform, power, damping, iteration) of the
    published grid is logged with the metrics of an independent run, a second invocation redoes nothing, and
    --override restores marked results."""
    from click.testing import CliRunner

    def invoke(a):
        real, opened = sqlite3.connect, []

        def tracked(*x, **kw):
            opened.append(real(*x, **kw))
            return opened[-1]
        sqlite3.connect = tracked
        try:
            return CliRunner().invoke(mod.main, a)
        finally:
            sqlite3.connect = real
            for c in opened:            # what the end of the process does
                c.close()
            gc.collect()
            gc.collect()

    name = ['UNGM', 'BOT', 'BOTT', 'BOTT-parts', 'L96'][case.index % 5]
    parts = name == 'BOTT-parts'
    mod = exp_module('EP_Sweep_BearingsOnly' if parts else 'EP_FullSweep')
    T = {'UNGM': 100}.get(name, 50)
    system = {'UNGM': UniformNonlinearGrowthModel, 'BOT': BearingsOnlyTracking, 'L96': L96}.get(name, BearingsOnlyTrackingTurn)()
    seed = int(rng.randint(1, 10000))
    path = scratch(rng)
    case.describe(name=name, seed=seed)
    args = ['-l', path, '-s', str(seed), '-t', 'UT', '-i', '1'] + ([] if parts else ['-d', name])
    res = invoke(args)
    case.check(res.exit_code == 0, 'the command runs', output=str(res.output)[-200:], error=repr(res.exception))
    case.event('command_runs')
    table, sim = name.split('-')[0] + '_EXP', name.split('-')[0] + '_SIM'
    con = connect(path)
    q = 'Quantity' if parts else "'all'"
    sel = 'SELECT Transform, Seed, Power, Damping, Iter, {}, RMSE, NLL FROM {}'.format(q, table)
    rows = {r[:6]: r[6:] for r in con.execute(sel).fetchall()}
    xs, ys = simulate(system, T, seed)
    data = con.execute('SELECT Seed, t, X, Y FROM {} ORDER BY t'.format(sim)).fetchall()
    case.check([r[:2] for r in data] == [(seed, float(t)) for t in range(T)], 'recorded steps', n=len(data))
    case.near([np.ravel(r[2]) for r in data], [np.ravel(x) for x in xs], 1e-9, 'recorded states')
    case.near([np.ravel(r[3]) for r in data], [np.ravel(y) for y in ys], 1e-9, 'recorded measurements')
    powers, dampings = np.linspace(.1, 1, 10), [1.0, .8]
    quantities = list(PARTS) if parts else ['all']
    want_keys = {('UT', seed, float(p), g, 1.0, qq) for p in powers for g in dampings for qq in quantities}
    failed = res.output.count('failed for')
    case.check(set(rows) <= want_keys and len(rows) == len(want_keys) - failed * len(quantities), 'logged grid',
               got=len(rows), want=len(want_keys), failed=failed)
    case.check(failed <= len(want_keys) // 2, 'most of the grid is computed', failed=failed)
    m = Wrapped(system, ys)
    for p, g in ((powers[9], 1.0), (powers[rng.randint(10)], .8)):
        try:
            states = run_reference(m, xs, 'UT', p, g, 1)[0]
        except LinAlgError:
            continue
        want = component_rows(states, xs) if parts else {'all': metric_rows(states, xs)}
        for qq, (r, l) in want.items():
            key = ('UT', seed, float(p), g, 1.0, qq)
            case.check(key in rows, 'computed setting is logged', key=list(map(str, key)))
            near_rel(case, rows[key][0], r, 1e-4, 'logged RMSE', setting=str(key))
            near_rel(case, rows[key][1], l, 1e-3, 'logged NLL', setting=str(key))
            case.observe(r)
    con.execute('UPDATE {} SET RMSE = 77.5'.format(table))
    con.commit()
    res = invoke(args)
    case.check(res.exit_code == 0, 'the second run works')
    got = {r[:6]: r[6] for r in con.execute(sel).fetchall()}
    case.check(set(got) == set(rows) and all(v == 77.5 for v in got.values()), 'a second run redoes nothing')
    res = invoke(args + ['-o'])
    case.check(res.exit_code == 0, 'the override run works', output=str(res.output)[-200:], error=repr(res.exception))
    got = {r[:6]: r[6] for r in con.execute(sel).fetchall()}
    case.check(set(got) == set(rows), 'override keeps the grid')
    for k in rows:
        near_rel(case, got[k], rows[k][0], 1e-6, 'override recomputes', setting=str(k))
    con.close()
    drop(path)


# ---------------------------------------------------------------- C30
@family('C30', quick=150, thorough=8000, needs={'scored': 150})
def components(case, rng):
    """Random correlated states and truths of the turning target (raw states, and states after real sweeps): position,
    velocity and turn-rate errors and scores equal those of the exact marginals, in that order, for the EP and the IEKS
    experiment; an error in one component moves only its own score."""
    T = rng.randint(1, 8) if rng.rand() < .95 else rng.randint(50, 130)
    ep, ieks = exp_module('EP_Sweep_BearingsOnly'), exp_module('IEKS_Sweep_BearingsOnly')
    real = rng.rand() < .2
    if real:
        model = benchmark_model(rng, 'BOTT', Tmax=4)
        T = model.T
        xs, model.ys = simulate(model.system, T, rng.randint(2 ** 31 - 1))
        try:
            states = run_reference(model, xs, 'UT', 1, 1, 1)[0]
        except LinAlgError:
            case.trivial('estimation fails')
            return
        truth = [np.reshape(x, (1, 5)) for x in xs]
    else:
        sc = [np.array([100, 10, 100, 10, .1]), np.ones(5), 10.0 ** rng.uniform(-6, 6, 5)][rng.randint(3)]
        states, truth = [], []
        for _ in range(T):
            m, P = gen.gauss_args(rng, 5)
            m, P = m * sc, P * np.outer(sc, sc)
            truth.append((m + np.linalg.cholesky(P) @ rng.randn(5) * rng.uniform(0, 3))[None, :])
            states.append(Gaussian(m, P))
    case.describe(T=T, real=real)
    case.event('scored')
    want = component_rows(states, truth)
    flat = [v for q in ('position', 'velocity', 'angle') for v in want[q]]
    for got, what in ((ep.node_metrics([_N(g) for g in states], truth), 'EP'),
                      (ieks.componentwise_metrics(states, [x[0] for x in truth]), 'IEKS')):
        case.check(len(got) == 6, what + ': six numbers')
        for a, b, q in zip(got, flat, ('pos rmse', 'pos nll', 'vel rmse', 'vel nll', 'ang rmse', 'ang nll')):
            near_rel(case, np.squeeze(a), b, 1e-6, what + ' ' + q)
    case.observe(flat)
    k = rng.randint(5)
    moved = [x.copy() for x in truth]
    moved[rng.randint(T)][0, k] += 3.0 * (1 if real else sc[k])
    again = ep.node_metrics([_N(g) for g in states], moved)
    own = [i for i, idx in enumerate(PARTS.values()) if k in idx][0]
    for i in range(3):
        if i != own:
            near_rel(case, again[2 * i], flat[2 * i], 1e-6, 'an error in another component')
            near_rel(case, again[2 * i + 1], flat[2 * i + 1], 1e-6, 'an error in another component (score)')


# ---------------------------------------------------------------- C31
def band(coll):
    """(x, low, high) of a fill_between band."""
    v = coll.get_paths()[0].vertices
    out = {}
    for x, y in v:
        out.setdefault(round(float(x), 9), []).append(float(y))
    xs = sorted(out)
    return np.array(xs), np.array([min(out[x]) for x in xs]), np.array([max(out[x]) for x in xs])


@family('C31', quick=150, thorough=1500, needs={'figures': 60})
def figures(case, rng):
    """Rendered artists of the plot helpers for random results: the shaded band is mean +- 1.96 standard deviations of
    the first component (per node, step numbers from 1; per state, from 0), lines are means and truths; for samples,
    mean +- one standard deviation over runs; inputs are unchanged; the axis passed in is used and returned."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from Utils import Plot_Helper
    case.event('figures')
    T = rng.randint(2, 12) if rng.rand() < .88 else rng.randint(90, 180)
    kind = ['states', 'nodes', 'runs'][rng.randint(3)]
    d = rng.randint(1, 4) if rng.rand() < .7 else rng.randint(4, 13)
    unit = 1.0 if rng.rand() < .6 else 10.0 ** rng.uniform(-8, 6)
    case.describe(kind=kind, T=T, d=d, unit=unit)
    plt.close('all')
    try:
        if kind == 'runs':
            n = rng.randint(1, 6) if rng.rand() < .6 else rng.randint(6, 60)
            size = 3 if rng.rand() < .4 else 10.0 ** rng.uniform(-8, 6)
            data = rng.randn(n, T) * size
            if rng.rand() < .4:                    # runs that hardly differ, far from zero
                data += size * rng.randn(T) * 10.0 ** rng.uniform(1, 7)
            keep = data.copy()
            given = plt.subplots()[1] if rng.rand() < .5 else None
            kw = {}
            if rng.rand() < .4:
                kw['figsize'] = (3, 2)
            if rng.rand() < .4:
                kw['label'] = 'runs'
            if rng.rand() < .4:
                kw['linewidth'] = 1.5
            if given is not None:
                kw['c'] = 'C1'
                kw['ax'] = given
                plt.figure()                       # another figure is current meanwhile
            ax = Plot_Helper.plot_1d_data(data, **kw)
            case.check(given is None or ax is given, 'the axis passed in is returned')
            case.check(len(ax.lines) == 1, 'one mean line on the axis')
            case.check(sum(len(a.lines) for f in plt.get_fignums() for a in plt.figure(f).axes) == 1, 'nothing drawn elsewhere')
            case.check(np.array_equal(data, keep), 'plotted data unchanged')
            x, y = ax.lines[-1].get_data()
            case.near(x, np.arange(1, T + 1), 1e-9, 'steps of the mean line')
            case.near(y, keep.mean(0), 1e-9, 'mean line', scale=size + np.abs(keep.mean(0)))
            if n > 1:
                bx, lo, hi = band(ax.collections[0])
                case.near(bx, np.arange(1, T + 1), 1e-6, 'steps of the band')
                case.near(lo, keep.mean(0) - keep.std(0), 1e-6, 'lower edge', scale=size)
                case.near(hi, keep.mean(0) + keep.std(0), 1e-6, 'upper edge', scale=size)
            else:
                case.check(len(ax.collections) == 0, 'one run has no band')
            case.observe(keep)
            return
        states = [Gaussian(m * unit, P * unit ** 2) for m, P in (gen.gauss_args(rng, d) for _ in range(T))]
        mean = np.array([g.mean for g in states])
        sd = np.array([np.sqrt(g.cov[0, 0]) for g in states])
        first = 0 if kind == 'states' else 1
        if kind == 'states':
            plt.figure()
            Plot_Helper.plot_gaussian(states, label='x')
            ax = plt.gca()
        else:
            truth = rng.randn(T) if rng.rand() < .6 else None
            wide = rng.randn(T, d) if truth is not None and rng.rand() < .3 else None
            truth = truth if wide is None else wide
            given = plt.subplots()[1] if rng.rand() < .5 else None
            kw = {}
            if rng.rand() < .4:
                kw['figsize'] = (3, 2)
            if rng.rand() < .3:
                kw['colors'] = ['C3', 'C4']
            if given is not None:
                plt.figure()
            ax = Plot_Helper.plot_gaussian_node([_N(g) for g in states], ground_truth=truth, ax=given, **kw)
            case.check(given is None or ax is given, 'the axis passed in is returned')
            case.check(sum(len(a.lines) for f in plt.get_fignums() for a in plt.figure(f).axes) == len(ax.lines),
                       'nothing drawn elsewhere')
            columns = 0 if truth is None else 1 if truth.ndim == 1 else d
            case.check(len(ax.lines) == d + columns, 'number of lines', got=len(ax.lines), want=d + columns)
            for k in range(d):
                x, y = ax.lines[k].get_data()
                case.near(x, np.arange(1, T + 1), 1e-9, 'steps of the prediction')
                case.near(y, mean[:, k], 1e-9 * unit, 'prediction line')
            if truth is not None:
                for line, want in zip(ax.lines[d:], truth.reshape(T, -1).T):
                    case.near(line.get_data()[0], np.arange(1, T + 1), 1e-9, 'steps of the truth')
                    case.near(line.get_data()[1], want, 1e-9, 'truth line')
        bx, lo, hi = band(ax.collections[0])
        case.near(bx, np.arange(first, T + first), 1e-6, 'steps of the band')
        case.near(lo, mean[:, 0] - 1.96 * sd, 1e-4 * unit, 'lower edge')
        case.near(hi, mean[:, 0] + 1.96 * sd, 1e-4 * unit, 'upper edge')
        for g, m in zip(states, mean):
            case.check(np.array_equal(g.mean, m), 'plotted states unchanged')
        case.observe(lo, hi)
    finally:
        plt.close('all')
