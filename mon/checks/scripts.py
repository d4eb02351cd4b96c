"""C32: experiment scripts that run as programs, and the tables printed from their records."""
import contextlib
import gc
import io
import os
import re
import runpy
import shutil
import sqlite3

import numpy as np

import ref
from core import family
from eplab import chain, estimator_for
from checks.experiments import Wrapped, component_rows, metric_rows, near_rel
from StateModel import Gaussian
import ExpectationPropagation.Nodes as Nodes
from Filters.KalmanFilter import IEKS
from MomentMatching import MonteCarloTransform, UnscentedTransform
from Systems import BearingsOnlyTrackingTurn, DynamicSystemModel, L96, UniformNonlinearGrowthModel

SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]


class Stop(BaseException):
    """The program is killed."""


@contextlib.contextmanager
def workplace(rng):
    """A scratch directory with the ../log the scripts write to."""
    here = os.getcwd()
    root = os.path.abspath('s{}'.format(rng.randint(10 ** 9)))
    os.makedirs(os.path.join(root, 'work'))
    os.makedirs(os.path.join(root, 'log'))
    os.chdir(os.path.join(root, 'work'))
    try:
        yield
    finally:
        os.chdir(here)
        shutil.rmtree(root)


@contextlib.contextmanager
def shortened(steps, iterations, log, stop=None):
    """Experiments shortened at public entry points: at most `steps` simulated steps, nodes and `iterations` of the
    iterated smoother; Monte Carlo moments replaced by deterministic ones; killed at simulation number `stop`."""
    sim, ieks, build = DynamicSystemModel.simulate, IEKS.__call__, Nodes.build_nodes

    def simulate(self, N, *a, **kw):
        if stop is not None and len(log['sims']) == stop:
            raise Stop()
        data = sim(self, min(N, steps), *a, **kw)
        log['sims'].append((N, data))
        return data

    def smoother(self, measurements, num_iter=5, *a, **kw):
        out = ieks(self, measurements, min(num_iter, iterations), *a, **kw)
        log['smoothed'].append((measurements, out))
        return out

    def build_nodes(N, *a, **kw):
        return build(min(N, steps), *a, **kw)

    DynamicSystemModel.simulate, IEKS.__call__, Nodes.build_nodes = simulate, smoother, build_nodes
    MonteCarloTransform.__call__ = lambda self, func, state: UnscentedTransform(dim=state.dim, alpha=1, beta=2, kappa=1)(func, state)
    try:
        yield
    finally:
        DynamicSystemModel.simulate, IEKS.__call__, Nodes.build_nodes = sim, ieks, build
        del MonteCarloTransform.__call__


def program(name, steps=3, iterations=2, stop=None):
    """Runs Experiments.<name> as a program.  -> (log, killed)"""
    log, opened, real = {'sims': [], 'smoothed': []}, [], sqlite3.connect

    def connect(*a, **kw):
        opened.append(real(*a, **kw))
        return opened[-1]
    sqlite3.connect = connect
    killed = False
    try:
        with shortened(steps, iterations, log, stop), contextlib.redirect_stdout(io.StringIO()):
            runpy.run_module('Experiments.' + name, run_name='__main__')
    except Stop:
        killed = True
    finally:
        sqlite3.connect = real
        for c in opened:                       # what the end of the process does
            c.close()
        gc.collect()
    return log, killed


def read(path, sql):
    con = sqlite3.connect(path)
    try:
        return con.execute(sql).fetchall()
    finally:
        con.close()


def fresh_data(system, steps, seed):
    np.random.seed(seed)
    data = system.simulate(steps)
    return [x for x, _ in data], [y for _, y in data]


IEKS_RUNS = {
    'IEKS_Sweep_UNGM': ('../log/IEKS_ungm.db', 'SELECT 1, Seed, Iter, RMSE, NLL FROM UNGM_EXP', 'UNGM_EXP', 50, 100, [1]),
    'IEKS_Sweep_BearingsOnly': ('../log/IEKS_bott.db', 'SELECT Quantity, Seed, Iter, RMSE, NLL FROM BOTT_EXP', 'BOTT_EXP', 50, 50, [5]),
    'IEKS_Sweep_L96': ('../log/IEKS_L96.db', 'SELECT dim, Seed, Iter, RMSE, NLL FROM L96_EXP', 'L96_EXP', 10, 50, [5, 10, 20]),
}


def ieks_system(name, dim):
    if name == 'IEKS_Sweep_UNGM':
        return UniformNonlinearGrowthModel()
    if name == 'IEKS_Sweep_BearingsOnly':
        return BearingsOnlyTrackingTurn()
    return L96(dim=dim, init_cond_path='../log/L96_initial_condition_F_8_dim_{}.npy'.format(dim))


@family('C32', quick=12, thorough=150, needs={'rows': 60, 'killed': 4})
def smoother_programs(case, rng):
    """The iterated-smoother programs, shortened at public entry points, killed at a random simulation and run again with
    some stored rows marked: after the kill exactly the rows of the finished runs are on record; in the end every seed (and
    dimension) of the published plan has one row per quantity with the metrics of its own estimates against its own
    simulated truth, and the marked rows were kept."""
    name = list(IEKS_RUNS)[case.index % 3]
    path, sql, table, num_iter, N, dims = IEKS_RUNS[name]
    steps, iterations = rng.randint(2, 5), rng.randint(1, 3)
    runs = [(d, s) for d in dims for s in SEEDS]
    stop = rng.randint(1, len(runs)) if len(dims) == 1 or rng.rand() < .5 else rng.randint(1, 4)
    case.describe(name=name, steps=steps, iterations=iterations, stop=stop)
    parts = name == 'IEKS_Sweep_BearingsOnly'

    def expected(log, k):
        """rows of the first k runs, from what the smoother returned and independently simulated data"""
        out = {}
        for i, (d, seed) in enumerate(runs[:k]):
            xs, ys = fresh_data(ieks_system(name, d), steps, seed)
            case.check(len(log['smoothed']) > i, 'each run smooths its data', run=i)
            got_y, est = log['smoothed'][i]
            case.check(len(got_y) == steps and log['sims'][i][0] == N, 'run length', got=log['sims'][i][0])
            case.near([np.ravel(y) for y in got_y], [np.ravel(y) for y in ys], 1e-9, 'the data of a run is that of its seed',
                      scale=1 + np.abs([np.ravel(y) for y in ys]))
            if parts:
                for q, v in component_rows(est, xs).items():
                    out[(q, seed, float(num_iter))] = v
            else:
                out[(d, seed, float(num_iter))] = metric_rows(est, xs)
        return out

    def audit(rows, want, what):
        rows = {r[:3]: r[3:] for r in rows}
        case.check(set(rows) == set(want), what + ': settings on record', got=sorted(map(str, rows))[:40], want=len(want))
        for k, (r, l) in want.items():
            near_rel(case, rows[k][0], r, 1e-6, what + ': RMSE', key=str(k))
            near_rel(case, rows[k][1], l, 1e-6, what + ': NLL', key=str(k))
            case.event('rows')
        case.observe([v[0] for v in rows.values()])

    with workplace(rng):
        log, killed = program(name, steps, iterations, stop)
        case.check(killed, 'every run simulates its own data')
        case.event('killed')
        want = expected(log, stop)
        audit(read(path, sql), want, 'after a kill')
        if len(dims) > 1 and rng.rand() < .7:
            return
        con = sqlite3.connect(path)
        marked = runs[rng.randint(stop)][1]
        con.execute('UPDATE {} SET RMSE = 77.5 WHERE Seed = ?'.format(table), (marked,))
        con.commit()
        con.close()
        log, killed = program(name, steps, iterations)
        full = expected(log, len(runs))
        for k in want:
            if k[1] == marked:
                full[k] = (77.5, full[k][1])
        audit(read(path, sql), full, 'after the rerun')


@family('C32', quick=4, thorough=60, needs={'sweeps': 60})
def dimension_study(case, rng):
    """The Lorenz 96 dimension study, shortened at public entry points and with deterministic moments in place of Monte
    Carlo, killed at a random simulation: for every finished (dimension, seed) and every power it recorded ten sweeps with
    the metrics of an independent run on the data of that seed."""
    steps, stop = rng.randint(2, 4), [2, 11, 12, 3][case.index % 4] if case.index < 4 else rng.randint(1, 32)
    case.describe(steps=steps, stop=stop)
    with workplace(rng):
        log, killed = program('EP_Sweep_L96', steps, stop=stop)
        case.check(killed, 'every run simulates its own data')
        rows = read('../log/L96_dim_experiment_3.db', 'SELECT Transform, dim, Seed, Power, Damping, Iter, RMSE, NLL FROM L96_EXP')
        rows = {r[:6]: r[6:] for r in rows}
        runs = [(d, s) for d in (5, 10, 20, 40, 100, 200) for s in SEEDS][:stop]
        want = {('MCT', d, s, p, 1.0, float(i)) for d, s in runs for p in (1.0, .8, .1) for i in range(10)}
        case.check(set(rows) == want, 'settings on record', got=len(rows), want=len(want))
        for d, seed in ([runs[-1]] if len(runs) < 3 else [runs[-1], runs[rng.randint(len(runs))]]):
            system = L96(dim=d, init_cond_path='../log/L96_initial_condition_F_8_dim_{}.npy'.format(d))
            xs, ys = fresh_data(system, steps, seed)
            m = Wrapped(system, ys)
            for p in (1.0, .8, .1):
                tr = UnscentedTransform(dim=d, alpha=1, beta=2, kappa=1)
                nodes = chain(m, estimator_for(m, tr, tr, p, 1.0))
                for i in range(10):
                    for node in nodes:
                        node.fwd_update()
                        node.meas_update()
                    for node in reversed(nodes):
                        node.back_update()
                    r, l = metric_rows([v.marginal for v in nodes], xs)
                    got = rows[('MCT', d, seed, p, 1.0, float(i))]
                    near_rel(case, got[0], r, 1e-5, 'RMSE of a sweep', dim=d, power=p, sweep=i)
                    near_rel(case, got[1], l, 1e-5, 'NLL of a sweep', dim=d, power=p, sweep=i)
                    case.event('sweeps')
                    case.observe(r)


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'
PAIR = re.compile('({0}) \\+/- ({0})'.format(NUM))


@family('C32', quick=12, thorough=300, needs={'printed': 200})
def results_tables(case, rng):
    """Databases with random records (also of other transforms, dampings, quantities and iterations, as decoys): the
    printed tables show, row by row, the mean and spread over the seeds of exactly the records they name."""
    wide = {}

    def val():
        return float(rng.randn() * 10 ** rng.uniform(0, 2))

    def fill(path, table, cols, settings):
        con = sqlite3.connect(path)
        con.execute('CREATE TABLE {} ({}, Seed INT, RMSE REAL, NLL REAL)'.format(table, ', '.join(cols)))
        store = {}
        todo = [(st, seed) for st in settings for seed in SEEDS]
        for k in rng.permutation(len(todo)):
            st, seed = todo[k]
            v = (val(), val())
            store.setdefault(st, {})[seed] = v
            con.execute('INSERT INTO {} VALUES ({})'.format(table, ', '.join('?' * (len(st) + 3))), tuple(st) + (seed,) + v)
        con.commit()
        con.close()
        wide[path] = {st: [np.array([store[st][s][i] for s in SEEDS]) for i in (0, 1)] for st in store}

    powers = [1.0, .8, .6, .4, .2]
    with workplace(rng):
        fill('ungm_final_2.db', 'UNGM_EXP', ['Transform TEXT', 'Power REAL', 'Damping REAL', 'Iter REAL'],
             [(t, p, g, float(i)) for t in ('MCT', 'UT') for p in powers for g in (1.0, .2) for i in (1, 49, 50)])
        fill('../log/bott_final_2.db', 'BOTT_EXP', ['Quantity TEXT', 'Transform TEXT', 'Power REAL', 'Damping REAL', 'Iter REAL'],
             [(q, t, p, g, float(i)) for q in ('position', 'velocity', 'angle') for t in ('MCT', 'UT') for p in powers
              for g in (1.0, .2) for i in (1, 50)])
        fill('../log/L96_dim_experiment_3.db', 'L96_EXP', ['Transform TEXT', 'dim INT', 'Power REAL', 'Damping REAL', 'Iter REAL'],
             [(t, d, p, g, float(i)) for t in ('MCT', 'UT') for d in (5, 10, 20, 40, 100, 200) for p in (1.0, .1) for g in (1.0, .2)
              for i in (0, 1, 9)])
        fill('../log/IEKS_ungm.db', 'UNGM_EXP', ['Iter REAL'], [(10.0,), (50.0,)])
        fill('../log/IEKS_bott.db', 'BOTT_EXP', ['Quantity TEXT', 'Iter REAL'],
             [(q, float(i)) for q in ('position', 'velocity', 'angle') for i in (10, 50)])
        fill('../log/IEKS_L96.db', 'L96_EXP', ['dim INT', 'Iter REAL'], [(d, float(i)) for d in (5, 10, 20) for i in (10, 50)])
        text, opened, real = io.StringIO(), [], sqlite3.connect

        def connect(*a, **kw):
            opened.append(real(*a, **kw))
            return opened[-1]
        sqlite3.connect = connect
        try:
            with contextlib.redirect_stdout(text):
                runpy.run_module('Experiments.DisplayResults', run_name='__main__')
        finally:
            sqlite3.connect = real
            for c in opened:
                c.close()
            gc.collect()
    u, b, l = wide['ungm_final_2.db'], wide['../log/bott_final_2.db'], wide['../log/L96_dim_experiment_3.db']
    want = [('Kalman', u[('MCT', 1.0, 1.0, 1.0)])] + [('Power EP ({})'.format(p), u[('MCT', p, .2, 50.0)]) for p in powers]
    want += [('Kalman', b[('angle', 'MCT', 1.0, 1.0, 1.0)])]
    want += [('Power EP ({})'.format(p), b[('angle', 'MCT', p, 1.0, 50.0)]) for p in powers]
    for d in (5, 10, 20, 40, 100, 200):
        want += [('Kalman', l[('UT', d, 1.0, 1.0, 0.0)]), ('Power EP (1.0)', l[('UT', d, 1.0, 1.0, 9.0)])]
    for path, key in (('../log/IEKS_ungm.db', (50.0,)), ('../log/IEKS_bott.db', ('angle', 50.0)), ('../log/IEKS_L96.db', (20, 10.0))):
        r, n = wide[path][key]
        want += [('RMSE', (r,)), ('NLL', (n,))]
    lines = [ln for ln in text.getvalue().splitlines() if '+/-' in ln]
    case.describe(lines=len(lines))
    case.check(len(lines) == len(want), 'one line per reported setting', got=len(lines), want=len(want))
    for ln, (head, cols) in zip(lines, want):
        case.check(ln.startswith(head), 'line label', line=ln, want=head)
        pairs = [(float(a), float(s)) for a, s in PAIR.findall(ln)]
        case.check(len(pairs) == len(cols), 'columns of a line', line=ln)
        for (a, s), v in zip(pairs, cols):
            case.near(a, v.mean(), 1.0, 'printed mean', scale=.0051 * abs(v.mean()) + .0051, line=ln)
            case.near(s, v.std(), 1.0, 'printed spread', scale=.0051 * v.std() + .0051, line=ln)
            case.event('printed')
        case.observe([v.mean() for v in cols])
