"""
Monitor framework: deterministic cases, three-valued verdicts, replay files, evidence.

A *family* is a workload generator plus its monitors: a function f(case, rng).  The runner executes it for
index 0..n-1 with a random state that is a pure function of (VERIF_SEED, property, family, index), so every
case can be replayed.  Inside a case

    case.check(cond, what, ...)   an oracle decision: a false one is a violation
    case.near(got, want, tol, what)
    case.event(name, n=1)         a monitor observed something (counted in the evidence)
    case.describe(**kw)           what this workload is (for samples and distinctness)
    case.observe(*arrays)         folds observed values into the digest of the execution
    case.trivial(why)             the workload did not exercise the property
"""
import hashlib
import json
import os
import time
import traceback
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Family:
    def __init__(self, prop, name, func, quick, thorough, needs, rule):
        self.prop, self.name, self.func = prop, name, func
        self.quick, self.thorough = quick, thorough
        self.needs = needs
        self.rule = rule


REGISTRY = {}


def family(prop, quick, thorough, needs=(), rule=None, name=None):
    """needs: {event: minimum count per run} below which the run is inconclusive."""
    def deco(func):
        props = (prop,) if isinstance(prop, str) else prop
        for p in props:
            REGISTRY.setdefault(p, []).append(
                Family(p, name or func.__name__, func, quick, thorough, dict(needs),
                       rule or (func.__doc__ or '').strip()))
        return func
    return deco


def case_seed(seed, prop, fam, index):
    key = '{}/{}/{}/{}'.format(seed, prop, fam, index).encode()
    return zlib.crc32(key) & 0x7fffffff


def jsonable(x):
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 40 else {'shape': list(x.shape), 'head': x.ravel()[:8].tolist()}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Case:
    def __init__(self, prop, fam, index, seed):
        self.prop, self.fam, self.index, self.seed = prop, fam, index, seed
        self.events = {}
        self.desc = {}
        self._h = hashlib.sha1()
        self.is_trivial = None
        self.worst = {}

    # --- oracle decisions
    def check(self, cond, what, **details):
        self.event('oracle_decisions')
        if not cond:
            raise Violation(what + (': ' + json.dumps(jsonable(details)) if details else ''))

    def near(self, got, want, tol, what, scale=1.0, **details):
        """max |got - want| / scale <= tol, with shapes equal and everything finite."""
        self.event('oracle_decisions')
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            raise Violation('{}: shape {} where {} is expected'.format(what, got.shape, want.shape))
        if got.size == 0:
            return
        if not np.all(np.isfinite(got)):
            raise Violation('{}: not finite: {}'.format(what, jsonable(got)))
        err = float(np.max(np.abs(got - want) / scale))
        self.worst[what] = max(self.worst.get(what, 0.0), err / tol)
        if not err <= tol:
            details.update(got=got, want=want)
            raise Violation('{}: deviates by {:.3g} (allowed {:.3g}): {}'.format(
                what, err, tol, json.dumps(jsonable(details))))

    def raises(self, exc, func, what):
        self.event('oracle_decisions')
        try:
            func()
        except exc:
            return
        raise Violation(what + ': did not raise')

    # --- bookkeeping
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def describe(self, **kw):
        self.desc.update(jsonable(kw))

    def observe(self, *arrays):
        for a in arrays:
            self._h.update(np.ascontiguousarray(np.asarray(a, dtype=float)).tobytes())

    def trivial(self, why):
        self.is_trivial = why

    def digest(self):
        h = self._h.copy()
        h.update(json.dumps(self.desc, sort_keys=True).encode())
        return h.hexdigest()


def run_case(fam, index, seed):
    """-> (case, None | violation text)"""
    s = case_seed(seed, fam.prop, fam.name, index)
    case = Case(fam.prop, fam.name, index, s)
    rng = np.random.RandomState(s)
    np.random.seed((s ^ 0x5bd1e995) & 0x7fffffff)
    try:
        fam.func(case, rng)
    except Violation as e:
        return case, str(e)
    except Inconclusive:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:     # the code under test (or a value it returned) blew up
        if isinstance(e, SystemExit):
            return case, 'SystemExit raised: {!r}'.format(e)
        tb = traceback.format_exc().strip().splitlines()
        return case, 'unexpected {}: {} | {}'.format(type(e).__name__, e, ' / '.join(l.strip() for l in tb[-7:]))
    return case, None


class Result:
    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.families = {}
        self.digests = set()
        self.samples = []
        self.violations = []
        self.stopped = False
        self.worst = {}

    def absorb(self, fam, case, text):
        self.evaluations += 1
        f = self.families.setdefault(fam.name, {'cases': 0, 'trivial': 0, 'events': {}})
        f['cases'] += 1
        for k, v in case.events.items():
            self.events[k] = self.events.get(k, 0) + v
            f['events'][k] = f['events'].get(k, 0) + v
        for k, v in case.worst.items():
            if v > self.worst.get(k, 0):
                self.worst[k] = v
        if case.is_trivial or not case.events.get('oracle_decisions'):
            f['trivial'] += 1
        else:
            self.digests.add(fam.name + case.digest())
        if f['cases'] <= 2:
            self.samples.append({'family': fam.name, 'index': case.index, 'case': case.desc,
                                 'events': case.events})
        if text is not None:
            self.violations.append({'family': fam.name, 'index': case.index, 'what': text, 'case': case.desc})

    def merge(self, o):
        self.evaluations += o.evaluations
        for k, v in o.events.items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in o.worst.items():
            self.worst[k] = max(v, self.worst.get(k, 0))
        for n, f in o.families.items():
            g = self.families.setdefault(n, {'cases': 0, 'trivial': 0, 'events': {}})
            g['cases'] += f['cases']
            g['trivial'] += f['trivial']
            for k, v in f['events'].items():
                g['events'][k] = g['events'].get(k, 0) + v
        self.digests |= o.digests
        self.samples += o.samples
        self.violations += o.violations
        self.stopped = self.stopped or o.stopped


def explore(families, tier, seed, shard, shards, deadline):
    """Interleave the families so that a time budget cuts all of them evenly."""
    res = Result()
    plan = []
    for fam in families:
        n = fam.quick if tier == 'quick' else fam.thorough
        for i in range(n):
            if i % shards == shard:
                plan.append((i / max(n, 1), fam, i))
    plan.sort(key=lambda p: (p[0], p[1].name))
    broken = {}
    for _, fam, i in plan:
        if broken.get(fam.name, 0) >= 2:
            continue
        if time.time() > deadline:
            res.stopped = True
            break
        case, text = run_case(fam, i, seed)
        res.absorb(fam, case, text)
        if text is not None:
            broken[fam.name] = broken.get(fam.name, 0) + 1
            if os.environ.get('VERIF_FIRST'):          # development only: one is enough
                break
    return res
