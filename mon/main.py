"""Entry point: main.py <PROPERTY> quick|thorough, or main.py --replay <file>."""
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)              # evidence and replays; elsewhere only during development
sys.path.insert(0, REPO)

# The repository first: it installs its own warning filters at import.
import StateModel, MomentMatching, Utils, Systems                     # noqa: E402
import MomentMatching.Estimator, ExpectationPropagation.Nodes         # noqa: E402
import ExpectationPropagation.Iterations, Filters.KalmanFilter        # noqa: E402
import Utils.Metrics, Utils.Database, Utils.Plot_Helper               # noqa: E402
try:                                                                  # its check imports it again and judges
    import Experiments.EP_FullSweep, Experiments.EP_Sweep_BearingsOnly
except Exception:
    pass
import warnings                                                       # noqa: E402
import numpy as np                                                    # noqa: E402
for cat in (DeprecationWarning, PendingDeprecationWarning, RuntimeWarning, np.VisibleDeprecationWarning, FutureWarning):
    warnings.filterwarnings('ignore', category=cat)
sys.path.insert(0, HERE)
import core                                                           # noqa: E402
from checks import load                                               # noqa: E402

BUDGET = {'quick': 240.0, 'thorough': 780.0}
SHARDS = {'quick': 4, 'thorough': 8}


def known_findings(prop):
    """Lines 'known: property=<id> pattern=<regex> :: <text>' of the committed file."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                m = re.match(r'known: property=(\S+) pattern=(.*?) :: (.*)', line.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


def worker(args):
    prop, tier, seed, shard, shards, deadline = args
    work = os.path.join(os.environ['VERIF_SCRATCH'], 'shard{}'.format(shard), 'work')
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(work, '..', 'log'), exist_ok=True)
    os.chdir(work)
    devnull = open(os.devnull, 'w')
    out, sys.stdout = sys.stdout, devnull        # the code under test prints
    try:
        return core.explore(core.REGISTRY[prop], tier, seed, shard, shards, deadline)
    except core.Inconclusive as e:
        return 'inconclusive: {}'.format(e)
    except Exception:
        return 'harness error: ' + traceback.format_exc()
    finally:
        sys.stdout = out
        devnull.close()


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    fam = [f for f in core.REGISTRY[r['property']] if f.name == r['family']][0]
    case, text = core.run_case(fam, r['index'], r['seed'])
    print(json.dumps({'case': case.desc, 'events': case.events}, indent=1))
    if text is not None:
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        print(text)
        return 1
    print('held on this case')
    return 0


def main(argv):
    load()
    if argv and argv[0] == '--replay':
        return replay(argv[1] if os.path.isabs(argv[1]) else os.path.join(VERIF, argv[1]))
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    fams = core.REGISTRY.get(prop)
    if not fams:
        print('unknown property', prop)
        return 2
    deadline = T0 + float(os.environ.get('VERIF_BUDGET', BUDGET[tier]))
    shards = SHARDS[tier]
    jobs = [(prop, tier, seed, s, shards, deadline) for s in range(shards)]
    pool = multiprocessing.get_context('fork').Pool(shards)
    handle = pool.map_async(worker, jobs, chunksize=1)
    try:
        # generous watchdog: firing is inconclusive, never a violation
        results = handle.get(timeout=max(deadline - time.time(), 1) + 90)
    except multiprocessing.TimeoutError:
        pool.terminate()
        print('INCONCLUSIVE property={} the workload did not finish within the watchdog'.format(prop))
        return 2
    pool.close()
    pool.join()
    total = core.Result()
    for r in results:
        if isinstance(r, str):
            print('INCONCLUSIVE property={} {}'.format(prop, r))
            return 2
        total.merge(r)

    known = known_findings(prop)
    fresh, listed = [], set()
    for v in sorted(total.violations, key=lambda v: (v['family'], v['index'])):
        hit = [text for rx, text in known if rx.search(v['family'] + ': ' + v['what'])]
        if hit:
            listed.update(hit)
        else:
            fresh.append(v)
    for text in sorted(listed):
        print('KNOWN-FINDING: property={} {}'.format(prop, text))

    missing = []
    for fam in fams:
        seen = total.families.get(fam.name, {'events': {}, 'cases': 0})
        ev = seen['events']
        share = 1.0
        if total.stopped:                   # a slow machine: ask for the share of the workload that was run
            share = min(1.0, .8 * seen['cases'] / fam.quick)
        for name, least in fam.needs.items():
            least = max(int(least * share), 1)
            if ev.get(name, 0) < least:
                missing.append('{}: {} seen {} times, {} needed'.format(fam.name, name, ev.get(name, 0), least))

    samples = sorted(total.samples, key=lambda s: (s['family'], s['index']))
    first = {}
    for s in samples:
        first.setdefault(s['family'], s)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total.evaluations,
            'distinct_nontrivial': len(total.digests),
            'rule': 'One evaluation is one generated workload executed against the real code with its monitors on. '
                    'Distinct: different digest of the workload description and of the values the monitors observed. '
                    'Non-trivial: at least one oracle decision was taken and the workload was not flagged as '
                    'not exercising the property. Families: '
                    + ' | '.join('{} - {}'.format(f.name, ' '.join(f.rule.split())) for f in fams),
            'samples': list(first.values()),
            'monitor_events': dict(sorted(total.events.items())),
            'families': total.families,
            'worst_error_over_tolerance': {k: float('%.3g' % v) for k, v in
                                           sorted(total.worst.items(), key=lambda kv: -kv[1])[:25]},
            'cut_by_time_budget': total.stopped,
            'exhaustive': False,
        },
        'assumptions': ['numpy/scipy/autograd/sqlite3 of the build environment are trusted',
                        'single-threaded use, as the library is written'],
        'wall_s': round(time.time() - T0, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(path + '.tmp', path)

    if fresh:
        rdir = os.path.join(OUT, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for v in fresh[:6]:
            rp = os.path.join(rdir, '{}-{}-{}.json'.format(prop, v['family'], v['index']))
            with open(rp, 'w') as fh:
                json.dump({'property': prop, 'seed': seed, 'family': v['family'], 'index': v['index'],
                           'what': v['what'], 'case': v['case'],
                           'how': 'VERIF_SEED is stored here; run: /verif/run.sh --replay ' + rp}, fh, indent=1)
            print('VIOLATION property={} replay={}'.format(prop, rp))
            print('  {} #{}: {}'.format(v['family'], v['index'], v['what'][:1500]))
        return 1
    if missing:
        print('INCONCLUSIVE property={} {}'.format(prop, '; '.join(missing)))
        return 2
    print('held: property={} tier={} evaluations={} distinct_nontrivial={} decisions={} wall={:.1f}s{}'.format(
        prop, tier, total.evaluations, len(total.digests), total.events.get('oracle_decisions', 0),
        time.time() - T0, ' (cut by time budget)' if total.stopped else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
