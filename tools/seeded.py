"""Development aid: try planted changes in scratch copies of /repo (checks never read seeded/).

  python3 tools/seeded.py [-j N] [--all-checks] [id or prefix ...]

For each seeded/<id>: apply the patch to a copy, run the stable tests, the demonstration on both trees, and the quick check
of its property (with --all-checks every check) on the changed copy; print one line each.
--quiet-edits DIR: instead, DIR/*.diff are behaviour-preserving edits on which every check has to stay quiet.
"""
import argparse
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 33)]
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')


def tests(copy, out):
    x = os.path.join(out, 'junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                    '--continue-on-collection-errors', '--randomly-dont-reorganize', '--randomly-seed=0', '-o',
                    'python_files=test_*.py Test_*.py', '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'],
                   cwd=copy, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = os.path.join(out, 'res.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', res, 'junit:' + x], stdout=subprocess.DEVNULL)
    return BASE - set(json.load(open(res))['passed'])


def demo(d, cwd):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, env=ENV, stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode


def check(prop, copy, out):
    env = dict(ENV, VERIF_REPO=copy, VERIF_OUT=out, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    r = subprocess.run([os.path.join(HERE, 'run.sh'), prop, 'quick'], env=env, capture_output=True, text=True)
    fam = sorted(set(re.findall(r'^  (\w+) #', r.stdout, re.M)))
    return r.returncode, fam, r.stdout


def one(name, args):
    tmp = tempfile.mkdtemp(prefix='seeded.', dir='/tmp')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        diff = name if args.quiet_edits else os.path.join(HERE, 'seeded', name, 'patch.diff')
        if subprocess.run(['git', 'apply', diff], cwd=copy).returncode:
            return name, 'DOES NOT APPLY', {}
        notes = []
        lost = tests(copy, tmp)
        if lost:
            notes.append('TESTS FAIL %s' % sorted(lost))
        if args.quiet_edits:
            props = args.props or ALL
        else:
            d = os.path.join(HERE, 'seeded', name)
            own = json.load(open(os.path.join(d, 'meta.json')))['property']
            a, b = demo(d, '/repo'), demo(d, copy)
            if a != 0 or b == 0:
                notes.append('DEMO base=%d changed=%d' % (a, b))
            props = ALL if args.all_checks else [own]
            # original lines only
            blame = subprocess.run(['git', 'diff', '-U0'], cwd=copy, capture_output=True, text=True).stdout
            f = None
            for line in blame.splitlines():
                if line.startswith('--- a/'):
                    f = line[6:]
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
                if m and int(m.group(2) or 1):
                    bl = subprocess.run(['git', 'blame', '-s', '-L', '%s,+%d' % (m.group(1), int(m.group(2) or 1)), 'HEAD', '--', f],
                                        cwd=copy, capture_output=True, text=True).stdout
                    if any(not x.startswith('^') for x in bl.splitlines()):
                        notes.append('TOUCHES ADDED LINES %s:%s' % (f, m.group(1)))
        res = {}
        for p in props:
            rc, fam, text = check(p, copy, tmp)
            res[p] = (rc, fam, text)
        return name, '; '.join(notes), res
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--props', type=lambda s: s.split(','), help='with --quiet-edits: only these checks')
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--quiet-edits')
    ap.add_argument('ids', nargs='*')
    args = ap.parse_args()
    if args.quiet_edits:
        names = sorted(glob.glob(os.path.join(os.path.abspath(args.quiet_edits), '*.diff')))
    else:
        names = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    if args.ids:
        names = [n for n in names if any(os.path.basename(n).startswith(i) for i in args.ids)]
    with ThreadPoolExecutor(args.j) as ex:
        for name, notes, res in ex.map(lambda n: one(n, args), names):
            hit = ['%s(%s)' % (p, ','.join(f)) for p, (rc, f, _) in res.items() if rc == 1]
            odd = ['%s=%d' % (p, rc) for p, (rc, f, _) in res.items() if rc not in (0, 1)]
            print(os.path.basename(name).ljust(40), 'caught by ' + ' '.join(hit) if hit else 'QUIET', ' '.join(odd), notes, flush=True)
            if args.v or odd:
                for p, (rc, f, text) in res.items():
                    if rc:
                        print('    ' + '\n    '.join(text.splitlines()[:6]), flush=True)


if __name__ == '__main__':
    main()
