"""Development aid: systematic small mutations of the library, to find what no check sees (checks never use this).

  python3 tools/mutate.py [-j N] [--only REGEX] [--limit N] OUT.jsonl      (resumes: mutants already in OUT are skipped)

Every mutant that passes the stable tests is run against the quick checks, nearest first, until one reports it.
"""
import argparse
import ast
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeded
import warnings

warnings.simplefilter('ignore')
os.environ['VERIF_FIRST'] = '1'
seeded.ENV['VERIF_FIRST'] = '1'

FILES = {
    'StateModel/Gaussian.py': 'C01 C02 C03 C24 C12 C09 C15',
    'Utils/linalg.py': 'C24 C01 C12 C11',
    'MomentMatching/UnscentedTransform.py': 'C05 C04',
    'MomentMatching/TaylorLinearisation.py': 'C05 C04',
    'MomentMatching/MonteCarloTransform.py': 'C05 C04',
    'MomentMatching/MomentMatch.py': 'C05 C04 C29',
    'MomentMatching/Estimator.py': 'C06 C07 C08 C12',
    'ExpectationPropagation/Nodes.py': 'C14 C10 C09 C11 C13 C12 C15',
    'ExpectationPropagation/Iterations.py': 'C10 C28',
    'Filters/KalmanFilter.py': 'C18 C19 C20 C21 C22 C23',
    'Systems/DynamicSystem.py': 'C25',
    'Systems/UniformNonlinearGrowthModel.py': 'C26 C25',
    'Systems/BearingsOnlyTracking.py': 'C26 C25',
    'Systems/BearingOnlyTrackingTurn.py': 'C26 C25',
    'Systems/L96.py': 'C26 C25',
    'Utils/Metrics.py': 'C03 C30 C28',
    'Utils/Database.py': 'C27 C28 C29',
    'Utils/Plot_Helper.py': 'C31',
    'Experiments/EP_FullSweep.py': 'C29 C28',
    'Experiments/EP_Sweep_BearingsOnly.py': 'C29 C30 C28',
    'Experiments/IEKS_Sweep_BearingsOnly.py': 'C32 C30',
    'Experiments/IEKS_Sweep_UNGM.py': 'C32',
    'Experiments/IEKS_Sweep_L96.py': 'C32',
    'Experiments/EP_Sweep_L96.py': 'C32',
    'Experiments/DisplayResults.py': 'C32',
}
SWAPS = [('prev_node', 'next_node'), ('back_factor', 'forward_factor'), ('forward_factor', 'measurement_factor'), ('damping', 'power'),
         ('trans_map', 'meas_map'), ('transition_noise', 'measurement_noise'), ('state', 'next_state'), ('mean', 'cov'),
         ('precision', 'shift'), ('transform', 'meas_transform'), ('system_noise', 'measurement_noise'), ('transition', 'measurement'),
         ('prior_state', 'init_state'), ('xx_mean', 'mu'), ('xx_cov', 'Sigma'), ('state', 'pred_state'), ('marginal', 'measurement_factor'),
         ('cavity', 'marginal'), ('f_list', 'h_list'), ('x', 'y'), ('sin', 'cos'), ('upr', 'lwr'), ('t', 'u'), ('k1', 'k2'), ('k3', 'k2'),
         ('trans_func', 'meas_func'), ('RMSE', 'NLL'), ('old_forward_factor', 'fwd_factor'), ('marginal', 'back_cavity')]


def spans(src):
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    return starts


def mutants(src):
    """yield (description, start byte, end byte, replacement)"""
    tree = ast.parse(src)
    starts = spans(src)
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def put(n, new, what):
        a, b = pos(n)
        text = new if isinstance(new, str) else ast.unparse(new)
        if not isinstance(new, str) and isinstance(new, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp)):
            text = '(' + text + ')'
        out.append((what, a, b, text, n.lineno))

    def walk(n, parent):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__':
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', 'project', '_data_likelihood', 'numerical_jacobian'):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.BinOp):
            for a, bs in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult],
                          ast.Mod: []}.items():
                if isinstance(n.op, a):
                    for b in bs:
                        put(n, ast.BinOp(n.left, b(), n.right), 'op')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                put(n, n.left, 'drop right')
                put(n, n.right, 'drop left')
            if isinstance(n.op, (ast.Mult, ast.Div)):
                put(n, n.left, 'drop factor')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, n.operand, 'drop unary')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for a, b in {ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.Eq: ast.NotEq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.LtE: ast.Lt,
                         ast.GtE: ast.Gt}.items():
                if isinstance(n.ops[0], a):
                    put(n, ast.Compare(n.left, [b()], n.comparators), 'compare')
        elif isinstance(n, ast.BoolOp):
            for v in n.values:
                put(n, v, 'drop condition')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, ast.Constant(not v), 'flip')
            elif isinstance(v, int) and not isinstance(v, bool):
                put(n, ast.Constant(v + 1), 'plus one')
                if v > 0:
                    put(n, ast.Constant(v - 1), 'minus one')
            elif isinstance(v, float):
                put(n, ast.Constant(v * 1.1 if v else .1), 'scale')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if n.attr == 'T':
                put(n, n.value, 'drop T')
            for a, b in SWAPS:
                for p, q in ((a, b), (b, a)):
                    if n.attr == p:
                        put(n, ast.Attribute(n.value, q, n.ctx), 'swap %s->%s' % (p, q))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, b in SWAPS:
                for p, q in ((a, b), (b, a)):
                    if n.id == p:
                        put(n, q, 'swap %s->%s' % (p, q))
        elif isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if len(n.args) == 1 and not n.keywords and f in ('symmetrize', 'atleast_1d', 'atleast_2d', 'squeeze', 'ravel', 'sqrt', 'square',
                                                             'int', 'reversed', 'list', 'array', 'abs', 'copy', 'mean', 'eye', 'asarray'):
                put(n, n.args[0], 'drop ' + f)
            if f == 'copy' and not n.args:
                put(n, n.func.value, 'drop copy')
            for i, k in enumerate(n.keywords):
                put(n, ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:]), 'drop kw %s' % k.arg)
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True', 'if true')
            put(n.test, 'False', 'if false')
        if isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'drop statement')
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'drop jump')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            put(n.type, 'Exception', 'catch all')
            put(n.type, 'ZeroDivisionError', 'catch nothing')
        for c in ast.iter_child_nodes(n):
            walk(c, n)
    walk(tree, None)
    return out


def run(args, job):
    key, f, what, a, b, text, line, old = job
    tmp = tempfile.mkdtemp(prefix='mutant.', dir='/tmp')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True, ignore=shutil.ignore_patterns('Notebooks', '*.gif', '.git'))
        p = os.path.join(copy, f)
        src = open(p, 'rb').read()
        open(p, 'wb').write(src[:a] + text.encode() + src[b:])
        rec = dict(key=key, file=f, line=line, what=what, old=old, new=text)
        try:
            lost = seeded.tests(copy, tmp)
        except Exception:
            lost = ['?']
        if lost:
            return dict(rec, result='tests')
        near = FILES[f].split()
        for c in near + ([x for x in seeded.ALL if x not in near] if args.all_checks else []):
            rc, fam, out = seeded.check(c, copy, tmp)
            if rc == 1:
                return dict(rec, result=c, fam=fam)
            if rc != 0:
                rec.setdefault('odd', []).append((c, rc, out[-300:]))
        return dict(rec, result='SURVIVES')
    finally:
        shutil.rmtree(tmp)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('--only', default='.')
    ap.add_argument('--limit', type=int, default=10 ** 6)
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--redo', help='only the survivors of that earlier run')
    ap.add_argument('out')
    args = ap.parse_args()
    done = set()
    if os.path.exists(args.out):
        done = {json.loads(x)['key'] for x in open(args.out)}
    again = None
    if args.redo:
        again = {(r['file'], r['what'], r['old'], r['new'], r['line'] + k) for k in range(-2, 9) for r in map(json.loads, open(args.redo)) if r['result'] == 'SURVIVES'}
    jobs = []
    for f in FILES:
        if not re.search(args.only, f):
            continue
        src = open('/repo/' + f, newline='').read()
        raw = src.encode()
        for what, a, b, text, line in mutants(src):
            new = raw[:a] + text.encode() + raw[b:]
            try:
                if ast.dump(ast.parse(new)) == ast.dump(ast.parse(raw)):
                    continue
            except SyntaxError:
                continue
            key = hashlib.sha1(f.encode() + new).hexdigest()[:12]
            if again is not None and (f, what, raw[a:b].decode(), text, line) not in again:
                continue
            if key not in done:
                done.add(key)
                jobs.append((key, f, what, a, b, text, line, raw[a:b].decode()))
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    if args.list:
        for j in sorted(jobs, key=lambda j: (j[1], j[6])):
            print(j[1], j[6], j[2], repr(j[7][:60]), '->', repr(j[5][:60]))
        return
    with open(args.out, 'a') as out, ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(lambda j: run(args, j), jobs[:args.limit]):
            out.write(json.dumps(r) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
