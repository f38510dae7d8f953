"""C20 parallel and sequential evaluation."""
import json
import os
import shutil
import tempfile
import time

import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C20'
SHAPES = ('matrix', 'row', 'float', 'list', 'nested list', 'numpy scalar', 'zero-dimensional', 'integer')


class Logged(object):
    """Objective whose calls are recorded in a file, so that calls in other processes are seen too."""

    def __init__(self, path, value, shape='matrix', slow=()):
        self.path, self.value, self.shape, self.slow = path, value, shape, slow

    def __call__(self, x):
        rec = {'shape': list(np.shape(x)), 'x': np.asarray(x, dtype=float).tolist(), 'pid': os.getpid()}
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(rec) + '\n').encode())
        os.close(fd)
        y = self.value(np.asarray(x, dtype=float).reshape(-1))
        if self.slow and int(abs(np.ravel(x)[0]) * 997) % 3 == 0:
            time.sleep(self.slow[int(abs(np.ravel(x)[0]) * 131) % len(self.slow)])
        s = self.shape
        if s == 'row':
            return np.array([y])
        if s == 'float':
            return float(y)
        if s == 'list':
            return [y]
        if s == 'nested list':
            return [[y]]
        if s == 'numpy scalar':
            return np.float64(y)
        if s == 'zero-dimensional':
            return np.array(y)
        if s == 'integer':
            return int(y)
        return np.array([[y]])

    def calls(self):
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            return [json.loads(l) for l in f]


class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


@st.composite
def rows_case(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, 30)))
    mag = draw(st.sampled_from([1., 1., 1e-300, 1e300, 1e-8, 1e9]))
    X = draw(st.lists(st.lists(gen.fl(-50, 50, 3), min_size=d, max_size=d), min_size=n, max_size=n))
    if n > 1 and draw(st.integers(0, 3)) == 0:
        X[draw(st.integers(1, n - 1))] = list(X[0])
    return {'d': d, 'X': X, 'mag': mag, 'coef': draw(gen.coefs), 'procs': draw(st.lists(st.integers(1, 8), min_size=1, max_size=3)),
            'shape': draw(st.sampled_from(SHAPES)), 'slow': draw(st.sampled_from([[], [], [0.002, 0.01], [0.02, 0.001, 0.03]])),
            'order': draw(st.sampled_from(['C', 'C', 'F', 'view'])), 'int': draw(st.integers(0, 4)) == 0}


@sub(P, 'rows', rows_case, 150, 4000, 'at least two rows and two workers', shards=3, case_limit=60,
     examples=[{'d': 1, 'X': 'arange 13000', 'mag': 1., 'coef': [[1., 1.]], 'procs': [2], 'shape': 'matrix', 'slow': [], 'order': 'C', 'int': False},
               {'d': 1, 'X': 'arange 9000', 'mag': 1., 'coef': [[1., 1.]], 'procs': [1], 'shape': 'float', 'slow': [], 'order': 'C', 'int': False},
               {'d': 2, 'X': 'arange 26000', 'mag': 1e9, 'coef': [[1., 2.]], 'procs': [3], 'shape': 'row', 'slow': [], 'order': 'C', 'int': False}])
def rows(c, info):
    from GPyOpt.core.task.objective import SingleObjective
    d = c['d']
    if isinstance(c['X'], str):
        X = np.arange(float(c['X'].split()[1])).reshape(-1, d)
    else:
        X = np.array(c['X'], dtype=int if c['int'] else float).reshape(-1, d)
    if c['order'] == 'F':
        X = np.asfortranarray(X)
    elif c['order'] == 'view':
        X = np.hstack([X, X])[:, :d]
    n = len(X)
    ref = gen.Objective(c['coef'], scale=c['mag'])
    exp = np.array([ref.value(x) for x in X]).reshape(-1, 1)
    if c['shape'] == 'integer':
        exp = np.array([float(int(v)) for v in exp.ravel()]).reshape(-1, 1)
    info.label('shape ' + c['shape'])
    for k in c['procs']:
        with scratch() as dr:
            f = Logged(os.path.join(dr, 'log'), ref.value, c['shape'], c['slow'])
            X0 = X.copy()
            Y, cost = SingleObjective(f, num_cores=k).evaluate(X)
            calls = f.calls()
        Y = np.asarray(Y)
        what = '%d rows, %d workers: ' % (n, k)
        if not np.array_equal(X, X0):
            raise Violation(what + 'the inputs were changed')
        if Y.shape != (n, 1):
            raise Violation(what + 'outputs of shape %r' % (Y.shape,))
        if not np.array_equal(Y.astype(float), exp):
            i = int(np.flatnonzero(Y.astype(float).ravel() != exp.ravel())[0])
            raise Violation(what + 'row %d has the value %r, reported is %r' % (i, exp[i, 0], Y[i, 0]))
        if any(r['shape'] != [1, d] for r in calls):
            raise Violation(what + 'the objective was called with an input of shape %r' % ([r['shape'] for r in calls if r['shape'] != [1, d]][0],))
        if sorted(tuple(r['x'][0]) for r in calls) != sorted(tuple(x) for x in X.astype(float).tolist()):
            raise Violation(what + '%d calls, or rows not evaluated exactly once' % len(calls))
        if k == 1 and [r['x'][0] for r in calls] != X.astype(float).tolist():
            raise Violation(what + 'sequential evaluation did not follow the row order')
        if np.size(cost) != n or (n and not np.all(np.asarray(cost, dtype=float) > 0)):
            raise Violation(what + 'reported costs %r' % (np.ravel(cost)[:5].tolist(),))
        if k > 1 and len({r['pid'] for r in calls}) > 1:
            info.label('several processes')
        info.nontrivial(n > 1 and k > 1)


@st.composite
def run_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('random', 'random', 'thompson_sampling', 'sequential'), dedup=None, max_cols=3))
    c['cores'] = draw(st.integers(2, 8))
    c['n'] = draw(st.integers(1, 2))
    if gen.Layout(c['dom']).n_distinct() <= 60:
        c.pop('dedup', None)
    return c


@sub(P, 'runs', run_case, 40, 1200, 'at least two configurations evaluated at once', shards=3, case_limit=120)
def runs(c, info):
    """A whole run with several workers against the same run with one."""
    info.label(*loops.labels(c))
    val = loops.Obj(c).value
    res = []
    for k in (1, c['cores']):
        with scratch() as dr:
            f = Logged(os.path.join(dr, 'log'), val)
            np.random.seed(c['seed'])
            bo = loops.make(c, f, num_cores=k)
            bo.run_optimization(max_iter=c['n'], eps=-1)
            calls = sorted(tuple(r['x'][0]) for r in f.calls())
        X = np.asarray(bo.X, dtype=float)
        for x, y in zip(X, bo.Y):
            if y[0] != val(x):
                raise Violation('%d workers: the value of %r is %r, recorded is %r' % (k, x.tolist(), val(x), y[0]))
        new = X if c['init'] != 'XY' else X[c['n0']:]
        if calls != sorted(tuple(x) for x in new.tolist()):
            raise Violation('%d workers: evaluated were %r, recorded are %r' % (k, calls, new.tolist()))
        res.append((X, np.asarray(bo.Y), np.ravel(bo.x_opt), np.ravel(bo.fx_opt), np.ravel(bo.Y_best)))
    for a, b in zip(*res):
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation('one worker leads to %r, %d workers lead to %r' % (a.tolist(), c['cores'], b.tolist()))
    info.nontrivial(loops.batch_of(c) > 1 or (c['init'] != 'XY' and c['n0'] > 1))
