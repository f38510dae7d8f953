"""C24 configuration files."""
import copy
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st
from vf import boot, gen
from vf.core import sub, Violation
from props.c16 import FakeClock
from props.c20 import scratch

P = 'C24'

DEFAULTS = {
    'language': 'PYTHON', 'experiment-name': 'no-named-experiment', 'likelihood': 'NOISELESS',
    'initialization': {'type': 'random', 'num-eval': 5},
    'model': {'type': 'GP', 'num_inducing': 10},
    'constraints': [],
    'resources': {'maximum-iterations': 20, 'max-run-time': 'NA', 'cores': 1, 'tolerance': 1e-8},
    'acquisition': {'type': 'EI', 'jitter': 0.01, 'optimizer': {'name': 'lbfgs'}, 'evaluator': {'type': 'sequential'}},
    'output': {'verbosity': False, 'file-report': {'type': 'report', 'filename': None, 'interval': -1},
               'Ybest': {'type': 'logger', 'content': 'ybest', 'format': 'csv', 'filename': None, 'interval': 1}},
}


def merged(default, user):
    out = copy.deepcopy(default)
    for k, v in user.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merged(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def differing(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return '%s/%s is %s' % (path, k, 'missing' if k not in a else 'superfluous')
            r = differing(a[k], b[k], path + '/' + k)
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return '%s is %r instead of %r' % (path or 'the configuration', a, b)
    return None


leaf = st.one_of(st.integers(-5, 50), st.booleans(), st.none(), st.sampled_from(['NA', 'GP', '', 'branin', 1e-3, 2.5]), st.lists(st.integers(0, 3), max_size=3))
unknown = st.sampled_from(['main-file', 'prjpath', 'extra', 'space', 'x', 'num-eval', 'optimizer', 'name'])
tree = st.recursive(leaf, lambda s: st.dictionaries(unknown, s, max_size=3), max_leaves=5)


@st.composite
def overriding(draw, default=None):
    default = DEFAULTS if default is None else default
    out = {}
    keys = draw(st.lists(st.sampled_from(sorted(default)), max_size=len(default), unique=True))
    for k in keys:
        if isinstance(default[k], dict):
            w = draw(st.integers(0, 9))
            out[k] = {} if w == 0 else draw(leaf) if w == 1 else draw(tree) if w == 2 else draw(overriding(default[k]))
        else:
            out[k] = draw(st.one_of(leaf, leaf, leaf, tree))
    if draw(st.integers(0, 2)) == 0:
        out.update(draw(st.dictionaries(unknown, tree, max_size=2)))
    return out


@st.composite
def load_case(draw):
    return {'configs': draw(st.lists(overriding(), min_size=1, max_size=3)), 'spoil': draw(st.booleans())}


def spoil(d):
    """What a caller may do with a configuration it received."""
    for k in list(d):
        if isinstance(d[k], dict):
            spoil(d[k])
        elif isinstance(d[k], list):
            d[k].append('spoiled')
        else:
            d[k] = 'spoiled'
    d['spoiled'] = True


@sub(P, 'load', load_case, 400, 15000, 'a nested section is overridden in part', shards=2)
def load(c, info):
    from GPyOpt.interface import parser, BODriver
    for user in c['configs'] + [{}] + c['configs'][:1]:
        with scratch() as d:
            path = os.path.join(d, 'config.json')
            with open(path, 'w') as f:
                json.dump(user, f)
            got = parser(path)
        r = differing(got, merged(DEFAULTS, user))
        if r:
            raise Violation('configuration %s: %s' % (json.dumps(user)[:300], r))
        if c['spoil']:
            spoil(got)
        drv = BODriver()
        r = differing(drv.config, DEFAULTS)
        if r:
            raise Violation('without a configuration: %s' % r)
        if c['spoil']:
            spoil(drv.config)
        info.nontrivial(any(isinstance(v, dict) and v and isinstance(DEFAULTS.get(k), dict) and set(DEFAULTS[k]) - set(v) for k, v in user.items()))


# --------------------------------------------------------------------------------------------------------------- runs
NAMES = ['x', 'y', 'alpha', 'n_layers', 'w', 'kind', 'b1']


@st.composite
def run_case(draw, parallel=True):
    dom = draw(gen.domain(max_vars=3, max_dim=2, max_cols=4, bandit=None, named=True))
    ns = draw(st.permutations(NAMES))
    for v, n in zip(dom, ns):
        v['name'] = n
        v.setdefault('type', 'continuous')
        v.pop('as_list', None)
    lay = gen.Layout(dom)
    c = {'dom': dom, 'coef': draw(gen.coefs), 'seed': draw(gen.seeds),
         'text': draw(st.lists(st.booleans(), min_size=len(dom), max_size=len(dom))), 'dimtext': draw(st.booleans()),
         'signature': draw(st.sampled_from(['names', 'reversed', 'other', 'args', 'kwargs', 'default'])),
         'n0': draw(st.one_of(st.none(), st.integers(2, 5))), 'iters': draw(st.integers(0, 3)),
         'acq': draw(st.sampled_from([None, 'EI', 'MPI'])), 'jitter': draw(st.sampled_from([None, 0., 0.3])),
         'evaluator': draw(st.sampled_from([None, 'sequential', 'random', 'thompson_sampling'])), 'batch': draw(st.integers(2, 3)),
         'tol': draw(st.sampled_from([-1, -1, -1, None, 0.5, 1e6])),
         'model': {'type': 'GP', 'max_iters': draw(st.integers(2, 6)), 'optimize_restarts': 1, 'verbose': False}}
    for k, v in (('exact_feval', True), ('ARD', True), ('sparse', True), ('num_inducing', 3)):
        if draw(st.integers(0, 3)) == 0:
            c['model'][k] = v
    if draw(st.integers(0, 3)) == 0 and not any(v['type'] == 'bandit' for v in dom):
        c['cons'] = draw(gen.constraints(lay, draw(gen.points(lay, 1, 1))[0]))
    c['design'] = draw(st.sampled_from([None, 'random'] + ([] if c.get('cons') else ['latin', 'sobol'])))
    if parallel and draw(st.integers(0, 5)) == 0:
        c['cores'] = draw(st.integers(2, 3))
    return c


def config_of(c):
    space = []
    for v, t in zip(c['dom'], c['text']):
        v = dict(v)
        d = tuple(tuple(a) for a in v['domain']) if v['type'] == 'bandit' else tuple(v['domain'])
        v['domain'] = repr(d if v['type'] != 'bandit' else list(d)) if t else [list(a) if isinstance(a, tuple) else a for a in d]
        if 'dimensionality' in v and c['dimtext']:
            v['dimensionality'] = str(v['dimensionality'])
        space.append(v)
    cfg = {'space': space, 'model': c['model'], 'resources': {'maximum-iterations': c['iters']}}
    if c.get('cons'):
        cfg['constraints'] = c['cons']
    ini = {}
    if c['n0'] is not None:
        ini['num-eval'] = c['n0']
    if c['design'] is not None:
        ini['type'] = c['design']
    if ini:
        cfg['initialization'] = ini
    a = {}
    if c['acq'] is not None:
        a['type'] = c['acq']
    if c['jitter'] is not None:
        a['jitter'] = c['jitter']
    if c['evaluator'] is not None:
        a['evaluator'] = {'type': c['evaluator']}
        if c['evaluator'] != 'sequential':
            a['evaluator']['batch_size'] = c['batch']
    if a:
        cfg['acquisition'] = a
    if c['tol'] is not None:
        cfg['resources']['tolerance'] = c['tol']
    if c.get('cores'):
        cfg['resources']['cores'] = c['cores']
    return cfg


class UserFunction(object):
    """What the user's function computes and records: its arguments in the order of the variables."""

    def __init__(self, c, path=None):
        self.f, self.path = gen.Objective(c['coef']), path
        self.names = [v['name'] for v in c['dom']]
        self.hook = None

    def called(self, args):
        a = [np.array(args[n], dtype=float) for n in self.names]
        with open(self.path, 'a') as f:
            f.write(json.dumps({'shapes': [list(v.shape) for v in a], 'x': np.concatenate([v.ravel() for v in a]).tolist(), 'pid': os.getpid()}) + '\n')
        if self.hook:
            self.hook()
        return np.array([[self.f.value(np.concatenate([v.ravel() for v in a]))]])

    def calls(self):
        if not os.path.exists(self.path):
            return []
        with open(self.path) as f:
            return [json.loads(l) for l in f]


def source(c, impl='impl'):
    ns = [v['name'] for v in c['dom']]
    s = c['signature']
    if s == 'names':
        return 'def objective(%s):\n    return %s(dict(%s))\n' % (', '.join(ns), impl, ', '.join('%s=%s' % (n, n) for n in ns))
    if s == 'reversed':
        return 'def objective(%s):\n    return %s(dict(%s))\n' % (', '.join(ns[::-1]), impl, ', '.join('%s=%s' % (n, n) for n in ns))
    if s == 'default':
        return 'def objective(%s, verbose=False):\n    return %s(dict(%s))\n' % (', '.join(ns[::-1]), impl, ', '.join('%s=%s' % (n, n) for n in ns))
    if s == 'other':
        return 'def objective(%s):\n    return %s(dict(%s))\n' % (', '.join('p%d' % i for i in range(len(ns))), impl, ', '.join('%s=p%d' % (n, i) for i, n in enumerate(ns)))
    if s == 'kwargs':
        return 'def objective(**kw):\n    return %s(kw)\n' % impl
    return 'def objective(*args):\n    return %s(dict(zip(%r, args)))\n' % (impl, ns)


def function(c, u):
    env = {'impl': u.called}
    exec(source(c), env)
    return env['objective']


def reference(c, d):
    """The run which the configuration describes, put together by hand."""
    import GPyOpt
    from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.experiment_design import initial_design
    from GPyOpt.optimization import AcquisitionOptimizer
    space = GPyOpt.Design_space(gen.build_domain(c['dom']), c.get('cons'))
    X = initial_design(c['design'] or 'random', space, c['n0'] if c['n0'] is not None else 5)
    args = dict(c['model'])
    args.pop('type')
    m = GPyOpt.models.GPModel(**args)
    A = GPyOpt.acquisitions.AcquisitionMPI if c['acq'] == 'MPI' else GPyOpt.acquisitions.AcquisitionEI
    acq = A(m, space, AcquisitionOptimizer(space, 'lbfgs'), None, jitter=c['jitter'] if c['jitter'] is not None else 0.01)
    e = c['evaluator']
    ev = Sequential(acq) if e in (None, 'sequential') else (RandomBatch if e == 'random' else ThompsonBatch)(acq, c['batch'])
    f = gen.Objective(c['coef'])
    bo = GPyOpt.methods.ModularBayesianOptimization(m, space, SingleObjective(f), acq, ev, X)
    bo.run_optimization(max_iter=c['iters'], eps=c['tol'] if c['tol'] is not None else 1e-8)
    return bo


def load_through_file(cfg, d):
    from GPyOpt.interface import parser
    with open(os.path.join(d, 'config.json'), 'w') as f:
        json.dump(cfg, f)
    return parser(os.path.join(d, 'config.json'))


@sub(P, 'runs', run_case, 120, 1500, 'at least one step', shards=5)
def runs(c, info):
    from GPyOpt.interface import BODriver
    with scratch() as d:
        u = UserFunction(c, os.path.join(d, 'log'))
        cfg = load_through_file(config_of(c), d)
        before = copy.deepcopy(cfg)
        np.random.seed(c['seed'])
        ref = reference(c, d)
        np.random.seed(c['seed'])
        bo = BODriver(cfg, function(c, u)).run()
        calls = u.calls()
    info.label('signature ' + c['signature'], 'evaluator %s' % c['evaluator'], 'design %s' % c['design'], 'tolerance %s' % c['tol'])
    if c.get('cons'):
        info.label('constraints')
    if cfg != before:
        raise Violation('the configuration was changed by the run')
    dims = [gen.width_obj(v) for v in c['dom']]
    if any(r['shapes'] != [[1, k] for k in dims] for r in calls):
        raise Violation('variables of dimensions %r: the function was called with arguments of shapes %r' % (dims, calls[0]['shapes']))
    X, Y = np.asarray(bo.X, dtype=float), np.asarray(bo.Y, dtype=float)
    got = [tuple(r['x']) for r in calls]
    rows = [tuple(x) for x in X.tolist()]
    if (got if not c.get('cores') else sorted(got)) != (rows if not c.get('cores') else sorted(rows)):
        raise Violation('the function was called at %r, recorded are %r' % (got, rows))
    f = gen.Objective(c['coef'])
    for x, y in zip(X, Y):
        if y[0] != f.value(x):
            raise Violation('recorded %r at %r instead of %r' % (y[0], x.tolist(), f.value(x)))
    if c.get('cores') and any(r['pid'] == os.getpid() for r in calls):
        raise Violation('%d cores are configured, the function was called in the process of the optimizer' % c['cores'])
    lay = gen.Layout(c['dom'])
    for x in X:
        why = lay.legal_row(x, 1e-9)
        if why:
            raise Violation('%r is not in the configured domain: it %s' % (x.tolist(), why))
    if c.get('cons') and not np.all(gen.feasible(c['cons'], X)):
        raise Violation('configurations outside the constraints were evaluated: %r' % X[~gen.feasible(c['cons'], X)].tolist())
    RX = np.asarray(ref.X, dtype=float)
    if X.shape != RX.shape:
        raise Violation('the configured run has %d evaluations, %d expected' % (len(X), len(RX)))
    if not np.array_equal(X, RX) or not np.array_equal(Y, np.asarray(ref.Y)):
        raise Violation('the configured run evaluates %r, the same run put together by hand %r' % (X.tolist(), RX.tolist()))
    info.nontrivial(len(X) > (c['n0'] if c['n0'] is not None else 5))


@st.composite
def limit_case(draw):
    c = draw(run_case(parallel=False))
    c.pop('cons', None)
    c.update(n0=2, tol=-1, evaluator=draw(st.sampled_from([None, 'random'])), design=None,
             limit=draw(st.sampled_from(['NA', 0.5, 1, 2, 0])), dt=draw(st.lists(st.sampled_from([5., 20., 31., 60., 200.]), min_size=1, max_size=4)),
             iters=draw(st.sampled_from(['NA', 0, 1, 2, 4])))
    if c['limit'] == 'NA' and c['iters'] == 'NA':
        c['iters'] = 3
    return c


@sub(P, 'limits', limit_case, 60, 900, 'stopped by the time', shards=4)
def limits(c, info):
    """Iterations and minutes; the clock is moved by the objective only."""
    from GPyOpt.interface import BODriver
    with scratch() as d:
        u = UserFunction(c, os.path.join(d, 'log'))
        cfg = config_of(c)
        cfg['resources']['max-run-time'] = c['limit']
        cfg = load_through_file(cfg, d)
        b = 1 if c['evaluator'] is None else c['batch']
        with FakeClock(1000.) as clock:
            k = [0]

            def hook():
                if k[0] >= 2:
                    if k[0] - 2 > 12 * b + 5:
                        raise Violation('limits of %r iterations and %r minutes, %r seconds per evaluation: still running after %d evaluations' % (c['iters'], c['limit'], c['dt'], k[0] - 2))
                    clock.t += c['dt'][(k[0] - 2) % len(c['dt'])]
                k[0] += 1
            u.hook = hook
            # stops which the durations imply
            steps, t = 0, 0.
            while (c['iters'] == 'NA' or steps < c['iters']) and (c['limit'] == 'NA' or t < 60. * c['limit']) and steps < 12:
                for i in range(b):
                    t += c['dt'][(steps * b + i) % len(c['dt'])]
                steps += 1
            if steps == 12:
                return
            bo = BODriver(cfg, function(c, u)).run()
    if len(bo.X) != 2 + steps * b:
        raise Violation('limits of %r iterations and %r minutes, evaluations lasting %r seconds in turn: %d evaluations instead of %d' % (c['iters'], c['limit'], c['dt'], len(bo.X) - 2, steps * b))
    info.label('limit %s' % c['limit'], 'iterations %s' % c['iters'])
    info.nontrivial(steps and (c['iters'] == 'NA' or steps < c['iters']))


MODULE = '''import json as js
import numpy as np
from math import sin


def impl(args):
    names = %(names)r
    x = np.concatenate([np.ravel(args[n]) for n in names])
    with open(%(log)r, 'a') as f:
        f.write(js.dumps([float(v) for v in x]) + '\\n')
    return float(sum((i + 1) * sin(float(v)) for i, v in enumerate(x)))


%(source)s
%(name)s = objective
'''


@st.composite
def file_case(draw):
    c = draw(run_case(parallel=False))
    c.update(name=draw(st.sampled_from(['myproblem', 'branin', 'f', 'json', 'test'])), language=draw(st.sampled_from(['PYTHON', 'python', 'Python'])), iters=draw(st.integers(0, 1)))
    c['n0'] = 3
    return c


def project(c, d):
    cfg = config_of(c)
    cfg.update({'language': c['language'], 'main-file': c['name'] + '.py', 'experiment-name': 'exp'})
    with open(os.path.join(d, c['name'] + '.py'), 'w') as f:
        f.write(MODULE % {'names': [v['name'] for v in c['dom']], 'log': os.path.join(d, 'log'), 'source': source(c), 'name': c['name']})
    return cfg


def value(x):
    return float(sum((i + 1) * np.sin(float(v)) for i, v in enumerate(x)))


@sub(P, 'function', file_case, 40, 1000, 'always', shards=1)
def functions(c, info):
    """The objective found in the project of the configuration."""
    from GPyOpt.interface import load_objective
    cwd = os.getcwd()
    with scratch() as d:
        cfg = dict(project(c, d), prjpath=d)
        try:
            f = load_objective(cfg)
        finally:
            os.chdir(cwd)
        lay = gen.Layout(c['dom'])
        x = [np.array([[float(i + 1)] * gen.width_obj(v)]) for i, v in enumerate(c['dom'])]
        if c['signature'] == 'kwargs':
            y = f(**dict(zip([v['name'] for v in c['dom']], x)))
        elif c['signature'] in ('reversed', 'default'):
            y = f(*x[::-1])
        else:
            y = f(*x)
        exp = value(np.concatenate([v.ravel() for v in x]))
        if abs(float(np.ravel(y)[0]) - exp) > 1e-9:
            raise Violation('the function of the project returned %r instead of %r' % (y, exp))
    info.nontrivial()


@sub(P, 'command', file_case, 4, 60, 'always', shards=4)
def command(c, info):
    """The command line: configuration in, result files out."""
    with scratch() as d:
        cfg = project(c, d)
        with open(os.path.join(d, 'config.json'), 'w') as f:
            json.dump(cfg, f)
        env = dict(os.environ, PYTHONPATH=boot.REPO, MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(boot.REPO, 'gpyopt.py'), os.path.join(d, 'config.json')], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
        if p.returncode:
            raise Violation('the command failed: %s' % p.stdout.decode(errors='replace')[-400:])
        with open(os.path.join(d, 'log')) as f:
            calls = [json.loads(l) for l in f]
        with open(os.path.join(d, 'exp_evaluations.txt')) as f:
            rows = [[float(v) for v in l.split('\t')] for l in f.read().split('\n')[1:] if l.strip()]
        if not os.path.exists(os.path.join(d, 'exp_model.txt')):
            raise Violation('no parameters of the surrogate were saved')
    if [r[2:] for r in rows] != calls:
        raise Violation('evaluated were %r, saved are %r' % (calls, rows))
    for r in rows:
        if abs(r[1] - value(r[2:])) > 1e-9 * (1 + abs(r[1])):
            raise Violation('saved %r at %r instead of %r' % (r[1], r[2:], value(r[2:])))
    b = 1 if c['evaluator'] in (None, 'sequential') else c['batch']
    # a tolerance may end the run before its steps
    if len(rows) not in (3, 3 + b * c['iters']) or (c['tol'] == -1 and len(rows) != 3 + b * c['iters']):
        raise Violation('%d evaluations, 3 initial ones and %d steps of %d configured' % (len(rows), c['iters'], b))
    info.nontrivial()
