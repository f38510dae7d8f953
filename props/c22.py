"""C22 saved files."""
import csv
import os
import re

import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c20 import scratch

P = 'C22'


def read(path):
    with open(path) as f:
        return list(csv.reader(f, delimiter='\t'))


def matrix(rows, what):
    try:
        return np.array([[float(v) for v in r] for r in rows]).reshape(len(rows), -1)
    except ValueError:
        raise Violation('%s: rows of different lengths or entries which are no numbers: %r' % (what, rows[:3]))


def check_table(path, body, names, what):
    t = [r for r in read(path) if r]
    head, rows = t[0], t[1:]
    if len(rows) != len(body):
        raise Violation('%s: %d rows instead of %d' % (what, len(rows), len(body)))
    M = matrix(rows, what)
    if M.shape[1] != body.shape[1] + 1:
        raise Violation('%s: %d columns, %d and a number expected' % (what, M.shape[1], body.shape[1]))
    if not np.array_equal(M[:, 0], np.arange(1, len(body) + 1)):
        raise Violation('%s: rows numbered %r' % (what, M[:, 0].tolist()))
    if not np.array_equal(M[:, 1:], body):
        i = int(np.flatnonzero((M[:, 1:] != body).any(1))[0])
        raise Violation('%s: row %d is %r, saved is %r' % (what, i + 1, body[i].tolist(), rows[i][1:]))
    if len(head) != M.shape[1] or len(set(head)) != len(head) or not all(h.strip() for h in head):
        raise Violation('%s: labels %r for %d columns' % (what, head, M.shape[1]))
    if names is not None and head[1:] != names:
        raise Violation('%s: labels %r, expected %r' % (what, head[1:], names))


def report_lines(path):
    out, key, order = {}, None, []
    for line in open(path).read().split('\n'):
        if line.startswith('-----'):
            key = None
            continue
        m = re.match(r'^([A-Za-z][A-Za-z \(\)]*?)(:| {2,})\s*(.*)$', line)
        if m and not (key == 'Best found minimum location' and line[:1] in ' -0123456789'):
            key = m.group(1).strip()
            out[key] = m.group(3).strip()
        elif key and line.strip():
            out[key] += ' ' + line.strip()
    return out


def numbers(text):
    return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', text)]


def near(a, b):
    return abs(a - b) <= 1e-6 * abs(b) + 1.1e-8


def check_report(bo, c, path, lay, n0, modular, name):
    r = report_lines(path)

    def want(key, ok, value):
        if key not in r:
            raise Violation('the report has no line "%s"' % key)
        if not ok(r[key]):
            raise Violation('the report says "%s: %s", actually %r' % (key, r[key], value))

    def exactly(key, value):
        want(key, lambda t: t == str(value), value)

    def first(key, value):
        want(key, lambda t: numbers(t)[:1] == [float(value)], value)
    first('Optimization completed', len(bo.X))
    first('Number initial samples', n0)
    first('Problem dimension', sum(gen.width_obj(v) for v in c['dom']))
    first('Number continuous variables', sum(v.get('dimensionality', 1) for v in c['dom'] if v.get('type', 'continuous') == 'continuous'))
    first('Number discrete variables', sum(v.get('dimensionality', 1) for v in c['dom'] if v.get('type') == 'discrete'))
    first('Number bandits', sum(len(v['domain']) for v in c['dom'] if v.get('type') == 'bandit'))
    exactly('Constraints', bool(c.get('cons')))
    exactly('Normalized outputs', c['normalize'])
    first('Model update interval', c['interval'])
    want('Tolerance', lambda t: numbers(t)[:1] == [c['eps']], c['eps'])
    exactly('Problem name', name)
    want('Cores used', lambda t: numbers(t)[:1] == [c.get('cores', 1)], c.get('cores', 1))
    want('Evaluator type (batch size)', lambda t: numbers(t)[-1:] == [c['shown_batch']], c['shown_batch'])
    exactly('Acquisition optimizer', c.get('opt', 'lbfgs'))
    if not modular:
        want('Evaluator type (batch size)', lambda t: t.split('(')[0].strip() == c['evaluator'], c['evaluator'])
        exactly('Acquisition type', c['acq'])
        if c['model'] not in ('tiny', 'stub'):
            exactly('Model type', c['model'])
            exactly('Noiseless evaluations', bool(c.get('exact')))
        else:
            want('Model type', lambda t: t not in ('GP', 'GP_MCMC', 'sparseGP', 'warpedGP', 'InputWarpedGP', 'RF'), 'a model of the user')
    else:
        want('Acquisition type', lambda t: c['acq'] in t, c['acq'])
    want('Value at minimum', lambda t: len(numbers(t)) == 1 and near(numbers(t)[0], bo.Y.min()), float(bo.Y.min()))
    best = np.asarray(bo.X)[np.ravel(bo.Y) == bo.Y.min()]
    want('Best found minimum location', lambda t: any(len(numbers(t)) == len(x) and all(near(a, b) for a, b in zip(numbers(t), x)) for x in best), best.tolist())
    exactly('Cost used', 'Constant cost' if not c.get('cost') else {'evaluation_time': 'evaluation_time', 'user': 'User defined cost'}[c['cost']])


@st.composite
def case(draw, **kw):
    if 'tiny' in kw.get('models', ()) and draw(st.integers(0, 11)) == 0:
        kw = dict(kw, max_cols=13, max_dim=12)           # many columns
    c = draw(loops.setup(dedup=None, **kw))
    c['scale'] = draw(st.sampled_from([1., 1., 1., 1e-12, 1e9, -1e5, 1e-250, 1e150]))
    if c['model'] != 'tiny':
        c['scale'] = draw(st.sampled_from([1., 1e-3, 100.]))
    if abs(c['scale']) > 1e100 or abs(c['scale']) < 1e-100:
        c['normalize'] = False
        c['model'] = 'stub'
    c['modular'] = draw(st.integers(0, 2)) == 0 and c['model'] == 'tiny'
    c['ops'] = draw(st.lists(st.sampled_from([0, 1, 1, 2, 3, -1]), min_size=1, max_size=3))
    if c['model'] == 'tiny' and draw(st.integers(0, 14)) == 0:
        c['ops'] = c['ops'][:1] + [12]          # now and then a long run
    if draw(st.integers(0, 2)) == 0:
        c['interrupted'] = draw(st.integers(1, 4))      # a last call that fails after so many evaluations
    c['direct'] = draw(st.booleans())
    c['eps'] = draw(st.sampled_from([-1, -1., -0.5]))
    if draw(st.integers(0, 4)) == 0:
        c['cores'] = 2
    if draw(st.integers(0, 2)) == 0:
        c['name'] = draw(st.sampled_from(['branin', 'my problem', 'f1', 'no_name']))
    if c['model'] == 'tiny' and not c['modular'] and draw(st.integers(0, 5)) == 0:
        c['cost'] = 'user'
    if gen.Layout(c['dom']).n_distinct() <= 60:
        c.pop('dedup', None)
    return c


def build(c, f, lay):
    from GPyOpt.core.task.objective import SingleObjective
    m = loops.TinyGP(lay.model_bounds()) if c['model'] == 'tiny' else loops.Stub(lay.model_bounds()) if c['model'] == 'stub' else None
    kw = {}
    if c['modular']:
        if c.get('cores') or c.get('name'):
            kw['objective'] = SingleObjective(f, num_cores=c.get('cores', 1), objective_name=c.get('name', 'no_name'))
        return m, loops.make_modular(c, f, model=m, **kw)
    if c.get('cores'):
        kw['num_cores'] = c['cores']
    if c.get('name'):
        kw['objective_name'] = c['name']
    if c.get('cost'):
        kw['cost_withGradients'] = lambda x: (np.ones((len(x), 1)) + 0.1, np.zeros(np.shape(x)))
    return m, loops.make(c, f, model=m, **kw)


def drive(c, info):
    lay = gen.Layout(c['dom'])
    if c['model'] == 'GP_MCMC':
        c = dict(c, acq=c['acq'] + '_MCMC')
    f = loops.Obj(c, scale=c['scale'])
    info.label(*loops.labels(c))
    info.label('modular' if c['modular'] else 'main', 'scale %g' % c['scale'])
    c = dict(c, shown_batch=c['batch'])
    if c['modular']:
        c['shown_batch'] = loops.batch_of(c)
    np.random.seed(c['seed'])
    m, bo = build(c, f, lay)
    n0 = len(bo.X)
    saved = {}
    with scratch() as d:
        try:
            bo.save_models(os.path.join(d, 'none'))
        except ValueError:
            pass
        else:
            raise Violation('model parameters saved before there were any')
        for k, n in enumerate(c['ops']):
            if n < 0 and bo.Y is None:
                continue
            p = dict((w, os.path.join(d, w)) for w in ('report', 'evaluations', 'models'))
            before = len(m.updates) if m is not None else 0
            if n < 0:
                bo.suggest_next_locations()
                bo.save_models(p['models'])
                bo.save_evaluations(p['evaluations'])
            elif c['direct']:
                bo.run_optimization(max_iter=n, eps=c['eps'])
                bo.save_report(p['report']); bo.save_evaluations(p['evaluations']); bo.save_models(p['models'])
            else:
                bo.run_optimization(max_iter=n, eps=c['eps'], report_file=p['report'], evaluations_file=p['evaluations'], models_file=p['models'])
            # --- evaluations
            D = lay.n_obj if hasattr(lay, 'n_obj') else np.shape(bo.X)[1]
            exp = np.hstack([np.asarray(bo.Y, dtype=float), np.asarray(bo.X, dtype=float)])
            check_table(p['evaluations'], exp, ['Y'] + ['var_%d' % (i + 1) for i in range(D)], 'evaluations')
            for x, y in zip(bo.X, bo.Y):
                if y[0] != f.value(x):
                    raise Violation('recorded %r at %r' % (y[0], x.tolist()))
            # --- parameters of the surrogate
            t = [r for r in read(p['models']) if r]
            M = matrix(t[1:], 'parameters')
            steps = max(n, 0)
            if m is not None:
                ups = M[:, 1].tolist()
                now = len(m.updates)
                if c['interval'] == 1:
                    check_table(p['models'], np.array([[float(i), m.ls] for i in range(before + 1, now + 1)]), ['updates', 'lengthscale'], 'parameters')
                else:
                    check_table(p['models'], M[:, 1:], ['updates', 'lengthscale'], 'parameters')
                    if ups != sorted(ups) or sorted(set(ups)) != list(range(before + 1, now + 1)):
                        raise Violation('parameters saved belong to the updates %r, the last run made the updates %d to %d' % (ups, before + 1, now))
            else:
                check_table(p['models'], M[:, 1:], list(bo.model.get_model_parameters_names()), 'parameters')
                if c['interval'] == 1 and len(M) not in (steps, steps + 1):
                    raise Violation('%d rows of parameters for %d steps' % (len(M), steps))
                if c['model'] == 'GP' and not np.array_equal(M[-1, 1:], np.ravel(bo.model.model[:])):
                    raise Violation('the last parameters are %r, saved are %r' % (np.ravel(bo.model.model[:]).tolist(), t[-1][1:]))
            if n >= 0:
                check_report(bo, c, p['report'], lay, n0, c['modular'], c.get('name', 'no_name'))
                done = report_lines(p['report'])['Optimization completed']
                if not done.startswith('YES'):
                    raise Violation('all %d steps were made, the report says %r' % (n, done))
        if c.get('interrupted') and c.get('cores', 1) == 1 and bo.Y is not None:
            p = dict((w, os.path.join(d, w)) for w in ('report', 'evaluations', 'models'))
            f.fail_at = {len(f.calls) + c['interrupted']}
            try:
                bo.run_optimization(max_iter=c['interrupted'] + 2, eps=c['eps'])
            except gen.UserFailure:
                info.label('interrupted')
                bo.save_report(p['report']); bo.save_evaluations(p['evaluations'])
                check_table(p['evaluations'], np.hstack([np.asarray(bo.Y, dtype=float), np.asarray(bo.X, dtype=float)]), ['Y'] + ['var_%d' % (i + 1) for i in range(np.shape(bo.X)[1])], 'evaluations')
                check_report(bo, c, p['report'], lay, n0, c['modular'], c.get('name', 'no_name'))
                if not report_lines(p['report'])['Optimization completed'].startswith('NO'):
                    raise Violation('the run was interrupted, the report says %r' % report_lines(p['report'])['Optimization completed'])
    info.nontrivial(len(bo.X) > n0 or len(c['ops']) > 1)


@sub(P, 'fast', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), optimizers=('lbfgs', 'lbfgs', 'CMA')), 110, 4000, 'new evaluations or several calls', shards=5)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP', 'GP', 'sparseGP', 'GP_MCMC'), evaluators=('sequential', 'random', 'local_penalization'), max_cols=2, max_batch=3, acqs=('EI', 'LCB')), 24, 900, 'new evaluations or several calls', shards=4)
def gp(c, info):
    drive(c, info)


@st.composite
def con_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random'), cons=True, need_continuous=True))
    c.update(scale=1., modular=draw(st.booleans()), ops=draw(st.lists(st.sampled_from([1, 2]), min_size=1, max_size=1)), direct=draw(st.booleans()), eps=-1)
    return c


@sub(P, 'constrained', con_case, 12, 300, 'always', shards=1)
def constrained(c, info):
    drive(c, info)
    info.nontrivial()
