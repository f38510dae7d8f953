"""C31 the data of the caller is never altered."""
import copy

import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation, Inconclusive

import GPyOpt

P = 'C31'


def same(a, b):
    """Equal in type, shape and every element."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Guard(object):
    """Remembers what was passed and compares."""

    def __init__(self):
        self.kept = []

    def __call__(self, name, value):
        self.kept.append((name, value, copy.deepcopy(value)))
        return value

    def check(self, where):
        for name, value, was in self.kept:
            if not same(value, was):
                raise Violation('%s: %s was %r, now %r' % (where, name, was, value))


FORMS = ['plain', 'fortran', 'view', 'plain']


def shaped(A, form):
    """The same numbers in another memory layout."""
    A = np.array(A, dtype=float)
    if form == 'fortran':
        return np.asfortranarray(A)
    if form == 'view':
        B = np.full((2 * A.shape[0], A.shape[1] + 1), 7.)
        B[::2, 1:] = A
        return B[::2, 1:]
    return A


# ------------------------------------------------------------------------------------------------------------------ runs
@st.composite
def run_case(draw):
    c = draw(loops.setup(models=('tiny', 'tiny', 'GP'), max_batch=3, max_cols=5, cons=draw(st.sampled_from([False, False, True])), max_init=5, min_init=2, bandit=None, min_values=2))
    lay = gen.Layout(c['dom'])
    c['dedup'] = bool(draw(st.booleans()) and lay.n_distinct() > 60)
    c['form'] = draw(st.sampled_from(FORMS))
    c['ops'] = draw(st.lists(st.sampled_from(['run', 'run', 'suggest', 'suggest-context', 'run-context', 'suggest-pending']), min_size=1, max_size=3))
    c['scribble'] = draw(st.booleans())
    c['context'] = draw(st.integers(0, 40))
    c['maximize'] = draw(st.booleans())
    c['pending'] = draw(gen.points(lay, 1, 3))
    c['cost'] = draw(st.booleans())
    if c.get('cons') or lay.bandit:
        c['ops'] = ['run' if o == 'run-context' else 'suggest' if o == 'suggest-context' else o for o in c['ops']]
    rest = 1.   # configurations that agree with the context
    for i, b in enumerate(lay.blocks):
        if i != c['context'] % lay.n_obj:
            rest *= np.inf if b[1] == 'continuous' else len(b[4])
    if rest <= 60 and any(o.endswith('context') for o in c['ops']):
        c['dedup'] = False
    return c


def context_for(c, lay):
    """A value for one of the variables, from the first point of the domain."""
    j = c['context'] % lay.n_obj
    b = lay.blocks[j] if not lay.bandit else None
    x = c['pending'][0]
    return {b[0]: x[b[2][0]]}


def cost(x):
    x = np.atleast_2d(x)
    return 1.5 + np.sin(x.sum(1))[:, None], np.cos(x.sum(1))[:, None] * np.ones(x.shape)


@sub(P, 'runs', run_case, 120, 4000, 'at least one step, with data or a domain of several variables', shards=5)
def runs(c, info):
    lay = gen.Layout(c['dom'])
    guard = Guard()
    f = loops.Obj(c)
    truth, kept = [], []

    def objective(x):
        y = f(x)
        truth.append((np.array(x, copy=True), np.array(y, copy=True)))
        kept.append(y)          # the array handed over is the caller's
        if c['scribble']:
            x[:] = -77.
        return y
    kw = loops.options(c, f)
    kw['domain'] = guard('the domain', kw['domain'])
    if kw['constraints'] is not None:
        kw['constraints'] = guard('the constraints', copy.deepcopy(kw['constraints']))
    sign = -1. if c['maximize'] else 1.
    for k in ('X', 'Y'):
        if kw[k] is not None:
            kw[k] = guard('the initial %s' % k, shaped(kw[k] * (sign if k == 'Y' else 1.), c['form']))
    if c['cost'] and c['acq'] != 'LCB' and c['evaluator'] != 'local_penalization':
        kw['cost_withGradients'] = cost
    opts = guard('the options', dict((k, v) for k, v in kw.items() if isinstance(v, (int, float, str, bool, type(None)))))
    rest = dict((k, v) for k, v in kw.items() if k not in opts)
    np.random.seed(c['seed'])
    steps = 0
    try:
        bo = GPyOpt.methods.BayesianOptimization(f=objective, maximize=c['maximize'], **dict(rest, **opts))
        guard.check('building the optimizer')
        for op in c['ops']:
            before = bo.get_evaluations() if bo.Y is not None else None
            ctx = guard('the context', context_for(c, lay)) if op.endswith('context') else None
            if op.startswith('run'):
                bo.run_optimization(max_iter=1, eps=-1, context=ctx)
                steps += 1
            else:
                pk = {}
                if op == 'suggest-pending' and c['dedup']:
                    pk = {'pending_X': guard('the pending points', shaped(c['pending'][:2], c['form'])), 'ignored_X': guard('the ignored points', shaped(c['pending'][1:] or c['pending'][:1], c['form']))}
                s = bo.suggest_next_locations(context=ctx, **pk)
                guard.check('asking for a suggestion')
                after = bo.get_evaluations()
                if not all(same(np.asarray(a, dtype=float), np.asarray(b, dtype=float)) for a, b in zip(before, after)):
                    raise Violation('asking for a suggestion changed the recorded data')
                s = np.asarray(s)
                if s.flags.writeable:
                    s[...] = -55
                if not all(same(np.asarray(a, dtype=float), np.asarray(b, dtype=float)) for a, b in zip(after, bo.get_evaluations())):
                    raise Violation('changing the suggestion changes the recorded data')
            guard.check(op)
            # what the caller gets is his own
            now = bo.get_evaluations()
            keep = [np.array(a, copy=True) for a in now]
            for a in now:
                a[...] = 1234
            for name in ('x_opt',):
                v = getattr(bo, name, None)
                if isinstance(v, np.ndarray):
                    v[...] = 1234
            if not all(same(a, b) for a, b in zip(keep, bo.get_evaluations())):
                raise Violation('changing the arrays handed out (evaluations, incumbent) changes the recorded data')
            if before is not None:
                n = len(before[0])
                if not np.array_equal(keep[0][:n], before[0]) or not np.array_equal(keep[1][:n], before[1]):
                    raise Violation('%s: the data recorded earlier changed' % op)
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    X, Y = bo.get_evaluations()
    start = c['n0'] if c['init'] == 'XY' else 0
    if len(X) != start + len(truth):
        raise Violation('%d evaluations, %d recorded' % (len(truth), len(X) - start))
    for i, (x, y) in enumerate(truth):
        if not np.array_equal(kept[i], y):
            raise Violation('the array with the value %r that the objective returned now holds %r' % (y.tolist(), kept[i].tolist()))
        if not np.array_equal(np.asarray(X[start + i], dtype=float), np.ravel(x)) or abs(float(Y[start + i, 0]) - sign * float(np.ravel(y)[0])) > 1e-12:
            raise Violation('evaluated %r with the value %r, recorded %r with %r' % (np.ravel(x).tolist(), np.ravel(y).tolist(), X[start + i].tolist(), Y[start + i].tolist()))
    if start and not np.array_equal(np.asarray(X[:start], dtype=float), np.array(c['X0'], dtype=float)):
        raise Violation('given %r, recorded %r' % (c['X0'], X[:start].tolist()))
    info.label(c['form'], 'scribbling objective' if c['scribble'] else 'plain objective', *c['ops'])
    info.nontrivial(steps and (c['init'] != 'design' or len(lay.blocks) > 1))


# ---------------------------------------------------------------------------------------------------------------- domain
@st.composite
def space_case(draw):
    dom = draw(gen.domain(max_vars=4, max_dim=3, max_cols=6, bandit=None))
    lay = gen.Layout(dom)
    P0 = draw(gen.points(lay, 1, 4, many=True))
    return {'dom': dom, 'X': P0, 'cons': draw(st.one_of(st.none(), gen.constraints(lay, P0[0]))), 'U': draw(st.lists(st.lists(gen.fl(-0.3, 1.3, 3), min_size=lay.n_model, max_size=lay.n_model), min_size=1, max_size=3)),
            'form': draw(st.sampled_from(FORMS)), 'n': draw(st.integers(1, 6)), 'seed': draw(gen.seeds), 'ctx': draw(st.integers(0, 40)),
            'calls': draw(st.lists(st.sampled_from(['encode', 'decode', 'round', 'unzip', 'zip', 'indicator', 'accessors', 'design', 'duplicates', 'optimize', 'context', 'again']), min_size=2, max_size=7))}


@sub(P, 'spaces', space_case, 400, 12000, 'several calls on a domain with categorical, discrete or repeated variables', shards=3)
def spaces(c, info):
    from GPyOpt.experiment_design import initial_design
    from GPyOpt.util.duplicate_manager import DuplicateManager
    from GPyOpt.optimization import AcquisitionOptimizer
    from GPyOpt.optimization.acquisition_optimizer import ContextManager
    lay = gen.Layout(c['dom'])
    guard = Guard()
    dom = guard('the domain', gen.build_domain(c['dom']))
    cons = guard('the constraints', copy.deepcopy(c['cons']))
    np.random.seed(c['seed'])
    space = GPyOpt.Design_space(dom, cons)
    guard.check('building the space')
    b = np.array(lay.model_bounds(), dtype=float)
    X = guard('configurations', shaped(c['X'], c['form']))
    Z = guard('encoded configurations', shaped([lay.encode(x) for x in c['X']], c['form']))
    Q = guard('points in model coordinates', shaped(b[:, 0] + (b[:, 1] - b[:, 0]) * np.array(c['U']), c['form']))
    x1, q1 = guard('a configuration', np.array(c['X'][0], dtype=float)), guard('a point', np.array(Q[0]))
    for call in c['calls']:
        if call in ('encode', 'decode') and lay.bandit:
            continue
        if call == 'encode':
            space.objective_to_model(X[:1])
            space.objective_to_model(x1[None, :])
        elif call == 'decode':
            space.model_to_objective(Z[:1])
            space.model_to_objective(q1[None, :])
        elif call == 'round':
            space.round_optimum(q1[None, :])
            if not lay.bandit:
                space.round_optimum(q1)
        elif call == 'unzip':
            space.unzip_inputs(X)
        elif call == 'zip':
            space.zip_inputs(Z)
        elif call == 'indicator':
            space.indicator_constraints(X)
        elif call == 'accessors':
            for g in (space.get_bounds, space.get_continuous_bounds, space.get_continuous_dims, space.get_continuous_space, space.get_discrete_dims, space.get_discrete_space, space.get_discrete_grid, space.get_bandit,
                      space.has_constraints, space.has_continuous, space.input_dim):
                if g == space.get_discrete_grid and (lay.bandit or not any(k[1] == 'discrete' for k in lay.blocks)):
                    continue
                g()
            for name in lay.names:
                space.find_variable(name)
        elif call == 'design':
            for name in (('random',) if c['cons'] is not None else ('random', 'latin', 'sobol')):
                if lay.bandit and name != 'random':
                    continue
                initial_design(name, space, c['n'])
        elif call == 'duplicates':
            d = DuplicateManager(space, X, X[:1], X[1:] if len(X) > 1 else None)
            d.is_zipped_x_duplicate(X[:1])
            d.is_unzipped_x_duplicate(Z[:1])
        elif call == 'optimize':
            def fun(x):
                x = np.atleast_2d(x)
                r = ((x - b[:, 0]) ** 2).sum(1)[:, None]
                return r

            def fun_g(x):
                x = np.atleast_2d(x)
                return fun(x), 2 * (x - b[:, 0])
            AcquisitionOptimizer(space, 'lbfgs').optimize(f=fun, f_df=fun_g)
        elif call == 'context' and not lay.bandit:
            k = lay.blocks[c['ctx'] % len(lay.blocks)]
            ContextManager(space, guard('the context', {k[0]: c['X'][0][k[2][0]]}))
        elif call == 'again':
            GPyOpt.Design_space(dom, cons)
        guard.check(call)
    info.label(*c['calls'])
    info.nontrivial(len(c['calls']) > 2 and (len(lay.blocks) > 1 or lay.blocks[0][1] != 'continuous'))


# ------------------------------------------------------------------------------------------------ surrogates and the rest
@st.composite
def model_case(draw):
    d = draw(st.integers(1, 3))
    row = st.lists(gen.fl(0, 1, 3), min_size=d, max_size=d)
    X = draw(st.lists(row, min_size=3, max_size=6, unique_by=tuple))
    more = draw(st.lists(row, min_size=0, max_size=2))
    return {'d': d, 'X': X, 'more': more, 'Y': draw(st.lists(gen.fl(-3, 3, 2), min_size=len(X) + len(more), max_size=len(X) + len(more))), 'Q': draw(st.lists(row, min_size=1, max_size=4)),
            'kind': draw(st.sampled_from(['GP', 'GP', 'sparse', 'GP_MCMC', 'InputWarped', 'warped'])), 'exact': draw(st.booleans()), 'form': draw(st.sampled_from(FORMS)),
            'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB', 'LP', 'ES'])), 'acqcost': draw(st.booleans()), 'seed': draw(gen.seeds)}


@sub(P, 'surrogates', model_case, 200, 5000, 'more than one update, or a memory layout other than the usual one', shards=4)
def surrogates(c, info):
    from GPyOpt import models, acquisitions
    from GPyOpt.core.task.cost import CostModel
    from GPyOpt.optimization import AcquisitionOptimizer
    d = c['d'] if c['kind'] != 'warped' else 1
    guard = Guard()
    dom = [{'name': 'x%d' % i, 'type': 'continuous', 'domain': (0, 1)} for i in range(d)]
    space = GPyOpt.Design_space(dom)
    np.random.seed(c['seed'])
    fast = dict(max_iters=3, optimize_restarts=1, verbose=False, exact_feval=c['exact'])
    m = {'GP': lambda: models.GPModel(**fast), 'sparse': lambda: models.GPModel(sparse=True, num_inducing=2, **fast), 'warped': lambda: models.WarpedGPModel(**fast), 'InputWarped': lambda: models.InputWarpedGPModel(space, **fast),
         'GP_MCMC': lambda: models.GPModel_MCMC(n_samples=2, n_burnin=1, subsample_interval=1, leapfrog_steps=2, verbose=False)}[c['kind']]()
    X = guard('the inputs', shaped([x[:d] for x in c['X']], c['form']))
    Y = guard('the outputs', shaped([[y] for y in c['Y'][:len(X)]], c['form']))
    Q = guard('the query points', shaped([q[:d] for q in c['Q']], c['form']))
    try:
        with np.errstate(all='ignore'):
            m.updateModel(X, Y, None, None)
            guard.check('updateModel')
            queries(c, m, Q, guard)
            if c['more']:
                X2 = guard('all inputs', np.vstack([X, [x[:d] for x in c['more']]]))
                Y2 = guard('all outputs', np.vstack([Y, [[y] for y in c['Y'][len(X):]]]))
                m.updateModel(X2, Y2, X2[len(X):], Y2[len(X):])
                guard.check('updateModel')
                queries(c, m, Q, guard)
            if c['kind'] in ('GP', 'GP_MCMC') and not (c['acq'] == 'ES' and c['kind'] != 'GP') and not (c['kind'] == 'GP_MCMC' and c['acq'] == 'LP'):
                acq(c, m, space, Q, guard)
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    cm = CostModel(cost if c['acqcost'] else 'evaluation_time')
    T = guard('the durations', list(np.abs(np.ravel(Y)) + 0.1))
    cm.update_cost_model(X, T)
    guard.check('update_cost_model')
    cm.cost_withGradients(Q)
    cm.update_cost_model(Q, guard('more durations', [0.5] * len(Q)))
    guard.check('cost_withGradients')
    small(c, guard)
    info.label(c['kind'], c['form'], c['acq'])
    info.nontrivial(bool(c['more']) or c['form'] != 'plain')


def queries(c, m, Q, guard):
    m.predict(Q)
    guard.check('predict')
    if c['kind'] != 'warped':
        m.predict_withGradients(Q)
        guard.check('predict_withGradients')
    m.get_fmin()
    if c['kind'] in ('GP', 'sparse', 'InputWarped'):
        m.predict_covariance(Q)
        guard.check('predict_covariance')
    if c['kind'] == 'GP':
        m.get_covariance_between_points(Q, Q)
        m.copy()
    guard.check('surrogate')


def acq(c, m, space, Q, guard):
    from GPyOpt import acquisitions as A
    from GPyOpt.optimization import AcquisitionOptimizer
    opt = AcquisitionOptimizer(space, 'lbfgs')
    cw = cost if c['acqcost'] else None
    mc = '_MCMC' if c['kind'] == 'GP_MCMC' else ''
    if c['acq'] == 'ES':
        from GPyOpt.util.mcmc_sampler import AffineInvariantEnsembleSampler
        a = A.AcquisitionEntropySearch(m, space, AffineInvariantEnsembleSampler(space), num_samples=3, num_representer_points=2 * space.input_dim() + 4, burn_in_steps=4)
        try:
            a.acquisition_function(Q)
        except ValueError:
            raise Inconclusive('no representer point with a positive density')
    elif c['acq'] == 'LP':
        a = A.AcquisitionLP(m, space, opt, A.AcquisitionEI(m, space, opt), 'none')
        B = guard('the batch', np.array(Q[:1]) + 0.1)
        a.acquisition_function(Q)
        a.update_batches(B, 2., -1.)
        a.acquisition_function(Q)
        a.acquisition_function_withGradients(Q)
    else:
        cls = getattr(A, 'Acquisition' + c['acq'] + mc)
        a = cls(m, space, opt, None if c['acq'] == 'LCB' else cw)
        a.acquisition_function(Q)
        guard.check('acquisition_function')
        a.acquisition_function_withGradients(Q)
    guard.check('acquisition %s' % c['acq'])


def small(c, guard):
    """Helpers that take arrays."""
    from GPyOpt.util import general
    from GPyOpt.util.epmgp import joint_min
    from GPyOpt.optimization.optimizer import OptLbfgs, apply_optimizer
    Y = guard('the values', np.array(c['Y'], dtype=float)[:, None])
    y = guard('a vector of values', np.array(c['Y'], dtype=float))
    for kind in ('stats', 'maxmin'):
        general.normalize(Y, kind)
        general.normalize(y, kind)
        guard.check('normalize')
    yi = guard('whole-numbered values', np.array(np.round(c['Y']), dtype=int))
    general.normalize(yi)
    general.best_value(Y)
    A, B = guard('rows', np.array(c['X'])), guard('other rows', np.array(c['Q']))
    general.merge_values(A, B)
    general.values_to_array(A)
    general.reshape(A, c['d'])
    n = min(len(c['X']), 5)
    mu = guard('means', np.array(c['Y'][:n], dtype=float))
    K = np.exp(-0.5 * ((A[:n, None, :] - A[None, :n, :]) ** 2).sum(-1) * 9) + 0.1 * np.eye(n)
    S = guard('a covariance', K)
    with np.errstate(all='ignore'):
        joint_min(mu, S, with_derivatives=True)
    guard.check('joint_min')
    bounds = guard('bounds', [(0., 1.)] * c['d'])
    x0 = guard('a starting point', np.array(c['X'][0], dtype=float))
    f = lambda x: float(((np.atleast_2d(x) - 0.3) ** 2).sum())
    fdf = lambda x: (f(x), 2 * (np.atleast_2d(x) - 0.3))
    opt = OptLbfgs(bounds)
    opt.optimize(x0, f=f)
    opt.optimize(x0, f=f, f_df=fdf)
    guard.check('optimize')
    apply_optimizer(opt, x0[None, :], f=lambda x: np.array([[f(x)]]), f_df=lambda x: (np.array([[f(x)]]), 2 * (np.atleast_2d(x) - 0.3)), space=GPyOpt.Design_space([{'name': 'x', 'type': 'continuous', 'domain': (0, 1), 'dimensionality': c['d']}]))
    general.samples_multidimensional_uniform(bounds, 3)
    guard.check('apply_optimizer')
