"""C01 suggested and evaluated configurations are valid."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from GPyOpt.core.errors import FullyExploredOptimizationDomainError

P = 'C01'


def check_rows(lay, X, what, tol=0.):
    X = np.asarray(X)
    if X.ndim != 2:
        raise Violation('%s: an array with %d dimensions' % (what, X.ndim))
    for i, x in enumerate(X):
        bad = lay.legal_row(x, tol)
        if bad:
            raise Violation('%s: row %d = %r %s' % (what, i, x.tolist(), bad))


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(**kw))
    c['steps'] = draw(st.integers(1, 3))
    c['suggest'] = draw(st.booleans())
    return c


def drive(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    info.label(*loops.labels(c))
    info.nontrivial(len({b[1] for b in lay.blocks}) > 1 or c['batch'] > 1 or lay.bandit)
    want = loops.batch_of(c)
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    if c['init'] == 'design':
        X0 = np.array(bo.X)
        check_rows(lay, X0, 'initial design')
        if len(X0) != c['n0']:
            raise Violation('initial design of %d points instead of %d' % (len(X0), c['n0']))
    full = False
    if c['suggest']:
        try:
            S = bo.suggest_next_locations()
            check_rows(lay, S, 'suggestion')
            if len(S) != want and not (c.get('dedup') and 1 <= len(S) < want and lay.n_distinct() < len(bo.X) + want):
                raise Violation('%d suggestions instead of %d' % (len(S), want))
        except FullyExploredOptimizationDomainError:
            full = True
    n = len(bo.X)
    if not full:
        try:
            bo.run_optimization(max_iter=c['steps'], eps=-1)
        except FullyExploredOptimizationDomainError:
            full = True
    if full and not (c.get('dedup') and lay.n_distinct() <= len(bo.X)):
        raise Violation('fully explored after %d of %r configurations' % (len(bo.X), lay.n_distinct()))
    if not full and not c.get('dedup') and len(bo.X) - n != want * c['steps']:
        raise Violation('%d steps evaluated %d configurations instead of %d' % (c['steps'], len(bo.X) - n, want * c['steps']))
    check_rows(lay, bo.X, 'recorded inputs')
    for i, x in enumerate(f.calls):
        if np.shape(x) != (1, lay.n_obj):
            raise Violation('the objective was called with an array of shape %r' % (np.shape(x),))
        check_rows(lay, x, 'call %d of the objective' % i)


@sub(P, 'fast', lambda: case(models=('tiny',), dedup=None, evaluators=('sequential', 'random', 'thompson_sampling'),
                               optimizers=('lbfgs', 'lbfgs', 'lbfgs', 'CMA')), 160, 4000,
     'several variable types, a batch, or arms', shards=4)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), dedup=None, acqs=('EI', 'LCB', 'MPI'), evaluators=('sequential', 'random', 'thompson_sampling', 'local_penalization',
                                                                                               'local_penalization')),
     48, 1500, 'several variable types, a batch, or arms', shards=6)
def gp(c, info):
    drive(c, info)


@sub(P, 'other-models', lambda: case(models=('GP_MCMC', 'sparseGP', 'warpedGP', 'InputWarpedGP'), max_batch=3, max_cols=3, max_vars=2, max_dim=1, min_init=3,
                                     evaluators=('sequential', 'random', 'local_penalization', 'thompson_sampling')), 24, 800,
     'several variable types, a batch, or arms', shards=6)
def other(c, info):
    if c['model'] == 'GP_MCMC':
        c['acq'] += '_MCMC'
    if c['evaluator'] == 'local_penalization' and c['model'] == 'InputWarpedGP':
        c['evaluator'] = 'random'
    lay = gen.Layout(c['dom'])
    if c['model'] in ('warpedGP', 'InputWarpedGP') and (lay.n_model > (2 if c['model'] == 'warpedGP' else 4) or lay.bandit
                                                       or c['evaluator'] == 'thompson_sampling' and lay.n_model > 1):
        c['model'] = 'sparseGP'        # these provide no gradients: minutes per step in many dimensions
    c['steps'] = 1
    drive(c, info)
