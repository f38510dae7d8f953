"""C12 local penalisation."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm
from vf import gen, stubs, acqref
from vf.core import sub, Violation
from props.c09 import space_of
from props.c10 import numgrad
from GPyOpt.acquisitions import (AcquisitionEI, AcquisitionLCB, AcquisitionMPI, AcquisitionLP, AcquisitionEI_MCMC, AcquisitionLCB_MCMC,
                                 AcquisitionMPI_MCMC)
from GPyOpt.core.evaluators import LocalPenalization
from GPyOpt.core.evaluators.batch_local_penalization import estimate_L
from GPyOpt.core.task.space import Design_space
from GPyOpt.methods import ModularBayesianOptimization, BayesianOptimization
from GPyOpt.models import GPModel
from GPyOpt.optimization import AcquisitionOptimizer

P = 'C12'
CLS = {'EI': AcquisitionEI, 'MPI': AcquisitionMPI, 'LCB': AcquisitionLCB,
       'EI_MCMC': AcquisitionEI_MCMC, 'MPI_MCMC': AcquisitionMPI_MCMC, 'LCB_MCMC': AcquisitionLCB_MCMC}


@st.composite
def case(draw):
    d = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 6]))
    row = st.lists(gen.fl(-4, 4), min_size=d, max_size=d)
    ps = draw(st.lists(stubs.model_params(), min_size=1, max_size=2))
    far = draw(st.sampled_from([0., 0., 0., 30., 38., 45., 100., 300.]))       # large acquisition values
    for p in ps:
        p['m0'] -= far
    certain = draw(st.sampled_from([1.] * 6 + [1e-3, 1e-4, 1e-6]))                # a surrogate that is almost sure everywhere
    for p in ps:
        p['s0'] *= certain
    return {'acq': draw(st.sampled_from(['EI', 'LCB', 'MPI', 'EI_MCMC', 'LCB_MCMC', 'MPI_MCMC'])), 'X': draw(st.lists(row, min_size=1, max_size=4)) + draw(gen.extra(d, -4, 4, 0, 1, (0,) * 14 + (12, 30), 0))[0],
            'batch': draw(st.lists(row, min_size=0, max_size=draw(st.sampled_from([3, 3, 3, 8])))), 'batch2': draw(st.lists(row, min_size=0, max_size=2)),
            'transform': draw(st.sampled_from([None, 'none', 'softplus', 'Softplus', 'NONE'])),
            'L': draw(st.sampled_from([1., 0.3, 4., 20.])), 'Min': draw(gen.fl(-4, 1, 1)),
            'ps': ps, 'past': draw(stubs.past())}


def mean_pred(c, model, x):
    m, s = model.predict(x)
    if isinstance(m, list):
        return np.mean(m, axis=0), np.mean(s, axis=0)
    return m, s


def reference(c, base, model, X, batch):
    """The penalised acquisition (to be minimised), or None where it is not representable."""
    f = -np.asarray(base.acquisition_function(X), dtype=float)[:, 0]
    t = (c['transform'] or 'none').lower()
    if t == 'softplus' or 'LCB' in c['acq']:
        v = np.log(np.logaddexp(0., f))
    else:
        v = np.log(f + 1e-50)
    for b in batch:
        m, s = mean_pred(c, model, np.array([b]))
        r = (m[0, 0] - c['Min']) / c['L']
        dist = np.sqrt(((X - np.array(b)) ** 2).sum(1))
        v = v + norm.logcdf((dist - r) / (s[0, 0] / c['L']))
    return -v


def build(c):
    d = len(c['X'][0])
    mc = 'MCMC' in c['acq']
    model = stubs.FuncModelMCMC(c['ps']) if mc else stubs.FuncModel(c['ps'][0])
    space = space_of(d)
    base = CLS[c['acq']](model, space, None)
    kw = {} if c['transform'] is None else {'transform': c['transform']}
    lp = AcquisitionLP(model, space, None, base, **kw)
    stubs.live(lp, model, c['past'], np.array(c['X']))
    fresh = CLS[c['acq']](stubs.FuncModelMCMC(c['ps']) if mc else stubs.FuncModel(c['ps'][0]), space_of(d), None)
    return model, fresh, lp


def same(got, ref):
    return got.shape == ref.shape and np.all(np.abs(got - ref) <= 1e-7 * (1 + np.abs(ref)))


@sub(P, 'value', lambda: case(), 900, 25000, 'at least one pending point')
def value(c, info):
    model, base, lp = build(c)
    X = np.array(c['X'])
    info.label(c['acq'], '%d pending' % len(c['batch']), str(c['transform']))
    info.nontrivial(len(c['batch']) > 0)
    ref0 = reference(c, base, model, X, [])
    got0 = np.asarray(lp.acquisition_function(X), dtype=float).reshape(-1)
    ok = np.isfinite(ref0) & (np.abs(ref0) < 60)
    if not same(got0[ok], ref0[ok]):
        raise Violation('without pending points %s (%s) is %r, expected %r' % (c['acq'], c['transform'], got0.tolist(), ref0.tolist()))
    for batch in (c['batch'], c['batch2'], []):
        B = np.array(batch) if batch else None
        lp.update_batches(B, c['L'], c['Min'])
        ref = reference(c, base, model, X, batch)
        got = np.asarray(lp.acquisition_function(X), dtype=float).reshape(-1)
        if not same(got[ok], ref[ok]):
            raise Violation('with pending %r, %s (%s) is %r, expected %r' % (batch, c['acq'], c['transform'], got.tolist(), ref.tolist()))
        if np.any(got[ok] < ref0[ok] - 1e-7 * (1 + np.abs(ref0[ok]))):
            raise Violation('a pending point raised the acquisition: %r without, %r with' % (ref0.tolist(), got.tolist()))
    if not same(got[ok], got0[ok]):
        raise Violation('a penalty is left after removing all pending points')


@sub(P, 'gradient', lambda: case(), 600, 20000, 'at least one pending point and a non-zero gradient')
def gradient(c, info):
    model, base, lp = build(c)
    X = np.array(c['X'])
    if c['batch']:
        lp.update_batches(np.array(c['batch']), c['L'], c['Min'])
    info.label(c['acq'], '%d pending' % len(c['batch']))
    v = np.asarray(lp.acquisition_function(X), dtype=float).reshape(-1)
    f, g = [np.asarray(t, dtype=float) for t in lp.acquisition_function_withGradients(X)]
    if not np.allclose(f.reshape(-1), v, rtol=1e-10, atol=1e-12, equal_nan=True):
        raise Violation('value with gradient %r, without %r' % (f.ravel().tolist(), v.tolist()))
    if g.shape != X.shape:
        raise Violation('gradient has shape %r for inputs of shape %r' % (g.shape, X.shape))
    base_v = -np.asarray(base.acquisition_function(X), dtype=float)[:, 0]
    for i in range(len(X)):
        x = X[[i]]
        if c['batch'] and min(np.linalg.norm(x - np.array(c['batch']), axis=1)) < 0.05:
            continue                                         # the distance is not differentiable at its centre
        if not np.isfinite(v[i]) or abs(v[i]) > 40 or base_v[i] > 38 or (base_v[i] < 1e-8 and 'LCB' not in c['acq']):
            continue
        if c['acq'] == 'EI_MCMC':
            info.label('value and gradient of the integrated EI disagree (listed under C10)')
            continue
        ref = numgrad(lambda y: float(np.asarray(lp.acquisition_function(y)).reshape(-1)[0]), x)
        info.nontrivial(len(c['batch']) > 0 and np.abs(ref).max() > 1e-6)
        if not np.all(np.abs(g[i] - ref[0]) <= 2e-5 * (1 + np.abs(ref).max())):
            raise Violation('%s (%s, pending %r) at %r reports the gradient %r, the derivative is %r' % (
                c['acq'], c['transform'], c['batch'], x.tolist(), g[i].tolist(), ref[0].tolist()))
        d1 = np.asarray(lp.d_acquisition_function(x), dtype=float)
        if not np.allclose(d1, g[i], rtol=1e-9, atol=1e-12):
            raise Violation('d_acquisition_function of the row alone is %r, with the others %r' % (d1.tolist(), g[i].tolist()))


class RecordingLP(AcquisitionLP):
    def __init__(self, *a, **k):
        self.record = []
        super(RecordingLP, self).__init__(*a, **k)

    def update_batches(self, X_batch, L, Min):
        self.record.append((None if X_batch is None else np.array(X_batch, copy=True), L, Min))
        return super(RecordingLP, self).update_batches(X_batch, L, Min)


@st.composite
def batch_case(draw):
    dom = draw(gen.domain(max_vars=2, max_dim=2, max_cols=3, min_values=2, need_continuous=True))
    lay = gen.Layout(dom)
    return {'dom': dom, 'X': draw(gen.points(lay, 3, 6, distinct=True)), 'Xq': draw(gen.points(lay, 2, 3)), 'coef': draw(gen.coefs),
            'acq': draw(st.sampled_from(['EI', 'LCB', 'MPI'])), 'size': draw(st.integers(2, 4)), 'main': draw(st.booleans()),
            'seed': draw(gen.seeds)}


@sub(P, 'batch', lambda: batch_case(), 40, 800, 'every case: a batch of two or more from a fitted Gaussian process', shards=4)
def batch(c, info):
    lay = gen.Layout(c['dom'])
    X = np.array(c['X'], dtype=float)
    f = gen.Objective(c['coef'])
    Y = np.array([[f.value(x)] for x in X])
    info.nontrivial()
    info.label(c['acq'], 'main optimizer' if c['main'] else 'modular')
    if c['main']:
        bo = BayesianOptimization(None, gen.build_domain(c['dom']), X=X, Y=Y, acquisition_type=c['acq'], evaluator_type='local_penalization',
                                  batch_size=c['size'], max_iters=20, optimize_restarts=1)
    else:
        space = Design_space(gen.build_domain(c['dom']))
        model = GPModel(max_iters=20, optimize_restarts=1, verbose=False)
        opt = AcquisitionOptimizer(space)
        lp = RecordingLP(model, space, opt, CLS[c['acq']](model, space, opt))
        bo = ModularBayesianOptimization(model, space, None, lp, LocalPenalization(lp, c['size']), X, Y)
    S = np.asarray(bo.suggest_next_locations(), dtype=float)
    if S.shape != (c['size'], lay.n_obj):
        raise Violation('batch of shape %r, requested %d configurations of %d values' % (S.shape, c['size'], lay.n_obj))
    for x in S:
        w = lay.legal_row(x, 1e-9)
        if w:
            raise Violation('batch contains %r: %s' % (x.tolist(), w))
    acq = bo.evaluator.acquisition
    Z = np.array([lay.encode(np.array(x)) for x in c['Xq']])
    base = CLS[c['acq']](bo.model, bo.space, None)
    cc = dict(c, transform='none')
    ref = reference(cc, base, bo.model, Z, [])
    got = np.asarray(acq.acquisition_function(Z), dtype=float).reshape(-1)
    ok = np.isfinite(ref) & (np.abs(ref) < 30)
    if not np.allclose(got[ok], ref[ok], rtol=1e-5, atol=1e-6):
        raise Violation('after building a batch the acquisition is %r, without penalties it should be %r' % (got.tolist(), ref.tolist()))
    if not c['main']:
        upd = [r for r in acq.record if r[0] is not None]
        Zs = np.array([lay.encode(x) for x in S])
        mn = float(np.min(bo.model.model.Y))
        for k, (B, L, Min) in enumerate(upd):
            if B.shape[0] > len(Zs) or not np.allclose(B, Zs[:B.shape[0]]):
                raise Violation('penalties were centred at %r, the batch so far is %r' % (B.tolist(), Zs.tolist()))
            if abs(Min - mn) > 1e-9 * (1 + abs(mn)):
                raise Violation('incumbent %r used, the smallest output is %r' % (Min, mn))
            if not (L > 0):
                raise Violation('Lipschitz constant %r' % (L,))
        if upd and [u[0].shape[0] for u in upd] != list(range(1, c['size'])):
            raise Violation('numbers of penalties while building a batch of %d: %r' % (c['size'], [u[0].shape[0] for u in upd]))
    # the batch of the next step starts without penalties: asking again gives the same batch for the same state
    np.random.seed(c['seed'] % 1000)
    st1 = np.random.get_state()
    a = np.asarray(bo.evaluator.compute_batch(), dtype=float)
    np.random.set_state(st1)
    b = np.asarray(bo.evaluator.compute_batch(), dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, atol=1e-9):
        raise Violation('two batches from the same surrogate and random state differ: %r and %r' % (a.tolist(), b.tolist()))


@st.composite
def l_case(draw):
    d = draw(st.integers(1, 2))
    lay = gen.Layout([{'type': 'continuous', 'domain': [-2, 3], 'dimensionality': d}])
    return {'d': d, 'X': draw(gen.points(lay, 3, 7, distinct=True)), 'coef': draw(gen.coefs), 'flat': draw(st.integers(0, 5)) == 0, 'seed': draw(gen.seeds)}


@sub(P, 'lipschitz', lambda: l_case(), 60, 1200, 'a mean that is not flat', shards=2)
def lipschitz_check(c, info):
    X = np.array(c['X'], dtype=float)
    f = gen.Objective(c['coef'])
    Y = np.array([[0. if c['flat'] else f.value(x)] for x in X])
    m = GPModel(max_iters=20, optimize_restarts=1, verbose=False)
    m.updateModel(X, Y, None, None)
    b = [(-2, 3)] * c['d']
    L = estimate_L(m.model, b)
    g = np.linspace(-2, 3, 1500 if c['d'] == 1 else 70)
    Z = np.stack(np.meshgrid(*[g] * c['d'], indexing='ij'), -1).reshape(-1, c['d'])
    gr = m.model.predictive_gradients(Z)[0]
    ref = float(np.sqrt((gr.reshape(len(Z), -1) ** 2).sum(1)).max())
    info.nontrivial(ref > 1e-3)
    if ref > 1e-5 and not (0.8 * ref <= L <= 1.3 * ref + 1e-6):
        raise Violation('estimated Lipschitz constant %r, the largest gradient norm of the mean is about %r' % (float(L), ref))
    if ref < 1e-9 and not L > 0:
        raise Violation('Lipschitz constant %r for a flat mean' % L)
