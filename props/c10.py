"""C10 acquisition gradients."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, stubs, acqref
from vf.core import sub, Violation
from props.c09 import cost_fn, costs, space_of, CLS
from GPyOpt.acquisitions import AcquisitionEI_MCMC, AcquisitionLCB_MCMC, AcquisitionMPI_MCMC
from GPyOpt.methods import BayesianOptimization

P = 'C10'
ALL = dict(CLS, EI_MCMC=AcquisitionEI_MCMC, LCB_MCMC=AcquisitionLCB_MCMC, MPI_MCMC=AcquisitionMPI_MCMC)


@st.composite
def case(draw):
    d = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 7]))
    X = draw(st.lists(st.lists(gen.fl(-4, 4), min_size=d, max_size=d), min_size=1, max_size=4))
    X = X + draw(gen.extra(d, -4, 4, 0, 1, (0,) * 14 + (12, 30), 0))[0]
    return {'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB', 'EI', 'MPI', 'LCB', 'EI_MCMC', 'MPI_MCMC', 'LCB_MCMC'])), 'X': X,
            'ps': draw(st.lists(stubs.model_params(), min_size=1, max_size=3)), 'jitter': draw(st.sampled_from([0.01, 0., 0.1, 1.])),
            'w': draw(st.sampled_from([2, 0.5, 5.])), 'cost': draw(costs), 'past': draw(stubs.past())}


def numgrad(f, x, h=1e-5):
    g = np.zeros_like(x)
    for j in range(x.shape[1]):
        e = np.zeros_like(x)
        e[0, j] = h
        g[0, j] = (-f(x + 2 * e) + 8 * f(x + e) - 8 * f(x - e) + f(x - 2 * e)) / (12 * h)
    return g


@sub(P, 'derivative', lambda: case(), 900, 25000, 'a gradient that is not zero, with several coordinates or rows or a cost')
def derivative(c, info):
    X = np.array(c['X'])
    n, d = X.shape
    mc = 'MCMC' in c['acq']
    model = stubs.FuncModelMCMC(c['ps']) if mc else stubs.FuncModel(c['ps'][0])
    kw = {'cost_withGradients': cost_fn(c['cost'])} if c['cost'] else {}
    kind = c['acq'].split('_')[0]
    kw['exploration_weight' if kind == 'LCB' else 'jitter'] = c['w'] if kind == 'LCB' else c['jitter']
    acq = ALL[c['acq']](model, space_of(d), None, **kw)
    info.label(c['acq'], 'cost' if c['cost'] else 'no cost')
    stubs.live(acq, model, c['past'], X)
    v = np.asarray(acq.acquisition_function(X), dtype=float)
    f, g = [np.asarray(t, dtype=float) for t in acq.acquisition_function_withGradients(X)]
    if f.shape != v.shape or not np.allclose(f, v, rtol=1e-10, atol=1e-13):
        raise Violation('%s returns %r with the gradient and %r without' % (c['acq'], f.ravel().tolist(), v.ravel().tolist()))
    if g.shape != X.shape:
        raise Violation('gradient has shape %r for inputs of shape %r' % (g.shape, X.shape))

    def val(x):
        return float(np.asarray(acq.acquisition_function(x)).reshape(-1)[0])
    info.nontrivial(np.abs(g).max() > 1e-6 and (n > 1 or d > 1 or c['cost'] is not None))
    for i in range(n):
        x = X[[i]]
        ref = numgrad(val, x)
        smin = min(float(m.mean_std(x)[1][0, 0]) for m in (model.ms if mc else [model]))
        tol = 1e-6 * (1 + np.abs(ref)) * (1 + (0.05 / smin) ** 3)
        fi, gi = [np.asarray(t, dtype=float) for t in acq.acquisition_function_withGradients(x)]
        if not np.allclose(gi[0], g[i], rtol=1e-9, atol=1e-12) or not np.allclose(fi[0], f[i], rtol=1e-10, atol=1e-13):
            raise Violation('row %d alone gives gradient %r, with the other rows %r' % (i, gi[0].tolist(), g[i].tolist()))
        if not np.all(np.abs(g[i] - ref[0]) <= tol[0]):
            msg = '%s (jitter=%r, cost=%r) at %r reports the gradient %r, the derivative is %r' % (
                c['acq'], c['jitter'], c['cost'], x.tolist(), g[i].tolist(), ref[0].tolist())
            if c['acq'] == 'EI_MCMC' and c['jitter'] != 0:
                # the listed finding: the value carries 2*jitter*mean(Phi) too much, the gradient does not

                def extra(y):
                    return float(np.mean([acqref.mpi(m.mean_std(y)[0], m.mean_std(y)[1], m.p['fmin'], c['jitter'])[0, 0] for m in model.ms])
                                 * 2 * c['jitter'] / (cost_fn(c['cost'])(y)[0][0, 0] if c['cost'] else 1.))

                def extra_den(y):
                    return float(np.mean([acqref.mpi(m.mean_std(y)[0], m.mean_std(y)[1], m.p['fmin'], c['jitter'])[0, 0] for m in model.ms])
                                 * 2 * c['jitter'])
                # -(f + E)/c: the reported gradient uses the derivative of f and the value f + E
                co, dco = cost_fn(c['cost'])(x) if c['cost'] else (np.ones((1, 1)), np.zeros_like(x))
                missing = numgrad(extra_den, x) / co
                if np.all(np.abs(g[i] - (ref[0] + missing[0])) <= tol[0]):
                    info.known('EI_MCMC-jitter', msg)
                    continue
            raise Violation(msg)


@st.composite
def gp_case(draw):
    d = draw(st.integers(1, 3))
    lay = gen.Layout([{'type': 'continuous', 'domain': [-2, 3], 'dimensionality': d}])
    return {'d': d, 'X': draw(gen.points(lay, 3, 7, distinct=True)), 'Xq': draw(gen.points(lay, 1, 3, many=True)), 'coef': draw(gen.coefs),
            'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB', 'LCB_MCMC', 'MPI_MCMC'])), 'cost': draw(costs), 'seed': draw(gen.seeds)}


@sub(P, 'gp', lambda: gp_case(), 50, 1200, 'every case: gradients on a fitted Gaussian process', shards=3)
def gp(c, info):
    X = np.array(c['X'], dtype=float)
    f = gen.Objective(c['coef'])
    Y = np.array([[f.value(x)] for x in X])
    mc = 'MCMC' in c['acq']
    kw = dict(model_type='GP_MCMC', n_samples=2, n_burnin=2, subsample_interval=1, leapfrog_steps=2) if mc else dict(max_iters=30, optimize_restarts=1)
    bo = BayesianOptimization(None, [{'type': 'continuous', 'domain': (-2, 3), 'dimensionality': c['d']}], X=X, Y=Y, acquisition_type=c['acq'],
                              cost_withGradients=cost_fn(c['cost']) if c['cost'] else None, **kw)
    bo.suggest_next_locations()
    info.label(c['acq'])
    for x in np.array(c['Xq'], dtype=float)[:, None, :]:
        if np.min(np.linalg.norm(X - x, axis=1)) < 0.05:
            continue                                   # close to the data the deviation has a kink at its floor
        st_ = bo.model.predict(x)[1]
        if np.min(st_) < 0.02:
            continue
        v = np.asarray(bo.acquisition.acquisition_function(x))
        fv, g = bo.acquisition.acquisition_function_withGradients(x)
        ref = numgrad(lambda y: float(np.asarray(bo.acquisition.acquisition_function(y)).reshape(-1)[0]), x, 1e-4)
        info.nontrivial()
        if not np.allclose(fv, v, rtol=1e-7, atol=1e-9):
            raise Violation('%s returns %r with the gradient and %r without' % (c['acq'], np.asarray(fv).tolist(), v.tolist()))
        if np.asarray(g).shape != x.shape or not np.all(np.abs(g - ref) <= 2e-3 * (np.abs(ref).max() + 0.01)):
            raise Violation('%s at %r: gradient %r, derivative %r' % (c['acq'], x.tolist(), np.asarray(g).tolist(), ref.tolist()))
