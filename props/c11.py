"""C11 integrated acquisitions."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, stubs, acqref
from vf.core import sub, Violation
from props.c09 import cost_fn, costs, space_of
from GPyOpt.acquisitions import AcquisitionEI_MCMC, AcquisitionLCB_MCMC, AcquisitionMPI_MCMC
from GPyOpt.models import GPModel_MCMC, GPModel, WarpedGPModel

P = 'C11'
CLS = {'EI': AcquisitionEI_MCMC, 'MPI': AcquisitionMPI_MCMC, 'LCB': AcquisitionLCB_MCMC}


@st.composite
def case(draw):
    d = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 6]))
    X = draw(st.lists(st.lists(gen.fl(-4, 4), min_size=d, max_size=d), min_size=1, max_size=4))
    X = X + draw(gen.extra(d, -4, 4, 0, 1, (0,) * 14 + (12, 60), 0))[0]
    ps = draw(st.lists(stubs.model_params(draw(st.integers(0, 3)) == 0), min_size=1, max_size=draw(st.sampled_from([3, 5, 5, 12]))))
    return {'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB'])), 'X': X, 'ps': ps, 'perm': draw(st.permutations(range(len(ps)))),
            'jitter': draw(st.sampled_from([0., 0.01, 0.3])), 'w': draw(st.sampled_from([2, 0., 0.7, 5.])), 'cost': draw(costs),
            'default': draw(st.integers(0, 4)) == 0, 'past': draw(stubs.past())}


def reference(kind, means, stds, fmins, j, w):
    return np.mean([acqref.value(kind, m, s, b, j, w) for m, s, b in zip(means, stds, fmins)], axis=0)


def compare(c, info, got, ref, extra, what):
    if got.shape != ref.shape:
        raise Violation('%s has shape %r, expected %r' % (what, got.shape, ref.shape))
    tol = 1e-8 * (1 + np.abs(ref))
    if np.all(np.abs(got - ref) <= tol):
        return
    msg = '%s of integrated %s (jitter %r, %d samples) is %r, the mean over the samples is %r' % (
        what, c['acq'], c['jitter'], len(c['ps']), got.ravel().tolist(), ref.ravel().tolist())
    if extra is not None and np.all(np.abs(got - (ref + extra)) <= tol):
        info.known('EI_MCMC-jitter', msg)
        return
    raise Violation(msg)


def make(c, model, d):
    kw = {'cost_withGradients': cost_fn(c['cost'])} if c['cost'] else {}
    j, w = (0.01, 2) if c['default'] else (c['jitter'], c['w'])
    if not c['default']:
        kw['exploration_weight' if c['acq'] == 'LCB' else 'jitter'] = w if c['acq'] == 'LCB' else j
    return CLS[c['acq']](model, space_of(d), None, **kw), j, w


@sub(P, 'mean_of_samples', lambda: case(), 1200, 30000, 'two or more samples')
def mean_of_samples(c, info):
    X = np.array(c['X'])
    model = stubs.FuncModelMCMC(c['ps'])
    acq, j, w = make(c, model, X.shape[1])
    stubs.live(acq, model, c['past'], X)
    ms, ss, dms, dss = model.predict_withGradients(X)
    bs = model.get_fmin()
    info.nontrivial(len(c['ps']) > 1)
    info.label(c['acq'], '%d samples' % len(c['ps']))
    use_cost = c['cost'] and c['acq'] != 'LCB'
    co, dco = cost_fn(c['cost'])(X) if use_cost else (np.ones((len(X), 1)), np.zeros_like(X))
    F = reference(c['acq'], ms, ss, bs, j, w)
    G = np.mean([acqref.grad(c['acq'], m, s, dm, ds, b, j, w) for m, s, dm, ds, b in zip(ms, ss, dms, dss, bs)], axis=0)
    E = 2 * j * np.mean([acqref.mpi(m, s, b, j) for m, s, b in zip(ms, ss, bs)], axis=0) if c['acq'] == 'EI' and j else None
    ev = None if E is None else -E / co
    eg = None if E is None else E * dco / co ** 2
    compare(c, info, np.asarray(acq.acquisition_function(X), dtype=float), -F / co, ev, 'value')
    f, g = [np.asarray(t, dtype=float) for t in acq.acquisition_function_withGradients(X)]
    compare(c, info, f, -F / co, ev, 'value returned with the gradient')
    if min(float(np.min(s)) for s in ss) > 1e-3:
        compare(c, info, g, -(G * co - F * dco) / co ** 2, eg, 'gradient')
    other, _, _ = make(c, stubs.FuncModelMCMC([c['ps'][i] for i in c['perm']]), X.shape[1])
    a, b = np.asarray(other.acquisition_function(X), dtype=float), np.asarray(acq.acquisition_function(X), dtype=float)
    if not np.allclose(a, b, rtol=1e-9, atol=1e-12):
        raise Violation('the value depends on the order of the samples: %r and %r' % (a.ravel().tolist(), b.ravel().tolist()))
    a, b = other.acquisition_function_withGradients(X)[1], g
    if min(float(np.min(s)) for s in ss) > 1e-3 and not np.allclose(a, b, rtol=1e-8, atol=1e-10):
        raise Violation('the gradient depends on the order of the samples')
    for i in range(len(X)):
        one = np.asarray(acq.acquisition_function(X[[i]]), dtype=float)
        if one.shape != (1, 1) or abs(one[0, 0] - f[i, 0]) > 1e-9 * (1 + abs(f[i, 0])):
            raise Violation('row %d alone is worth %r, with the others %r' % (i, one.tolist(), f[i].tolist()))


@st.composite
def gp_case(draw):
    d = draw(st.integers(1, 2))
    lay = gen.Layout([{'type': 'continuous', 'domain': [-2, 3], 'dimensionality': d}])
    return {'d': d, 'X': draw(gen.points(lay, 3, 6, distinct=True)), 'Xq': draw(gen.points(lay, 1, 4, many=True)), 'coef': draw(gen.coefs),
            'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB'])), 'jitter': draw(st.sampled_from([0., 0.1])), 'w': 2, 'default': False,
            'cost': None, 'n': draw(st.integers(1, 4)), 'exact': draw(st.booleans()), 'seed': draw(gen.seeds)}


@sub(P, 'gp_mcmc', lambda: gp_case(), 60, 1200, 'two or more hyper-parameter samples of a real sampled Gaussian process', shards=3)
def gp_mcmc(c, info):
    X = np.array(c['X'], dtype=float)
    f = gen.Objective(c['coef'])
    Y = np.array([[f.value(x)] for x in X])
    Y = (Y - Y.mean()) / (Y.std() or 1.)
    model = GPModel_MCMC(n_samples=c['n'], n_burnin=2, subsample_interval=2, leapfrog_steps=2, exact_feval=c['exact'])
    model.updateModel(X, Y, None, None)
    c = dict(c, ps=[0] * c['n'])
    acq, j, w = make(c, model, c['d'])
    Xq = np.array(c['Xq'], dtype=float)
    ms, ss = model.predict(Xq)
    bs = model.get_fmin()
    if len(ms) != c['n'] or len(bs) != c['n']:
        raise Violation('%d samples requested, %d predicted, %d incumbents' % (c['n'], len(ms), len(bs)))
    # the incumbent of each sample, from the predictions of that sample at the data
    bref = [float(np.min(m)) for m in model.predict(X)[0]]
    if not np.allclose(bs, bref, rtol=1e-6, atol=1e-8):
        raise Violation('incumbents %r, smallest predicted means %r' % (bs, bref))
    F = reference(c['acq'], ms, ss, bs, j, w)
    E = -2 * j * np.mean([acqref.mpi(m, s, b, j) for m, s, b in zip(ms, ss, bs)], axis=0) if c['acq'] == 'EI' and j else None
    info.nontrivial(c['n'] > 1)
    info.label(c['acq'])
    compare(c, info, np.asarray(acq.acquisition_function(Xq), dtype=float), -F, E, 'value')


@st.composite
def refuse_case(draw):
    return {'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB'])), 'model': draw(st.sampled_from(['GP', 'stub', 'warped'])), 'p': draw(stubs.model_params()),
            'd': draw(st.integers(1, 3))}


@sub(P, 'refuses', lambda: refuse_case(), 40, 400, 'every case: an integrated acquisition on a surrogate without samples')
def refuses(c, info):
    model = {'GP': lambda: GPModel(), 'stub': lambda: stubs.FuncModel(c['p']), 'warped': lambda: WarpedGPModel()}[c['model']]()
    info.nontrivial()
    try:
        CLS[c['acq']](model, space_of(c['d']), None)
    except Exception:
        return
    raise Violation('integrated %s accepted a surrogate without hyper-parameter samples (%s)' % (c['acq'], c['model']))
