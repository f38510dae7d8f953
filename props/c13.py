"""C13 Gaussian-process surrogate."""
import numpy as np
import GPy
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation, Inconclusive
from GPyOpt.models import GPModel, GPModel_MCMC

P = 'C13'


def kern_ref(kind, var, ls, A, B):
    d = np.sqrt((((A[:, None, :] - B[None, :, :]) / np.asarray(ls)) ** 2).sum(-1))
    if kind == 'RBF':
        return var * np.exp(-0.5 * d ** 2)
    if kind == 'Matern52':
        return var * (1 + np.sqrt(5) * d + 5. / 3 * d ** 2) * np.exp(-np.sqrt(5) * d)
    return var * (1 + np.sqrt(3) * d) * np.exp(-np.sqrt(3) * d)


def posterior(k, noise, X, Y, Z, mf=None):
    """mean, covariance of the latent function at Z."""
    Ky = k(X, X) + (noise + 1e-8) * np.eye(len(X))      # GPy itself adds 1e-8
    cond = np.linalg.cond(Ky)
    mu = (lambda T: np.zeros((len(T), 1))) if mf is None else mf
    sol = np.linalg.solve(Ky, np.hstack([Y - mu(X), k(X, Z)]))
    return mu(Z) + k(Z, X).dot(sol[:, :1]), k(Z, Z) - k(Z, X).dot(sol[:, 1:]), cond


@st.composite
def data(draw, d, lo=2, hi=8):
    row = st.lists(gen.fl(-3, 3, 2), min_size=d, max_size=d)
    X = draw(st.lists(row, min_size=lo, max_size=hi, unique_by=lambda r: tuple(int(round(v * 3)) for v in r)))
    Y = draw(st.lists(gen.fl(-5, 5, 2), min_size=len(X), max_size=len(X)))
    if hi >= 8:
        MX, MY = draw(gen.extra(d, -3, 3, -5, 5))
        at = draw(st.integers(0, len(X)))
        X, Y = X[:at] + MX + X[at:], Y[:at] + MY + Y[at:]
    return {'X': X, 'Y': Y}


@st.composite
def case(draw):
    d = draw(st.integers(1, 3))
    return {'d': d, 'data': draw(st.lists(data(d), min_size=1, max_size=3)), 'Z': draw(st.lists(st.lists(gen.fl(-4, 4, 2), min_size=d, max_size=d), min_size=1, max_size=5)),
            'at_data': draw(st.booleans()), 'kind': draw(st.sampled_from(['RBF', 'Matern52', 'Matern32', None])), 'ard': draw(st.booleans()),
            'var': draw(st.sampled_from([1., 0.3, 5.])), 'ls': draw(st.lists(st.sampled_from([1., 0.5, 2., 0.2]), min_size=d, max_size=d)),
            'noise': draw(st.sampled_from([None, 1e-2, 0.5, 1e-4, 1e-6, 20., 1e-8])), 'exact': draw(st.integers(0, 3)) == 0,
            'fit': draw(st.integers(0, 3)) == 0, 'mf': draw(st.integers(0, 4)) == 0, 'offset': draw(st.sampled_from([0., 0., 30.])), 'seed': draw(gen.seeds)}


def build(c):
    d = c['d']
    kern = None
    if c['kind'] is not None:
        K = getattr(GPy.kern, c['kind'])
        kern = K(d, variance=c['var'], lengthscale=c['ls'] if c['ard'] else c['ls'][0], ARD=c['ard'])
    mf = None
    if c['mf']:
        mf = GPy.mappings.Linear(d, 1)
        mf.A[:] = 0.5
        mf.fix()
    return GPModel(kernel=kern, noise_var=c['noise'], exact_feval=c['exact'], max_iters=15 if c['fit'] else 0, optimize_restarts=1,
                   verbose=False, ARD=c['ard'], mean_function=mf)


def reference_parts(c, m, first):
    """kernel function and noise level: from the arguments where nothing was fitted, else from the fitted parameters."""
    if c['fit']:
        kern = m.model.kern
        if np.min(np.asarray(kern.lengthscale)) < 1e-4:
            raise Inconclusive('degenerate lengthscale')        # distances of GPy cancel to nothing
        noise = float(np.ravel(m.model.Gaussian_noise.variance)[0])
        return (lambda A, B: kern.K(A, B)), noise
    kind = c['kind'] or 'Matern52'
    var = c['var'] if c['kind'] else 1.
    ls = (c['ls'] if c['ard'] else [c['ls'][0]] * c['d']) if c['kind'] else [1.] * c['d']
    Y0 = np.array(first['Y'])
    noise = 1e-6 if c['exact'] else max(1e-9, c['noise'] if c['noise'] is not None else Y0.var() * 0.01)
    return (lambda A, B: kern_ref(kind, var, ls, A, B)), noise


@sub(P, 'posterior', lambda: case(), 500, 15000, 'updated more than once, or queried without noise, at data or with a mean function', shards=4)
def check_posterior(c, info):
    m = build(c)
    for dset in c['data']:
        X, Y = np.array(dset['X']), np.array(dset['Y'])[:, None] + c['offset']
        if Y.std() == 0:
            Y = Y + np.arange(len(Y))[:, None]
        Xk, Yk = X.copy(), Y.copy()
        m.updateModel(X, Y, None, None)
        if not (np.array_equal(X, Xk) and np.array_equal(Y, Yk)):
            raise Violation('the data passed to updateModel were changed')
    c2 = dict(c['data'][0])
    c2['Y'] = np.array(c2['Y']) + c['offset']
    if np.std(c2['Y']) == 0:
        c2['Y'] = c2['Y'] + np.arange(len(c2['Y']))
    k, noise = reference_parts(c, m, c2)
    Z = np.array(c['Z'])
    if c['at_data']:
        Z = np.vstack([Z, X[:2]])
    mf = (lambda T: 0.5 * T.sum(1)[:, None]) if c['mf'] else None
    mu, cov, cond = posterior(k, noise, X, Y, Z, mf)
    info.label('kernel %s' % c['kind'], 'fitted' if c['fit'] else 'given parameters', 'cond 1e%d' % int(np.log10(cond)))
    if cond > 1e7:
        raise Inconclusive('badly conditioned')
    info.nontrivial(len(c['data']) > 1 or c['at_data'] or c['mf'])
    sc = 1 + np.abs(Y).max()
    tol = 1e-12 * cond * sc + 1e-6 * sc
    vtol = (1e-12 * cond + 1e-6) * (1 + float(np.max(np.diag(k(Z, Z)))))
    for with_noise in (True, False, None):
        kw = {} if with_noise is None else {'with_noise': with_noise}
        add = 0. if with_noise is False else noise
        pm, ps = m.predict(Z, **kw)
        if np.shape(pm) != (len(Z), 1) or np.shape(ps) != (len(Z), 1):
            raise Violation('predictions for %d rows have shapes %r and %r' % (len(Z), np.shape(pm), np.shape(ps)))
        if not np.all(np.abs(pm - mu) <= tol):
            raise Violation('mean %r, posterior mean %r' % (pm.ravel().tolist(), mu.ravel().tolist()))
        vref = np.maximum(np.diag(cov) + add, 1e-10)
        if not np.all(np.abs(ps.ravel() ** 2 - vref) <= vtol):
            raise Violation('variance %r (with_noise=%r), posterior %r' % ((ps.ravel() ** 2).tolist(), with_noise, vref.tolist()))
        if not np.all(ps >= 1e-5 * (1 - 1e-9)):
            raise Violation('deviation %r below the floor' % ps.min())
        pc = np.asarray(m.predict_covariance(Z, **kw))
        ref = cov + add * np.eye(len(Z))
        if pc.shape != ref.shape or not np.all(np.abs(pc - ref) <= vtol + 1.1e-10):
            raise Violation('covariance %r (with_noise=%r), posterior %r' % (pc.tolist(), with_noise, ref.tolist()))
    if len(Z) > 1:
        A, B = Z[:1], Z[1:]
        got = np.asarray(m.get_covariance_between_points(A, B))
        if got.shape != (1, len(B)) or not np.all(np.abs(got - cov[:1, 1:]) <= vtol):
            raise Violation('covariance between points %r, posterior %r' % (got.tolist(), cov[:1, 1:].tolist()))
    one = m.predict(Z[0])
    if np.shape(one[0]) != (1, 1) or abs(one[0][0, 0] - pm[0, 0]) > tol:
        raise Violation('a single location (1-d) gives mean %r instead of %r' % (np.asarray(one[0]).tolist(), pm[0, 0]))
    fref = float(posterior(k, noise, X, Y, X, mf)[0].min())
    if abs(float(m.get_fmin()) - fref) > tol:
        raise Violation('incumbent %r, smallest posterior mean at the data %r' % (m.get_fmin(), fref))
    if not np.allclose(m.model.X, X) or not np.allclose(m.model.Y, Y):
        raise Violation('the model holds other data than the last ones given')


@sub(P, 'gradients', lambda: case(), 350, 10000, 'deviation above its floor and a gradient that is not zero', shards=2)
def gradients(c, info):
    m = build(c)
    dset = c['data'][-1]
    X, Y = np.array(dset['X']), np.array(dset['Y'])[:, None]
    if Y.std() == 0:
        Y = Y + np.arange(len(Y))[:, None]
    m.updateModel(X, Y, None, None)
    Z = np.array(c['Z'])
    if c['at_data']:
        Z = np.vstack([Z, X[:3]])
    r = m.predict_withGradients(Z)
    pm, ps = m.predict(Z)
    if len(r) != 4 or not np.allclose(r[0], pm, rtol=1e-9, atol=1e-10) or not np.allclose(r[1], ps, rtol=1e-9, atol=1e-10):
        raise Violation('predict_withGradients returns other predictions than predict')
    for t in (r[2], r[3]):
        if np.shape(t) != Z.shape:
            raise Violation('gradient of shape %r for inputs of shape %r' % (np.shape(t), Z.shape))
    if c['mf']:
        return
    for i in range(len(Z)):
        z = Z[[i]]
        if np.min(np.linalg.norm(X - z, axis=1)) < 0.1 or ps[i, 0] < 0.02:
            continue
        h = 1e-4
        for j in range(c['d']):
            e = np.zeros_like(z)
            e[0, j] = h
            p = [m.predict(z + q * e) for q in (2, 1, -1, -2)]
            for what, q, g in (('mean', 0, r[2]), ('deviation', 1, r[3])):
                ref = float((-p[0][q] + 8 * p[1][q] - 8 * p[2][q] + p[3][q])[0, 0] / (12 * h))
                info.nontrivial(abs(ref) > 1e-6)
                if abs(g[i, j] - ref) > 1e-3 * (abs(ref) + 0.1 * np.abs(Y).max() + 0.1):
                    raise Violation('gradient of the %s at %r, coordinate %d: reported %r, derivative %r' % (what, z.tolist(), j, g[i, j], ref))
    one = m.predict_withGradients(Z[0])
    if np.shape(one[2]) != (1, c['d']) or not np.allclose(one[2], r[2][:1], rtol=1e-7, atol=1e-8):
        raise Violation('a single location (1-d) gives another gradient')


@sub(P, 'copy', lambda: case(), 200, 5000, 'every case: the original and the copy are updated in turn', shards=2)
def copy_(c, info):
    c = dict(c, mf=False)
    m = build(c)
    d0, d1 = c['data'][0], c['data'][-1]

    def arr(dd):
        Y = np.array(dd['Y'])[:, None]
        return np.array(dd['X']), Y + np.arange(len(Y))[:, None] * (Y.std() == 0)
    X, Y = arr(d0)
    m.updateModel(X, Y, None, None)
    Z = np.array(c['Z'])
    before = m.predict(Z)
    cp = m.copy()
    info.nontrivial()
    b2 = cp.predict(Z)
    if not np.allclose(b2[0], before[0], rtol=1e-6, atol=1e-7) or not np.allclose(b2[1], before[1], rtol=1e-5, atol=1e-6):
        raise Violation('the copy predicts %r, the original %r' % (b2[0].ravel().tolist(), before[0].ravel().tolist()))
    if abs(cp.get_fmin() - m.get_fmin()) > 1e-6 * (1 + abs(m.get_fmin())):
        raise Violation('incumbent of the copy %r, of the original %r' % (cp.get_fmin(), m.get_fmin()))
    X1, Y1 = arr(d1)
    m.updateModel(X1 + 0.1, Y1 * 2 + 1, None, None)
    b3 = cp.predict(Z)
    if not (np.array_equal(b3[0], b2[0]) and np.array_equal(b3[1], b2[1])):
        raise Violation('updating the original changed the predictions of the copy')
    a = m.predict(Z)
    cp.updateModel(X - 0.2, Y * 3, None, None)
    a2 = m.predict(Z)
    if not (np.array_equal(a[0], a2[0]) and np.array_equal(a[1], a2[1])):
        raise Violation('updating the copy changed the predictions of the original')


@st.composite
def mcmc_case(draw):
    c = draw(case())
    c['n'] = draw(st.integers(1, 4))
    c['burn'] = draw(st.integers(0, 3))
    c['every'] = draw(st.integers(1, 3))
    return c


@sub(P, 'sampled', lambda: mcmc_case(), 100, 2500, 'two or more samples', shards=4)
def sampled(c, info):
    d = c['d']
    kern = None
    if c['kind'] is not None:
        kern = getattr(GPy.kern, c['kind'])(d, variance=c['var'], lengthscale=c['ls'] if c['ard'] else c['ls'][0], ARD=c['ard'])
    m = GPModel_MCMC(kernel=kern, noise_var=c['noise'], exact_feval=c['exact'], n_samples=c['n'], n_burnin=c['burn'], subsample_interval=c['every'],
                     leapfrog_steps=2)
    for dset in c['data']:
        X, Y = np.array(dset['X']), np.array(dset['Y'])[:, None]
        if Y.std() == 0:
            Y = Y + np.arange(len(Y))[:, None]
        Y = (Y - Y.mean()) / Y.std()
        m.updateModel(X, Y, None, None)
    Z = np.array(c['Z'])
    S = np.array(m.hmc_samples)
    info.nontrivial(c['n'] > 1)
    if len(S) != c['n']:
        raise Violation('%d samples requested, %d kept' % (c['n'], len(S)))
    state = m.model.param_array.copy()
    plain = m.model.predict(Z)
    means, stds = m.predict(Z)
    r = m.predict_withGradients(Z)
    fm = m.get_fmin()
    if not np.array_equal(m.model.param_array, state):
        raise Violation('predicting changed the hyper-parameters of the surrogate')
    p2 = m.model.predict(Z)
    if not (np.allclose(plain[0], p2[0], rtol=1e-9, atol=1e-12) and np.allclose(plain[1], p2[1], rtol=1e-9, atol=1e-12)):
        raise Violation('predicting changed the state of the surrogate')
    # what the state stands for: the posterior for the current hyper-parameters, after each kind of query
    for what in ('predict', 'predict_withGradients', 'get_fmin'):
        getattr(m, what)(*([] if what == 'get_fmin' else [Z]))
        now = m.model.predict(Z)
        k1 = m.model.kern.copy()
        mu, cov, cond = posterior(lambda A, B: k1.K(A, B), float(np.ravel(m.model.Gaussian_noise.variance)[0]), X, Y, Z)
        if cond < 1e6 and not np.allclose(now[0], mu, rtol=1e-4, atol=1e-5):
            raise Violation('%s leaves the surrogate with mean %r, the posterior for its hyper-parameters is %r' % (what, np.ravel(now[0]).tolist(), mu.ravel().tolist()))
    if len(means) != c['n'] or len(stds) != c['n'] or len(fm) != c['n'] or any(len(t) != c['n'] for t in r):
        raise Violation('%d samples, but %d means, %d deviations, %d incumbents' % (c['n'], len(means), len(stds), len(fm)))
    # reference: every sample on a model of its own
    free = m.model._fixes_
    for i in range(c['n']):
        k2 = m.model.kern.copy()
        g = GPy.models.GPRegression(X.copy(), Y.copy(), kernel=k2, noise_var=1.)
        full = state.copy()
        if free is None:
            full[:] = S[i]
        else:
            full[free] = S[i]
        g.param_array[:] = full
        g._trigger_params_changed()
        noise = float(np.ravel(g.Gaussian_noise.variance)[0])
        mu, cov, cond = posterior(lambda A, B: k2.K(A, B), noise, X, Y, Z)
        if cond > 1e7:
            info.label('badly conditioned')
            continue
        if not np.allclose(means[i], mu, rtol=1e-5, atol=1e-6):
            raise Violation('sample %d: mean %r, posterior %r' % (i, np.ravel(means[i]).tolist(), mu.ravel().tolist()))
        v = np.maximum(np.diag(cov) + noise, 1e-10)
        if not np.allclose(np.ravel(stds[i]) ** 2, v, rtol=1e-5, atol=1e-6):
            raise Violation('sample %d: variance %r, posterior %r' % (i, (np.ravel(stds[i]) ** 2).tolist(), v.tolist()))
        fr = float(posterior(lambda A, B: k2.K(A, B), noise, X, Y, X)[0].min())
        if abs(float(fm[i]) - fr) > 1e-5 * (1 + abs(fr)):
            raise Violation('sample %d: incumbent %r, smallest posterior mean %r' % (i, fm[i], fr))
        if not np.allclose(r[0][i], means[i], rtol=1e-8, atol=1e-10) or not np.allclose(r[1][i], stds[i], rtol=1e-8, atol=1e-10):
            raise Violation('sample %d: predict_withGradients returns other predictions than predict' % i)
        gm, gv = g.predictive_gradients(Z)
        if np.shape(r[2][i]) != Z.shape or not np.allclose(r[2][i], gm[:, :, 0], rtol=1e-4, atol=1e-5):
            raise Violation('sample %d: gradient of the mean %r, expected %r' % (i, np.asarray(r[2][i]).tolist(), gm[:, :, 0].tolist()))
        gs = gv / (2 * np.sqrt(v))[:, None]
        if not np.allclose(r[3][i], gs, rtol=1e-3, atol=1e-4):
            raise Violation('sample %d: gradient of the deviation %r, expected %r' % (i, np.asarray(r[3][i]).tolist(), gs.tolist()))
    m2 = m.copy()
    q = m2.predict(Z)
    if len(q[0]) != c['n'] or not np.allclose(q[0], means, rtol=1e-5, atol=1e-6) or not np.allclose(q[1], stds, rtol=1e-4, atol=1e-5):
        raise Violation('the copy predicts something else')
    m2.updateModel(X + 0.3, Y[::-1], None, None)
    again = m.predict(Z)
    if not (np.allclose(again[0], means, rtol=1e-9, atol=1e-12) and np.allclose(again[1], stds, rtol=1e-9, atol=1e-12)):
        raise Violation('updating the copy changed the predictions of the original')
