"""C33 warped and sparse surrogates."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation, Inconclusive

import GPyOpt

P = 'C33'


def data(c, lay, n=None):
    f = gen.Objective(c['coef'])
    X = np.array([lay.encode(x) for x in c['X'][:n]], dtype=float)
    Y = np.array([[f.value(x)] for x in c['X'][:n]]) * c.get('scale', 1.)
    return X, Y


def shapes(m, Q, what, deviations=True):
    mu, s = m.predict(Q)
    mu, s = np.asarray(mu), np.asarray(s)
    if mu.shape != (len(Q), 1) or s.shape != (len(Q), 1):
        raise Violation('%s: predictions of shapes %r and %r for %d configurations' % (what, mu.shape, s.shape, len(Q)))
    if not np.all(np.isfinite(mu)) or not np.all(np.isfinite(s)) or not np.all(s > 0):
        raise Violation('%s: means %r, deviations %r at %r' % (what, mu.ravel().tolist(), s.ravel().tolist(), Q.tolist()))
    return mu, s


def posterior(k, noise, X, Y, Z):
    K = k(X, X) + (noise + 1e-8) * np.eye(len(X))
    kz = k(X, Z)
    sol = np.linalg.solve(K, np.hstack([Y, kz]))
    return kz.T.dot(sol[:, :1]), np.diag(k(Z, Z)) - (kz * sol[:, 1:]).sum(0), np.linalg.cond(K)


# ------------------------------------------------------------------------------------------------------------ input warping
@st.composite
def warp_case(draw):
    dom = draw(gen.domain(('continuous', 'discrete', 'categorical'), 3, 2, 5, 2, 4))
    lay = gen.Layout(dom)
    return {'dom': dom, 'coef': draw(gen.coefs), 'X': draw(gen.points(lay, 3, 7, distinct=True)), 'Q': draw(gen.points(lay, 1, 4, many=True)), 'a': draw(st.lists(st.sampled_from([0.3, 1., 2.5, 6.]), min_size=5, max_size=5)),
            'b': draw(st.lists(st.sampled_from([0.4, 1., 3.]), min_size=5, max_size=5)), 'fit': draw(st.sampled_from([0, 0, 3, 8])), 'set': draw(st.booleans()), 'exact': draw(st.booleans()), 'ard': draw(st.booleans()),
            'kernel': draw(st.sampled_from([None, None, 'RBF'])), 'split': draw(st.integers(2, 6)), 'blend': draw(st.booleans()), 'seed': draw(gen.seeds)}


def warped(model, lay, b, X):
    """The Kumaraswamy warping of the numeric coordinates, from its definition."""
    W = np.array(X, dtype=float)
    cols = [k for _, kind, _, mod, _ in lay.blocks if kind in ('continuous', 'discrete') for k in mod]
    lo, hi = b[:, 0] - 1e-6, b[:, 1] + 1e-6
    for i, k in enumerate(cols):
        p = model.warping_function.params[i]
        u = (W[:, k] - lo[k]) / (hi[k] - lo[k])
        W[:, k] = 1 - (1 - u ** float(p[0][0])) ** float(p[1][0])
    return W, cols


@sub(P, 'input-warping', warp_case, 150, 4000, 'numeric variables with a warping that is not the identity', shards=5)
def input_warping(c, info):
    import GPy
    from GPyOpt.models import InputWarpedGPModel
    lay = gen.Layout(c['dom'])
    b = np.array(lay.model_bounds(), dtype=float)
    space = GPyOpt.Design_space(gen.build_domain(c['dom']))
    X, Y = data(c, lay)
    Q = np.array([lay.encode(x) for x in c['Q']], dtype=float)
    if c['blend'] and len(Q) > 1:
        Q = 0.7 * Q + 0.3 * Q[::-1]       # the optimizers of the acquisition also ask between the categories
    kern = GPy.kern.RBF(lay.n_model, variance=1.3, lengthscale=0.6) if c['kernel'] else None
    m = InputWarpedGPModel(space, kernel=kern, exact_feval=c['exact'], max_iters=c['fit'], optimize_restarts=1, verbose=False, ARD=c['ard'])
    np.random.seed(c['seed'])
    try:
        with np.errstate(all='ignore'):
            if c['split'] < len(X):
                m.updateModel(X[:c['split']], Y[:c['split']], None, None)
            m.updateModel(X, Y, X[c['split']:], Y[c['split']:])
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    gp = m.model
    changed = False
    W, cols = warped(gp, lay, b, X) if not np.all([k[1] == 'categorical' for k in lay.blocks]) else (X, [])
    if lay.bandit:
        cols = []
    if c['set'] and cols:
        for i in range(len(cols)):
            for j, v in enumerate((c['a'][i % 5], c['b'][i % 5])):
                name = 'input_warp_kumar.%s%d' % ('ab'[j], i)
                gp[name] = v
    if cols:
        W, _ = warped(gp, lay, b, X)
        WQ, _ = warped(gp, lay, b, Q)
        changed = any(abs(float(p[0][0]) - 1) + abs(float(p[1][0]) - 1) > 1e-3 for p in gp.warping_function.params)
    else:
        W, WQ = X, Q
    noise = float(gp.likelihood.variance[0])
    if c['exact'] and abs(noise - 1e-6) > 1e-9:
        raise Violation('exact evaluations, noise variance %r' % noise)
    k = gp.kern
    mu, s2, cond = posterior(lambda A, B: k.K(A, B), noise, W, Y, WQ)
    got, dev = shapes(m, Q, 'input warped GP')
    if cond < 1e10:
        tol = 1e-5 + cond * 1e-14
        size = np.abs(Y).max() + 1
        if not np.allclose(got, mu, atol=tol * size * 10, rtol=1e-4):
            raise Violation('numeric coordinates %r with the warpings %r: means %r, expected %r' % (cols, [[float(p[0][0]), float(p[1][0])] for p in gp.warping_function.params] if cols else None, got.ravel().tolist(), mu.ravel().tolist()))
        want = np.sqrt(np.clip(s2 + noise, 1e-10, None))
        if not np.allclose(dev.ravel() ** 2, want ** 2, atol=tol * float(np.max(k.Kdiag(W))) * 10, rtol=1e-3):
            raise Violation('numeric coordinates %r: deviations %r, expected %r' % (cols, dev.ravel().tolist(), want.tolist()))
        fm, _, _ = posterior(lambda A, B: k.K(A, B), noise, W, Y, W)
        if abs(float(m.get_fmin()) - fm.min()) > tol * size * 10 + 1e-4 * abs(fm.min()):
            raise Violation('incumbent %r, smallest predicted mean over the data %r' % (float(m.get_fmin()), float(fm.min())))
        cov = np.asarray(m.predict_covariance(Q))
        if cov.shape != (len(Q), len(Q)) or not np.allclose(np.diag(cov), dev.ravel() ** 2, rtol=1e-4, atol=1e-8):
            raise Violation('variances %r, covariance %r' % ((dev.ravel() ** 2).tolist(), cov.tolist()))
    other = m.copy()
    for u, v, n in zip(m.predict(Q), other.predict(Q), ('means', 'deviations')):
        if cond < 1e8 and not np.allclose(u, v, rtol=1e-4, atol=1e-6 * (1 + np.abs(Y).max())):
            raise Violation('%s %r, of the copy %r' % (n, np.ravel(u).tolist(), np.ravel(v).tolist()))
    info.label('fit' if c['fit'] else 'not fitted', 'set' if c['set'] else 'as created', *sorted(set(k[1] for k in lay.blocks)))
    info.nontrivial(bool(cols) and changed)


# ------------------------------------------------------------------------------------------------------------------ sparse
@st.composite
def sparse_case(draw):
    d = draw(st.integers(1, 3))
    row = st.lists(gen.fl(0, 1, 2), min_size=d, max_size=d)
    X = draw(st.lists(row, min_size=3, max_size=9, unique_by=lambda r: tuple(int(v * 12) for v in r)))
    Y = draw(st.lists(gen.fl(-3, 3, 2), min_size=len(X), max_size=len(X)))
    MX, MY = draw(gen.extra(d, 0, 1, -3, 3))
    at = draw(st.integers(0, len(X)))
    X, Y = X[:at] + MX + X[at:], Y[:at] + MY + Y[at:]
    return {'d': d, 'Xs': X, 'Y': Y, 'Q': draw(st.lists(row, min_size=1, max_size=4)), 'inducing': draw(st.sampled_from(list(range(1, 11)) + [12, 12, 20, 20])), 'fit': draw(st.sampled_from([0, 0, 4, 10])),
            'exact': draw(st.booleans()), 'kernel': draw(st.sampled_from([None, 'RBF', 'ard'])), 'split': draw(st.sampled_from([2, 3, 4, 5, 6, 8, 30, 100])), 'seed': draw(gen.seeds)}


@sub(P, 'sparse', sparse_case, 250, 6000, 'fewer inducing points than observations', shards=4)
def sparse(c, info):
    import GPy
    from GPyOpt.models import GPModel
    X, Y, Q = np.array(c['Xs']), np.array(c['Y'])[:, None], np.array(c['Q'])
    d = c['d']
    kern = None if c['kernel'] is None else GPy.kern.RBF(d, variance=1.3, lengthscale=[0.4] * d if c['kernel'] == 'ard' else 0.4, ARD=c['kernel'] == 'ard')
    m = GPModel(kernel=kern, sparse=True, num_inducing=c['inducing'], max_iters=c['fit'], optimize_restarts=1, exact_feval=c['exact'], verbose=False)
    np.random.seed(c['seed'])
    try:
        with np.errstate(all='ignore'):
            if c['split'] < len(X):
                m.updateModel(X[:c['split']], Y[:c['split']], None, None)
            m.updateModel(X, Y, X[c['split']:], Y[c['split']:])
            mu, s = shapes(m, Q, 'sparse GP')
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    gp = m.model
    Z, k, noise = np.asarray(gp.Z), gp.kern, float(gp.likelihood.variance[0])
    n = min(len(X[:c['split']]) if c['split'] < len(X) else len(X), c['inducing'])
    if len(Z) != n:
        raise Violation('%d inducing points, requested %d with %d observations' % (len(Z), c['inducing'], len(X)))
    if c['exact'] and abs(noise - 1e-6) > 1e-9:
        raise Violation('exact evaluations, noise variance %r' % noise)
    # the variational posterior, from its definition
    Kmm, Kmn, Kmq = k.K(Z) + 1e-8 * np.eye(len(Z)), k.K(Z, X), k.K(Z, Q)
    A = Kmm + Kmn.dot(Kmn.T) / noise
    ok = np.linalg.cond(A) < 1e9 and np.linalg.cond(Kmm) < 1e7
    if ok:
        ref = Kmq.T.dot(np.linalg.solve(A, Kmn.dot(Y))) / noise
        var = k.Kdiag(Q) - (Kmq * np.linalg.solve(Kmm, Kmq)).sum(0) + (Kmq * np.linalg.solve(A, Kmq)).sum(0)
        size = 1 + np.abs(Y).max()
        if not np.allclose(mu, ref, rtol=1e-3, atol=1e-3 * size):
            raise Violation('%d inducing points: means %r, expected %r' % (len(Z), mu.ravel().tolist(), ref.ravel().tolist()))
        if not np.allclose(s.ravel() ** 2, np.clip(var + noise, 1e-10, None), rtol=1e-2, atol=2e-4 * float(k.Kdiag(Q).max())):
            raise Violation('%d inducing points: variances %r, expected %r' % (len(Z), (s.ravel() ** 2).tolist(), (var + noise).tolist()))
        f = k.K(Z, X).T.dot(np.linalg.solve(A, Kmn.dot(Y))) / noise
        if abs(float(m.get_fmin()) - f.min()) > 1e-3 * size:
            raise Violation('incumbent %r, smallest predicted mean over the data %r' % (float(m.get_fmin()), float(f.min())))
        mg, sg, dm, ds = m.predict_withGradients(Q)
        dm, ds = np.asarray(dm), np.asarray(ds)
        if not np.allclose(mg, mu, rtol=1e-6, atol=1e-8) or dm.shape != Q.shape or ds.shape != Q.shape:
            raise Violation('with gradients: means %r of shape %r, gradients of shapes %r and %r' % (np.ravel(mg).tolist(), np.shape(mg), dm.shape, ds.shape))
        h = 1e-5
        for j in range(d):
            e = np.zeros(d)
            e[j] = h
            hi, lo = m.predict(Q + e), m.predict(Q - e)
            fm = (hi[0] - lo[0]).ravel() / (2 * h)
            if not np.allclose(dm[:, j], fm, rtol=1e-2, atol=1e-3 * size * (1 + np.abs(fm).max())):
                raise Violation('gradient of the mean %r, difference quotients %r' % (dm[:, j].tolist(), fm.tolist()))
    info.label('%s inducing' % ('all' if len(Z) == len(X) else 'few'), 'fit' if c['fit'] else 'not fitted', 'compared' if ok else 'ill-conditioned')
    info.nontrivial(ok and len(Z) < len(X))


# ---------------------------------------------------------------------------------------------------------- output warping
@st.composite
def out_case(draw):
    d = draw(st.integers(1, 2))
    row = st.lists(gen.fl(0, 1, 2), min_size=d, max_size=d)
    X = draw(st.lists(row, min_size=3, max_size=6, unique_by=lambda r: tuple(int(v * 10) for v in r)))
    Y = draw(st.lists(gen.fl(-2, 2, 2), min_size=len(X), max_size=len(X)))
    MX, MY = draw(gen.extra(d, 0, 1, -2, 2, (0, 0, 0, 27)))
    at = draw(st.integers(0, len(X)))
    X, Y = X[:at] + MX + X[at:], Y[:at] + MY + Y[at:]
    return {'d': d, 'Xs': X, 'Y': Y, 'Q': draw(st.lists(row, min_size=1, max_size=2)), 'fit': draw(st.sampled_from([1, 3])), 'exact': draw(st.booleans()),
            'terms': draw(st.sampled_from([1, 2, 3])), 'split': draw(st.integers(2, 5)), 'own': draw(st.booleans()), 'seed': draw(gen.seeds)}


@sub(P, 'output-warping', out_case, 30, 700, 'outputs that differ', shards=4)
def output_warping(c, info):
    import GPy
    from scipy.optimize import brentq
    from GPyOpt.models import WarpedGPModel
    X, Y, Q = np.array(c['Xs']), np.array(c['Y'])[:, None], np.array(c['Q'])
    if np.ptp(Y) < 0.2:
        return
    kern = GPy.kern.RBF(c['d'], lengthscale=0.5) if c['own'] else None
    m = WarpedGPModel(kernel=kern, exact_feval=c['exact'], max_iters=c['fit'], warping_terms=c['terms'])
    np.random.seed(c['seed'])
    try:
        with np.errstate(all='ignore'):
            if c['split'] < len(X) and np.ptp(Y[:c['split']]) > 0.2:
                m.updateModel(X[:c['split']], Y[:c['split']], None, None)
            m.updateModel(X, Y, None, None)
            mu, s = shapes(m, Q, 'warped GP')
            fmin = float(m.get_fmin())
            at = np.vstack([m.predict(x)[0] for x in X])
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    if abs(fmin - at.min()) > 1e-5 * (1 + abs(at.min())):
        raise Violation('incumbent %r, smallest predicted mean over the data %r' % (fmin, float(at.min())))
    gp = m.model
    noise = float(gp.likelihood.variance[0])
    if c['exact'] and abs(noise - 1e-6) > 1e-9:
        raise Violation('exact evaluations, noise variance %r' % noise)
    g = lambda y: float(gp.warping_function.f(np.array([[y]]))[0, 0])
    V = np.array([[g(y)] for y in Y[:, 0]])
    k = gp.kern
    lm, lv, cond = posterior(lambda A, B: k.K(A, B), noise, X, V, Q)
    if cond < 1e8:
        u, w = np.polynomial.hermite.hermgauss(20)
        for i in range(len(Q)):
            inv = []
            for t in lm[i, 0] + np.sqrt(2 * max(lv[i] + noise, 1e-12)) * u:
                lo, hi = -50., 50.
                if g(lo) > t or g(hi) < t:
                    break
                inv.append(brentq(lambda y: g(y) - t, lo, hi, xtol=1e-10))
            if len(inv) < 20:
                continue
            inv = np.array(inv)
            e = w.dot(inv) / np.sqrt(np.pi)
            v = w.dot((inv - e) ** 2) / np.sqrt(np.pi)
            if abs(mu[i, 0] - e) > 1e-2 * (1 + np.ptp(Y)):
                raise Violation('mean %r at %r, expected %r' % (mu[i, 0], Q[i].tolist(), e))
            if abs(s[i, 0] ** 2 - v) > 2e-2 * (1 + v):
                raise Violation('variance %r at %r, expected %r' % (s[i, 0] ** 2, Q[i].tolist(), v))
            info.label('compared')
    info.label('%d terms' % c['terms'])
    info.nontrivial(True)


# ------------------------------------------------------------------------------------------------------------------- usable
@st.composite
def use_case(draw):
    kind = draw(st.sampled_from(['sparseGP', 'sparseGP', 'InputWarpedGP', 'InputWarpedGP', 'InputWarpedGP', 'warpedGP']))
    c = draw(loops.setup(models=(kind,), evaluators=('sequential', 'sequential', 'random') + (('local_penalization', 'thompson_sampling') if kind == 'sparseGP' else ('thompson_sampling',) if kind == 'InputWarpedGP' else ()),
                         max_batch=2, max_cols=2 if kind == 'warpedGP' else 3, max_vars=3, max_dim=2, bandit=None if kind != 'warpedGP' else False, min_values=2, max_init=5, min_init=3, cons=draw(st.sampled_from([False, False, True]))))
    c['model'] = kind
    lay = gen.Layout(c['dom'])
    if c['evaluator'] == 'thompson_sampling' and lay.n_model > 1 and kind != 'sparseGP':
        c['evaluator'], c['batch'] = 'sequential', 1
    if kind == 'warpedGP' and lay.n_model > 2:
        c['model'] = 'sparseGP'
    if kind == 'InputWarpedGP' and lay.n_model > 4:
        c['model'] = 'sparseGP'
    c['steps'] = draw(st.integers(1, 2)) if c['model'] != 'warpedGP' else 1
    return c


@sub(P, 'usable', use_case, 60, 1500, 'every case', shards=8)
def usable(c, info):
    from vf.gen import feasible
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    np.random.seed(c['seed'])
    over = dict(max_iters=2 if c['model'] == 'warpedGP' else 4)
    try:
        with np.errstate(all='ignore'):
            bo = loops.make(c, f, **over)
            bo.run_optimization(max_iter=c['steps'], eps=-1)
            X, Y = bo.get_evaluations()
            X = np.asarray(X, dtype=float)
            b = loops.batch_of(c)
            if len(X) != c['n0'] + b * c['steps']:
                raise Violation('%d configurations after %d steps with batches of %d' % (len(X) - c['n0'], c['steps'], b))
            for x in X[c['n0']:]:
                w = lay.legal_row(x, 1e-7)
                if w:
                    raise Violation('%s suggests %r: %s' % (c['model'], x.tolist(), w))
                if c.get('cons') and not feasible(c['cons'], x[None, :]).all():
                    raise Violation('%s suggests %r, which the constraints exclude' % (c['model'], x.tolist()))
            m = bo.model
            Q = np.array([lay.encode(x) for x in X[-2:]], dtype=float)
            mu, s = shapes(m, Q, c['model'])
            D = np.array([lay.encode(x) for x in X], dtype=float)
            fm = float(m.get_fmin())
            if not np.isfinite(fm):
                raise Violation('%s: incumbent %r' % (c['model'], fm))
            s1 = np.asarray(bo.suggest_next_locations(), dtype=float)
            fm = float(m.get_fmin())
            at = np.ravel(m.predict(D)[0])
            if abs(at.min() - fm) > 1e-5 * (1 + abs(fm) + np.ptp(at)):
                raise Violation('%s: incumbent %r, smallest predicted mean over the data %r' % (c['model'], fm, float(at.min())))
            for x in s1:
                w = lay.legal_row(x, 1e-7)
                if w:
                    raise Violation('%s suggests %r: %s' % (c['model'], x.tolist(), w))
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    info.label(*loops.labels(c))
    info.label(*sorted(set('variable ' + k[1] for k in lay.blocks)))
    info.nontrivial(True)
