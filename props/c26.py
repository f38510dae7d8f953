"""C26 the distribution of the minimum and entropy search."""
import itertools

import numpy as np
import scipy.stats
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation, Inconclusive

P = 'C26'


@st.composite
def belief(draw):
    D = draw(st.integers(2, 8))
    kind = draw(st.sampled_from(['factor', 'kernel', 'independent']))
    c = {'kind': kind, 'spread': draw(st.sampled_from([0.1, 0.5, 1., 1., 3.])), 'scale': draw(st.sampled_from([0.1, 1., 1., 10.])),
         'mu': draw(st.lists(gen.fl(-2, 2, 3), min_size=D, max_size=D)), 'seed': draw(gen.seeds)}
    if kind == 'factor':
        c['A'] = draw(st.lists(st.lists(gen.fl(-1.5, 1.5, 2), min_size=D, max_size=D), min_size=D, max_size=D))
    elif kind == 'kernel':
        c['x'] = draw(st.lists(gen.fl(0, 1, 3), min_size=D, max_size=D))
        c['l'] = draw(st.sampled_from([0.05, 0.2, 0.5]))
    else:
        c['v'] = draw(st.lists(gen.fl(0.1, 2, 2), min_size=D, max_size=D))
    c['perm'] = draw(st.permutations(list(range(D))))
    c['shift'] = draw(st.sampled_from([1., -3., 100., -1000., 0.01]))
    return c


def gaussian(c):
    mu = np.array(c['mu'], dtype=float) * c['spread']
    if c['kind'] == 'factor':
        A = np.array(c['A'], dtype=float)
        S = A.dot(A.T) + 0.1 * np.eye(len(mu))
    elif c['kind'] == 'kernel':
        x = np.array(c['x'], dtype=float)
        S = np.exp(-0.5 * (x[:, None] - x) ** 2 / c['l'] ** 2) + 1e-2 * np.eye(len(mu))
    else:
        S = np.diag(np.array(c['v'], dtype=float))
    return mu * c['scale'], S * c['scale'] ** 2


def joint(mu, S, **kw):
    from GPyOpt.util.epmgp import joint_min
    with np.errstate(all='ignore'):
        return joint_min(np.array(mu, copy=True), np.array(S, copy=True), **kw)


def separation(mu, S):
    """Largest standardised difference of two of the means."""
    v = np.diag(S)
    D = v[:, None] + v[None, :] - 2 * S
    np.fill_diagonal(D, 1.)
    return np.max(np.abs(mu[:, None] - mu[None, :]) / np.sqrt(D))


def frequencies(mu, S, n, seed):
    rs = np.random.RandomState(seed % (2 ** 32 - 1))
    Z = mu + rs.randn(n, len(mu)).dot(np.linalg.cholesky(S).T)
    return np.bincount(Z.argmin(1), minlength=len(mu)) / float(n)


@sub(P, 'probabilities', belief, 400, 12000, 'at least two points have a probability above 0.02', shards=3)
def probabilities(c, info):
    mu, S = gaussian(c)
    D = len(mu)
    mu0, S0 = mu.copy(), S.copy()
    from GPyOpt.util.epmgp import joint_min
    with np.errstate(all='ignore'):
        lp = np.asarray(joint_min(mu, S))
    if not (np.array_equal(mu, mu0) and np.array_equal(S, S0)):
        raise Violation('the belief was changed')
    if lp.size != D:
        raise Violation('%d values for %d points' % (lp.size, D))
    lp = lp.ravel()
    p = np.exp(lp)
    if not np.all(np.isfinite(lp)) or not np.all(p > 0):
        raise Violation('probabilities %r' % p.tolist())
    if abs(p.sum() - 1) > 1e-9:
        raise Violation('the probabilities %r sum to %r' % (p.tolist(), p.sum()))
    ref = frequencies(mu, S, 20000, c['seed'])
    # the approximation may break down altogether for means far apart and for nearly identical points
    sd = np.sqrt(np.diag(S))
    far, close = separation(mu, S) > 3., np.max(S / np.outer(sd, sd) - np.eye(D)) > 0.9
    if not far and np.max(np.abs(p - ref)) > (0.12 if close else 0.08):
        raise Violation('means %r, covariance %r: probabilities %r, frequencies %r' % (mu.tolist(), S.tolist(), p.tolist(), ref.tolist()))
    if D == 2:
        q = scipy.stats.norm.cdf((mu[1] - mu[0]) / np.sqrt(S[0, 0] + S[1, 1] - 2 * S[0, 1]))
        if abs(p[0] - q) > 1e-4:
            raise Violation('two points: probability %r instead of %r' % (p[0], q))
    perm = np.array(c['perm'])
    pp = np.exp(np.ravel(joint(mu[perm], S[np.ix_(perm, perm)])))
    if not far and not close and np.max(np.abs(pp - p[perm])) > 0.02:
        raise Violation('the points in the order %r: probabilities %r instead of %r' % (perm.tolist(), pp.tolist(), p[perm].tolist()))
    ps = np.exp(np.ravel(joint(mu + c['shift'] * c['scale'], S)))
    if np.max(np.abs(ps - p)) > 1e-4:
        raise Violation('all means shifted by %r: probabilities %r instead of %r' % (c['shift'] * c['scale'], ps.tolist(), p.tolist()))
    info.label('%d points' % D, c['kind'], 'means far apart' if far else 'nearly identical points' if close else 'moderate')
    info.nontrivial(np.sum(ref > 0.02) > 1)


@sub(P, 'derivatives', belief, 250, 8000, 'no pair of means is separated by more than 2.5 deviations or correlated by more than 0.9, and no point is hopeless', shards=3)
def derivatives(c, info):
    mu, S = gaussian(c)
    D, s = len(mu), c['scale']
    lp, g, gs, H = joint(mu, S, with_derivatives=True)
    lp = np.ravel(lp)
    p = np.exp(lp)
    if not np.allclose(lp, np.ravel(joint(mu, S)), rtol=1e-9, atol=1e-9):
        raise Violation('asking for derivatives changes the probabilities')
    g, gs, H = np.asarray(g), np.asarray(gs), np.asarray(H)
    if g.shape != (D, D) or gs.shape != (D, D * (D + 1) // 2) or H.shape != (D, D, D):
        raise Violation('derivatives of shapes %r, %r, %r for %d points' % (g.shape, gs.shape, H.shape, D))
    # probabilities sum to one and ignore shifts, so that (in units of the scale)
    g, gs, H = g * s, gs * s ** 2, H * s ** 2
    size = 1 + np.abs(g).max() ** 2 + np.abs(H).max()
    for name, v in (('sum over the points of the derivatives in the means', p.dot(g)), ('sum over the means', g.sum(1)), ('sum over the points of the derivatives in the covariances', p.dot(gs)),
                    ('sum over the points of the second derivatives', np.einsum('k,kij->ij', p, H + np.einsum('ki,kj->kij', g, g))), ('asymmetry of the second derivatives', H - np.transpose(H, (0, 2, 1)))):
        if np.max(np.abs(v)) > 1e-7 * (size + np.abs(gs).max()):
            raise Violation('means %r, covariance %r: %s is %r instead of zero' % (mu.tolist(), S.tolist(), name, np.max(np.abs(v))))
    sd = np.sqrt(np.diag(S))
    if separation(mu, S) > 2.5 or np.max(np.abs(S / np.outer(sd, sd) - np.eye(D))) > 0.9 or lp.min() < -4.5:
        info.label('means far apart or points nearly identical')
        return
    if np.max(np.abs(lp - np.log(np.maximum(frequencies(mu, S, 40000, c['seed']), 1e-6)))) > 0.25:
        info.label('approximation inaccurate')
        return
    h = 1e-3
    fd = np.array([(np.ravel(joint(mu + s * h * e, S)) - np.ravel(joint(mu - s * h * e, S))) / (2 * h) for e in np.eye(D)]).T
    k = np.flatnonzero(lp > -5)
    err = np.abs(fd - g)[k]
    if np.max(err) > 2e-3 * (1 + np.abs(fd[k]).max()):
        raise Violation('means %r, covariance %r: derivatives in the means %r, difference quotients %r' % (mu.tolist(), S.tolist(), g.tolist(), fd.tolist()))
    cols = []
    for i in range(D):
        for j in range(i + 1):
            E = np.zeros((D, D))
            E[i, j] = E[j, i] = s ** 2
            hh = 1e-4
            cols.append((np.ravel(joint(mu, S + hh * E)) - np.ravel(joint(mu, S - hh * E))) / (2 * hh))
    fd = np.array(cols).T
    err = np.abs(fd - gs)[k]
    if np.max(err) > 2e-3 * (1 + np.abs(fd[k]).max()):
        raise Violation('means %r, covariance %r: derivatives in the covariances %r, difference quotients %r' % (mu.tolist(), S.tolist(), gs.tolist(), fd.tolist()))
    if D == 2:
        h = 1e-2
        for i, j in itertools.product(range(2), repeat=2):
            ei, ej = s * h * np.eye(2)[i], s * h * np.eye(2)[j]
            q = (np.ravel(joint(mu + ei + ej, S)) - np.ravel(joint(mu + ei - ej, S)) - np.ravel(joint(mu - ei + ej, S)) + np.ravel(joint(mu - ei - ej, S))) / (4 * h * h)
            if np.max(np.abs(q - H[:, i, j])[k]) > 1e-2 * (1 + np.abs(q[k]).max()):
                raise Violation('two points: second derivatives %r, difference quotients %r' % (H[:, i, j].tolist(), q.tolist()))
    info.label('%d points' % D, c['kind'])
    info.nontrivial(len(k) > 1)


# ------------------------------------------------------------------------------------------------------- entropy search
@st.composite
def es_case(draw):
    dom = draw(gen.domain(('continuous', 'continuous', 'continuous', 'discrete'), 2, 1, 2))
    lay = gen.Layout(dom)
    return {'dom': dom, 'coef': draw(gen.coefs), 'X': draw(gen.points(lay, 3, 6, distinct=True)), 'Q': draw(gen.points(lay, 2, 4)), 'reps': 2 * draw(st.integers(3, 8)), 'samples': draw(st.integers(1, 12)),
            'ls': draw(st.sampled_from([0.2, 0.5, 1.])), 'noise': draw(st.sampled_from([1e-2, 0.1])), 'sampler': draw(st.sampled_from(['ensemble', 'own', 'own'])), 'seed': draw(gen.seeds),
            'burn': draw(st.sampled_from([5, 20, 50])), 'hopeless': draw(st.sampled_from([0, 0, 1, 3]))}


class OwnSampler(object):
    """Representer points scattered over the domain; the density is evaluated there, and is zero at some of them."""

    def __init__(self, lo, hi, seed, hopeless=0):
        self.lo, self.hi, self.rs, self.hopeless = lo, hi, np.random.RandomState(seed), hopeless

    def get_samples(self, n_samples, log_p_function, burn_in_steps=50):
        R = self.lo + (self.hi - self.lo) * self.rs.rand(n_samples, len(self.lo))
        L = np.array([[float(np.ravel(log_p_function(r))[0])] for r in R])
        L[self.rs.permutation(n_samples)[:self.hopeless]] = -np.inf
        return R, L


def surrogate(c, lay, f):
    import GPy
    import GPyOpt
    b = np.array(lay.model_bounds(), dtype=float)
    w = np.where(b[:, 1] - b[:, 0] < 1e-6, 1., b[:, 1] - b[:, 0])
    X = np.array([lay.encode(x) for x in c['X']], dtype=float)
    Y = np.array([[f.value(x)] for x in c['X']])
    Y = (Y - Y.mean()) / max(Y.std(), 1e-3)
    k = GPy.kern.RBF(len(w), variance=1., lengthscale=c['ls'] * w, ARD=True)
    m = GPyOpt.models.GPModel(kernel=k, noise_var=c['noise'], max_iters=0, optimize_restarts=1, verbose=False)
    m.updateModel(X, Y, None, None)
    return m, b


def information(acq, m, x, samples):
    """Expected change of the relative entropy of the distribution of the minimum, from its definition."""
    R, logq = np.asarray(acq.repr_points), np.ravel(acq.repr_points_log)
    mu = np.ravel(m.predict(R)[0])
    S = m.predict_covariance(R)
    lp, g, gs, H = joint(mu, S, with_derivatives=True)
    lp = np.ravel(lp)
    K = m.model.kern
    sd = np.ravel(m.predict(x, with_noise=False)[1])[0]
    X, Z = m.model.X, np.linalg.inv(K.K(m.model.X) + (float(m.model.likelihood.variance[0]) + 1e-8) * np.eye(len(m.model.X)))
    dm = (K.K(R, x) - K.K(R, X).dot(Z).dot(K.K(X, x)))[:, 0] / sd
    n = len(lp)
    dv = -np.outer(dm, dm)
    low = np.array([dv[i, j] for i in range(n) for j in range(i + 1)])
    det = gs.dot(low) + 0.5 * np.einsum('kij,i,j->k', H, dm, dm)
    total = 0.
    for w in scipy.stats.norm.ppf(np.linspace(1. / (samples + 1), 1 - 1. / (samples + 1), samples)):
        q = lp + det + g.dot(dm) * w
        q = q - q.max() - np.log(np.exp(q - q.max()).sum())
        total += float(np.sum(np.exp(q) * (q + logq)))
    return total / samples


@sub(P, 'acquisition', es_case, 45, 1500, 'the values of two configurations differ', shards=5)
def acquisition(c, info):
    import GPyOpt
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionEntropySearch
    from GPyOpt.util.mcmc_sampler import AffineInvariantEnsembleSampler
    lay = gen.Layout(c['dom'])
    space = GPyOpt.Design_space(gen.build_domain(c['dom']))
    m, b = surrogate(c, lay, gen.Objective(c['coef']))
    smp = AffineInvariantEnsembleSampler(space) if c['sampler'] == 'ensemble' else OwnSampler(b[:, 0], b[:, 1], c['seed'] % 10000, c['hopeless'])
    acq = AcquisitionEntropySearch(m, space, smp, num_samples=c['samples'], num_representer_points=c['reps'], burn_in_steps=c['burn'])
    Q = np.array([lay.encode(x) for x in c['Q']], dtype=float)
    with np.errstate(all='ignore'):
        try:
            A = np.asarray(acq.acquisition_function(Q), dtype=float)
        except ValueError:
            if acq.repr_points is not None and len(acq.repr_points) == 0:
                raise Inconclusive('no representer point with a positive density')
            raise
        rows = [np.asarray(acq.acquisition_function(q[None, :]), dtype=float) for q in Q]
        R, L = np.asarray(acq.repr_points), np.ravel(acq.repr_points_log)
    if A.shape != (len(Q), 1):
        raise Violation('values of shape %r for %d configurations' % (A.shape, len(Q)))
    if R.ndim != 2 or R.shape[1] != len(b) or not np.all(np.isfinite(R)) or not 0 < len(R) <= c['reps'] or len(L) != len(R):
        raise Violation('representer points of shape %r' % (R.shape,))
    if np.any(R < b[:, 0] - 1e-9) or np.any(R > b[:, 1] + 1e-9):
        raise Violation('representer points outside the domain %r: %r' % (b.tolist(), R.tolist()))
    ei = AcquisitionEI(m, space)
    for r, l in zip(R, L):
        v = -float(np.ravel(ei.acquisition_function(r[None, :]))[0])
        if abs(np.log(max(v, 1e-300)) - l) > 1e-6 * (1 + abs(l)) and v > 1e-280:
            raise Violation('log density %r at the representer point %r, where the expected improvement is %r' % (l, r.tolist(), v))
    for i, r in enumerate(rows):
        if abs(float(np.ravel(r)[0]) - A[i, 0]) > 1e-9 * (1 + abs(A[i, 0])):
            raise Violation('configuration %d has the value %r, alone %r' % (i, A[i, 0], float(np.ravel(r)[0])))
        with np.errstate(all='ignore'):
            ref = information(acq, m, Q[i:i + 1], c['samples'])
        if np.isfinite(ref) and abs(-A[i, 0] - ref) > 1e-5 * (1 + abs(ref)):
            raise Violation('configuration %r: information gain %r instead of %r' % (Q[i].tolist(), -A[i, 0], ref))
    info.label(c['sampler'])
    info.nontrivial(np.ptp(A) > 1e-9)
