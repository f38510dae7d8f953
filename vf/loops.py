"""Whole optimisations: a fast data-dependent surrogate, generated set-ups, and what builds them."""
import numpy as np
from hypothesis import strategies as st

from . import gen

import functools

import scipy.optimize

import GPyOpt
from GPyOpt.models.base import BOModel


def _limit(search, evaluations=2500):
    """On badly scaled domains scipy's search makes all of its 15000 evaluations, for each anchor point of each step."""
    @functools.wraps(search)
    def limited(*args, **kw):
        if len(args) < 12:
            kw.setdefault('maxfun', evaluations)
        return search(*args, **kw)
    limited.limited = True
    return limited


if not hasattr(scipy.optimize.fmin_l_bfgs_b, 'limited'):
    scipy.optimize.fmin_l_bfgs_b = _limit(scipy.optimize.fmin_l_bfgs_b)


class TinyGP(BOModel):
    """Gaussian process with fixed hyper-parameters on the unit box.  Records every update and how often it was asked."""
    analytical_gradient_prediction = True

    def __init__(self, bounds, ls=0.4, noise=1e-4):
        self.lo = np.array([b[0] for b in bounds], dtype=float)
        self.w = np.array([b[1] - b[0] if b[1] > b[0] else 1. for b in bounds], dtype=float)
        self.ls, self.noise = ls, noise
        self.updates = []
        self.on_update = None

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        X, Y = np.array(X_all, dtype=float, copy=True), np.array(Y_all, dtype=float, copy=True)
        self.updates.append((X, Y))
        self.Y = Y
        self.U = (X - self.lo) / self.w / self.ls
        self.Ki = np.linalg.inv(self._k(self.U, self.U) + self.noise * np.eye(len(X)))
        self.alpha = self.Ki.dot(Y)
        if self.on_update is not None:
            self.on_update(self)

    def _k(self, A, B):
        return np.exp(-0.5 * np.maximum(0, (A ** 2).sum(1)[:, None] + (B ** 2).sum(1)[None, :] - 2 * A.dot(B.T)))

    def _ms(self, X):
        V = (np.atleast_2d(np.asarray(X, dtype=float)) - self.lo) / self.w / self.ls
        k = self._k(V, self.U)
        v = k.dot(self.Ki)
        s2 = np.maximum(1. + self.noise - (v * k).sum(1), 1e-8)
        return V, k, v, k.dot(self.alpha), np.sqrt(s2)[:, None]

    def predict(self, X, with_noise=True):
        _, _, _, m, s = self._ms(X)
        return m, s

    def predict_withGradients(self, X):
        V, k, v, m, s = self._ms(X)
        dk = -k[:, :, None] * (V[:, None, :] - self.U[None, :, :]) / self.w / self.ls
        dm = np.einsum('nij,i->nj', dk, self.alpha[:, 0])
        ds = -np.einsum('nij,ni->nj', dk, v) / s
        return m, s, dm, ds

    def get_fmin(self):
        return float(self._ms(self.U * self.ls * self.w + self.lo)[3].min())

    def get_model_parameters(self):
        return np.array([[float(len(self.updates)), self.ls]])

    def get_model_parameters_names(self):
        return ['updates', 'lengthscale']

    def copy(self):
        m = TinyGP(list(zip(self.lo, self.lo + self.w)), self.ls, self.noise)
        if self.updates:
            m.updateModel(*self.updates[-1], None, None)
        return m


class Stub(TinyGP):
    """For outputs of any size: the outputs are not used."""

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        TinyGP.updateModel(self, X_all, np.sin(np.arange(len(Y_all)))[:, None], None, None)


@st.composite
def setup(draw, models=('tiny', 'tiny', 'tiny', 'GP'), evaluators=('sequential', 'random', 'thompson_sampling', 'local_penalization'), max_batch=4,
          inits=('design', 'X', 'XY'), bandit=None, cons=False, min_values=1, max_cols=5, dedup=False, acqs=('EI', 'LCB', 'MPI'), kinds=('continuous', 'discrete', 'categorical'),
          need_continuous=False, optimizers=('lbfgs',), max_init=6, min_init=1, max_vars=4, max_dim=2):
    dom = draw(gen.domain(kinds, max_vars, max_dim, max_cols, min_values, 5, bandit=bandit, need_continuous=need_continuous))
    lay = gen.Layout(dom)
    c = {'dom': dom, 'coef': draw(gen.coefs), 'model': draw(st.sampled_from(models)), 'acq': draw(st.sampled_from(acqs)),
         'evaluator': draw(st.sampled_from(evaluators)), 'batch': 1, 'seed': draw(gen.seeds)}
    if c['evaluator'] != 'sequential' or draw(st.integers(0, 7)) == 0:
        c['batch'] = draw(st.integers(1, max_batch))
        if max_batch >= 4 and c['evaluator'] in ('random', 'thompson_sampling') and draw(st.integers(0, 11)) == 0:
            c['batch'] = draw(st.sampled_from([7, 12]))
    if c['evaluator'] == 'local_penalization':
        if c['batch'] > 1 and c['model'] not in ('GP', 'GP_MCMC', 'sparseGP', 'warpedGP'):
            c['model'] = 'GP'
    c['normalize'] = draw(st.integers(0, 3)) > 0
    c['interval'] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    c['init'] = draw(st.sampled_from(inits))
    long_start = c['model'] == 'tiny' and max_init >= 5 and draw(st.integers(0, 15)) == 0      # now and then a lot of initial data
    if c['init'] == 'design':
        c['n0'] = draw(st.integers(min_init, max_init))
        if long_start:
            c['n0'] = 25
        c['design'] = draw(st.sampled_from(['random', 'random', 'random', 'latin', 'sobol'])) if not cons else 'random'
    else:
        c['X0'] = draw(gen.points(lay, min_init, max_init))
        if long_start:
            us = np.round(np.random.RandomState(c['seed']).rand(draw(st.sampled_from([22, 55])), len(lay.blocks)), 3)
            c['X0'] += [[float(t) for t in lay.point(list(u))] for u in us]
        c['n0'] = len(c['X0'])
    if dedup is None:
        dedup = draw(st.booleans())
    if dedup:
        c['dedup'] = True
    if cons:
        w = c['X0'][0] if 'X0' in c else draw(gen.points(lay, 1, 1))[0]
        c['cons'] = draw(gen.constraints(lay, w))
    if c['model'] == 'GP' and draw(st.booleans()):
        c['exact'] = True
    if draw(st.integers(0, 5)) == 0:
        c['ties'] = True
    o = draw(st.sampled_from(optimizers))
    if o != 'lbfgs' and 1 < lay.n_model <= 3 and c['model'] == 'tiny' and all(b[0] < b[1] for b in lay.model_bounds()):
        c['opt'] = o
    return c


class Obj(gen.Objective):
    """The recording objective of a set-up; with ties its values are whole numbers."""

    def __init__(self, c, **kw):
        gen.Objective.__init__(self, c['coef'], **kw)
        self.ties = c.get('ties')
        self.mag = c.get('mag')

    def value(self, x):
        y = gen.Objective.value(self, x)
        y = float(np.round(y)) if self.ties else y
        if self.mag == 'penalty':          # configurations which must not be used are infinitely bad
            return float('inf') if y > 0 else y
        return y * self.mag if self.mag else y


def given_data(c, f):
    """Initial data handed over by the caller: (X, Y), either of which may be None."""
    if c['init'] == 'design':
        return None, None
    X = np.array(c['X0'], dtype=float)
    if c['init'] == 'X':
        return X, None
    return X, np.array([[f.value(x)] for x in X])


def options(c, f, model=None):
    """Keyword arguments for BayesianOptimization."""
    lay = gen.Layout(c['dom'])
    X, Y = given_data(c, f) if f is not None else (None, None)
    kw = dict(domain=gen.build_domain(c['dom']), constraints=c.get('cons'), X=X, Y=Y, acquisition_type=c['acq'], normalize_Y=c['normalize'],
              model_update_interval=c['interval'], evaluator_type=c['evaluator'], batch_size=c['batch'])
    if c['init'] == 'design':
        kw.update(initial_design_numdata=c['n0'], initial_design_type=c['design'])
    if c.get('dedup'):
        kw['de_duplication'] = True
    if c.get('opt'):
        kw['acquisition_optimizer_type'] = c['opt']
    if model is not None:
        kw['model'] = model
    elif c['model'] == 'tiny':
        kw['model'] = (Stub if c.get('mag') else TinyGP)(lay.model_bounds())
    elif c['model'] == 'GP':
        kw.update(model_type='GP', max_iters=8, optimize_restarts=1, exact_feval=bool(c.get('exact')))
    elif c['model'] == 'GP_MCMC':
        kw.update(model_type='GP_MCMC', n_samples=2, n_burnin=2, subsample_interval=1, leapfrog_steps=2, exact_feval=bool(c.get('exact')))
    else:
        kw.update(model_type=c['model'], max_iters=5, optimize_restarts=1)
    return kw


def make(c, f, model=None, **over):
    """A BayesianOptimization for the set-up; built on the random state derived from the case seed."""
    kw = options(c, f, model)
    kw.update(over)
    return GPyOpt.methods.BayesianOptimization(f=f, **kw)


def batch_of(c):
    """Number of proposals per step without de-duplication."""
    return 1 if c['evaluator'] == 'sequential' else c['batch']


def labels(c):
    out = ['model ' + c['model'], 'evaluator ' + c['evaluator'], 'acquisition ' + c['acq'], 'init ' + c['init']]
    if c['batch'] > 1:
        out.append('batch')
    for k in ('cons', 'dedup', 'ties', 'opt'):
        if c.get(k):
            out.append(k)
    return out


class Pull(GPyOpt.acquisitions.AcquisitionBase):
    """A user's acquisition which is best at a given configuration."""
    analytical_gradient_prediction = True

    def set(self, lay, goal):
        self.zg = lay.encode(goal)
        self.w = np.array([max(b[1] - b[0], 1e-9) for b in lay.model_bounds()], dtype=float)

    def _compute_acq(self, x):
        return 10. - self.w.max() * (((np.atleast_2d(x) - self.zg) / self.w) ** 2).sum(1)[:, None]

    def _compute_acq_withGradients(self, x):
        return self._compute_acq(x), -2 * self.w.max() * (np.atleast_2d(x) - self.zg) / self.w ** 2


def pull(lay, goal, model, space, optimizer='lbfgs'):
    from GPyOpt.optimization import AcquisitionOptimizer
    a = Pull(model, space, AcquisitionOptimizer(space, optimizer))
    a.set(lay, goal)
    return a


def make_modular(c, f, model=None, evaluator=None, acquisition=None, **over):
    """The same set-up built from components."""
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.core.task.space import Design_space
    from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionLCB, AcquisitionMPI
    from GPyOpt.optimization import AcquisitionOptimizer
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']), c.get('cons'))
    m = model if model is not None else (Stub if c.get('mag') else TinyGP)(lay.model_bounds())
    opt = AcquisitionOptimizer(space, c.get('opt', 'lbfgs'))
    acq = acquisition or {'EI': AcquisitionEI, 'LCB': AcquisitionLCB, 'MPI': AcquisitionMPI}[c['acq']](m, space, opt)
    if evaluator is None:
        b = batch_of(c)
        evaluator = Sequential(acq) if b == 1 else (ThompsonBatch if c['evaluator'] == 'thompson_sampling' else RandomBatch)(acq, b)
    X, Y = given_data(c, f)
    if X is None:
        from GPyOpt.experiment_design import initial_design
        X = initial_design(c['design'], space, c['n0'])
    kw = dict(normalize_Y=c['normalize'], model_update_interval=c['interval'], de_duplication=bool(c.get('dedup')))
    kw.update(over)
    objective = kw.pop('objective', None) or SingleObjective(f)
    return GPyOpt.methods.ModularBayesianOptimization(m, space, objective, acq, evaluator, X,
                                                      Y_init=Y, **kw)


class Scripted(object):
    """A user's evaluator which proposes a given list of batches (rows of model coordinates)."""

    def __init__(self, acquisition, batches):
        self.acquisition, self.batches, self.k = acquisition, batches, 0
        self.batch_size = max([len(b) for b in batches] or [1])

    def compute_batch(self, duplicate_manager=None, context_manager=None):
        b = self.batches[self.k % len(self.batches)]
        self.k += 1
        return np.array(b, dtype=float)
