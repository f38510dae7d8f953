"""Stand-in surrogates, acquisitions and optimisers written against the documented interfaces."""
import numpy as np
from hypothesis import strategies as st

from . import gen

from GPyOpt.models.base import BOModel


class FuncModel(BOModel):
    """Surrogate with a known mean and deviation:  m(x) = sum_j a_j sin(b_j x_j + c_j),
    s(x) = s0 * (1.2 + sin(sum_j d_j x_j)), incumbent fmin.  Records every update and query."""
    analytical_gradient_prediction = True

    def __init__(self, p, grads=True):
        self.p = p
        self.analytical_gradient_prediction = grads
        self.updates = []
        self.queries = 0

    def _ab(self, d):
        c = np.array(self.p['c'], dtype=float)
        idx = np.arange(d) % c.shape[0]
        return c[idx, 0], c[idx, 1], c[idx, 2], c[idx, 3]

    def mean_std(self, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        a, b, c, e = self._ab(X.shape[1])
        m = (a * np.sin(b * X + c)).sum(1)[:, None] + self.p.get('m0', 0.)
        s = self.p['s0'] * (1.2 + np.sin((e * X).sum(1)))[:, None]
        return m, s

    def grads(self, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        a, b, c, e = self._ab(X.shape[1])
        return a * b * np.cos(b * X + c), self.p['s0'] * np.cos((e * X).sum(1))[:, None] * e[None, :]

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.updates.append((np.array(X_all, dtype=float, copy=True), np.array(Y_all, dtype=float, copy=True)))

    def predict(self, X):
        self.queries += 1
        return self.mean_std(X)

    def predict_withGradients(self, X):
        self.queries += 1
        m, s = self.mean_std(X)
        dm, ds = self.grads(X)
        return m, s, dm, ds

    def get_fmin(self):
        return float(self.p['fmin'])


class FuncModelMCMC(BOModel):
    MCMC_sampler = True
    analytical_gradient_prediction = True

    def __init__(self, ps):
        self.ms = [FuncModel(p) for p in ps]
        self.updates = []

    def updateModel(self, X_all, Y_all, X_new, Y_new):
        self.updates.append((np.array(X_all, copy=True), np.array(Y_all, copy=True)))

    def predict(self, X):
        r = [m.mean_std(X) for m in self.ms]
        return [t[0] for t in r], [t[1] for t in r]

    def predict_withGradients(self, X):
        r = [m.mean_std(X) + m.grads(X) for m in self.ms]
        return [t[0] for t in r], [t[1] for t in r], [t[2] for t in r], [t[3] for t in r]

    def get_fmin(self):
        return [float(m.p['fmin']) for m in self.ms]


@st.composite
def model_params(draw, small_s=False):
    c = draw(st.lists(st.tuples(gen.fl(-2, 2, 1), gen.fl(0.1, 1.5, 1), gen.fl(-3, 3, 1), gen.fl(-1, 1, 1)), min_size=1, max_size=3))
    s0 = draw(st.sampled_from([0.3, 1.0, 0.05, 2.0] + ([1e-12, 1e-4, 0.] if small_s else [])))
    return {'c': [list(t) for t in c], 's0': s0, 'fmin': draw(gen.fl(-3, 2, 1)), 'm0': draw(st.sampled_from([0., 0., 1., -2.]))}


def past():
    """Strategy: parameters of the surrogate before its last update (or None)."""
    return st.one_of(st.none(), st.lists(model_params(), min_size=1, max_size=3))


def live(acq, model, ps, X):
    """The acquisition is used while the surrogate still has the parameters ps; then the surrogate is updated to its final ones."""
    if not ps:
        return
    if isinstance(model, FuncModelMCMC):
        final, model.ms = model.ms, [FuncModel(ps[i % len(ps)]) for i in range(len(model.ms))]
    else:
        final, model.p = model.p, ps[0]
    for Z in (X, X[:1]):
        acq.acquisition_function(Z)
        acq.acquisition_function_withGradients(Z)
    if isinstance(model, FuncModelMCMC):
        model.ms = final
    else:
        model.p = final
