"""C28 cost models."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c16 import FakeClock

P = 'C28'


class UserCost(object):
    """Positive cost with its gradient."""

    def __init__(self, p, d):
        self.base, self.w, self.ph = p[0], np.resize(np.array(p[1], dtype=float), d), p[2]
        self.seen = 0

    def __call__(self, x):
        x = np.atleast_2d(x)
        self.seen += 1
        u = x.dot(self.w) + self.ph
        return (self.base + 1. + np.sin(u))[:, None], np.cos(u)[:, None] * self.w


cost_par = st.tuples(gen.fl(0.1, 5, 2), st.lists(gen.fl(-2, 2, 2), min_size=1, max_size=3), gen.fl(0, 6, 2)).map(list)


@st.composite
def given_case(draw):
    dom = draw(gen.domain(max_vars=3, max_dim=2, max_cols=4, bandit=None))
    lay = gen.Layout(dom)
    return {'dom': dom, 'coef': draw(gen.coefs), 'X0': draw(gen.points(lay, 2, 5)), 'Q': draw(st.lists(st.lists(gen.fl(0, 1, 3), min_size=lay.n_model, max_size=lay.n_model), min_size=1, max_size=4)),
            'cost': draw(st.one_of(st.none(), cost_par, cost_par, cost_par)), 'acq': draw(st.sampled_from(['EI', 'EI', 'MPI', 'LCB'])), 'through': draw(st.sampled_from(['main', 'parts'])), 'seed': draw(gen.seeds)}


def acquisition(c, lay, cost):
    import GPyOpt
    from GPyOpt.core.task.cost import CostModel
    f = gen.Objective(c['coef'])
    X = np.array(c['X0'], dtype=float)
    Y = np.array([[f.value(x)] for x in X])
    m = loops.TinyGP(lay.model_bounds())
    if c['through'] == 'main':
        bo = GPyOpt.methods.BayesianOptimization(f=f, domain=gen.build_domain(c['dom']), X=X, Y=Y, model=m, acquisition_type=c['acq'], cost_withGradients=cost, acquisition_jitter=0.3, acquisition_weight=1.5)
        bo.run_optimization(max_iter=0)
        return bo.acquisition, m
    space = GPyOpt.Design_space(gen.build_domain(c['dom']))
    m.updateModel(np.array([lay.encode(x) for x in X]), Y, None, None)
    A = {'EI': GPyOpt.acquisitions.AcquisitionEI, 'MPI': GPyOpt.acquisitions.AcquisitionMPI, 'LCB': GPyOpt.acquisitions.AcquisitionLCB}[c['acq']]
    par = {'exploration_weight': 1.5} if c['acq'] == 'LCB' else {'jitter': 0.3}
    return A(m, space, None, CostModel(cost).cost_withGradients if cost is not None else None, **par), m


@sub(P, 'given', given_case, 700, 12000, 'a cost of the user used by the acquisition', shards=2)
def given(c, info):
    from GPyOpt.core.task.cost import CostModel
    lay = gen.Layout(c['dom'])
    b = np.array(lay.model_bounds(), dtype=float)
    Q = b[:, 0] + (b[:, 1] - b[:, 0]) * np.array(c['Q'])
    cost = UserCost(c['cost'], lay.n_model) if c['cost'] else None
    v, g = CostModel(cost).cost_withGradients(Q)
    if cost is None:
        if np.shape(v) != (len(Q), 1) or np.shape(g) != Q.shape or not np.all(np.asarray(v) == 1) or np.any(g):
            raise Violation('without a cost: values %r, gradients %r' % (np.asarray(v).tolist(), np.asarray(g).tolist()))
    else:
        rv, rg = cost(Q)
        if not np.array_equal(v, rv) or not np.array_equal(g, rg):
            raise Violation('cost of the user: values %r instead of %r' % (np.asarray(v).tolist(), rv.tolist()))
    a, m = acquisition(c, lay, cost)
    a0, m0 = acquisition(c, lay, None)
    # the optimiser was built on the same data: only the cost differs
    A, A0 = np.asarray(a.acquisition_function(Q)), np.asarray(a0.acquisition_function(Q))
    F, G = a.acquisition_function_withGradients(Q)
    F0, G0 = a0.acquisition_function_withGradients(Q)
    if cost is None or c['acq'] == 'LCB':
        rv, rg = np.ones((len(Q), 1)), np.zeros(Q.shape)
    for got, base in ((A, A0), (F, F0)):
        if got.shape != (len(Q), 1) or not np.allclose(got, base / rv, rtol=1e-9, atol=1e-12):
            raise Violation('%s with the cost %r: values %r, without cost %r' % (c['acq'], rv.ravel().tolist(), got.ravel().tolist(), base.ravel().tolist()))
    ref = (G0 * rv - F0 * rg) / rv ** 2
    if not np.allclose(G, ref, rtol=1e-7, atol=1e-10):
        raise Violation('%s with a cost: gradient %r, expected %r' % (c['acq'], np.asarray(G).tolist(), ref.tolist()))
    info.label(c['acq'], c['through'], 'no cost' if cost is None else 'cost')
    info.nontrivial(cost is not None and c['acq'] != 'LCB')


# -------------------------------------------------------------------------------------------------------- measured costs
@st.composite
def timed_case(draw):
    d = draw(st.integers(1, 2))
    n = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 11, 22]))
    row = st.lists(gen.fl(0, 1, 3), min_size=d, max_size=d)
    return {'d': d, 'low': draw(st.sampled_from([1e-4, 0.01, 1.])), 'ratio': draw(st.sampled_from([20., 100., 1000.])), 'seed': draw(gen.seeds), 'shape': draw(st.sampled_from(['list', 'column', 'flat'])),
            'parts': draw(st.lists(st.lists(row, min_size=1, max_size=4), min_size=n, max_size=n)), 'Q': draw(st.lists(row, min_size=1, max_size=3))}


def duration(c, x):
    return c['low'] * (c['ratio'] if x[0] > 0.5 else 1.) * (1 + 0.05 * np.sin(5 * np.sum(x)))


@sub(P, 'measured', timed_case, 48, 900, 'both fast and slow configurations, several updates', shards=4)
def measured(c, info):
    """The model of the evaluation time, fed directly."""
    from GPyOpt.core.task.cost import CostModel
    cm = CostModel('evaluation_time')
    Q = np.array(c['Q'], dtype=float)
    check_positive(cm, Q)
    X = np.zeros((0, c['d']))
    T = []
    for part in c['parts']:
        P_ = np.array(part, dtype=float)
        t = [duration(c, x) for x in P_]
        P0 = P_.copy()
        cm.update_cost_model(P_, t if c['shape'] == 'list' else np.array(t)[:, None] if c['shape'] == 'column' else np.array(t))
        if not np.array_equal(P_, P0):
            raise Violation('the inputs were changed')
        X, T = np.vstack([X, P_]), T + t
    judge(cm, X, np.array(T), np.vstack([Q, X[:3]]), info, len(c['parts']) > 1)


def check_positive(cm, Q):
    v, g = cm.cost_withGradients(Q)
    v, g = np.asarray(v), np.asarray(g)
    if v.shape != (len(Q), 1) or g.shape != Q.shape or not np.all(np.isfinite(v)) or not np.all(v > 0):
        raise Violation('cost %r with gradient of shape %r for %d configurations' % (v.tolist(), g.shape, len(Q)))
    return v, g


def judge(cm, X, T, Q, info, several):
    gp = cm.cost_model.model
    hx, ht = np.asarray(gp.X), np.exp(np.asarray(gp.Y).ravel())
    key = lambda A, t: sorted((tuple(np.round(a, 10)), round(float(np.log(v)), 8)) for a, v in zip(A, t))
    if len(hx) != len(X) or key(hx, ht) != key(X, T):
        raise Violation('evaluated and timed were %r, the cost was learned from %r' % (list(zip(X.tolist(), T.tolist())), list(zip(hx.tolist(), ht.tolist()))))
    v, g = check_positive(cm, Q)
    h = 1e-5
    for j in range(Q.shape[1]):
        e = np.zeros(Q.shape[1])
        e[j] = h
        fd = (cm.cost_withGradients(Q + e)[0] - cm.cost_withGradients(Q - e)[0])[:, 0] / (2 * h)
        if not np.allclose(fd, g[:, j], rtol=2e-3, atol=2e-3 * (np.abs(v).max() + np.abs(fd).max())):
            raise Violation('gradient of the cost in dimension %d: %r, difference quotients %r' % (j, g[:, j].tolist(), fd.tolist()))
    slow, fast = X[T > 5 * T.min()], X[T <= 5 * T.min()]
    clear = len(slow) > 2 and len(fast) > 2 and min(np.abs(a - b).max() for a in slow for b in fast) > 0.1
    if clear:
        vs, vf = cm.cost_withGradients(slow)[0], cm.cost_withGradients(fast)[0]
        if np.median(vs) <= np.median(vf):
            raise Violation('the slow configurations %r have the costs %r, the fast ones %r %r' % (slow.tolist(), vs.ravel().tolist(), fast.tolist(), vf.ravel().tolist()))
        info.label('ranking checked')
    info.nontrivial(len(slow) and len(fast) and several)


@st.composite
def run_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random'), max_cols=3, max_batch=3, bandit=None, acqs=('EI', 'MPI'), max_init=5))
    c['modular'] = draw(st.integers(0, 2)) == 0
    c['low'], c['ratio'] = draw(st.sampled_from([1e-3, 1.])), draw(st.sampled_from([20., 200.]))
    c['ops'] = draw(st.lists(st.integers(0, 2), min_size=1, max_size=2))
    c['cores'] = draw(st.sampled_from([1, 1, 1, 1, 2]))
    return c


@sub(P, 'timed-runs', run_case, 48, 900, 'durations differ', shards=4)
def timed_runs(c, info):
    """Runs with the measured time as cost; the clock is moved by the objective only."""
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    coef = np.array(c['coef'])
    times = {}

    def dt(x):
        return c['low'] * (c['ratio'] if f.value(x) > 0 else 1.)
    with FakeClock(1000.) as clock:
        def timed(x):
            clock.t += dt(x)
            return f(x)
        timed.value = f.value
        np.random.seed(c['seed'])
        if c['modular']:
            from GPyOpt.core.task.cost import CostModel
            cm = CostModel('evaluation_time')
            bo = loops.make_modular(c, timed, cost=cm)
            bo.acquisition.cost_withGradients = cm.cost_withGradients
        else:
            kw = {'num_cores': c['cores']} if c['cores'] > 1 else {}
            bo = loops.make(c, timed, cost_withGradients='evaluation_time', **kw)
        for n in c['ops']:
            bo.run_optimization(max_iter=n, eps=-1)
        X = np.asarray(bo.X, dtype=float)
        if c['init'] == 'XY':
            X = X[c['n0']:]
        T = np.array([dt(x) for x in X])
        if c['cores'] > 1 and not c['modular']:
            # several workers: every configuration counts the same
            T = np.ones(len(X))
        cm = bo.cost
        Q = np.array([lay.encode(x) for x in c.get('X0', np.asarray(bo.X)[:2])], dtype=float)[:3]
        info.label('modular' if c['modular'] else 'main', 'init ' + c['init'], '%d workers' % c['cores'])
        if not len(X):
            check_positive(cm, Q)
            return
        if T.max() / T.min() > 1 and c['cores'] == 1 and cm.cost_type != 'evaluation_time':
            raise Violation('the type of the cost is %r' % cm.cost_type)
        judge(cm, np.array([lay.encode(x) for x in X], dtype=float), T, Q, info, True)
        # the acquisition of the optimizer uses it
        a = bo.acquisition
        v = np.asarray(a.acquisition_function(Q)) * np.asarray(cm.cost_withGradients(Q)[0])
        saved = a.cost_withGradients
        a.cost_withGradients = lambda x: (np.ones((len(x), 1)), np.zeros(np.shape(x)))
        w = np.asarray(a.acquisition_function(Q))
        a.cost_withGradients = saved
        if not np.allclose(v, w, rtol=1e-8, atol=1e-12):
            raise Violation('the acquisition times the learned cost is %r, without cost it is %r' % (v.ravel().tolist(), w.ravel().tolist()))
