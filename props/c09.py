"""C09 acquisition values."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, stubs, acqref
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space
from GPyOpt.acquisitions import AcquisitionEI, AcquisitionLCB, AcquisitionMPI, select_acquisition
from GPyOpt.methods import BayesianOptimization
from GPyOpt.core.task.cost import CostModel

P = 'C09'
CLS = {'EI': AcquisitionEI, 'MPI': AcquisitionMPI, 'LCB': AcquisitionLCB}


def cost_fn(p):
    a, b = p

    def f(x):
        x = np.atleast_2d(x)
        c = a + b * np.sin(x).sum(1)[:, None] / x.shape[1]
        return c, b * np.cos(x) / x.shape[1]
    return f


costs = st.sampled_from([None, None, [2., 1.], [0.5, 0.2], [10., 9.], [1., 0.], [300., 100.], [2e-5, 1e-5], [1e-3, 8e-4], [1e6, 5e5]])


@st.composite
def case(draw, small_s=True):
    d = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 7]))
    X = draw(st.lists(st.lists(gen.fl(-4, 4), min_size=d, max_size=d), min_size=1, max_size=5))
    X = X + draw(gen.extra(d, -4, 4, 0, 1, (0,) * 12 + (20, 70), 0))[0]
    return {'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB'])), 'X': X, 'p': draw(stubs.model_params(small_s)),
            'jitter': draw(st.sampled_from([0.01, 0., 0.1, 0.5, 1., 3.])), 'w': draw(st.sampled_from([2, 0, 0.5, 1., 5.])),
            'cost': draw(costs), 'default': draw(st.integers(0, 4)) == 0, 'past': draw(stubs.past())}


def space_of(d):
    return Design_space([{'name': 'x', 'type': 'continuous', 'domain': (-5, 5), 'dimensionality': d}])


def make(c, model, d):
    kw = {}
    if c['cost'] is not None:
        kw['cost_withGradients'] = cost_fn(c['cost'])
    if not c['default']:
        kw['exploration_weight' if c['acq'] == 'LCB' else 'jitter'] = c['w'] if c['acq'] == 'LCB' else c['jitter']
    return CLS[c['acq']](model, space_of(d), None, **kw), (0.01 if c['default'] else c['jitter']), (2 if c['default'] else c['w'])


def close(a, b, scale):
    return np.all(np.abs(a - b) <= 1e-9 * scale + 1e-9 * np.abs(b))


@sub(P, 'closed_form', lambda: case(), 1500, 40000, 'several rows, or a cost, or a deviation below 1e-3')
def closed_form(c, info):
    X = np.array(c['X'])
    model = stubs.FuncModel(c['p'])
    acq, j, w = make(c, model, X.shape[1])
    stubs.live(acq, model, c['past'], X)
    m, s = model.mean_std(X)
    b = c['p']['fmin']
    f = acqref.value(c['acq'], m, s, b, j, w)
    cost = cost_fn(c['cost'])(X)[0] if c['cost'] is not None and c['acq'] != 'LCB' else np.ones((len(X), 1))
    ref = -f / cost
    got = np.asarray(acq.acquisition_function(X), dtype=float)
    info.nontrivial(len(X) > 1 or c['cost'] is not None or s.min() < 1e-3)
    info.label(c['acq'], 'cost' if c['cost'] is not None else 'no cost', 's ~ %.0e' % c['p']['s0'])
    if got.shape != (len(X), 1):
        raise Violation('acquisition of %d rows has shape %r' % (len(X), got.shape))
    if not np.all(np.isfinite(got)):
        raise Violation('%s is not finite: %r' % (c['acq'], got.tolist()))
    if c['acq'] != 'LCB' and got.max() > 1e-12:
        raise Violation('%s is negative: %r' % (c['acq'], (-got).tolist()))
    if c['acq'] == 'MPI' and (-got * cost).max() > 1 + 1e-12:
        raise Violation('probability of improvement above one: %r' % (-got * cost).tolist())
    sc = 1. + np.abs(b - m) + s
    if c['acq'] == 'MPI':
        sc = np.ones_like(m)
    if not np.all(np.abs(got - ref) <= 1e-9 * sc / cost + 1e-9 * np.abs(ref)):
        raise Violation('%s(jitter=%r, weight=%r) with m=%r s=%r b=%r cost=%r is %r, expected %r' % (
            c['acq'], j, w, m.ravel().tolist(), s.ravel().tolist(), b, cost.ravel().tolist(), got.ravel().tolist(), ref.ravel().tolist()))
    for i in range(len(X)):
        one = np.asarray(acq.acquisition_function(X[[i]]), dtype=float)
        if one.shape != (1, 1) or abs(one[0, 0] - got[i, 0]) > 1e-12 * (1 / float(cost[i, 0]) + abs(got[i, 0])):
            raise Violation('row %d alone is worth %r, with the others %r' % (i, one.tolist(), got[i, 0]))
    again = np.asarray(acq.acquisition_function(X), dtype=float)
    if not np.array_equal(again, got):
        raise Violation('the same rows are worth %r the second time, %r the first' % (again.tolist(), got.tolist()))


@st.composite
def tail_case(draw):
    c = draw(case())
    c['acq'] = draw(st.sampled_from(['EI', 'MPI']))
    c['gap'] = draw(st.sampled_from([0., 1e-9, 1e-3, 0.1, 1., 5., 7., 8.2, 8.5, 9., 12., 20., 37., 50., 1e3, 1e6]))
    c['sign'] = draw(st.sampled_from([1, -1]))
    c['p']['s0'] = draw(st.sampled_from([0., 1e-300, 1e-14, 1e-10, 1e-8, 1e-5, 1e-2, 1., 1e3]))
    return c


@sub(P, 'tails', lambda: tail_case(), 700, 20000, 'every case: means up to a million deviations from the incumbent, deviations down to zero')
def tails(c, info):
    X = np.array(c['X'])
    model = stubs.FuncModel(c['p'])
    m, s = model.mean_std(X)
    c['p']['fmin'] = float(m[0, 0] + c['sign'] * c['gap'] * max(s[0, 0], 1e-10))
    acq, j, w = make(c, model, X.shape[1])
    v = np.asarray(acq.acquisition_function(X), dtype=float)
    cost = cost_fn(c['cost'])(X)[0] if c['cost'] is not None else np.ones((len(X), 1))
    info.nontrivial()
    if not np.all(np.isfinite(v)):
        raise Violation('%s is not finite for s=%r' % (c['acq'], s.ravel().tolist()))
    if v.max() > 0:
        raise Violation('%s is negative: %r' % (c['acq'], (-v).ravel().tolist()))
    if c['acq'] == 'MPI' and (-v * cost).max() > 1 + 1e-12:
        raise Violation('probability above one')
    ref = acqref.value(c['acq'], m, s, c['p']['fmin'], j, w) / cost
    sc = (np.abs(c['p']['fmin'] - m - j) + s + 1e-9) if c['acq'] == 'EI' else np.ones_like(m)
    # u = (b-m-j)/s is sensitive to rounding when s is tiny
    u = (c['p']['fmin'] - m - j) / acqref.clip(s)
    slack = 1e-9 + 1e-15 * (np.abs(m) + abs(c['p']['fmin']) + j) / acqref.clip(s)
    if c['acq'] == 'EI':
        slack = 1e-9 + 0 * slack
    if not np.all(np.abs(-v - ref) <= (slack * sc + 1e-9 * np.abs(ref) + 1e-15) / np.minimum(cost, 1)):
        raise Violation('%s is %r, expected %r (u=%r)' % (c['acq'], (-v).ravel().tolist(), ref.ravel().tolist(), u.ravel().tolist()))
    # the lower tail is small but not arbitrary: relative accuracy as far as the rounding of u allows it
    du = 4e-16 * (np.abs(m) + abs(c['p']['fmin']) + j) / acqref.clip(s)
    rel = 1e-6 + 4 * np.abs(u) * du
    tail = (u < 0) & (u > -25) & (rel < 0.1)
    if tail.any():
        info.label('lower tail' if (u[tail] < -5).any() else 'moderate')
    if np.any(tail & (np.abs(-v * cost - ref * cost) > rel * ref * cost)):
        raise Violation('%s is %r, expected %r (u=%r): inaccurate lower tail' % (c['acq'], (-v).ravel().tolist(), ref.ravel().tolist(), u.ravel().tolist()))


@st.composite
def gp_case(draw):
    dom = draw(gen.domain(max_vars=3, max_dim=2, max_cols=3))
    lay = gen.Layout(dom)
    X = draw(gen.points(lay, 3, 6, distinct=lay.n_distinct() > 30))
    return {'dom': dom, 'X': X, 'Xq': draw(gen.points(lay, 1, 4, many=True)), 'coef': draw(gen.coefs), 'acq': draw(st.sampled_from(['EI', 'MPI', 'LCB'])),
            'jitter': draw(st.sampled_from([0.01, 0., 0.2, 1.])), 'w': draw(st.sampled_from([2, 0.5, 4.])), 'cost': draw(costs),
            'norm': draw(st.booleans()), 'seed': draw(gen.seeds)}


@sub(P, 'gp', lambda: gp_case(), 60, 1500, 'every case: acquisition built by the main optimizer on a fitted Gaussian process', shards=3)
def gp(c, info):
    lay = gen.Layout(c['dom'])
    X = np.array(c['X'], dtype=float)
    f = gen.Objective(c['coef'])
    Y = np.array([[f.value(x)] for x in X])
    kw = {'acquisition_weight': c['w']} if c['acq'] == 'LCB' else {'acquisition_jitter': c['jitter']}
    bo = BayesianOptimization(None, gen.build_domain(c['dom']), X=X, Y=Y, acquisition_type=c['acq'], normalize_Y=c['norm'],
                              cost_withGradients=cost_fn(c['cost']) if c['cost'] else None, max_iters=20, optimize_restarts=1, **kw)
    bo.suggest_next_locations()
    Z = np.array([lay.encode(np.array(x)) for x in c['Xq']])
    m, s = bo.model.predict(Z)
    b = bo.model.get_fmin()
    cost = cost_fn(c['cost'])(Z)[0] if c['cost'] and c['acq'] != 'LCB' else 1.
    ref = -acqref.value(c['acq'], m, s, b, c['jitter'], c['w']) / cost
    got = np.asarray(bo.acquisition.acquisition_function(Z), dtype=float)
    info.nontrivial()
    info.label(c['acq'])
    if got.shape != ref.shape or not np.all(np.abs(got - ref) <= 1e-9 / cost + 1e-6 * np.abs(ref)):
        raise Violation('%s is %r, expected %r' % (c['acq'], got.ravel().tolist(), ref.ravel().tolist()))
