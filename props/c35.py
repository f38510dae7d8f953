"""C35 optimisation makes progress."""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation

from GPyOpt.methods import BayesianOptimization

P = 'C35'
RUNS = 9


@st.composite
def case(draw, d):
    ev = draw(st.sampled_from(['sequential', 'sequential', 'random', 'local_penalization', 'thompson_sampling']))
    norm = draw(st.booleans())
    return {'d': d, 'kind': draw(st.sampled_from(['bowl', 'wavy'])), 'acq': draw(st.sampled_from(['EI', 'LCB', 'MPI'])), 'ev': ev, 'norm': norm,
            'max': draw(st.booleans()), 'scale': draw(st.sampled_from([0.01, 1., 250.])) if norm else 1.,
            'off': draw(st.sampled_from([0., 3., -40.])) if norm else 0., 'seed': draw(gen.seeds)}


def regret(c, k):
    """Normalised regret of one run on an objective of its own."""
    d = c['d']
    r = np.random.RandomState((c['seed'] + 7919 * k) % (2 ** 32 - 1))
    centre, w = r.uniform(0.15, 0.85, d), r.uniform(0.5, 2, d)
    lo, wd = r.uniform(-5, 5, d), r.uniform(0.5, 8, d)

    def g(u):
        q = (w * (u - centre) ** 2).sum(-1)
        return q if c['kind'] == 'bowl' else q + 0.07 * (1 - np.cos(2 * np.pi * (u - centre))).sum(-1)
    sign = -1. if c['max'] else 1.

    def f(x):
        return sign * c['scale'] * (g((np.atleast_2d(x) - lo) / wd)[:, None] + c['off'])
    dom = [{'name': 'x%d' % i, 'type': 'continuous', 'domain': (lo[i], lo[i] + wd[i])} for i in range(d)]
    v = g(r.rand(3000, d))
    n0, n = (3, 7) if d == 1 else (4, 13)
    kw = {}
    if c['ev'] != 'sequential':
        kw, n = {'evaluator_type': c['ev'], 'batch_size': 2}, n // 2 + 1
    np.random.seed(r.randint(2 ** 31 - 1))
    bo = BayesianOptimization(f, dom, acquisition_type=c['acq'], exact_feval=True, initial_design_numdata=n0, normalize_Y=c['norm'], maximize=c['max'],
                              optimize_restarts=1, max_iters=100, **kw)
    bo.run_optimization(n, eps=-1)
    return float(g((np.asarray(bo.x_opt) - lo) / wd)) / (v.max() - v.min())


def limit(c):
    if c['acq'] == 'MPI':
        return 2e-2 if c['d'] == 1 else 5e-2
    return 2e-3 if c['d'] == 1 else 1e-2


def check(c, info):
    lim = limit(c)
    good, bad = 0, []
    for k in range(RUNS):
        q = regret(c, k)
        if q <= lim:
            good += 1
        else:
            bad.append(q)
        if good > RUNS // 2 or len(bad) > RUNS // 2:
            break
    info.label('%s %s' % (c['acq'], c['ev']))
    info.label('%d runs above the limit' % len(bad))
    info.nontrivial(good + len(bad) >= 5)
    if len(bad) > RUNS // 2:
        raise Violation('%d of %d runs end with a regret (in units of the range of the objective) above %g: %r' % (len(bad), good + len(bad), lim, bad))


@sub(P, 'one', lambda: case(1), 48, 1500, 'at least five runs were compared with the known optimum', shards=4)
def one(c, info):
    check(c, info)


@sub(P, 'two', lambda: case(2), 24, 700, 'at least five runs were compared with the known optimum', shards=8)
def two(c, info):
    check(c, info)
