"""C17 maximisation."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C17'


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(dedup=None, **kw))
    lay = gen.Layout(c['dom'])
    c['ops'] = draw(st.lists(st.sampled_from([0, 1, 1, 2, -1]), min_size=1, max_size=3))
    if c['model'] == 'tiny' and draw(st.integers(0, 14)) == 0:
        c['ops'] = c['ops'][:1] + [12]          # now and then a long run
    c['scale'] = draw(st.sampled_from([1., 1., 10., -3., 1e-3]))
    c['shift'] = draw(st.sampled_from([0., 0., 5., -100.]))
    c['shape'] = draw(st.sampled_from(['col', 'col', 'flat', 'scalar']))
    c['cores'] = draw(st.sampled_from([1] * 7 + [2]))
    if lay.n_distinct() <= 30:
        c.pop('dedup', None)
    return c


def wrap(f, sign, shape):
    def g(x):
        y = sign * f.value(x)
        return np.array([[y]]) if shape == 'col' else np.array([y]) if shape == 'flat' else y
    return g


def drive(c, info):
    f = loops.Obj(c, scale=c['scale'], shift=c['shift'])
    info.label(*loops.labels(c))
    runs = []
    for maximize in (True, False):
        np.random.seed(c['seed'])
        g = wrap(f, 1. if maximize else -1., c['shape'])
        kw = {'maximize': True} if maximize else {}
        if c['init'] == 'XY':
            kw['Y'] = np.array([[-f.value(x)] for x in c['X0']])
        if c['cores'] > 1:
            kw['num_cores'] = c['cores']
        bo = loops.make(c, _with_value(g, f), **kw)
        out = [np.array(bo.X, dtype=float), np.array(bo.Y, dtype=float)]
        for n in c['ops']:
            if n < 0:
                out.append(np.array(bo.suggest_next_locations(), dtype=float))
            else:
                bo.run_optimization(max_iter=n, eps=-1)
                out += [np.array(bo.X, dtype=float), np.array(bo.Y, dtype=float), np.ravel(bo.x_opt).astype(float), np.ravel(bo.fx_opt).astype(float), np.ravel(bo.Y_best)]
        runs.append((bo, out))
    (a, oa), (b, ob) = runs
    for u, v in zip(oa, ob):
        if u.shape != v.shape or not np.array_equal(u, v):
            raise Violation('maximising f gives %r where minimising -f gives %r' % (u.tolist(), v.tolist()))
    for i in range(len(a.X)):
        if a.Y[i, 0] != -f.value(a.X[i]):
            raise Violation('recorded output %r, minus the objective is %r' % (a.Y[i, 0], -f.value(a.X[i])))
    if max(c['ops']) >= 0:
        best = max(f.value(x) for x in a.X)
        if -float(np.ravel(a.fx_opt)[0]) != best:
            raise Violation('reported optimum %r, largest value of the objective %r' % (a.fx_opt, best))
        if f.value(a.x_opt) != best:
            raise Violation('the reported location %r has the value %r, the largest is %r' % (np.ravel(a.x_opt).tolist(), f.value(a.x_opt), best))
    info.nontrivial(len(set(a.Y.ravel())) > 1 and (len(a.X) > c['n0'] or -1 in c['ops']))


def _with_value(g, f):
    g.value = f.value
    return g


@sub(P, 'fast', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling')), 110, 3000, 'two different outputs and at least one proposal', shards=5)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), max_cols=3), 30, 1000, 'two different outputs and at least one proposal', shards=4)
def gp(c, info):
    drive(c, info)
