"""C27 benchmark functions."""
import math

import numpy as np
import scipy.optimize
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation

P = 'C27'
pi, sin, cos, sqrt, exp = math.pi, math.sin, math.cos, math.sqrt, math.exp


def goldstein(x, y):
    return ((1 + (x + y + 1) ** 2 * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) *
            (30 + (2 * x - 3 * y) ** 2 * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)))


def branin(x, y, a=1., b=5.1 / (4 * pi ** 2), c=5 / pi, r=6., s=10., t=1 / (8 * pi)):
    return a * (y - b * x * x + c * x - r) ** 2 + s * (1 - t) * cos(x) + s


def prod(l):
    r = 1.
    for v in l:
        r *= v
    return r


TWO = {
    'rosenbrock': (lambda x, y: 100 * (y - x * x) ** 2 + (x - 1) ** 2, [(-.5, 3), (-1.5, 2)], [(1, 1)], 0.),
    'beale': (lambda x, y: (1.5 - x + x * y) ** 2 + (2.25 - x + x * y * y) ** 2 + (2.625 - x + x * y ** 3) ** 2, [(-4.5, 4.5)] * 2, [(3, .5)], 0.),
    'dropwave': (lambda x, y: -(1 + cos(12 * sqrt(x * x + y * y))) / (.5 * (x * x + y * y) + 2), [(-1, 1)] * 2, [(0, 0)], -1.),
    'cosines': (lambda x, y: -(1 - ((1.6 * x - .5) ** 2 + (1.6 * y - .5) ** 2 - .3 * cos(3 * pi * (1.6 * x - .5)) - .3 * cos(3 * pi * (1.6 * y - .5)))), [(0, 1)] * 2, [(.3125, .3125)], -1.6),
    'branin': (branin, [(-5, 10), (1, 15)], [(-pi, 12.275), (pi, 2.275), (9.42478, 2.475)], .397887),
    'goldstein': (goldstein, [(-2, 2)] * 2, [(0, -1)], 3.),
    'sixhumpcamel': (lambda x, y: (4 - 2.1 * x * x + x ** 4 / 3.) * x * x + x * y + (-4 + 4 * y * y) * y * y, [(-2, 2), (-1, 1)], [(.0898, -.7126), (-.0898, .7126)], -1.0316),
    'mccormick': (lambda x, y: sin(x + y) + (x - y) ** 2 - 1.5 * x + 2.5 * y + 1, [(-1.5, 4), (-3, 4)], [(-.54719, -1.54719)], -1.9133),
    'powers': (lambda x, y: abs(x) ** 2 + abs(y) ** 3, [(-1, 1)] * 2, [(0, 0)], 0.),
    'eggholder': (lambda x, y: -(y + 47) * sin(sqrt(abs(y + x / 2. + 47))) - x * sin(sqrt(abs(x - (y + 47)))), [(-512, 512)] * 2, [(512, 404.2319)], -959.6407),
}
MANY = {
    'alpine1': (lambda *v: sum(abs(x * sin(x) + .1 * x) for x in v), (-10, 10), 0., lambda n: 0.),
    'alpine2': (lambda *v: -prod(sqrt(x) * sin(x) for x in v), (1, 10), 7.917, lambda n: -2.808 ** n),
    'ackley': (lambda *v: 20 + exp(1) - 20 * exp(-.2 * sqrt(sum(x * x for x in v) / len(v))) - exp(sum(cos(2 * pi * x) for x in v) / len(v)), (-32.768, 32.768), 0., lambda n: 0.),
}


@st.composite
def case(draw, noise=False):
    fam = draw(st.sampled_from(['two', 'two', 'two', 'many', 'many', 'gSobol', 'forrester', 'branin']))
    c = {'fam': fam, 'seed': draw(gen.seeds)}
    if fam == 'two':
        c['name'], c['d'] = draw(st.sampled_from(sorted(TWO))), 2
        box = TWO[c['name']][1]
    elif fam == 'branin':
        c['name'], c['d'] = 'branin', 2
        c['par'] = {k: draw(st.one_of(gen.fl(0.1, 8, 2), st.sampled_from([0., 1., -1.]))) for k in draw(st.lists(st.sampled_from('abcrst'), min_size=1, max_size=6, unique=True))}
        box = TWO['branin'][1]
    elif fam == 'many':
        c['name'], c['d'] = draw(st.sampled_from(sorted(MANY))), draw(st.integers(1, 5))
        box = [MANY[c['name']][1]] * c['d']
    elif fam == 'gSobol':
        c['name'], c['a'] = 'gSobol', draw(st.lists(gen.fl(0.1, 5, 2), min_size=1, max_size=4))
        c['d'] = len(c['a'])
        box = [(-4, 6)] * c['d']
    else:
        c['name'], c['d'], box = 'forrester', 1, [(0, 1)]
    if fam != 'forrester' and draw(st.integers(0, 3)) == 0:
        # bounds of the user
        c['bounds'] = [sorted(draw(st.lists(gen.fl(l, h, 2), min_size=2, max_size=2, unique=True))) for l, h in box]
        box = c['bounds']
    row = st.tuples(*[gen.fl(float(l), float(h), 3) for l, h in box]).map(list)
    c['X'] = draw(st.lists(row, min_size=1, max_size=8))
    c['form'] = draw(st.sampled_from(['matrix', 'matrix', 'list', 'fortran', 'integer', 'row']))
    if noise:
        c['sd'] = draw(st.sampled_from([0.01, 0.1, 1., 5.]))
    return c


def build(c, **kw):
    from GPyOpt.objective_examples import experiments1d, experiments2d, experimentsNd
    if c['fam'] == 'forrester':
        return experiments1d.forrester(**kw)
    if c.get('bounds'):
        kw['bounds'] = [tuple(b) for b in c['bounds']]
    if c['fam'] in ('two', 'branin'):
        kw.update(c.get('par', {}))
        return getattr(experiments2d, c['name'])(**kw)
    if c['fam'] == 'gSobol':
        return experimentsNd.gSobol(np.array(c['a']), **kw)
    return getattr(experimentsNd, c['name'])(c['d'], **kw)


def formula(c):
    if c['fam'] == 'forrester':
        return lambda x: (6 * x - 2) ** 2 * sin(12 * x - 4)
    if c['fam'] == 'branin':
        return lambda x, y: branin(x, y, **c['par'])
    if c['fam'] == 'gSobol':
        return lambda *v: prod((abs(4 * x - 2) + a) / (1 + a) for x, a in zip(v, c['a']))
    return (TWO if c['fam'] == 'two' else MANY)[c['name']][0]


def inputs(c):
    X = np.array(c['X'], dtype=float)
    form = c['form']
    if form == 'integer':
        X = np.round(X)
        if c['name'] == 'alpine2':
            X = np.maximum(X, 1)
        return X.astype(int), X
    if form == 'row':
        X = X[:1]
        return X[0].copy(), X
    if form == 'list' and c['fam'] != 'forrester':
        return X.tolist(), X
    if form == 'fortran':
        return np.asfortranarray(X), X
    return X.copy(), X


@sub(P, 'formulas', case, 600, 30000, 'more than one row, or a single configuration given as a vector', shards=2)
def formulas(c, info):
    g = build(c)
    A, X = inputs(c)
    A0 = np.array(A, copy=True)
    with np.errstate(all='ignore'):
        Y = np.asarray(g.f(A))
    if not np.array_equal(np.asarray(A), A0):
        raise Violation('%s changes its input' % c['name'])
    if Y.shape != (len(X), 1):
        raise Violation('%s returns values of shape %r for %d rows' % (c['name'], Y.shape, len(X)))
    f = formula(c)
    for x, y in zip(X, Y):
        ref = f(*[float(v) for v in x])
        if not abs(y[0] - ref) <= 1e-9 * (1 + abs(ref)):
            raise Violation('%s%r is %r, by its formula %r' % (c['name'], tuple(x), y[0], ref))
    if c.get('bounds') and [tuple(b) for b in g.bounds] != [tuple(b) for b in c['bounds']]:
        raise Violation('%s has the bounds %r instead of %r' % (c['name'], g.bounds, c['bounds']))
    if c['fam'] != 'branin':
        # zero deviation is the same as none
        if not np.array_equal(Y, np.asarray(build(c, sd=0).f(A))):
            raise Violation('%s with the deviation zero differs from the function without noise' % c['name'])
    info.label(c['name'], c['form'])
    info.nontrivial(len(X) > 1 or c['form'] == 'row')


@st.composite
def min_case(draw):
    fam = draw(st.sampled_from(['two', 'two', 'many', 'forrester']))
    c = {'fam': fam, 'seed': draw(gen.seeds)}
    if fam == 'two':
        c['name'], c['d'] = draw(st.sampled_from(sorted(TWO))), 2
    elif fam == 'many':
        c['name'], c['d'] = draw(st.sampled_from(sorted(MANY))), draw(st.integers(1, 5))
    else:
        c['name'], c['d'] = 'forrester', 1
    c['start'] = draw(st.lists(gen.fl(0, 1, 3), min_size=c['d'], max_size=c['d']))
    c['near'] = draw(st.booleans())
    return c


@sub(P, 'minima', min_case, 250, 8000, 'a local search improved on its start', shards=2)
def minima(c, info):
    g = build(c)
    box = [(0, 1)] if c['fam'] == 'forrester' else TWO[c['name']][1] if c['fam'] == 'two' else [MANY[c['name']][1]] * c['d']
    if [tuple(float(v) for v in b) for b in g.bounds] != [tuple(float(v) for v in b) for b in box]:
        raise Violation('%s has the bounds %r' % (c['name'], g.bounds))
    if c['fam'] == 'forrester':
        pts, best = [(0.757249,)], -6.020740
    elif c['fam'] == 'two':
        _, _, pts, best = TWO[c['name']]
    else:
        pts, best = [(MANY[c['name']][2],) * c['d']], MANY[c['name']][3](c['d'])
    doc = [np.ravel(np.array(m, dtype=float)) for m in (g.min if c['fam'] == 'two' else [g.min])]
    tol = 1e-3 * max(1., abs(best)) * max(1, c['d'] - 1)
    if abs(float(g.fmin) - best) > 1e-4 * max(1., abs(best)):
        raise Violation('%s documents the minimum %r instead of %r' % (c['name'], g.fmin, best))
    for m in doc:
        if m.size != c['d']:
            raise Violation('%s in %d dimensions documents the minimiser %r' % (c['name'], c['d'], m.tolist()))
        v = float(np.ravel(g.f(m.reshape(1, -1)))[0])
        if abs(v - float(g.fmin)) > tol:
            raise Violation('%s has the value %r at its documented minimiser %r, documented is %r' % (c['name'], v, m.tolist(), g.fmin))
        if any(x < b[0] - 1e-6 or x > b[1] + 1e-6 for x, b in zip(m, g.bounds)):
            raise Violation('%s: documented minimiser %r outside the bounds %r' % (c['name'], m.tolist(), g.bounds))
    lo, hi = np.array(box, dtype=float).T
    s = lo + (hi - lo) * np.array(c['start'])
    if c['near']:
        s = np.clip(doc[c['seed'] % len(doc)] + 0.05 * (hi - lo) * (np.array(c['start']) - 0.5), lo, hi)
    f = lambda x: float(np.ravel(g.f(np.asarray(x).reshape(1, -1)))[0])
    with np.errstate(all='ignore'):
        r = scipy.optimize.minimize(f, s, method='L-BFGS-B', bounds=list(zip(lo, hi)), options={'maxiter': 60})
    for x in (s, np.clip(r.x, lo, hi)):
        if f(x) < float(g.fmin) - tol:
            raise Violation('%s has the value %r at %r, documented minimum %r' % (c['name'], f(x), np.ravel(x).tolist(), g.fmin))
    info.label(c['name'])
    info.nontrivial(r.fun < f(s) - 1e-9)


@sub(P, 'noise', lambda: case(noise=True), 250, 5000, 'always', shards=2)
def noise(c, info):
    g, sd = build(c, sd=c['sd']), c['sd']
    f = formula(c)
    n = 3000
    X = np.array(c['X'], dtype=float)
    big = np.tile(X, (n // len(X) + 1, 1))[:n]
    exact = np.array([f(*[float(v) for v in x]) for x in X])
    exact = np.tile(exact, n // len(X) + 1)[:n]
    np.random.seed(c['seed'] % (2 ** 32 - 1))
    Y = [np.asarray(g.f(big)) for _ in range(2)]
    for y in Y:
        if y.shape != (n, 1):
            raise Violation('%s with noise returns values of shape %r for %d rows' % (c['name'], y.shape, n))
    e = [y.ravel() - exact for y in Y]
    for v in e:
        if abs(v.mean()) > 6 * sd / math.sqrt(n):
            raise Violation('%s, deviation %r: mean of the noise %r' % (c['name'], sd, v.mean()))
        if abs(v.std() / sd - 1) > 6 / math.sqrt(2 * n):
            raise Violation('%s, deviation %r: deviation of the noise %r' % (c['name'], sd, v.std()))
        for lag in (1, len(X), len(X) + 1):
            if abs(np.mean(v[:-lag] * v[lag:])) > 6 * sd ** 2 / math.sqrt(n):
                raise Violation('%s: the noise of different rows is correlated (%r)' % (c['name'], np.mean(v[:-lag] * v[lag:]) / sd ** 2))
    if abs(np.mean(e[0] * e[1])) > 6 * sd ** 2 / math.sqrt(n):
        raise Violation('%s: the noise of different calls is correlated' % c['name'])
    one = np.asarray(g.f(X[:1] if c['fam'] == 'forrester' else X[0]))
    if one.shape != (1, 1) or one[0, 0] == exact[0]:
        raise Violation('%s, deviation %r: a single configuration has the value %r, without noise %r' % (c['name'], sd, one.tolist(), exact[0]))
    info.label(c['name'])
    info.nontrivial()
