"""C07 initial designs."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design

P = 'C07'


def cont_cols(lay):
    return [(b[2][0], b[4]) for b in lay.blocks if b[1] == 'continuous']


def valid(lay, X, n, what):
    X = np.asarray(X)
    if X.shape != (n, lay.n_obj):
        raise Violation('%s has shape %r, expected (%d, %d)' % (what, X.shape, n, lay.n_obj))
    for x in X:
        w = lay.legal_row(x, 1e-9)
        if w:
            raise Violation('%s contains %r: %s' % (what, x.tolist(), w))


@st.composite
def case(draw):
    dom = draw(gen.domain(bandit=None, max_vars=4, max_cols=6))
    return {'dom': dom, 'n': draw(st.one_of(st.integers(1, 40), st.integers(1, 200))), 'seed': draw(gen.seeds)}


@sub(P, 'random', lambda: case(), 400, 10000, 'two or more variables and two or more points')
def random_(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    X = initial_design('random', space, c['n'])
    valid(lay, X, c['n'], 'random design')
    info.nontrivial(len(lay.blocks) > 1 and c['n'] > 1)
    info.label(*set(b[1] for b in lay.blocks))


@st.composite
def reach_case(draw):
    c = draw(case())
    long = [v for v in c['dom'] if v.get('type') == 'discrete']
    if long and draw(st.booleans()):          # now and then far more values
        lo, step = draw(st.integers(-60, 10)), draw(st.sampled_from([1, 2, 0.5]))
        long[0]['domain'] = [lo + step * i for i in range(draw(st.integers(30, 75)) if draw(st.booleans()) else 120)]
    return c


@sub(P, 'random_reaches', lambda: reach_case(), 80, 1500, 'every case: 2500 points drawn', shards=2)
def random_reaches(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    n = 2500 if max(len(b[4]) for b in lay.blocks) < 70 else 5000
    X = np.asarray(initial_design('random', space, n), dtype=float)
    valid(lay, X, n, 'random design')
    info.nontrivial()
    info.label(*set(b[1] for b in lay.blocks))
    # chances of a false alarm: at most 1e-12 per statement below
    for name, kind, oc, _, vals in lay.blocks:
        if kind == 'continuous':
            u = (X[:, oc[0]] - vals[0]) / (vals[1] - vals[0])
            h = np.histogram(u, bins=50, range=(0, 1))[0]
            if h.min() == 0:
                raise Violation('%s: no value in slice %d of 50 among %d points' % (name, int(np.argmin(h)), n))
        else:
            count = [int(np.sum(np.all(X[:, oc] == np.atleast_1d(v), axis=1))) for v in vals]
            if min(count) == 0:
                raise Violation('%s: the value %r never appears among %d points' % (name, vals[int(np.argmin(count))], n))
    for a, b in itertools.combinations(cont_cols(lay), 2):
        u, w = X[:, a[0]], X[:, b[0]]
        if abs(np.corrcoef(u, w)[0, 1]) > 0.3:
            raise Violation('columns %d and %d of a random design are correlated (%.2f)' % (a[0], b[0], np.corrcoef(u, w)[0, 1]))


@st.composite
def latin_case(draw):
    c = draw(case())
    if draw(st.integers(0, 5)) == 0:
        c['n'] = draw(st.integers(60, 700))
    return c


@sub(P, 'latin', latin_case, 300, 8000, 'a continuous dimension and two or more points')
def latin(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    n = c['n']
    X = np.asarray(initial_design('latin', space, n), dtype=float)
    valid(lay, X, n, 'latin design')
    info.nontrivial(len(cont_cols(lay)) > 0 and n > 1)
    info.label('%d continuous' % min(3, len(cont_cols(lay))))
    for col, (lo, hi) in cont_cols(lay):
        u = (X[:, col] - lo) / (hi - lo) * n
        k = np.floor(u).astype(int)
        edge = np.abs(u - np.round(u)) < 1e-6          # on the border of two slices: belongs to either
        if not edge.any() and sorted(k) != list(range(n)):
            miss = sorted(set(range(n)) - set(k))[:3]
            raise Violation('column %d: slices %r of %d have no point' % (col, miss, n))
        if edge.any() and not _matching(u, n):
            raise Violation('column %d: the points cannot be assigned to the %d slices' % (col, n))


def _matching(u, n):
    s = np.sort(u)
    return all(i - 1e-6 <= s[i] <= i + 1 + 1e-6 for i in range(n))


@st.composite
def grid_case(draw):
    c = draw(case())
    d = len(cont_cols(gen.Layout(c['dom'])))
    if d > 1 and draw(st.sampled_from([False, True, True])):
        # next to an exact power
        k = draw(st.integers(2, {2: 40, 3: 12, 4: 6, 5: 4, 6: 3, 7: 3}.get(d, 2)))
        c['n'] = max(1, k ** d + draw(st.sampled_from([0, 0, -1, 1])))
    return c


@sub(P, 'grid', lambda: grid_case(), 300, 8000, 'two or more lattice points per continuous dimension')
def grid(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    n, cc = c['n'], cont_cols(lay)
    X = np.asarray(initial_design('grid', space, n), dtype=float)
    k = 1
    while cc and (k + 1) ** len(cc) <= n:
        k += 1
    m = k ** len(cc) if cc else n
    valid(lay, X, m, 'grid design for %d points' % n)
    info.nontrivial(bool(cc) and k > 1)
    info.label('%d continuous' % min(3, len(cc)))
    if cc and k > 1:
        idx = []
        for col, (lo, hi) in cc:
            t = (X[:, col] - lo) / (hi - lo) * (k - 1)
            if np.max(np.abs(t - np.round(t))) > 1e-6:
                raise Violation('column %d is not equally spaced with both bounds: %r' % (col, sorted(set(X[:, col]))[:5]))
            idx.append(np.round(t).astype(int))
        rows = sorted(zip(*idx))
        if rows != sorted(itertools.product(range(k), repeat=len(cc))):
            raise Violation('the %d points are not all the combinations of %d values in %d dimensions' % (m, k, len(cc)))


@sub(P, 'sobol', lambda: case(), 250, 5000, 'two or more points and a continuous dimension')
def sobol(c, info):
    from sobol_seq import i4_sobol_generate
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    n, cc = c['n'], cont_cols(lay)
    X = np.asarray(initial_design('sobol', space, n), dtype=float)
    valid(lay, X, n, 'sobol design')
    info.nontrivial(bool(cc) and n > 1)
    info.label('%d continuous' % min(3, len(cc)))
    if cc:
        S = i4_sobol_generate(len(cc), n)
        for j, (col, (lo, hi)) in enumerate(cc):
            ref = lo + S[:, j] * (hi - lo)
            if np.max(np.abs(X[:, col] - ref)) > 1e-9 * (1 + abs(lo) + abs(hi)):
                raise Violation('column %d is not the scaled Sobol sequence' % col)


@sub(P, 'noncontinuous_reach', lambda: reach_case(), 40, 600, 'a non-continuous variable', shards=2)
def noncontinuous_reach(c, info):
    """The variables which latin, sobol and grid designs fill randomly take every value."""
    lay = gen.Layout(c['dom'])
    for v in c['dom']:
        if v.get('type') == 'discrete':
            v['domain'] = v['domain'][:40]
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    which = ['latin', 'sobol', 'grid'][c['seed'] % 3]
    X = np.asarray(initial_design(which, space, 1500), dtype=float)
    info.label(which)
    for name, kind, oc, _, vals in lay.blocks:
        if kind != 'continuous' and len(X) >= 700:
            info.nontrivial()
            for v in vals:
                if not np.any(np.all(X[:, oc] == np.atleast_1d(v), axis=1)):
                    raise Violation('%s design: %s never takes the value %r in %d points' % (which, name, v, len(X)))
