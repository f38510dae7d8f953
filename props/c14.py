"""C14 optimisation of the acquisition."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, stubs
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space
from GPyOpt.optimization import AcquisitionOptimizer
from GPyOpt.optimization.acquisition_optimizer import ContextManager
from GPyOpt.optimization.optimizer import OptLbfgs, OptCma, apply_optimizer, choose_optimizer
from GPyOpt.util.duplicate_manager import DuplicateManager

P = 'C14'


class Landscape(object):
    """Smooth function of model coordinates scaled to the unit box: sum_j a_j cos(w_j (u_j - c_j)) plus a bowl.
    Accepts one or several rows; records the points it was asked about."""

    def __init__(self, c, bounds):
        self.lo = np.array([b[0] for b in bounds], dtype=float)
        self.w = np.array([max(b[1] - b[0], 1e-9) for b in bounds], dtype=float)
        d = len(bounds)
        p = np.array(c['land'], dtype=float)
        i = np.arange(d) % len(p)
        self.a, self.om, self.c, self.q = p[i, 0], p[i, 1], p[i, 2], p[i, 3]
        self.scale = c.get('scale', 1.)
        self.a, self.q = self.a * self.scale, self.q * self.scale
        self.asked = []

    def u(self, X):
        X = np.atleast_2d(np.asarray(X, dtype=float))
        self.asked.append(X.copy())
        return (X - self.lo) / self.w

    def val(self, U):
        return (self.a * np.cos(self.om * (U - self.c)) + self.q * (U - self.c) ** 2).sum(1)[:, None]

    def f(self, X):
        return self.val(self.u(X))

    def df(self, X):
        U = self.u(X)
        return (-self.a * self.om * np.sin(self.om * (U - self.c)) + 2 * self.q * (U - self.c)) / self.w

    def f_df(self, X):
        return self.f(X), self.df(X)


lands = st.lists(st.tuples(st.sampled_from([0., 0.5, -1., 2.]), st.sampled_from([1., 3., 0.5, 5.]), gen.fl(-0.2, 1.2, 2), st.sampled_from([1., 0.5, 3.])),
                 min_size=1, max_size=3).map(lambda l: [list(t) for t in l])


scales = st.sampled_from([1., 1., 1., 1e3, 1e6, 1e-3, 1e-9])


@st.composite
def case(draw, finite=False):
    kinds = ('discrete', 'categorical') if finite else draw(st.sampled_from([('continuous',), ('continuous', 'discrete', 'categorical'), ('continuous', 'discrete')]))
    bandit = draw(st.integers(0, 4)) == 0 if finite else False
    dom = draw(gen.domain(kinds, 3, 2, 3, 1, 4, bandit=bandit, need_continuous=not finite))
    if bandit:
        dom = dom[:1] if gen.Layout(dom).n_distinct() > 30 else dom
    lay = gen.Layout(dom)
    while finite and lay.n_distinct() > 30:
        dom = dom[:-1]
        lay = gen.Layout(dom)
    c = {'dom': dom, 'land': draw(lands), 'gradients': draw(st.booleans()), 'opt': 'lbfgs', 'seed': draw(gen.seeds), 'scale': draw(scales)}
    if lay.n_model > 1 and draw(st.integers(0, 9)) == 0 and all(b[0] < b[1] for b in lay.model_bounds()):
        c['opt'] = 'CMA'            # needs two dimensions or more, none of them degenerate
    if not lay.bandit and len(lay.blocks) > 1 and draw(st.integers(0, 2)) == 0:
        ks = draw(st.lists(st.integers(0, len(lay.blocks) - 1), min_size=1, max_size=len(lay.blocks) - 1, unique=True))
        x = draw(gen.points(lay, 1, 1))[0]
        c['context'] = [[lay.blocks[k][0], x[lay.blocks[k][2][0]], k] for k in ks]
        if c['opt'] == 'CMA' and lay.n_model - sum(len(lay.blocks[k][3]) for k in ks) < 2:
            c['opt'] = 'lbfgs'
    if draw(st.integers(0, 2)) == 0:
        c['known'] = draw(gen.points(lay, 1, 6))
    if 'context' not in c and not lay.bandit and draw(st.integers(0, 3)) == 0:
        c['cons'] = draw(gen.constraints(lay, draw(gen.points(lay, 1, 1))[0], 1))
    return c


def sane(bounds):
    """Widths for which the stopping tolerances of L-BFGS (1e-5 on the gradient) and its difference step make sense."""
    return all(0.3 <= b[1] - b[0] <= 40 for b in bounds)


def setup(c):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']), c.get('cons'))
    o = AcquisitionOptimizer(space, c['opt'])
    if c.get('context'):
        o.context_manager = ContextManager(space, {n: v for n, v, _ in c['context']})
    known = np.array([lay.encode(x) for x in c['known']]) if c.get('known') else None
    dup = DuplicateManager(space=space, zipped_X=space.zip_inputs(known)) if known is not None else None
    return lay, space, o, known, dup


def in_context(c, lay, x):
    return all(abs(x[lay.blocks[k][2][0]] - v) < 1e-12 for _, v, k in c.get('context', []))


def legal(c, lay, z, known):
    """What is wrong with the row of model coordinates, or None."""
    bad = lay.legal_model_row(z)
    if bad:
        return bad
    x = lay.decode(z)
    if not in_context(c, lay, x):
        return 'does not keep the context'
    if c.get('cons') and not gen.feasible(c['cons'], x)[0]:
        return 'violates the constraints'
    if known is not None and any(np.array_equal(z, k) for k in known):
        return 'is already known'
    return None


def run(c, o, L, dup):
    f_df = L.f_df if c['gradients'] else None
    r = o.optimize(f=L.f, f_df=f_df, duplicate_manager=dup) if dup is not None else o.optimize(f=L.f, f_df=f_df)
    if len(r) != 2:
        raise Violation('optimize returned %d values' % len(r))
    x, fx = r
    if np.ndim(x) != 2 or np.shape(x)[0] != 1 or np.size(fx) != 1:
        raise Violation('optimize returned a point of shape %r with a value of shape %r' % (np.shape(x), np.shape(fx)))
    return np.asarray(x), float(np.ravel(fx)[0])


def value_ok(L, x, fx):
    ref = float(L.f(x)[0, 0])
    if abs(fx - ref) > 1e-10 * (L.scale + abs(ref)):
        raise Violation('reported value %r, the acquisition at the returned point %r is %r' % (fx, x.tolist(), ref))


@sub(P, 'optimum', lambda: case(), 220, 6000, 'with context, known points, constraints or variables which are rounded', shards=4)
def optimum(c, info):
    lay, space, o, known, dup = setup(c)
    L = Landscape(c, lay.model_bounds())
    free = [k for k in range(len(lay.blocks)) if k not in [q[2] for q in c.get('context', [])]]
    if known is not None and not any(lay.blocks[k][1] == 'continuous' for k in free):
        n = np.prod([len(lay.blocks[k][4]) for k in free])
        if n <= len({tuple(x) for x in c['known'] if in_context(c, lay, x)}):
            return            # nothing left to suggest
    x, fx = run(c, o, L, dup)
    info.label(c['opt'], 'gradients' if c['gradients'] else 'no gradients', *[k for k in ('context', 'known', 'cons') if k in c])
    bad = legal(c, lay, x[0], known)
    if bad:
        raise Violation('the optimum %r %s' % (x.tolist(), bad))
    value_ok(L, x, fx)
    mixed = any(b[1] != 'continuous' for b in lay.blocks)
    info.nontrivial(mixed or 'context' in c or 'known' in c or 'cons' in c)
    rng = np.random.RandomState(c['seed'] % 1000)
    R = np.array([lay.point(u) for u in rng.rand(1500, len(lay.blocks))])
    for _, v, k in c.get('context', []):
        R[:, lay.blocks[k][2][0]] = v
    if c.get('cons'):
        R = R[gen.feasible(c['cons'], R)] if len(R) else R
    if len(R) < 300 or lay.n_distinct() <= 50:
        return
    Z = np.array([lay.encode(x) for x in R])
    vals = L.f(Z)[:, 0]
    if known is not None:
        vals = vals[[not any(np.array_equal(z, k) for k in known) for z in Z]]
    if not any(lay.blocks[k][1] == 'continuous' for k in free):
        return
    rg = vals.max() - vals.min()
    if all(lay.blocks[k][1] == 'continuous' for k in free) and not c.get('cons') and known is None and sane(lay.model_bounds()) and L.scale >= 1:
        limit, what = vals.min() + 1e-4 * rg, 'the best'
    else:
        limit, what = np.quantile(vals, 0.02) + 1e-9 * rg, 'the best 2%'
    if fx > limit:
        raise Violation('optimum %r with value %r; %s of %d random points reach %r' % (x.tolist(), fx, what, len(vals), limit))


@sub(P, 'finite', lambda: case(finite=True), 160, 4000, 'at least two configurations to choose from', shards=3)
def finite(c, info):
    lay, space, o, known, dup = setup(c)
    allz = np.array([lay.encode(x) for x in lay.all_points()])
    L = Landscape(c, lay.model_bounds())
    # give equal-looking configurations different values
    ok = [z for z in allz if legal(c, lay, z, known) is None]
    if not ok:
        info.label('nothing left')
        if known is not None:
            try:
                run(c, o, L, dup)
            except Exception as e:
                if type(e).__name__ != 'FullyExploredOptimizationDomainError':
                    raise
                return
            raise Violation('every configuration is known, yet one was returned')
        return
    info.label(c['opt'], '%d choices' % len(ok), *[k for k in ('context', 'known', 'cons') if k in c])
    info.nontrivial(len(ok) > 1)
    x, fx = run(c, o, L, dup)
    bad = legal(c, lay, x[0], known)
    if bad:
        raise Violation('the optimum %r %s' % (x.tolist(), bad))
    value_ok(L, x, fx)
    best = float(L.f(np.array(ok)).min())
    if fx > best + 1e-12 * (L.scale + abs(best)):
        raise Violation('value %r at %r, but the minimum over the %d configurations is %r' % (fx, x.tolist(), len(ok), best))


@st.composite
def local_case(draw):
    d = draw(st.integers(1, 4))
    b = [draw(gen.bounds()) for _ in range(d)]
    return {'b': b, 'x0': draw(st.lists(gen.unit, min_size=d, max_size=d)), 'land': draw(lands), 'centre': draw(st.lists(gen.fl(-0.5, 1.5, 2), min_size=d, max_size=d)),
            'mode': draw(st.sampled_from(['f', 'f_df', 'df', 'f+df+f_df'])), 'opt': draw(st.sampled_from(['lbfgs'] * 6 + ['CMA'])), 'quad': draw(st.booleans()),
            'twod': draw(st.booleans()), 'by_name': draw(st.booleans()), 'seed': draw(gen.seeds), 'scale': draw(scales)}


@sub(P, 'local', lambda: local_case(), 300, 8000, 'the start is not the result', shards=2)
def local(c, info):
    d = len(c['b'])
    if c['opt'] == 'CMA' and (d == 1 or max(b[1] - b[0] for b in c['b']) > 40 or min(b[1] - b[0] for b in c['b']) < 0.4):
        c['opt'] = 'lbfgs'
    bounds = [tuple(b) for b in c['b']]
    L = Landscape(c, bounds)
    if c['quad']:
        L.a = np.zeros(d)
        L.c = np.array(c['centre'])
    kw = {'f': L.f}
    if c['mode'] in ('df', 'f+df+f_df'):
        kw['df'] = L.df
    if c['mode'] in ('f_df', 'f+df+f_df'):
        kw['f_df'] = L.f_df
    x0 = np.array([b[0] + (b[1] - b[0]) * u for b, u in zip(bounds, c['x0'])])
    x0 = np.minimum(x0, [b[1] for b in bounds])
    if c['by_name']:
        o = choose_optimizer(c['opt'], bounds)
    else:
        o = OptLbfgs(bounds) if c['opt'] == 'lbfgs' else OptCma(bounds)
    keep = x0.copy()
    r = o.optimize(x0[None, :] if c['twod'] and c['opt'] == 'CMA' else x0, **kw)
    info.label(c['opt'], c['mode'], 'quadratic' if c['quad'] else 'wavy')
    if not np.array_equal(x0, keep):
        raise Violation('the starting point was changed')
    x, fx = np.asarray(r[0]), float(np.ravel(r[1])[0])
    if x.shape != (1, d):
        raise Violation('result of shape %r' % (x.shape,))
    for v, b in zip(x[0], bounds):
        if not b[0] <= v <= b[1]:
            raise Violation('result %r outside %r' % (x.tolist(), bounds))
    value_ok(L, x, fx)
    info.nontrivial(not np.array_equal(x[0], x0))
    f0 = float(L.f(x0)[0, 0])
    sc = L.scale + abs(f0)
    if c['opt'] == 'lbfgs' and fx > f0 + 1e-9 * sc:
        raise Violation('result %r is worse than the start %r' % (fx, f0))
    if c['quad'] and sane(bounds) and L.scale >= 1:
        best = np.array([min(max(q, 0), 1) for q in L.c])
        fb = float(L.val(best[None, :])[0, 0])
        exact = c['mode'] != 'f' and c['opt'] == 'lbfgs'
        if fx > fb + (1e-4 if exact else 2e-2) * max(sc - L.scale, 0.05 * L.scale) + 2e-5 * float(L.w.max()) * d:      # L-BFGS stops at a gradient of 1e-5
            raise Violation('minimum %r of a bowl is %r within the bounds; the result %r has %r' % (best.tolist(), fb, x.tolist(), fx))


class Fixed(object):
    """A user's optimizer which always goes to the same place."""

    def __init__(self, x):
        self.x = np.atleast_2d(x)

    def optimize(self, x0, f=None, df=None, f_df=None):
        self.x0 = np.array(x0, copy=True)
        self.fx0 = float(np.ravel(f(x0))[0])
        if f_df is not None:
            self.grad = np.asarray(f_df(np.atleast_2d(x0))[1])
        return self.x.copy(), np.atleast_2d(f(self.x))


@st.composite
def apply_case(draw):
    c = draw(case())
    lay = gen.Layout(c['dom'])
    c['start'] = draw(gen.points(lay, 1, 1))[0]
    c['goal'] = draw(st.lists(gen.unit, min_size=lay.n_model, max_size=lay.n_model))
    c['goal_known'] = draw(st.booleans())
    return c


@sub(P, 'never-worse', lambda: apply_case(), 300, 8000, 'the place the optimizer goes to is not the result (worse, known or infeasible)', shards=2)
def never_worse(c, info):
    lay, space, o, known, dup = setup(c)
    bounds = lay.model_bounds()
    L = Landscape(c, bounds)
    x0 = np.array(c['start'])
    for _, v, k in c.get('context', []):
        x0[lay.blocks[k][2][0]] = v
    if c.get('cons') and not gen.feasible(c['cons'], x0)[0]:
        return
    z0 = lay.encode(x0)
    if known is not None and any(np.array_equal(z0, k) for k in known):
        return
    goal = np.array([b[0] + (b[1] - b[0]) * u for b, u in zip(bounds, c['goal'])])
    fixed = sorted(m for _, _, k in c.get('context', []) for m in lay.blocks[k][3])
    free = [m for m in range(lay.n_model) if m not in fixed]
    goal[fixed] = z0[fixed]
    want = space.round_optimum(goal[None, :])[0]
    if c['goal_known'] and known is not None:
        dup = DuplicateManager(space=space, zipped_X=space.zip_inputs(np.vstack((known, want[None, :]))))
        known = np.vstack((known, want[None, :]))
        if np.array_equal(want, z0):
            return
    opt = Fixed(goal[free] if c.get('context') else goal)
    kw = {}
    if c.get('context'):
        kw['context_manager'] = o.context_manager
    if dup is not None:
        kw['duplicate_manager'] = dup
    x, fx = apply_optimizer(opt, z0[None, :], f=L.f, f_df=L.f_df if c['gradients'] else None, space=space, **kw)
    x, fx = np.asarray(x), float(np.ravel(fx)[0])
    bad = legal(c, lay, x[0], known)
    if bad:
        raise Violation('the result %r %s (start %r)' % (x.tolist(), bad, z0.tolist()))
    value_ok(L, x, fx)
    f0, fg = float(L.f(z0)[0, 0]), float(L.f(want)[0, 0])
    if fx > f0 + 1e-12 * L.scale:
        raise Violation('the result %r is worse than the start %r' % (fx, f0))
    usable = legal(c, lay, want, known) is None
    info.label('goal better' if usable and fg < f0 else 'goal unusable' if not usable else 'goal worse', *[k for k in ('context', 'known', 'cons') if k in c])
    info.nontrivial(not usable or fg > f0)
    if usable and fx > fg + 1e-12 * L.scale:
        raise Violation('the optimizer found %r with value %r, the result has %r' % (want.tolist(), fg, fx))
    # what the optimizer was given
    if np.ravel(opt.x0).tolist() != z0[free].tolist():
        raise Violation('the optimizer started from %r instead of %r' % (np.ravel(opt.x0).tolist(), z0[free].tolist()))
    if abs(opt.fx0 - f0) > 1e-12 * (L.scale + abs(f0)):
        raise Violation('the optimizer was given a function which is %r at the start instead of %r' % (opt.fx0, f0))
    if c['gradients'] and not np.allclose(np.ravel(opt.grad), L.df(z0)[0][free], rtol=1e-9, atol=1e-12 * L.scale):
        raise Violation('the optimizer was given the gradient %r instead of %r' % (np.ravel(opt.grad).tolist(), L.df(z0)[0][free].tolist()))
