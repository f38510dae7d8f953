"""C34 plots depict the run and leave it alone."""
import os

import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c20 import scratch

import GPyOpt

P = 'C34'


def pyplot():
    import matplotlib
    matplotlib.use('agg')
    import matplotlib.pyplot as plt
    matplotlib.rcParams['savefig.dpi'] = 15
    plt.close('all')
    return plt


class Spy(object):
    """Records what is drawn as filled contours and whether the figure is shown; GPy's density plot is left out
    (it does not work with the installed matplotlib)."""

    def __enter__(self):
        import matplotlib.axes
        import GPy
        self.plt = pyplot()
        self.A = matplotlib.axes.Axes
        self.old = self.A.contourf, self.plt.show, GPy.core.GP.plot_density
        self.contours, self.shown = [], 0

        def contourf(ax, *args, **kw):
            self.contours.append((ax, [np.array(a, dtype=float) for a in args[:3]]))
            return self.old[0](ax, *args, **kw)

        def show(*a, **k):
            self.shown += 1
        self.A.contourf, self.plt.show = contourf, show
        GPy.core.GP.plot_density = lambda *a, **k: {}
        return self

    def __exit__(self, *a):
        import GPy
        self.A.contourf, self.plt.show, GPy.core.GP.plot_density = self.old
        self.plt.close('all')


def state(bo):
    out = {'X': np.array(bo.X, copy=True), 'Y': np.array(bo.Y, copy=True)}
    for k in ('x_opt', 'fx_opt', 'Y_best'):
        if hasattr(bo, k):
            out[k] = np.array(getattr(bo, k), copy=True)
    return out


def unchanged(a, b, what):
    if sorted(a) != sorted(b) or any(not np.array_equal(a[k], b[k]) for k in a):
        raise Violation('%s changed the recorded %s' % (what, [k for k in a if k not in b or not np.array_equal(a[k], b[k])]))


def written(path, spy, what):
    if path is None:
        if not spy.shown:
            raise Violation('%s: the figure is neither shown nor saved' % what)
    elif not os.path.isfile(path) or open(path, 'rb').read(4) != b'\x89PNG':
        raise Violation('%s: no figure in the requested file' % what)


# ----------------------------------------------------------------------------------------------------------- convergence
@st.composite
def conv_case(draw):
    c = draw(loops.setup(models=('tiny',), max_batch=3, evaluators=('sequential', 'random', 'thompson_sampling'), max_cols=4, max_vars=3, inits=('X', 'XY', 'design')))
    c.update(steps=draw(st.sampled_from([None, 0, 1, 2, 4])), more=draw(st.integers(0, 2)), show=draw(st.integers(0, 3)) == 0)
    return c


@sub(P, 'convergence', conv_case, 90, 2500, 'three or more evaluations', shards=3)
def convergence(c, info):
    f = loops.Obj(c)
    bo = loops.make(c, f)
    with scratch() as d, Spy() as spy:
        for rnd in range(2):
            if rnd == 0 and c['steps'] is not None:
                bo.run_optimization(max_iter=c['steps'], eps=-1)
            if rnd == 1:
                bo.run_optimization(max_iter=c['more'], eps=-1)
            before = state(bo)
            path = None if c['show'] else os.path.join(d, 'conv%d.png' % rnd)
            bo.plot_convergence(filename=path) if path else bo.plot_convergence()
            written(path, spy, 'plot_convergence')
            unchanged(before, state(bo), 'plot_convergence')
            X, Y = np.asarray(bo.X, dtype=float), np.asarray(bo.Y, dtype=float).ravel()
            dist = [float(np.sqrt(sum((a - b) ** 2 for a, b in zip(X[i + 1], X[i])))) for i in range(len(X) - 1)]
            best = [min(Y[:i + 1]) for i in range(len(Y))]
            lines = [[np.asarray(l.get_ydata(), dtype=float).ravel() for l in a.lines] for a in spy.plt.gcf().axes]
            flat = [l for a in lines for l in a]
            for what, ref in (('distances between consecutive configurations', dist), ('best values so far', best)):
                if not any(len(l) == len(ref) and np.allclose(l, ref, rtol=1e-9, atol=1e-12) for l in flat):
                    raise Violation('the convergence plot does not draw the %s %r: it has %r' % (what, ref, [l.tolist() for l in flat]))
            for a in spy.plt.gcf().axes:
                for l in a.lines:
                    x = np.asarray(l.get_xdata(), dtype=float)
                    if len(x) > 1 and not np.allclose(np.diff(x), 1):
                        raise Violation('points of the convergence plot are at %r' % (x.tolist(),))
            spy.plt.close('all')
            spy.shown = 0
    info.label(*loops.labels(c))
    info.nontrivial(len(bo.X) > 2)


# ------------------------------------------------------------------------------------------------------------- surrogate
@st.composite
def acq_case(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    kinds = draw(st.sampled_from([('continuous',)] * 3 + [('continuous', 'discrete')] + ([('categorical',)] if d == 2 else [])))
    if kinds == ('categorical',):
        dom = [{'name': 'c', 'type': 'categorical', 'domain': draw(st.lists(st.integers(-3, 5), min_size=2, max_size=2, unique=True))}]
    else:
        dom = []
        for i in range(d):
            lo, w = draw(gen.fl(-5, 5, 1)), draw(gen.fl(0.5, 6, 1))
            if draw(st.sampled_from(kinds)) == 'continuous':
                dom.append({'name': 'x%d' % i, 'type': 'continuous', 'domain': [lo, round(lo + w, 2)]})
            else:
                dom.append({'name': 'x%d' % i, 'type': 'discrete', 'domain': [lo, round(lo + w / 3, 2), round(lo + w, 2)]})
    lay = gen.Layout(dom)
    return {'dom': dom, 'coef': draw(gen.coefs), 'X0': draw(gen.points(lay, 3, 6, distinct=kinds == ('continuous',))), 'acq': draw(st.sampled_from(['EI', 'LCB', 'MPI'])), 'steps': draw(st.sampled_from([None, None, 1, 2])),
            'normalize': draw(st.booleans()), 'batch': draw(st.sampled_from([1, 1, 2])), 'labels': draw(st.sampled_from([None, ['u', 'v']])), 'show': draw(st.integers(0, 3)) == 0, 'exact': draw(st.booleans()),
            'context': draw(st.integers(0, 3)) == 0 and d == 2 and kinds == ('continuous',), 'seed': draw(gen.seeds)}


def build(c):
    f = gen.Objective(c['coef'])
    X = np.array(c['X0'], dtype=float)
    np.random.seed(c['seed'])
    bo = GPyOpt.methods.BayesianOptimization(f, gen.build_domain(c['dom']), X=X, Y=np.array([[f.value(x)] for x in X]), acquisition_type=c['acq'], normalize_Y=c['normalize'], max_iters=8, optimize_restarts=1,
                                             exact_feval=c['exact'], batch_size=c['batch'], evaluator_type='random' if c['batch'] > 1 else 'sequential')
    if c['steps'] is not None:
        bo.run_optimization(max_iter=c['steps'], eps=-1, context={'x1': X[0, 1]} if c['context'] else None)
    np.random.seed(c['seed'] % 1000 + 7)
    return bo


def same_up_to_scale(drawn, acq):
    """drawn = a * (-acq) + b with a > 0?"""
    v = -np.ravel(acq)
    u = (v - v.min()) / max(v.max() - v.min(), 1e-300)
    w = np.ravel(drawn)
    if not np.all(np.isfinite(w)):
        return False
    a, b = np.polyfit(u, w, 1)
    return a > 0 and np.allclose(a * u + b, w, atol=1e-6 * (1e-3 + w.max() - w.min()), rtol=0)


@sub(P, 'surrogate', acq_case, 72, 1500, 'one or two coordinates in the model', shards=6)
def surrogate(c, info):
    lay = gen.Layout(c['dom'])
    twin = build(c)
    ctx = {'x1': c['X0'][0][1]} if c['context'] and c['steps'] is not None else None
    try:
        expected = twin.suggest_next_locations(ctx) if ctx else twin.suggest_next_locations()
    except np.linalg.LinAlgError:
        raise
    bo = build(c)
    with scratch() as d, Spy() as spy:
        before, params, n = state(bo), bo.model_parameters_iterations, bo.num_acquisitions
        path = None if c['show'] else os.path.join(d, 'acq.png')
        kw = {} if path is None else {'filename': path}
        if c['labels']:
            kw.update(label_x=c['labels'][0], label_y=c['labels'][1])
        bo.plot_acquisition(**kw)
        if lay.n_model <= 2:
            written(path, spy, 'plot_acquisition')
        unchanged(before, state(bo), 'plot_acquisition')
        if bo.num_acquisitions != n or (bo.model_parameters_iterations is None) != (params is None) or (params is not None and not np.array_equal(params, bo.model_parameters_iterations)):
            raise Violation('plot_acquisition changed the state of the run (acquisitions %r, saved parameters of the model)' % (bo.num_acquisitions,))
        info.label('%d coordinates' % lay.n_model, c['acq'], 'fresh' if c['steps'] is None else 'after a run')
        info.nontrivial(lay.n_model <= 2)
        axes = spy.plt.gcf().axes
        b = lay.model_bounds()
        Z = lay.encode_all(bo.X) if hasattr(lay, 'encode_all') else np.array([lay.encode(x) for x in bo.X])
        Y = np.asarray(bo.Y, dtype=float)
        S = np.array([lay.encode(x) for x in expected])
        # a fresh optimisation draws a surrogate of its own, whose hyper-parameters cannot be observed
        own = c['steps'] is not None
        if lay.n_model == 1:
            lines = [(np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()) for a in axes for l in a.lines]
            curves = [(x, y) for x, y in lines if len(x) > 50]
            if not curves or any(abs(x[0] - b[0][0]) > 2e-3 or abs(x[-1] - b[0][1]) > 2e-3 for x, _ in curves):
                raise Violation('the curves are not drawn over the domain %r' % (b,))
            x = curves[0][0]
            if own:
                m, s = bo.model.predict(x[:, None])
                m, s = m.ravel(), s.ravel()
                for what, ref in (('mean', m), ('lower 95% limit', m - 1.96 * s), ('upper 95% limit', m + 1.96 * s)):
                    if not any(np.allclose(y, ref, rtol=1e-6, atol=1e-8) for _, y in curves):
                        raise Violation('the %s of the surrogate is not drawn' % what)
            acq = np.asarray(bo.acquisition.acquisition_function(x[:, None]), dtype=float).ravel()
            if np.ptp(acq) > 1e-9 and not any(same_up_to_scale(y, acq) for _, y in curves):
                raise Violation('the acquisition is not drawn')
            points = [(u, v) for u, v in lines if len(u) == len(Z) and np.allclose(u, Z[:, 0])]
            if not points:
                raise Violation('the data %r are not drawn' % (Z.ravel().tolist(),))
            vert = [u for u, v in lines if len(u) == 2 and u[0] == u[1]]
            if not any(abs(u[0] - s) < 1e-6 * (1 + abs(s)) for u in vert for s in S.ravel()):
                raise Violation('the suggestion %r is not marked: vertical lines at %r' % (S.ravel().tolist(), [u[0] for u in vert]))
            if c['labels'] and not any(a.get_xlabel() == 'u' and a.get_ylabel() == 'v' for a in axes):
                raise Violation('the axes are not labelled as asked')
        elif lay.n_model == 2:
            if len(spy.contours) != 3:
                raise Violation('%d contour plots instead of 3' % len(spy.contours))
            gx, gy, _ = spy.contours[0][1]
            gx, gy = (gx[0], gy[:, 0]) if gx.ndim == 2 else (gx, gy)
            if not np.allclose([gx[0], gx[-1], gy[0], gy[-1]], [b[0][0], b[0][1], b[1][0], b[1][1]]):
                raise Violation('the contours are drawn over %r instead of %r' % ([gx[0], gx[-1], gy[0], gy[-1]], b))
            rng = np.random.RandomState(1)
            i, j = rng.randint(len(gy), size=25), rng.randint(len(gx), size=25)
            Q = np.column_stack((gx[j], gy[i]))
            m, s = bo.model.predict(Q)
            acq = np.asarray(bo.acquisition.acquisition_function(Q), dtype=float).ravel()
            Zs = [k[1][2] for k in spy.contours]
            if own:
                for z, ref, what in ((Zs[0], m, 'mean'), (Zs[1], s, 'deviation')):
                    if not np.allclose(z[i, j], ref.ravel(), rtol=1e-6, atol=1e-8):
                        raise Violation('the contours of the %s differ from the surrogate' % what)
            if np.ptp(acq) > 1e-9 and np.all(np.isfinite(Zs[2])) and not same_up_to_scale(Zs[2][i, j], acq):
                raise Violation('the contours of the acquisition differ from the acquisition')
            drawn = [np.column_stack((np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float))) for a in axes for l in a.lines]
            drawn += [np.asarray(k.get_offsets(), dtype=float) for a in axes for k in a.collections]
            for what, ref in (('data', Z), ('suggestion', S)):
                if not any(q.shape == ref.shape and np.allclose(q, ref, rtol=1e-6, atol=1e-8) for q in drawn):
                    raise Violation('the %s %r are not drawn' % (what, ref.tolist()))
            if c['labels'] and not any(a.get_xlabel() == 'u' for a in axes):
                raise Violation('the axes are not labelled as asked')
        # the run goes on
        bo.run_optimization(max_iter=1, eps=-1)
        if not np.array_equal(np.asarray(bo.X)[:len(before['X'])], before['X']) or len(bo.X) != len(before['X']) + c['batch']:
            raise Violation('after plotting, another step gives %d evaluations' % len(bo.X))
