"""C30 options of the main optimizer take effect."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops, acqref, stubs
from vf.core import sub, Violation, Inconclusive

import GPyOpt
from GPyOpt.methods import BayesianOptimization

P = 'C30'


def queries(lay, U):
    b = np.array(lay.model_bounds(), dtype=float)
    return b[:, 0] + (b[:, 1] - b[:, 0]) * np.array(U)


def data(c, lay):
    f = gen.Objective(c['coef'])
    X = np.array(c['X0'], dtype=float)
    return f, X, np.array([[f.value(x)] for x in X])


# ---------------------------------------------------------------------------------------------------------- acquisitions
@st.composite
def acq_case(draw):
    dom = draw(gen.domain(max_vars=3, max_dim=2, max_cols=4))
    lay = gen.Layout(dom)
    return {'dom': dom, 'coef': draw(gen.coefs), 'X0': draw(gen.points(lay, 2, 5)), 'U': draw(st.lists(st.lists(gen.fl(0, 1, 3), min_size=lay.n_model, max_size=lay.n_model), min_size=2, max_size=4)),
            'type': draw(st.sampled_from(['EI', 'EI', 'MPI', 'LCB', None])), 'jitter': draw(st.sampled_from([None, 0., 0.001, 0.1, 0.5, 1, 2.])), 'weight': draw(st.sampled_from([None, 0, 0.5, 1., 3, 10.])),
            'batch': draw(st.sampled_from([1, 1, 2, 3])), 'evaluator': draw(st.sampled_from(['sequential', 'random', 'thompson_sampling'])), 'maximize': draw(st.booleans()), 'normalize': draw(st.booleans()),
            'own': draw(st.sampled_from([False] * 5 + [True])), 'seed': draw(gen.seeds)}


@sub(P, 'acquisition', acq_case, 600, 8000, 'a parameter that matters differs from its default, or a user acquisition', shards=2)
def acquisition(c, info):
    lay = gen.Layout(c['dom'])
    f, X, Y = data(c, lay)
    m = loops.TinyGP(lay.model_bounds(), noise=1e-2)
    kw = {}
    if c['jitter'] is not None:
        kw['acquisition_jitter'] = c['jitter']
    if c['weight'] is not None:
        kw['acquisition_weight'] = c['weight']
    if c['own']:
        space = GPyOpt.Design_space(gen.build_domain(c['dom']))
        kw['acquisition'] = own = loops.pull(lay, c['X0'][0], m, space)
    np.random.seed(c['seed'])
    bo = BayesianOptimization(f=f, domain=gen.build_domain(c['dom']), X=X, Y=-Y if c['maximize'] else Y, model=m, acquisition_type=c['type'], batch_size=c['batch'], evaluator_type=c['evaluator'],
                              maximize=False, normalize_Y=c['normalize'], **kw)
    try:
        bo.run_optimization(max_iter=1)
    except Exception:
        raise
    Q = queries(lay, c['U'])
    A = np.asarray(bo.acquisition.acquisition_function(Q))
    F, G = bo.acquisition.acquisition_function_withGradients(Q)
    if c['own']:
        if bo.acquisition is not own:
            raise Violation('the acquisition of the user is not used: %r' % (bo.acquisition,))
        ref, gref = own._compute_acq_withGradients(Q)
        jit = None
    else:
        kind = c['type'] or 'EI'
        jit, w = 0.01 if c['jitter'] is None else c['jitter'], 2 if c['weight'] is None else c['weight']
        mu, s, dm, ds = m.predict_withGradients(Q)
        best = m.get_fmin()
        ref = acqref.value(kind, mu, s, best, jit, w)
        gref = acqref.grad(kind, mu, s, dm, ds, best, jit, w)
    if A.shape != ref.shape or not np.allclose(-A, ref, rtol=1e-6, atol=1e-9) or not np.allclose(-F, ref, rtol=1e-6, atol=1e-9):
        raise Violation('acquisition %r with jitter %r and weight %r: values %r, expected %r' % (c['type'], c['jitter'], c['weight'], A.ravel().tolist(), (-ref).ravel().tolist()))
    if not np.allclose(-np.asarray(G), gref, rtol=1e-5, atol=1e-8):
        raise Violation('acquisition %r with jitter %r and weight %r: gradients %r, expected %r' % (c['type'], c['jitter'], c['weight'], np.asarray(G).tolist(), (-gref).tolist()))
    if bo.model is not m:
        raise Violation('the model of the user is not used')
    info.label('own' if c['own'] else str(c['type']))
    info.nontrivial(c['own'] or (c['weight'] not in (None, 2) if c['type'] == 'LCB' else c['jitter'] not in (None, 0.01)))


# ----------------------------------------------------------------------------------------------- integrated acquisitions
@st.composite
def integrated_case(draw):
    d = draw(st.integers(1, 3))
    return {'d': d, 'X0': draw(st.lists(st.lists(gen.fl(0, 1, 3), min_size=d, max_size=d), min_size=2, max_size=4)), 'Q': draw(st.lists(st.lists(gen.fl(0, 1, 3), min_size=d, max_size=d), min_size=1, max_size=4)),
            'ps': draw(st.lists(stubs.model_params(), min_size=1, max_size=4)), 'type': draw(st.sampled_from(['EI', 'MPI', 'LCB'])), 'jitter': draw(st.sampled_from([None, 0., 0.001, 0.1, 0.5, 1.])),
            'weight': draw(st.sampled_from([None, 0, 0.5, 1., 3, 10.])), 'batch': draw(st.sampled_from([1, 1, 2])), 'evaluator': draw(st.sampled_from(['sequential', 'random', 'thompson_sampling'])), 'seed': draw(gen.seeds)}


@sub(P, 'integrated', integrated_case, 500, 10000, 'a parameter that matters differs from its default')
def integrated(c, info):
    m = stubs.FuncModelMCMC(c['ps'])
    kw = {}
    if c['jitter'] is not None:
        kw['acquisition_jitter'] = c['jitter']
    if c['weight'] is not None:
        kw['acquisition_weight'] = c['weight']
    X = np.array(c['X0'])
    np.random.seed(c['seed'])
    bo = BayesianOptimization(None, [{'name': 'x%d' % i, 'type': 'continuous', 'domain': (0, 1)} for i in range(c['d'])], X=X, Y=X.sum(1)[:, None], model=m, acquisition_type=c['type'] + '_MCMC',
                              batch_size=c['batch'], evaluator_type=c['evaluator'], **kw)
    Q = np.array(c['Q'])
    F, G = bo.acquisition.acquisition_function_withGradients(Q)
    A = bo.acquisition.acquisition_function(Q)
    mus, ss, dms, dss = m.predict_withGradients(Q)
    bs = m.get_fmin()
    jit, w = 0.01 if c['jitter'] is None else c['jitter'], 2 if c['weight'] is None else c['weight']

    def ref(jit):
        v = [acqref.value(c['type'], mu, s, b, jit, w) for mu, s, b in zip(mus, ss, bs)]
        g = [acqref.grad(c['type'], mu, s, dm, ds, b, jit, w) for mu, s, dm, ds, b in zip(mus, ss, dms, dss, bs)]
        return np.mean(v, axis=0), np.mean(g, axis=0)

    V, GV = ref(jit)
    ok = [V]
    if c['type'] == 'EI' and jit:
        # the sign of the jitter term of the integrated expected improvement is the subject of C11
        ok.append(V + 2 * jit * np.mean([acqref.mpi(mu, s, b, jit) for mu, s, b in zip(mus, ss, bs)], axis=0))
    for name, got in (('values', A), ('values given with gradients', F)):
        if np.shape(got) != V.shape or not any(np.allclose(-np.asarray(got), v, rtol=1e-6, atol=1e-9) for v in ok):
            raise Violation('%s_MCMC with jitter %r and weight %r: %s %r, expected %r' % (c['type'], c['jitter'], c['weight'], name, np.asarray(got).ravel().tolist(), (-V).ravel().tolist()))
    if min(float(np.min(s)) for s in ss) > 1e-3 and not np.allclose(-np.asarray(G), GV, rtol=1e-5, atol=1e-8):
        raise Violation('%s_MCMC with jitter %r and weight %r: gradients %r, expected %r' % (c['type'], c['jitter'], c['weight'], np.asarray(G).tolist(), (-GV).tolist()))
    info.label(c['type'])
    info.nontrivial(c['weight'] not in (None, 2) if c['type'] == 'LCB' else c['jitter'] not in (None, 0.01))


# ------------------------------------------------------------------------------------------------------------ surrogates
@st.composite
def model_case(draw):
    dom = draw(gen.domain(('continuous', 'continuous', 'discrete', 'categorical'), 2, 2, 3, 2, 4))
    lay = gen.Layout(dom)
    c = {'dom': dom, 'coef': draw(gen.coefs), 'X0': draw(gen.points(lay, 3, 6, distinct=True)), 'U': draw(st.lists(st.lists(gen.fl(0, 1, 3), min_size=lay.n_model, max_size=lay.n_model), min_size=2, max_size=4)),
         'type': draw(st.sampled_from(['GP', 'GP', 'GP', 'sparseGP', 'GP_MCMC', 'GP_MCMC', 'InputWarpedGP', 'input_warped_GP', 'warpedGP'])), 'exact': draw(st.booleans()), 'normalize': draw(st.booleans()), 'seed': draw(gen.seeds)}
    if c['type'] == 'warpedGP' and lay.n_model > 2:
        c['type'] = 'GP'
    o = {}
    opt = lambda k, vals: o.update({k: draw(st.sampled_from(vals))}) if draw(st.integers(0, 2)) else None
    opt('kernel', ['RBF', 'Matern32', 'RBF-ard', 'fixed'])
    opt('noise_var', [1e-4, 0.1, 3.])
    if c['type'] in ('GP_MCMC',):
        o.update(n_samples=draw(st.integers(1, 3)), n_burnin=draw(st.integers(0, 3)), subsample_interval=draw(st.integers(1, 2)))
        opt('step_size', [1e-2, 3e-2, 0.15])
        o['leapfrog_steps'] = draw(st.integers(1, 4))
    else:
        o['max_iters'] = draw(st.sampled_from([0, 1, 3, 6]))
        o['optimize_restarts'] = draw(st.sampled_from([1, 1, 2]))
        opt('model_optimizer_type', ['scg', 'bfgs', 'lbfgs'])
        if c['type'] != 'warpedGP':
            opt('ARD', [True, False])
    if c['type'] == 'sparseGP':
        opt('num_inducing', [1, 2, 3])
    c['opts'] = o
    return c


def kernel(name, d):
    import GPy
    if name == 'fixed':
        k = GPy.kern.RBF(d, variance=2., lengthscale=0.7)
        k.fix()
        return k
    return GPy.kern.Matern32(d, lengthscale=2.) if name == 'Matern32' else GPy.kern.RBF(d, variance=1.5, ARD=name.endswith('ard'))


def direct(c, lay, space):
    """The surrogate assembled by hand, with the documented defaults."""
    from GPyOpt.models import GPModel, GPModel_MCMC, WarpedGPModel, InputWarpedGPModel
    o = dict(c['opts'])
    kern = kernel(o['kernel'], lay.n_model) if 'kernel' in o else None
    common = dict(kernel=kern, noise_var=o.get('noise_var'), exact_feval=c['exact'])
    if c['type'] == 'GP_MCMC':
        return GPModel_MCMC(n_samples=o['n_samples'], n_burnin=o['n_burnin'], subsample_interval=o['subsample_interval'], step_size=o.get('step_size', 1e-1), leapfrog_steps=o['leapfrog_steps'], verbose=False, **common)
    common.update(optimizer=o.get('model_optimizer_type', 'lbfgs'), max_iters=o['max_iters'], optimize_restarts=o['optimize_restarts'], verbose=False)
    if c['type'] == 'warpedGP':
        return WarpedGPModel(**common)
    common['ARD'] = o.get('ARD', False)
    if c['type'] in ('GP', 'sparseGP'):
        return GPModel(sparse=c['type'] == 'sparseGP', num_inducing=o.get('num_inducing', 10), **common)
    return InputWarpedGPModel(space, None, **common)


def samples(p):
    return [np.asarray(v, dtype=float) for v in (p if isinstance(p, list) else [p])]


@sub(P, 'surrogate', model_case, 400, 5000, 'some option changes the predictions', shards=6)
def surrogate(c, info):
    lay = gen.Layout(c['dom'])
    f, X, Y = data(c, lay)
    o = dict(c['opts'])
    if 'kernel' in o:
        o['kernel'] = kernel(o['kernel'], lay.n_model)
    Q = queries(lay, c['U'])
    if c['type'] in ('InputWarpedGP', 'input_warped_GP'):
        # the warping is defined inside the bounds
        Q = np.vstack([[lay.encode(x) for x in X]])
    with np.errstate(all='ignore'):
        bo = BayesianOptimization(f=f, domain=gen.build_domain(c['dom']), X=X, Y=Y, model_type=c['type'], exact_feval=c['exact'], normalize_Y=c['normalize'], **o)
        np.random.seed(c['seed'])
        try:
            bo.run_optimization(max_iter=0)
        except np.linalg.LinAlgError:
            raise Inconclusive('numerical failure')
        # same data, same random state, options handed to the parts
        Z = np.array([lay.encode(x) for x in X], dtype=float)
        V = Y - Y.mean() if c['normalize'] else Y
        if c['normalize'] and V.std() > 0:
            V = V / V.std()
        out = []
        for opts in (c['opts'], None):
            d = dict(c)
            if opts is None:
                d['opts'] = dict((k, v) for k, v in c['opts'].items() if k not in ('kernel', 'noise_var', 'ARD', 'model_optimizer_type', 'num_inducing', 'step_size'))
                d['exact'] = False
            m = direct(d, lay, bo.space)
            np.random.seed(c['seed'])
            m.updateModel(Z, V, None, None)
            mu, s = m.predict(Q)
            out.append((samples(mu), samples(s)))
        mu, s = bo.model.predict(Q)
        got = (samples(mu), samples(s))
    for name, g, r in (('means', got[0], out[0][0]), ('deviations', got[1], out[0][1])):
        if len(g) != len(r) or any(a.shape != b.shape for a, b in zip(g, r)):
            raise Violation('%s: %d predictions of shape %r, expected %d of %r' % (c['type'], len(g), g[0].shape, len(r), r[0].shape))
        for a, b in zip(g, r):
            if not np.allclose(a, b, rtol=1e-4, atol=1e-5 * (1 + np.abs(b).max()), equal_nan=True):
                raise Violation('%s with exact_feval=%r and %r: %s %r, assembled by hand %r' % (c['type'], c['exact'], c['opts'], name, a.ravel().tolist(), b.ravel().tolist()))
    info.label(c['type'], *sorted(c['opts']))
    info.nontrivial(any(not np.allclose(a, b, rtol=1e-3, atol=1e-4) for a, b in zip(out[0][0] + out[0][1], out[1][0] + out[1][1])))


# ------------------------------------------------------------------------------------------------------------ assembling
@st.composite
def parts_case(draw):
    c = draw(loops.setup(models=('tiny', 'tiny', 'GP'), max_batch=3, inits=('XY',), max_cols=4, optimizers=('lbfgs', 'lbfgs', 'CMA'), max_init=5, min_init=2, cons=draw(st.integers(0, 4)) == 0))
    c['steps'] = draw(st.integers(1, 2))
    c['softplus'] = draw(st.booleans())
    c['anchor'] = draw(st.sampled_from([None, None, 'max_objective', 'thompson_sampling'])) if not c.get('cons') else None
    c['jitter'], c['weight'] = draw(st.sampled_from([0.01, 0.2])), draw(st.sampled_from([2, 0.5]))
    if c['anchor'] == 'thompson_sampling' and c['model'] != 'tiny':
        c['anchor'] = None
    c['dedup'] = bool(draw(st.booleans()) and gen.Layout(c['dom']).n_distinct() > 80)
    return c


def assembled(c, f):
    """The same optimisation put together from its components."""
    from GPyOpt.core.task.objective import SingleObjective
    from GPyOpt.core.evaluators import Sequential, RandomBatch, ThompsonBatch, LocalPenalization
    from GPyOpt.acquisitions import AcquisitionEI, AcquisitionLCB, AcquisitionMPI, AcquisitionLP
    from GPyOpt.optimization import AcquisitionOptimizer
    lay = gen.Layout(c['dom'])
    space = GPyOpt.Design_space(gen.build_domain(c['dom']), c.get('cons'))
    m = loops.TinyGP(lay.model_bounds()) if c['model'] == 'tiny' else GPyOpt.models.GPModel(optimizer='lbfgs', max_iters=8, optimize_restarts=1, exact_feval=bool(c.get('exact')), verbose=False)
    kw = {'type_anchor_points_logic': c['anchor']} if c['anchor'] else {}
    opt = AcquisitionOptimizer(space, c.get('opt', 'lbfgs'), model=m, **kw)
    acq = AcquisitionLCB(m, space, opt, None, c['weight']) if c['acq'] == 'LCB' else {'EI': AcquisitionEI, 'MPI': AcquisitionMPI}[c['acq']](m, space, opt, None, c['jitter'])
    b = loops.batch_of(c)
    if b == 1:
        ev = Sequential(acq)
    elif c['evaluator'] == 'local_penalization':
        acq = AcquisitionLP(m, space, opt, acq, 'softplus' if c['softplus'] else 'none')
        ev = LocalPenalization(acq, b)
    else:
        ev = {'random': RandomBatch, 'thompson_sampling': ThompsonBatch}[c['evaluator']](acq, b)
    X, Y = loops.given_data(c, f)
    return GPyOpt.methods.ModularBayesianOptimization(m, space, SingleObjective(f), acq, ev, X, Y_init=Y, normalize_Y=c['normalize'], model_update_interval=c['interval'], de_duplication=c['dedup'])


@sub(P, 'assembled', parts_case, 130, 3000, 'a proposal that an option changed, or a batch', shards=6)
def by_parts(c, info):
    lay = gen.Layout(c['dom'])
    runs = []
    for k in range(2):
        f = loops.Obj(c)
        if k == 0:
            kw = {'type_anchor_points_logic': c['anchor']} if c['anchor'] else {}
            bo = loops.make(c, f, acquisition_jitter=c['jitter'], acquisition_weight=c['weight'], acquisition_transformation='softplus' if c['softplus'] else 'none', **kw)
        else:
            bo = assembled(c, f)
        np.random.seed(c['seed'])
        try:
            bo.run_optimization(max_iter=c['steps'], eps=-1)
        except np.linalg.LinAlgError:
            raise Inconclusive('numerical failure')
        runs.append(np.asarray(bo.X, dtype=float))
    a, b = runs
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-6, atol=1e-8):
        raise Violation('evaluator %r, batch size %r, optimizer %r, anchors %r: visited %r, assembled by hand %r' % (c['evaluator'], c['batch'], c.get('opt', 'lbfgs'), c['anchor'], a[c['n0']:].tolist(), b[c['n0']:].tolist()))
    if len(a) != c['n0'] + c['steps'] * loops.batch_of(c) and not c['dedup']:
        raise Violation('%d configurations after %d steps with %s and batch size %d' % (len(a) - c['n0'], c['steps'], c['evaluator'], c['batch']))
    info.label(c['evaluator'], 'optimizer ' + c.get('opt', 'lbfgs'), 'anchors %s' % c['anchor'], *loops.labels(c))
    info.nontrivial(loops.batch_of(c) > 1 or c.get('opt') or c['anchor'] == 'thompson_sampling' or c['jitter'] == 0.2 or c['weight'] == 0.5)


# ------------------------------------------------------------------------------------------------------------------ flow
@st.composite
def flow_case(draw):
    design = draw(st.sampled_from(['random', 'random', 'latin', 'sobol', 'grid']))
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), max_cols=4, inits=('design', 'X', 'XY'), max_init=5))
    if c['init'] == 'design':
        c['design'] = design
    c['maximize'] = draw(st.booleans())
    c['steps'] = draw(st.integers(0, 3))
    c['default_n'] = draw(st.integers(0, 3)) == 0
    c['name'] = draw(st.sampled_from([None, 'f', 'cost of x']))
    return c


@sub(P, 'flow', flow_case, 400, 6000, 'steps were made and an option departs from its default', shards=4)
def flow(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    X0, Y0 = loops.given_data(c, f)
    m = loops.TinyGP(lay.model_bounds(), noise=1e-2)
    kw = {'maximize': c['maximize']}
    sign = -1. if c['maximize'] else 1.
    n0 = c['n0']
    if c['init'] == 'XY':
        kw['Y'] = sign * Y0
    over = loops.options(c, f, m)
    over.update(kw)
    if c['init'] == 'design' and c['default_n']:
        del over['initial_design_numdata']
        n0 = 5
    np.random.seed(c['seed'])
    bo = BayesianOptimization(f=f, **over)
    init = np.asarray(bo.X, dtype=float)
    if c['init'] == 'design':
        if c['design'] == 'grid':
            # every combination of the values, and as many levels per continuous dimension as fit
            if not 0 < len(init):
                raise Violation('the grid has no configuration')
        elif len(init) != n0:
            raise Violation('initial design of %d configurations instead of %d' % (len(init), n0))
        if c['design'] == 'sobol':
            np.random.seed(c['seed'] + 1)
            again = GPyOpt.experiment_design.initial_design('sobol', GPyOpt.Design_space(gen.build_domain(c['dom'])), n0)
            k = [o for _, kind, obj, _, _ in lay.blocks if kind == 'continuous' for o in obj]
            if k and not np.allclose(init[:, k], again[:, k]):
                raise Violation('the initial design is not a Sobol design')
        if c['design'] == 'latin':
            for _, kind, obj, _, val in lay.blocks:
                if kind == 'continuous' and val[1] > val[0]:
                    cell = (init[:, obj[0]] - val[0]) / (val[1] - val[0]) * n0
                    if np.any(np.abs(np.sort(cell) - np.arange(n0) - 0.5) > 0.5 + 1e-6):
                        raise Violation('the initial design is not a Latin design: %r' % (init[:, obj[0]].tolist(),))
        f_calls = len(f.calls)
        if f_calls != len(init):
            raise Violation('%d evaluations of an initial design with %d configurations' % (f_calls, len(init)))
    else:
        if not np.array_equal(init, X0):
            raise Violation('initial inputs %r, optimizer starts with %r' % (X0.tolist(), init.tolist()))
        want = 0 if c['init'] == 'XY' else n0
        if len(f.calls) != want:
            raise Violation('%d evaluations before the first step, expected %d' % (len(f.calls), want))
    before = len(f.calls)
    base = len(init)
    bo.run_optimization(max_iter=c['steps'], eps=-1)
    b = loops.batch_of(c)
    X, Y = np.asarray(bo.X, dtype=float), np.asarray(bo.Y, dtype=float)
    if len(X) != base + c['steps'] * b or len(f.calls) - before != c['steps'] * b:
        raise Violation('%d new configurations and %d evaluations in %d steps with %s and batch size %d' % (len(X) - base, len(f.calls) - before, c['steps'], c['evaluator'], c['batch']))
    truth = sign * np.array([[f.value(x)] for x in X])
    if not np.allclose(Y, truth, rtol=1e-9, atol=1e-9):
        raise Violation('outputs %r, expected %r (maximize=%r)' % (Y.ravel().tolist(), truth.ravel().tolist(), c['maximize']))
    if bo.x_opt is not None and abs(f.value(np.asarray(bo.x_opt)) - sign * truth.min()) > 1e-9:
        raise Violation('incumbent with the value %r, best value %r' % (f.value(np.asarray(bo.x_opt)), sign * truth.min()))
    # the surrogate: what it is fed with, and how often
    for XX, V in m.updates:
        n = len(XX)
        T = truth[:n]
        if c['normalize'] and n > 1:
            T = T - T.mean()
            if T.std() > 0:
                T = T / T.std()
            elif np.any(T):
                T = T * 0
        elif c['normalize']:
            T = T * 0
        if not np.allclose(V, T, rtol=1e-6, atol=1e-8) and not (c['normalize'] and np.ptp(truth[:n]) < 1e-9):
            raise Violation('normalize_Y=%r, outputs %r: the surrogate gets %r' % (c['normalize'], truth[:n].ravel().tolist(), V.ravel().tolist()))
    sizes = [len(x) for x, _ in m.updates]
    need = [base + i * b for i in range(c['steps']) if i % c['interval'] == 0]
    if sizes[:len(need)] != need or len(sizes) > len(need) + 1:
        raise Violation('update interval %d, %d steps of %d: the surrogate was updated with %r configurations' % (c['interval'], c['steps'], b, sizes))
    info.label(*loops.labels(c))
    info.label('maximize' if c['maximize'] else 'minimize')
    info.nontrivial(c['steps'] and (c['maximize'] or not c['normalize'] or c['interval'] > 1 or b > 1 or c['init'] != 'design'))


# -------------------------------------------------------------------------------------------------------------- rejection
OPTION = {'model_type': ['gp', 'GPP', 'foo', ''], 'acquisition_type': ['ei', 'PI', 'UCB', 'foo', ''], 'evaluator_type': ['Sequential', 'batch', 'foo', ''], 'acquisition_optimizer_type': ['LBFGS', 'cma', 'newton', ''],
          'initial_design_type': ['Random', 'halton', 'foo', ''], 'type_anchor_points_logic': ['foo', '']}


@st.composite
def bad_case(draw):
    dom = draw(gen.domain(max_vars=2, max_dim=2, max_cols=3, min_values=2))
    lay = gen.Layout(dom)
    k = draw(st.sampled_from(sorted(OPTION) + ['lp-model', 'no-data', 'no-x', 'no-y']))
    return {'dom': dom, 'coef': draw(gen.coefs), 'X0': draw(gen.points(lay, 2, 4)), 'option': k, 'value': draw(st.sampled_from(OPTION.get(k, [None]))), 'seed': draw(gen.seeds)}


@sub(P, 'rejected', bad_case, 150, 2000, 'every case')
def rejected(c, info):
    lay = gen.Layout(c['dom'])
    f, X, Y = data(c, lay)
    k = c['option']
    kw = {'model': loops.TinyGP(lay.model_bounds())}
    if k != 'initial_design_type':
        kw.update(X=X, Y=Y)
    if k == 'model_type':
        kw = {'X': X, 'Y': Y}
    if k == 'lp-model':
        kw = dict(X=X, Y=Y, evaluator_type='local_penalization', batch_size=2, model_type='InputWarpedGP', max_iters=1, optimize_restarts=1)
    g = f
    if k in ('no-data', 'no-x', 'no-y'):
        g = None
        if k != 'no-y':
            kw.pop('X')
        if k != 'no-x':
            kw.pop('Y')
    if k in OPTION:
        kw[k] = c['value']
    np.random.seed(c['seed'])
    try:
        bo = BayesianOptimization(f=g, domain=gen.build_domain(c['dom']), **kw)
        bo.run_optimization(max_iter=1, eps=-1) if g is not None else bo.suggest_next_locations()
    except Exception as e:
        info.label(k, type(e).__name__)
        info.nontrivial(True)
        return
    raise Violation('%s=%r was accepted without complaint' % (k, c['value']) if k in OPTION else '%s: accepted without complaint' % k)
