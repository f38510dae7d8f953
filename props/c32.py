"""C32 asking and telling by hand against the closed loop."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation, Inconclusive

import GPyOpt

P = 'C32'


@st.composite
def case(draw):
    c = draw(loops.setup(models=('tiny', 'tiny', 'tiny', 'GP'), max_batch=3, inits=('XY', 'XY', 'X', 'design'), max_cols=4, cons=draw(st.sampled_from([False, False, False, True])), bandit=None,
                         max_init=5, min_init=2, optimizers=('lbfgs', 'lbfgs', 'CMA')))
    lay = gen.Layout(c['dom'])
    c['interval'] = 1
    c['chunks'] = draw(st.sampled_from([[1], [2], [3], [1, 1], [1, 2], [2, 1], [1, 1, 1]]))
    c['dedup'] = bool(draw(st.booleans()) and lay.n_distinct() > 80)
    c['ctx'] = draw(st.integers(0, 40)) if not c.get('cons') and not lay.bandit and draw(st.integers(0, 2)) == 1 else None
    c['ctx_value'] = draw(gen.points(lay, 1, 1))[0]
    c['asks'] = draw(st.sampled_from([1, 1, 2]))
    c['no_f'] = draw(st.booleans())
    c['jitter'], c['weight'] = draw(st.sampled_from([0.01, 0.3])), draw(st.sampled_from([2, 5.]))
    if c['ctx'] is not None:
        c.pop('opt', None)      # CMA does not support the one dimension that may remain
    if c['ctx'] is not None and len(lay.blocks) < 2:
        c['ctx'] = None
    c['dedup'] = bool(c['dedup'] and plenty(c, lay))
    return c


def context(c, lay):
    if c['ctx'] is None:
        return None
    b = lay.blocks[c['ctx'] % len(lay.blocks)]
    return {b[0]: c['ctx_value'][b[2][0]]}


def plenty(c, lay):
    """Whether far more configurations than are evaluated are free (those that agree with the context)."""
    fixed = (c['ctx'] % len(lay.blocks)) if c['ctx'] is not None else None
    n = 1.
    for i, (_, kind, _, _, vals) in enumerate(lay.blocks):
        if i != fixed:
            n *= np.inf if kind == 'continuous' else len(vals)
    return n > 80


def build(c, lay, f, X=None, Y=None):
    over = dict(acquisition_jitter=c['jitter'], acquisition_weight=c['weight'])
    if c['model'] != 'tiny':
        import GPy
        b = np.array(lay.model_bounds(), dtype=float)
        w = np.where(b[:, 1] - b[:, 0] < 1e-6, 1., b[:, 1] - b[:, 0])
        over.update(kernel=GPy.kern.RBF(lay.n_model, lengthscale=0.4 * w, ARD=True), noise_var=1e-2, max_iters=0, exact_feval=False)
    if X is None:
        return loops.make(c, f, **over)
    d = dict(c)
    d['init'] = 'XY'
    d['X0'] = X
    kw = loops.options(d, None)
    kw.update(X=np.array(X, dtype=float), Y=np.array(Y, dtype=float), **over)
    kw.pop('initial_design_numdata', None)
    kw.pop('initial_design_type', None)
    return GPyOpt.methods.BayesianOptimization(f=None if c['no_f'] else f, **kw)


@sub(P, 'by-hand', case, 110, 4000, 'at least two steps or a batch', shards=7)
def by_hand(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    ctx = context(c, lay)
    try:
        np.random.seed(c['seed'])
        bo = build(c, lay, f)
        X0, Y0 = (np.array(a, dtype=float, copy=True) for a in bo.get_evaluations())
        steps = sum(c['chunks'])
        np.random.seed(c['seed'] + 1)
        for n in c['chunks']:
            bo.run_optimization(max_iter=n, eps=-1, context=dict(ctx) if ctx else None)
        closed = np.asarray(bo.get_evaluations()[0], dtype=float)
        # the same by hand
        np.random.seed(c['seed'] + 1)
        X, Y = X0, Y0
        g = loops.Obj(c)
        for k in range(steps):
            b = build(c, lay, g, X, Y)
            state = np.random.get_state()
            seen = []
            for a in range(c['asks']):
                np.random.set_state(state)
                seen.append(np.array(b.suggest_next_locations(context=dict(ctx) if ctx else None), dtype=float, copy=True))
                for name, was, now in zip(('inputs', 'outputs'), (X, Y), b.get_evaluations()):
                    if not np.array_equal(was, np.asarray(now, dtype=float)):
                        raise Violation('asking for a suggestion changed the recorded %s from %r to %r' % (name, was.tolist(), now.tolist()))
            if c['asks'] > 1 and (seen[0].shape != seen[1].shape or not np.allclose(seen[0], seen[1], rtol=1e-9, atol=1e-12)):
                raise Violation('asked twice with the same random state: %r, then %r' % (seen[0].tolist(), seen[1].tolist()))
            s = seen[0]
            if len(g.calls):
                raise Violation('asking for a suggestion evaluated the objective %d times' % len(g.calls))
            want = closed[len(X):len(X) + len(s)]
            if want.shape != s.shape or not np.allclose(want, s, rtol=1e-7, atol=1e-9):
                raise Violation('step %d: the closed loop visits %r, by hand %r is suggested' % (k + 1, want.tolist(), s.tolist()))
            X = np.vstack([X, s])
            Y = np.vstack([Y, [[f.value(x)] for x in s]])
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    if len(closed) != len(X):
        raise Violation('the closed loop visits %d configurations, by hand %d are suggested' % (len(closed) - len(X0), len(X) - len(X0)))
    info.label('context' if ctx else 'no context', 'without objective' if c['no_f'] else 'with objective', *loops.labels(c))
    info.nontrivial(steps > 1 or loops.batch_of(c) > 1)


# --------------------------------------------------------------------------------------------- suggestions inside a run
@st.composite
def mixed_case(draw):
    c = draw(case())
    c['interval'] = draw(st.sampled_from([1, 1, 2, 3]))
    c['without'] = draw(st.sampled_from(['pending_X', 'ignored_X']))
    if plenty(c, gen.Layout(c['dom'])) and draw(st.booleans()):
        c['dedup'] = True
    c['ops'] = draw(st.lists(st.sampled_from(['ask', 'run', 'ask', 'run2', 'run3', 'ask-context', 'ask-without', 'ask-without']), min_size=2, max_size=4))
    return c


@sub(P, 'mixed', mixed_case, 70, 3000, 'a suggestion followed by a step', shards=6)
def mixed(c, info):
    """Asking in between does not change what the closed loop does."""
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    ctx = context(c, lay)
    if c['model'] != 'tiny':
        c = dict(c, model='GP')
    out = []
    try:
        for asking in (True, False):
            np.random.seed(c['seed'])
            bo = build(c, lay, f)
            np.random.seed(c['seed'] + 1)
            pairs = []
            for k, op in enumerate(c['ops']):
                if op.startswith('ask'):
                    if not asking:
                        continue
                    state = np.random.get_state()
                    n = len(f.calls)
                    s = np.array(bo.suggest_next_locations(context=(dict(ctx) if ctx else None) if op == 'ask-context' else None), dtype=float, copy=True)
                    if op == 'ask-without':
                        # points left out once are allowed again afterwards
                        np.random.set_state(state)
                        bo.suggest_next_locations(**{c['without']: s.copy()})
                        np.random.set_state(state)
                        again = np.asarray(bo.suggest_next_locations(), dtype=float)
                        if again.shape != s.shape or not np.allclose(again, s, rtol=1e-7, atol=1e-9):
                            raise Violation('suggested %r; then asked with these as %s, and once more without: %r' % (s.tolist(), c['without'], again.tolist()))
                    if len(f.calls) != n:
                        raise Violation('asking for a suggestion evaluated the objective')
                    np.random.set_state(state)
                    if k + 1 < len(c['ops']) and c['ops'][k + 1].startswith('run') and (op != 'ask-context' or not ctx):
                        pairs.append((len(bo.get_evaluations()[0]), s))
                else:
                    bo.run_optimization(max_iter=int(op[3:] or 1), eps=-1)
            X = np.asarray(bo.get_evaluations()[0], dtype=float)
            for n, s in pairs:
                if not np.allclose(X[n:n + len(s)], s, rtol=1e-7, atol=1e-9):
                    raise Violation('suggested %r, the next step with the same random state visits %r' % (s.tolist(), X[n:n + len(s)].tolist()))
            out.append(X)
    except np.linalg.LinAlgError:
        raise Inconclusive('numerical failure')
    a, b = out
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=1e-9):
        raise Violation('operations %r: visited %r, without asking %r' % (c['ops'], a.tolist(), b.tolist()))
    info.label(*c['ops'])
    info.nontrivial('ask' in ' '.join(c['ops']) and any(o.startswith('run') for o in c['ops']))
