"""C18 output normalisation."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from GPyOpt.util.general import normalize

P = 'C18'


@st.composite
def vec(draw):
    big = draw(st.sampled_from([1., 1., 1e-6, 1e6, 1e100, 1e-100]))
    off = draw(st.sampled_from([0., 0., 1., -1000., 1e6]))
    how = draw(st.integers(0, 5))
    if how == 0:
        v = [draw(gen.fl(-5, 5))] * draw(st.integers(1, 8))
    else:
        v = draw(st.lists(st.one_of(gen.fl(-5, 5), st.sampled_from([0., 1., -1., 0.1])), min_size=1, max_size=10))
    v = v + draw(gen.extra(1, 0, 1, -5, 5, (0,) * 12 + (20, 70), 0))[1]
    return {'v': v, 'big': big, 'off': off, 'mode': draw(st.sampled_from(['stats', 'maxmin', None])), 'shape': draw(st.sampled_from(['col', 'row', 'flat'])),
            'int': draw(st.integers(0, 5)) == 0, 'shift': draw(st.sampled_from([1., -7.5, 100.])), 'scale': draw(st.sampled_from([2., 0.1, 1000.])), 'seed': 0}


@sub(P, 'laws', lambda: vec(), 1500, 40000, 'outputs which are not all equal', shards=2)
def laws(c, info):
    v = (np.array(c['v']) + c['off']) * c['big']
    if c['int']:
        v = np.round(np.array(c['v'])).astype(int)
    Y = v[:, None] if c['shape'] == 'col' else v[None, :] if c['shape'] == 'row' else v
    kw = {} if c['mode'] is None else {'normalization_type': c['mode']}
    keep = Y.copy()
    N = normalize(Y, **kw)
    if not np.array_equal(Y, keep) or Y.dtype != keep.dtype:
        raise Violation('the outputs passed in were changed')
    if np.shape(N) != Y.shape:
        raise Violation('shape %r became %r' % (Y.shape, np.shape(N)))
    if np.shares_memory(N, Y):
        raise Violation('the result shares its memory with the outputs passed in')
    N = np.asarray(N, dtype=float)
    n, y = N.ravel(), Y.ravel().astype(float)
    if not np.all(np.isfinite(n)):
        raise Violation('%r is normalised to %r' % (y.tolist(), n.tolist()))
    if y.max() == y.min():
        info.label('constant')
        if np.any(n != 0):
            raise Violation('constant outputs %r are normalised to %r' % (y.tolist(), n.tolist()))
        return
    info.nontrivial()
    cond = np.abs(y).max() / (y.max() - y.min())
    tol = 1e-13 * cond * 10 + 1e-12
    if tol > 1e-3:
        info.label('badly conditioned')
        return
    if c['mode'] == 'maxmin':
        if abs(n.min() + 1) > tol or abs(n.max() - 1) > tol:
            raise Violation('range of the normalised outputs: %r to %r' % (n.min(), n.max()))
        ref = 2 * (y - y.min()) / (y.max() - y.min()) - 1
    else:
        if abs(n.mean()) > tol or abs(n.std() - 1) > tol:
            raise Violation('normalised outputs have mean %r and deviation %r' % (n.mean(), n.std()))
        ref = y / np.abs(y).max()
        ref = (ref - ref.mean()) / ref.std()
    if not np.allclose(n, ref, rtol=0, atol=10 * tol):
        raise Violation('%r normalised to %r instead of %r' % (y.tolist(), n.tolist(), ref.tolist()))
    o = np.argsort(y, kind='stable')
    if np.any(np.diff(n[o]) < 0) or np.any((np.diff(y[o]) == 0) & (np.diff(n[o]) != 0)):
        raise Violation('the order of %r is not the order of %r' % (y.tolist(), n.tolist()))
    if c['big'] == 1. and not c['int']:
        M = np.asarray(normalize(Y * c['scale'] + c['shift'], **kw)).ravel()
        if not np.allclose(M, n, rtol=0, atol=1e-9 + 100 * tol * (1 + abs(c['shift']))):
            raise Violation('shifted and scaled outputs are normalised to %r instead of %r' % (M.tolist(), n.tolist()))


@sub(P, 'refuse', lambda: st.fixed_dictionaries({'n': st.integers(2, 4), 'k': st.integers(2, 4), 'how': st.sampled_from(['matrix', 'type']), 'seed': st.just(0)}), 20, 100, 'all')
def refuse(c, info):
    info.nontrivial()
    try:
        normalize(np.zeros((c['n'], c['k'])), 'stats') if c['how'] == 'matrix' else normalize(np.zeros((c['n'], 1)), 'zscore')
    except Exception:
        return
    raise Violation('%s was accepted' % ('a matrix' if c['how'] == 'matrix' else 'an unknown type'))


@st.composite
def run_case(draw, **kw):
    c = draw(loops.setup(**kw))
    c['steps'] = draw(st.integers(0, 3))
    c['shift'] = draw(st.sampled_from([0., 7., -100., 1000.]))
    c['k'] = draw(st.integers(-3, 5))
    if draw(st.integers(0, 5)) == 0:
        c['constant'] = True
    return c


@sub(P, 'surrogate-sees', lambda: run_case(models=('tiny',), evaluators=('sequential', 'random')), 100, 3000, 'outputs which are not all equal', shards=3)
def surrogate_sees(c, info):
    """What the surrogate is trained on, with and without normalisation."""
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c, scale=0. if c.get('constant') else 2. ** c['k'], shift=c['shift'])
    m = loops.TinyGP(lay.model_bounds())
    np.random.seed(c['seed'])
    bo = loops.make(c, f, model=m)
    bo.run_optimization(max_iter=c['steps'], eps=-1)
    info.label('normalised' if c['normalize'] else 'raw')
    if not m.updates:
        raise Violation('the surrogate was never trained')
    for X, Y in m.updates:
        n = len(Y)
        raw = np.asarray(bo.Y)[:n]
        if Y.shape != (n, 1):
            raise Violation('the surrogate received outputs of shape %r' % (Y.shape,))
        if not c['normalize']:
            if not np.array_equal(Y, raw):
                raise Violation('without normalisation the surrogate saw %r instead of %r' % (Y.ravel().tolist(), raw.ravel().tolist()))
            continue
        if raw.max() == raw.min():
            ref = np.zeros_like(raw)
        else:
            info.nontrivial()
            ref = (raw - raw.mean()) / raw.std()
        if not np.allclose(Y, ref, rtol=1e-9, atol=1e-9):
            raise Violation('with normalisation the surrogate saw %r instead of %r' % (Y.ravel().tolist(), ref.ravel().tolist()))
    for i, x in enumerate(bo.X):
        if bo.Y[i, 0] != f.value(x):
            raise Violation('normalisation changed the recorded output %d: %r instead of %r' % (i, bo.Y[i, 0], f.value(x)))


@sub(P, 'scaled-run', lambda: run_case(models=('tiny', 'tiny', 'GP'), evaluators=('sequential', 'random', 'thompson_sampling'), max_cols=4, min_init=2), 70, 2000, 'a scale other than one and two different outputs', shards=4)
def scaled_run(c, info):
    """Scaling the objective by a power of two is exact in floating point: the whole run must be the same."""
    c['normalize'] = True
    out = []
    for k in (0, c['k']):
        f = loops.Obj(dict(c, ties=None), scale=2. ** k)
        np.random.seed(c['seed'])
        bo = loops.make(dict(c, ties=None), f)
        bo.run_optimization(max_iter=min(2, c['steps']), eps=-1)
        S = bo.suggest_next_locations()
        out.append((np.array(bo.X, dtype=float), np.array(S, dtype=float), np.array(bo.Y)))
    info.nontrivial(c['k'] != 0 and len(set(out[0][2].ravel())) > 1)
    if not np.array_equal(out[0][0], out[1][0]) or not np.array_equal(out[0][1], out[1][1]):
        raise Violation('scaling the objective by %r changed the proposals from %r to %r' % (2. ** c['k'], np.vstack(out[0][:2]).tolist(), np.vstack(out[1][:2]).tolist()))


@st.composite
def shift_case(draw):
    c = draw(loops.setup(models=('tiny', 'tiny', 'GP'), evaluators=('sequential', 'random', 'thompson_sampling'), max_cols=4, inits=('XY',)))
    lay = gen.Layout(c['dom'])
    n = draw(st.sampled_from([1, 2, 4, 4, 8]))
    c['X0'] = draw(gen.points(lay, n, n))
    c['n0'] = n
    c['Y0'] = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
    c['shift'] = draw(st.sampled_from([1., 100., -1000., 0.5, 65536.]))
    c['k'] = draw(st.integers(-2, 4))
    return c


@sub(P, 'shifted', lambda: shift_case(), 70, 2000, 'two different outputs', shards=4)
def shifted(c, info):
    """Whole numbers whose mean is exact: shifting them leaves every digit of the normalised outputs as it is."""
    c['normalize'] = True
    out = []
    Y = np.array(c['Y0'], dtype=float)[:, None]
    info.nontrivial(Y.min() < Y.max())
    for Z in (Y, (Y + c['shift']) * 2. ** c['k']):
        np.random.seed(c['seed'])
        bo = loops.make(c, loops.Obj(c), Y=Z)
        out.append(np.array(bo.suggest_next_locations(), dtype=float))
    if not np.array_equal(*out):
        raise Violation('outputs %r propose %r; shifted by %r and scaled by %r they propose %r' % (c['Y0'], out[0].tolist(), c['shift'], 2. ** c['k'], out[1].tolist()))
