"""C15 evaluation history."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C15'


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(**kw))
    lay = gen.Layout(c['dom'])
    c['modular'] = c['model'] == 'tiny' and draw(st.booleans())
    if c['model'] == 'tiny' and draw(st.integers(0, 4)) == 0:
        c['mag'] = draw(st.sampled_from([1e120, 1e300, 1e-300, 'penalty', 'penalty']))
        c['normalize'] = False
    if c['init'] == 'XY' and draw(st.booleans()):
        c['Y0'] = [draw(st.sampled_from([0., -100., 3.5, 7., 7., 1e6])) + draw(gen.fl(-1, 1, 1)) for _ in c['X0']]       # measured elsewhere
    ops = st.one_of(st.tuples(st.just('run'), st.integers(0, 3)), st.tuples(st.just('run'), st.integers(0, 2)), st.tuples(st.just('suggest'), st.just(0)),
                    st.tuples(st.just('get'), st.just(0)), st.tuples(st.just('scripted'), st.integers(1, 3)), st.tuples(st.just('fail'), st.integers(0, 2)))
    c['ops'] = [list(o) for o in draw(st.lists(ops, min_size=1, max_size=5))]
    if c['model'] == 'tiny' and draw(st.integers(0, 14)) == 0:
        c['ops'] = c['ops'][:1] + [['run', draw(st.sampled_from([12, 25]))]]          # now and then a long run
    if c['modular'] and draw(st.booleans()):
        b = draw(st.integers(1, 4))
        c['script'] = [draw(gen.points(lay, b, b)) for _ in range(draw(st.integers(1, 4)))]
    return c


def check_state(bo, f, X0, Y0, n_asked, c, after_run):
    X, Y = np.asarray(bo.X), np.asarray(bo.Y)
    if X.ndim != 2 or Y.shape != (len(X), 1):
        raise Violation('recorded inputs of shape %r with outputs of shape %r' % (X.shape, Y.shape))
    if not np.array_equal(X[:len(X0)], X0):
        raise Violation('the initial inputs %r are recorded as %r' % (X0.tolist(), X[:len(X0)].tolist()))
    known = Y0 is not None
    if known and not np.array_equal(Y[:len(X0)], Y0):
        raise Violation('the initial outputs %r are recorded as %r' % (Y0.ravel().tolist(), Y[:len(X0)].ravel().tolist()))
    calls = np.vstack(f.calls) if f.calls else np.zeros((0, X.shape[1]))
    rest = X[len(X0):] if known else X
    if calls.shape != rest.shape or not np.array_equal(calls, rest):
        raise Violation('the objective was called at %r, the history holds %r' % (calls.tolist(), rest.tolist()))
    off = len(X0) if known else 0
    for i in range(off, len(X)):
        if Y[i, 0] != f.value(X[i]):
            raise Violation('output %d is %r, the objective at %r is %r' % (i, Y[i, 0], X[i].tolist(), f.value(X[i])))
    if after_run:
        fx = float(np.ravel(bo.fx_opt)[0])
        if fx != Y.min():
            raise Violation('reported optimum %r, smallest recorded output %r' % (fx, Y.min()))
        x = np.ravel(bo.x_opt)
        if not any(np.array_equal(x, X[i]) and Y[i, 0] == Y.min() for i in range(len(X))):
            raise Violation('reported optimum %r is not a recorded input with the smallest output %r' % (x.tolist(), Y.min()))
        if np.ravel(bo.Y_best).tolist() != np.minimum.accumulate(Y.ravel()).tolist():
            raise Violation('best-so-far curve %r of the outputs %r' % (np.ravel(bo.Y_best).tolist(), Y.ravel().tolist()))


def drive(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    info.label(*loops.labels(c))
    info.label('modular' if c['modular'] else 'main', 'magnitude %s' % c.get('mag'))
    np.random.seed(c['seed'])
    X0, Y0 = loops.given_data(c, f)
    if c.get('Y0'):
        Y0 = np.array(c['Y0'])[:, None]
    b = loops.batch_of(c)
    if c['modular']:
        if c.get('script'):
            c2 = dict(c, evaluator='sequential', batch=1)
            bo = loops.make_modular(c2, f)
            bo.evaluator = loops.Scripted(bo.acquisition, [[lay.encode(x) for x in bt] for bt in c['script']])
            b = len(c['script'][0])
            info.label('scripted proposals')
        else:
            bo = loops.make_modular(c, f)
        if Y0 is not None:
            bo.Y = Y0.copy()
        if X0 is None:
            X0 = np.array(bo.X, copy=True)
        started = Y0 is not None
    else:
        kw = {'Y': Y0.copy()} if Y0 is not None else {}
        bo = loops.make(c, f, **kw)
        if X0 is None:
            X0 = np.array(f.calls).reshape(-1, lay.n_obj)
            if len(X0) != c['n0']:
                raise Violation('%d evaluations of an initial design of %d points' % (len(X0), c['n0']))
        started = True
        check_state(bo, f, X0, Y0, 0, c, False)
    total = len(X0)
    runs = 0
    for op, n in c['ops']:
        if op == 'run' or op == 'scripted':
            bo.run_optimization(max_iter=n, eps=-1)
            started = True
            total += n * b
            runs += n
            check_state(bo, f, X0, Y0, total, c, True)
        elif op == 'fail' and started:
            # n steps, then one in which the objective fails at the last row
            before = len(f.calls)
            f.fail_at = {before + n * b + b - 1}
            try:
                bo.run_optimization(max_iter=n + 1, eps=-1)
            except gen.UserFailure:
                pass
            else:
                raise Violation('the failure of the objective did not reach the caller')
            f.fail_at = None
            del f.calls[before + n * b:]
            total += n * b
            runs += n
            info.label('interrupted run')
        elif op == 'suggest' and started:
            S = bo.suggest_next_locations()
            S[:] = 99        # the caller may do with the suggestion what he likes
        elif op == 'get' and started:
            gx, gy = bo.get_evaluations()
            if not (np.array_equal(gx, bo.X) and np.array_equal(gy, bo.Y)):
                raise Violation('get_evaluations does not return the recorded data')
            gx[:] = 1
            gy[:] = -50
        if started:
            check_state(bo, f, X0, Y0, total, c, False)
            if len(bo.X) != total:
                raise Violation('%d rows recorded after operations %r instead of %d' % (len(bo.X), c['ops'], total))
    info.nontrivial(runs > 1 or b > 1 and runs > 0)


@sub(P, 'fast', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling')), 200, 6000, 'several steps or a batch', shards=6)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), max_cols=3), 30, 1000, 'several steps or a batch', shards=4)
def gp(c, info):
    drive(c, info)


@st.composite
def curve_case(draw):
    return {'Y': draw(st.lists(st.one_of(gen.fl(-3, 3, 1), st.sampled_from([1e300, -1e300, 0., -0., 1e-300])), min_size=1, max_size=12)),
            'tail': draw(st.sampled_from([0, 0, 0, 5, 40, 150, 700])), 'seed': draw(gen.seeds)}


@sub(P, 'curve', lambda: curve_case(), 300, 5000, 'the minimum changes after the first value')
def curve(c, info):
    from GPyOpt.util.general import best_value
    Y = np.array(list(c['Y']) + (np.random.randn(c['tail']) * 3).tolist())[:, None]
    info.nontrivial(Y.min() < c['Y'][0])
    info.label('%d values' % len(Y) if c['tail'] else 'short')
    r = np.ravel(best_value(Y)).tolist()
    if r != np.minimum.accumulate(Y.ravel()).tolist():
        raise Violation('best values of %r: %r' % (Y.ravel().tolist(), r))
    r = np.ravel(best_value(Y, -1)).tolist()
    if r != np.maximum.accumulate(Y.ravel()).tolist():
        raise Violation('best values (maximum) of %r: %r' % (Y.ravel().tolist(), r))
