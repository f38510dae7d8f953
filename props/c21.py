"""C21 failing objectives."""
import os

import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from vf.gen import UserFailure
from props.c20 import scratch

P = 'C21'


class Oops(Exception):
    """A failure whose constructor takes two arguments."""

    def __init__(self, a, b):
        Exception.__init__(self, a)
        self.b = b


ERRORS = {'user': lambda: UserFailure('planned'), 'value': lambda: ValueError('planned'), 'key': lambda: KeyError('planned'),
          'linalg': lambda: np.linalg.LinAlgError('planned'), 'assert': lambda: AssertionError('planned'), 'two': lambda: Oops('planned', 2),
          'stop': lambda: StopIteration('planned'), 'eof': lambda: EOFError('planned'), 'interrupt': lambda: KeyboardInterrupt('planned'),
          'type': lambda: TypeError('planned'), 'attribute': lambda: AttributeError('planned'), 'os': lambda: OSError('planned')}


class Failing(loops.Obj):
    """Fails on the calls in `fail_at` (numbered since `arm`)."""

    def arm(self, at, error):
        self.at, self.error, self.k = at, error, 0

    def __call__(self, x):
        self.calls.append(np.array(x, copy=True))
        k, self.k = self.k, self.k + 1
        if k == self.at:
            self.raised = ERRORS[self.error]()
            raise self.raised
        return np.array([[self.value(x)]])


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(dedup=None, **kw))
    if gen.Layout(c['dom']).n_distinct() <= 60:
        c.pop('dedup', None)
    c['modular'] = draw(st.integers(0, 3)) == 0 and c['model'] == 'tiny'
    # at each round: steps asked for, the call which fails (None: no failure)
    c['rounds'] = draw(st.lists(st.tuples(st.integers(1, 3), st.one_of(st.integers(0, 5), st.integers(0, 5), st.none()), st.sampled_from(sorted(ERRORS))), min_size=1, max_size=3).map(lambda l: [list(t) for t in l]))
    c['last'] = draw(st.integers(1, 2))
    return c


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b)


def paired(bo, f, what):
    if len(bo.X) != len(bo.Y):
        raise Violation('%s: %d inputs and %d outputs are recorded' % (what, len(bo.X), len(bo.Y)))
    for x, y in zip(bo.X, bo.Y):
        if y.shape != (1,) or y[0] != f.value(x):
            raise Violation('%s: the value of %r is %r, recorded is %r' % (what, x.tolist(), f.value(x), y.tolist()))


def drive(c, info):
    info.label(*loops.labels(c))
    lay = gen.Layout(c['dom'])
    f = Failing(c)
    f.arm(None, None)
    np.random.seed(c['seed'])
    m = loops.TinyGP(lay.model_bounds()) if c['model'] == 'tiny' else None
    bo = (loops.make_modular if c['modular'] else loops.make)(c, f, model=m)
    b = loops.batch_of(c)
    failed = 0
    for steps, at, err in c['rounds']:
        X0 = np.array(bo.X, dtype=float)
        Y0 = None if bo.Y is None else np.array(bo.Y, dtype=float)
        first = 0 if Y0 is not None else len(X0)     # inputs evaluated when the run starts
        n0 = len(f.calls)
        f.arm(at, err)
        expect = at is not None and at < first + steps * b
        got = None
        try:
            bo.run_optimization(max_iter=steps, eps=-1)
        except BaseException as e:
            if not getattr(f, 'raised', None) is e:
                if type(e) is type(getattr(f, 'raised', None)) and e.args == f.raised.args:
                    pass
                else:
                    raise
            got = e
            f.raised = None
        calls = np.array([np.ravel(x) for x in f.calls[n0:]], dtype=float).reshape(-1, X0.shape[1])
        if expect and got is None:
            raise Violation('the failure of call %d (%s) did not reach the caller' % (at, err))
        if not expect and got is not None:
            raise Violation('no call was to fail, the caller received %r' % got)
        what = 'failure (%s) of call %d of %d steps' % (err, at, steps) if expect else 'run'
        if expect:
            failed += 1
            if len(calls) != at + 1:
                raise Violation('%s: the objective was called %d times' % (what, len(calls)))
            info.label('failure in the initial data' if at < first else 'failure within a batch' if (at - first) % b else 'failure at the start of a step')
            done = max(0, (at - first) // b)
        else:
            done = steps
        if expect and at < first:
            if bo.Y is not None:
                raise Violation('%s: outputs %r recorded without complete initial data' % (what, np.ravel(bo.Y).tolist()))
            if not same(bo.X, X0):
                raise Violation('%s: the inputs changed from %r to %r' % (what, X0.tolist(), np.asarray(bo.X).tolist()))
            continue
        if not same(bo.X, np.vstack([X0, calls[first:first + done * b]])):
            raise Violation('%s: recorded before were %r, %d steps evaluated %r, recorded now are %r' % (what, X0.tolist(), done, calls[first:].tolist(), np.asarray(bo.X).tolist()))
        paired(bo, f, what)
        if Y0 is not None and not same(bo.Y[:len(Y0)], Y0):
            raise Violation('%s: recorded outputs changed' % what)
    # --- resumption
    X0 = np.array(bo.X, dtype=float)
    f.arm(None, None)
    n0 = len(f.calls)
    first = 0 if bo.Y is not None else len(X0)
    if m is not None and c['interval'] == 1 and first == 0 and not c['modular'] and failed:
        # a new optimizer which is given the recorded history proceeds in the same way
        np.random.seed(c['seed'] % 1000)
        o = dict(c, init='XY', X0=X0.tolist())
        ref = loops.make(o, loops.Obj(c), model=loops.TinyGP(lay.model_bounds()))
        np.random.seed(c['seed'] % 1000)
        ref.run_optimization(max_iter=c['last'], eps=-1)
    else:
        ref = None
    np.random.seed(c['seed'] % 1000)
    bo.run_optimization(max_iter=c['last'], eps=-1)
    calls = np.array([np.ravel(x) for x in f.calls[n0:]], dtype=float).reshape(-1, X0.shape[1])
    if len(calls) != first + c['last'] * b:
        raise Violation('the resumed run of %d steps evaluated %d configurations' % (c['last'], len(calls)))
    if not same(bo.X, np.vstack([X0, calls[first:]])):
        raise Violation('the resumed run evaluated %r after %r, recorded are %r' % (calls.tolist(), X0.tolist(), np.asarray(bo.X).tolist()))
    paired(bo, f, 'resumed run')
    if float(np.ravel(bo.fx_opt)[0]) != bo.Y.min() or f.value(bo.x_opt) != bo.Y.min():
        raise Violation('the resumed run reports the optimum %r' % bo.fx_opt)
    if not np.array_equal(np.ravel(bo.Y_best), np.minimum.accumulate(bo.Y.ravel())):
        raise Violation('the resumed run reports the best values %r' % np.ravel(bo.Y_best).tolist())
    if ref is not None:
        if not same(ref.X, bo.X):
            raise Violation('the resumed run continues with %r, a new optimizer with the same history continues with %r' % (bo.X[len(X0):].tolist(), ref.X[len(X0):].tolist()))
        info.label('compared with a new optimizer')
    info.nontrivial(failed)


@sub(P, 'sequential', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling')), 120, 4000, 'at least one failure', shards=5)
def sequential(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP', 'GP', 'sparseGP', 'GP_MCMC'), evaluators=('sequential', 'random', 'local_penalization'), max_cols=2, acqs=('EI', 'LCB')), 24, 800, 'at least one failure', shards=4)
def gp(c, info):
    if c['model'] == 'GP_MCMC':
        c = dict(c, acq=c['acq'] + '_MCMC')
    drive(c, info)


@st.composite
def init_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random'), inits=('design', 'X'), bandit=None))
    c['at'] = draw(st.integers(0, c['n0'] - 1))
    c['error'] = draw(st.sampled_from(sorted(ERRORS)))
    c['cores'] = draw(st.sampled_from([1, 1, 1, 1, 2, 3]))
    return c


@sub(P, 'initial', init_case, 40, 1200, 'a failure after the first configuration', shards=2, case_limit=60)
def initial(c, info):
    """Failure while the initial data are being evaluated; the objective works afterwards."""
    f = Failing(c)
    if c['cores'] == 1:
        f.arm(c['at'], c['error'])
        call = f
    else:
        def call(x):
            raise ERRORS[c['error']]()
        call.value = f.value
    np.random.seed(c['seed'])
    try:
        bo = loops.make(c, call, num_cores=c['cores'])
        bo.run_optimization(max_iter=1, eps=-1)
    except BaseException as e:
        r = ERRORS[c['error']]()
        if type(e) is not type(r) or e.args != r.args:
            raise
    else:
        raise Violation('the failure (%s) of initial configuration %d did not reach the caller' % (c['error'], c['at']))
    info.label('%d workers' % c['cores'])
    info.nontrivial(c['at'] > 0)


class Marked(object):
    """Fails on given rows as long as a file exists; for several processes."""

    def __init__(self, c, path, bad, error):
        self.value, self.path, self.bad, self.error = loops.Obj(c).value, path, bad, error

    def __call__(self, x):
        if os.path.exists(self.path) and tuple(np.asarray(x, dtype=float).ravel().tolist()) in self.bad:
            raise ERRORS[self.error]()
        return np.array([[self.value(x)]])


@st.composite
def par_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('random',), inits=('X', 'XY'), bandit=None, max_cols=3))
    lay = gen.Layout(c['dom'])
    steps = draw(st.integers(1, 3))
    c['batches'] = [draw(gen.points(lay, 1, 6)) for _ in range(steps)]
    c['batches'] = [l[:len(min(c['batches'], key=len))] for l in c['batches']]
    c['fail'] = [draw(st.integers(0, steps - 1)), draw(st.lists(st.integers(0, 5), min_size=1, max_size=3))]
    c['cores'] = draw(st.integers(2, 8))
    c['error'] = draw(st.sampled_from(sorted(set(ERRORS) - {'interrupt'})))
    return c


@sub(P, 'parallel', par_case, 60, 1500, 'at least two configurations in the failing batch', shards=3, case_limit=60)
def parallel(c, info):
    lay = gen.Layout(c['dom'])
    batches = c['batches']
    s, rows = c['fail']
    rows = sorted({r % len(batches[s]) for r in rows})
    bad = {tuple(float(v) for v in batches[s][r]) for r in rows}
    # the failing rows occur in no earlier step
    first = min(i for i, l in enumerate(batches) if any(tuple(float(v) for v in x) in bad for x in l))
    init_bad = any(tuple(float(v) for v in x) in bad for x in c['X0'])
    with scratch() as dr:
        mark = os.path.join(dr, 'fail')
        open(mark, 'w').close()
        f = Marked(c, mark, bad, c['error'])
        from GPyOpt.core.task.objective import SingleObjective
        ev = loops.Scripted(None, [[lay.encode(x) for x in l] for l in batches])
        np.random.seed(c['seed'])
        bo = loops.make_modular(c, f, evaluator=ev, objective=SingleObjective(f, num_cores=c['cores']), de_duplication=False)
        X0 = np.array(bo.X, dtype=float)
        try:
            bo.run_optimization(max_iter=len(batches), eps=-1)
        except Exception as e:
            r = ERRORS[c['error']]()
            if type(e) is not type(r) or e.args != r.args:
                raise
        else:
            raise Violation('%d workers: the failure (%s) of rows %r of step %d did not reach the caller' % (c['cores'], c['error'], rows, s))
        if init_bad and c['init'] == 'X':
            exp = X0
            if bo.Y is not None:
                raise Violation('outputs %r recorded without complete initial data' % np.ravel(bo.Y).tolist())
        else:
            exp = np.vstack([X0] + [np.array(l, dtype=float) for l in batches[:first]])
            paired(bo, f, '%d workers' % c['cores'])
        if not same(bo.X, exp):
            raise Violation('%d workers, step %d failed: recorded are %r instead of %r' % (c['cores'], first, np.asarray(bo.X).tolist(), exp.tolist()))
        os.remove(mark)
        ev.k = first
        bo.run_optimization(max_iter=len(batches) - first, eps=-1)
        exp = np.vstack([X0] + [np.array(l, dtype=float) for l in (batches if not (init_bad and c['init'] == 'X') else batches[first:])])
        if not same(bo.X, exp):
            raise Violation('%d workers, resumed: recorded are %r instead of %r' % (c['cores'], np.asarray(bo.X).tolist(), exp.tolist()))
        paired(bo, f, 'resumed run with %d workers' % c['cores'])
    info.label('%d workers' % c['cores'])
    info.nontrivial(len(batches[s]) > 1)
