"""C19 training of the surrogate."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C19'


@st.composite
def case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), dedup=None, bandit=None))
    c['interval'] = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 7]))
    c['modular'] = draw(st.integers(0, 2)) == 0
    c['ops'] = draw(st.lists(st.sampled_from([-1, 0, 1, 2, 3, 5]), min_size=1, max_size=3))
    if c['model'] == 'tiny' and draw(st.integers(0, 14)) == 0:
        c['ops'] = c['ops'][:1] + [draw(st.sampled_from([12, 25]))]          # now and then a long run
    if gen.Layout(c['dom']).n_distinct() <= 80:
        c.pop('dedup', None)
    return c


@sub(P, 'schedule', lambda: case(), 160, 5000, 'an interval above one and more than one step, or several runs', shards=6)
def schedule(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    events = []
    m = loops.TinyGP(lay.model_bounds())
    m.on_update = lambda _: events.append(('update',) + m.updates[-1])

    def logged(x):
        events.append(('call',))
        return f(x)
    logged.value = f.value
    np.random.seed(c['seed'])
    bo = (loops.make_modular if c['modular'] else loops.make)(c, logged, model=m)
    info.label(*loops.labels(c))
    info.label('interval %d' % c['interval'], 'modular' if c['modular'] else 'main')
    b = loops.batch_of(c)
    k = c['interval']
    for n in c['ops']:
        if n < 0 and bo.Y is None:
            continue
        first = bo.Y is None          # the modular optimizer evaluates given inputs when the run starts
        n0 = len(bo.X)
        del events[:]
        if n < 0:
            S = bo.suggest_next_locations()
            if [e[0] for e in events] != ['update']:
                raise Violation('asking for a suggestion led to %r' % ([e[0] for e in events],))
            check_data(bo, lay, c, events[0], n0)
            continue
        bo.run_optimization(max_iter=n, eps=-1)
        ev = list(events)
        if first:
            if [e[0] for e in ev[:n0]] != ['call'] * n0:
                raise Violation('the initial inputs were not evaluated before the first update')
            ev = ev[n0:]
        done = (len(bo.X) - n0)
        # cut the events at the calls of the objective: the updates before each step
        steps, cur, calls = [], [], 0
        for e in ev:
            if e[0] == 'update':
                cur.append(e)
            else:
                if calls % b == 0:
                    steps.append(cur)
                    cur = []
                elif cur:
                    raise Violation('the surrogate was updated while a batch was being evaluated')
                calls += 1
        if calls != done or len(steps) != n:
            raise Violation('%d steps with %d evaluations: %d calls, %d new rows' % (n, n * b, calls, done))
        for i, ups in enumerate(steps):
            due = i % k == 0
            if due and not ups:
                raise Violation('interval %d: no update before proposal %d' % (k, i))
            if not due and ups:
                raise Violation('interval %d: update before proposal %d' % (k, i))
            for e in ups:
                check_data(bo, lay, c, e, n0 + i * b)
        for e in cur:
            check_data(bo, lay, c, e, n0 + n * b)
        info.nontrivial(n > 1 and k > 1 or len(c['ops']) > 1)


def check_data(bo, lay, c, e, n):
    _, X, Y = e
    rX, rY = np.asarray(bo.X)[:n], np.asarray(bo.Y)[:n]
    if X.shape != (n, lay.n_model) or Y.shape != (n, 1):
        raise Violation('%d configurations so far, the surrogate received inputs of shape %r and outputs of shape %r' % (n, X.shape, Y.shape))
    ref = np.array([lay.encode(x) for x in rX])
    if not np.array_equal(X, ref):
        raise Violation('the surrogate received %r for the inputs %r' % (X.tolist(), rX.tolist()))
    if c['normalize']:
        rY = np.zeros_like(rY) if rY.max() == rY.min() else (rY - rY.mean()) / rY.std()
        if not np.allclose(Y, rY, rtol=1e-9, atol=1e-9):
            raise Violation('the surrogate received the outputs %r instead of %r' % (Y.ravel().tolist(), rY.ravel().tolist()))
    elif not np.array_equal(Y, rY):
        raise Violation('the surrogate received the outputs %r instead of %r' % (Y.ravel().tolist(), rY.ravel().tolist()))


@st.composite
def gp_case(draw):
    c = draw(loops.setup(models=('GP', 'GP', 'GP', 'sparseGP', 'GP_MCMC'), evaluators=('sequential', 'random', 'local_penalization'), max_cols=3))
    if c['model'] == 'GP_MCMC':
        c['acq'] += '_MCMC'
    c['interval'] = draw(st.sampled_from([1, 1, 2, 3]))
    c['ops'] = draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=2))
    return c


@sub(P, 'gp-data', lambda: gp_case(), 30, 1000, 'more than one step', shards=4)
def gp_data(c, info):
    """The data held by the Gaussian process after a run or a suggestion."""
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    b = loops.batch_of(c)
    for n in c['ops']:
        n0 = len(bo.X)
        bo.run_optimization(max_iter=n, eps=-1)
        last = n if n % c['interval'] == 0 else n - n % c['interval']
        held = len(bo.model.model.Y)
        if held not in [n0 + b * ((n - 1) // c['interval'] * c['interval']), n0 + b * last]:
            raise Violation('interval %d: after %d steps from %d rows the surrogate holds %d rows' % (c['interval'], n, n0, held))
        check_data(bo, lay, c, ('', np.array(bo.model.model.X), np.array(bo.model.model.Y)), held)
        info.nontrivial(len(bo.X) - c['n0'] > 1)
    bo.suggest_next_locations()
    check_data(bo, lay, c, ('', np.array(bo.model.model.X), np.array(bo.model.model.Y)), len(bo.X))
