"""C16 stopping rules."""
import time
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C16'
CLOCKS = ['time', 'monotonic', 'perf_counter', 'process_time']


class FakeClock(object):
    """Replaces the clocks of the time module while the library runs."""

    def __init__(self, start):
        self.t = start

    def __enter__(self):
        self.saved = {n: getattr(time, n) for n in CLOCKS}
        for n in CLOCKS:
            setattr(time, n, lambda: self.t)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


@st.composite
def case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential',), inits=('XY', 'X'), max_cols=3, bandit=None))
    lay = gen.Layout(c['dom'])
    c['main'] = draw(st.integers(0, 3)) == 0
    if not c['main']:
        b = draw(st.sampled_from([1, 1, 1, 2, 3]))
        pool = draw(gen.points(lay, 1, 4))
        pts = st.one_of(st.sampled_from(pool), st.sampled_from(pool).map(lambda x: x), gen.points(lay, 1, 1).map(lambda l: l[0]))
        c['script'] = [draw(st.lists(pts, min_size=b, max_size=b)) for _ in range(draw(st.integers(1, 6)))]
    c['dt'] = draw(st.lists(st.sampled_from([0., 1., 1., 2., 0.5, 10.]), min_size=1, max_size=5))
    c['t0'] = draw(st.sampled_from([0., 1000., 1.7e9]))
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        r = {}
        k = draw(st.integers(0, 5))
        if k > 0:
            r['max_iter'] = draw(st.sampled_from([0, 1, 2, 3, 4, 6, 3, 4, 6, 8] * 2 + [12, 26]))
        elif draw(st.booleans()):
            r['max_iter'] = None
        t = draw(st.integers(0, 5))
        if t > 2 or (r.get('max_iter', 0) is None and t > 0):
            r['max_time'] = draw(st.sampled_from([0., 0.5, 1., 2., 3., 4.5, 10.] * 2 + [22.]))
        elif t == 1:
            r['max_time'] = None
        e = draw(st.integers(0, 4))
        if e == 0:
            r['eps'] = draw(st.sampled_from([0., 1e-8, 0.5, 1., 3.]))
        elif e > 2:
            r['eps'] = draw(st.sampled_from([-1., -1e-3]))
        runs.append(r)
    if draw(st.integers(0, 24)) == 0:           # a long run
        k = draw(st.sampled_from([14, 25, 60]))
        runs = [{'max_iter': k + 15, 'eps': draw(st.sampled_from([-1., 1e-8])), 'max_time': draw(st.sampled_from([k * 0.5, k * 1., None]))}] + runs[:1]
    unit = draw(st.sampled_from([1., 1., 1., 2. ** -5, 2. ** -9, 2. ** 8]))          # evaluations of milliseconds, or of minutes; exact in binary
    c['dt'] = [v * unit for v in c['dt']]
    for r in runs:
        if r.get('max_time') is not None:
            r['max_time'] *= unit
    c['runs'] = runs
    return c


@sub(P, 'rules', lambda: case(), 450, 15000, 'a run of two steps or more, or one ended by the clock or by the tolerance', shards=4)
def rules(c, info):
    lay = gen.Layout(c['dom'])
    clock = FakeClock(c['t0'])
    f = loops.Obj(c)
    durations = []

    def timed(x):
        d = c['dt'][len(durations) % len(c['dt'])]
        durations.append(d)
        clock.t += d
        return f(x)
    timed.value = f.value
    np.random.seed(c['seed'])
    with clock:
        if c['main']:
            bo = loops.make(c, timed)
        else:
            bo = loops.make_modular(dict(c, evaluator='sequential', batch=1), timed)
            bo.evaluator = loops.Scripted(bo.acquisition, [[lay.encode(x) for x in b] for b in c['script']])
    b = 1 if c['main'] else len(c['script'][0])
    for r in c['runs']:
        max_iter, max_time, eps = r.get('max_iter', 0), r.get('max_time', np.inf), r.get('eps', 1e-8)
        if max_iter is None and max_time is None:
            limit, tlimit = 0, np.inf
        else:
            limit = np.inf if max_iter is None else max_iter
            tlimit = np.inf if max_time is None else max_time
        if limit == np.inf and tlimit == np.inf:
            continue           # asks to run for ever
        if limit == np.inf and sum(c['dt']) == 0:
            continue
        n0 = len(bo.X)
        fresh = bo.Y is None
        d0 = len(durations)
        with clock:
            bo.run_optimization(**r)
        X = np.asarray(bo.X)
        if (len(X) - n0) % b:
            raise Violation('%d evaluations in steps of %d' % (len(X) - n0, b))
        done = (len(X) - n0) // b
        dur = durations[d0:]
        if fresh:
            dur = dur[n0:]
        if len(dur) != done * b:
            raise Violation('%d evaluations for %d new rows' % (len(dur), done * b))

        def reason(i):
            """Why the run must end before its step i, or None."""
            if i >= limit:
                return 'iterations'
            if sum(dur[:i * b]) >= tlimit:
                return 'time'
            m = n0 + i * b
            if m > 1:
                d = float(np.sqrt(((X[m - 1] - X[m - 2]) ** 2).sum()))
                if abs(d - eps) < 1e-9 and d != eps:
                    return 'either'
                if d <= eps:
                    return 'tolerance'
            return None
        for i in range(done):
            why = reason(i)
            if why not in (None, 'either'):
                raise Violation('step %d of a run with %r was taken although the run had to end (%s); durations %r, last inputs %r' % (
                    i + 1, r, why, dur, X[:n0 + i * b][-2:].tolist()))
        why = reason(done)
        if why is None:
            raise Violation('a run with %r ended after %d steps for no reason; durations %r, last inputs %r' % (r, done, dur, X[-2:].tolist()))
        info.label('ended by ' + why)
        info.nontrivial(done > 1 or why in ('time', 'tolerance'))


@st.composite
def plain_case(draw):
    c = draw(loops.setup(models=('tiny', 'GP'), evaluators=('sequential', 'random'), max_cols=3))
    c['iters'] = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))
    c['omit'] = draw(st.booleans())
    return c


@sub(P, 'steps', lambda: plain_case(), 60, 2000, 'two steps or more', shards=4)
def steps(c, info):
    """The exact number of steps through the main optimizer, real clock, tolerance switched off."""
    f = loops.Obj(c)
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    for n in c['iters']:
        n0 = len(bo.X)
        kw = {} if c['omit'] else {'max_time': 1e9}
        bo.run_optimization(max_iter=n, eps=-1, **kw)
        if len(bo.X) - n0 != n * loops.batch_of(c):
            raise Violation('%d evaluations in %d steps of %d' % (len(bo.X) - n0, n, loops.batch_of(c)))
        if bo.num_acquisitions != n:
            raise Violation('%d acquisitions reported after %d steps' % (bo.num_acquisitions, n))
    info.nontrivial(sum(c['iters']) > 1)
    n0 = len(bo.X)
    bo.run_optimization(eps=-1)
    if len(bo.X) != n0:
        raise Violation('a run without limits took a step')
