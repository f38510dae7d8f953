"""C03 context variables."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c01 import check_rows
from GPyOpt.core.errors import FullyExploredOptimizationDomainError
from GPyOpt.core.task.space import Design_space

P = 'C03'


@st.composite
def context(draw, lay, at_least=1):
    """[[block index, value], ...] in any order; the value is one of the variable's own (for a bandit: one of its arms)."""
    ks = draw(st.lists(st.integers(0, len(lay.blocks) - 1), min_size=min(at_least, len(lay.blocks)), max_size=len(lay.blocks), unique=True))
    x = draw(gen.points(lay, 1, 1))[0]
    return [[k, [x[j] for j in lay.blocks[k][2]]] for k in ks]


def as_dict(lay, ctx):
    out = {}
    for k, v in ctx:
        b = lay.blocks[k]
        out[b[0]] = tuple(v) if b[1] == 'bandit' else v[0]
        if b[1] != 'bandit' and float(v[0]).is_integer() and k % 2 == len(ctx) % 2:
            out[b[0]] = int(v[0])               # contexts are given as integers as well
    return out


def check_ctx(lay, ctx, X, what):
    for i, x in enumerate(np.atleast_2d(X)):
        for k, v in ctx:
            if [float(x[j]) for j in lay.blocks[k][2]] != [float(t) for t in v]:
                raise Violation('%s: row %d = %r does not keep %s = %r' % (what, i, x.tolist(), lay.blocks[k][0], v))


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(bandit=None, **kw))
    lay = gen.Layout(c['dom'])
    c['seq'] = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(['suggest', 'suggest', 'run']))
        c['seq'].append([how, draw(context(lay)) if draw(st.integers(0, 4)) else None, draw(st.integers(1, 2))])
    return c


def drive(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    info.label(*loops.labels(c))
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    names = set()
    for how, ctx, n in c['seq']:
        d = as_dict(lay, ctx) if ctx is not None else None
        names.add(tuple(sorted(d)) if d is not None else None)
        n0, calls = len(bo.X), len(f.calls)
        try:
            if how == 'suggest':
                S = bo.suggest_next_locations(context=d) if d is not None else bo.suggest_next_locations()
                check_rows(lay, S, 'suggestion')
                check_ctx(lay, ctx or [], S, 'suggestion')
                if len(S) != loops.batch_of(c) and not c.get('dedup'):
                    raise Violation('%d suggestions instead of %d' % (len(S), loops.batch_of(c)))
            else:
                bo.run_optimization(max_iter=n, eps=-1, context=d)
                if len(bo.X) != n0 + n * loops.batch_of(c) and not c.get('dedup'):
                    raise Violation('%d evaluations instead of %d' % (len(bo.X) - n0, n * loops.batch_of(c)))
                check_ctx(lay, ctx or [], bo.X[n0:], 'recorded inputs')
                for x in f.calls[calls:]:
                    check_ctx(lay, ctx or [], x, 'call of the objective')
                check_rows(lay, bo.X, 'recorded inputs')
        except FullyExploredOptimizationDomainError:
            free = [k for k in range(len(lay.blocks)) if ctx is None or k not in [q[0] for q in ctx]]
            size = np.prod([np.inf if lay.blocks[k][1] == 'continuous' else len(lay.blocks[k][4]) for k in free] or [1])
            if not c.get('dedup') or size > len(bo.X):
                raise
    info.nontrivial(len(names) > 1 or any(ctx and len(ctx) > 1 for _, ctx, _ in c['seq']))
    info.label('%d calls' % len(c['seq']))


@sub(P, 'fast', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), dedup=None), 130, 4000,
     'several contexts, or several variables fixed at once', shards=5)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), dedup=None, max_cols=4), 32, 1200, 'several contexts, or several variables fixed at once', shards=5)
def gp(c, info):
    drive(c, info)


@st.composite
def free_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'random'), inits=('XY',), max_cols=4))
    lay = gen.Layout(c['dom'])
    c['goal'] = draw(gen.points(lay, 1, 1))[0]
    c['ctxs'] = [draw(context(lay)) if draw(st.integers(0, 4)) else None for _ in range(draw(st.integers(1, 3)))]
    return c


@sub(P, 'free', lambda: free_case(), 160, 5000, 'at least one variable fixed away from its best value, and another one free', shards=3)
def free(c, info):
    """With an acquisition which is best at a known configuration, the free variables go there and only the fixed ones do not."""
    lay = gen.Layout(c['dom'])
    m = loops.TinyGP(lay.model_bounds())
    space = Design_space(gen.build_domain(c['dom']))
    acq = loops.pull(lay, np.array(c['goal']), m, space)
    np.random.seed(c['seed'])
    bo = loops.make(c, loops.Obj(c), model=m, acquisition=acq)
    for ctx in c['ctxs'] + [None]:
        d = as_dict(lay, ctx) if ctx is not None else None
        S = bo.suggest_next_locations(context=d)
        want = np.array(c['goal'], dtype=float)
        for k, v in ctx or []:
            want[lay.blocks[k][2]] = v
        check_rows(lay, S, 'suggestion')
        check_ctx(lay, ctx or [], S, 'suggestion')
        info.nontrivial(ctx is not None and not np.array_equal(want, c['goal']) and len(ctx) < len(lay.blocks))
        for b in lay.blocks:
            tol = 0.02 * (b[4][1] - b[4][0]) if b[1] == 'continuous' else 0.
            if b[1] == 'bandit':
                continue
            j = b[2][0]
            if abs(S[0, j] - want[j]) > tol:
                raise Violation('with the context %r the best configuration is %r, suggested %r' % (d, want.tolist(), S[0].tolist()))


@st.composite
def bad_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential',), inits=('XY',), bandit=None))
    lay = gen.Layout(c['dom'])
    c['ctx'] = draw(context(lay, 0))
    c['bad'] = draw(st.sampled_from(['unknown', 'X', '', 'x_9', 'var_77', 0]))
    c['run'] = draw(st.booleans())
    return c


@sub(P, 'unknown-name', lambda: bad_case(), 80, 1000, 'other variables of the context exist')
def unknown(c, info):
    lay = gen.Layout(c['dom'])
    d = as_dict(lay, c['ctx'])
    d[c['bad']] = 1.
    info.nontrivial(len(d) > 1)
    f = loops.Obj(c)
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    n = len(bo.X)
    calls = len(f.calls)
    try:
        if c['run']:
            bo.run_optimization(max_iter=1, context=d, eps=-1)
        else:
            bo.suggest_next_locations(context=d)
    except Exception as e:
        if len(bo.X) != n or len(f.calls) != calls:
            raise Violation('rejected, but the objective had been evaluated already')
        info.label(type(e).__name__)
        # the optimizer is still usable
        S = bo.suggest_next_locations()
        check_rows(lay, S, 'suggestion')
        return
    raise Violation('a context naming the unknown variable %r was accepted' % (c['bad'],))


@st.composite
def leak_case(draw):
    c = draw(loops.setup(models=('tiny',), evaluators=('sequential', 'sequential', 'random', 'thompson_sampling'), inits=('XY',), dedup=None, bandit=None))
    lay = gen.Layout(c['dom'])
    c['ctxs'] = [draw(context(lay)) if draw(st.integers(0, 4)) else None for _ in range(draw(st.integers(2, 4)))]
    return c


@sub(P, 'leak', lambda: leak_case(), 110, 4000, 'contexts fixing different variables one after the other, at least one variable free', shards=4)
def leak(c, info):
    """A suggestion in a context does not depend on the contexts of earlier calls: a new optimizer with the same data and random state agrees."""
    lay = gen.Layout(c['dom'])

    def suggest(bo, ctx, seed):
        np.random.seed(seed)
        try:
            return bo.suggest_next_locations(context=as_dict(lay, ctx) if ctx is not None else None)
        except FullyExploredOptimizationDomainError:
            return None
    np.random.seed(c['seed'])
    used = loops.make(c, loops.Obj(c))
    sets = [frozenset(k for k, _ in ctx or []) for ctx in c['ctxs']]
    info.nontrivial(len(set(sets)) > 1 and any(0 < len(s) < len(lay.blocks) for s in sets[1:]))
    info.label(*loops.labels(c))
    for i, ctx in enumerate(c['ctxs']):
        a = suggest(used, ctx, c['seed'] + i)
        np.random.seed(c['seed'])
        b = suggest(loops.make(c, loops.Obj(c)), ctx, c['seed'] + i)
        if (a is None) != (b is None) or a is not None and not (a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9)):
            raise Violation('context %r after %r: suggested %r, a new optimizer with the same data and random state suggests %r' % (
                as_dict(lay, ctx or []), [as_dict(lay, q or []) for q in c['ctxs'][:i]], None if a is None else a.tolist(), None if b is None else b.tolist()))
