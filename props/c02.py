"""C02 constraints."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c01 import check_rows
from GPyOpt.core.errors import InvalidConfigError, FullyExploredOptimizationDomainError
from GPyOpt.core.task.space import Design_space
from GPyOpt.experiment_design import initial_design

P = 'C02'


def check_feasible(cons, X, what):
    V = gen.con_values(cons, X)
    for i, v in enumerate(V):
        if not np.all(v <= 1e-9):
            raise Violation('%s: row %d = %r violates %r (values %r)' % (what, i, np.asarray(X)[i].tolist(), [gen.expr(q) for q in cons], v.tolist()))


@st.composite
def case(draw, **kw):
    c = draw(loops.setup(cons=True, **kw))
    lay = gen.Layout(c['dom'])
    c['steps'] = draw(st.integers(0, 2))
    if len(lay.blocks) > 1 and draw(st.integers(0, 2)) == 0 and 'X0' in c:
        ks = draw(st.lists(st.integers(0, len(lay.blocks) - 1), min_size=1, max_size=len(lay.blocks) - 1, unique=True))
        c['fix'] = ks
    return c


def context_of(c, lay, x):
    out = {}
    for k in c.get('fix', []):
        b = lay.blocks[k]
        out[b[0]] = tuple(float(x[j]) for j in b[2]) if b[1] == 'bandit' else float(x[b[2][0]])
    return out


def drive(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    info.label(*loops.labels(c))
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    n0 = len(bo.X)
    cons = c['cons']
    if c['init'] == 'design':
        check_feasible(cons, bo.X, 'initial design')
        if n0 != c['n0']:
            raise Violation('initial design of %d points instead of %d' % (n0, c['n0']))
        check_rows(lay, bo.X, 'initial design')
    ctx = context_of(c, lay, np.array(c['X0'][0])) if 'fix' in c else None
    if ctx:
        info.label('context')
    rng = np.random.RandomState(1)
    R = np.array([lay.point(u) for u in rng.rand(300, len(lay.blocks))])
    ok = gen.feasible(cons, R)
    info.label('feasible %d0%%' % int(10 * np.mean(ok)))
    info.nontrivial(np.mean(ok) < 0.9)
    # in a context built from a configuration which satisfies the constraints with room there is something to find
    try:
        S = bo.suggest_next_locations(context=ctx)
        check_feasible(cons, S, 'suggestion')
        check_rows(lay, S, 'suggestion')
        if c['steps']:
            bo.run_optimization(max_iter=c['steps'], eps=-1, context=ctx)
    except FullyExploredOptimizationDomainError:
        if not c.get('dedup') and not (ctx and lay.bandit):
            raise
    check_feasible(cons, np.asarray(bo.X)[n0:] if c['init'] != 'design' else bo.X, 'recorded inputs')
    check_rows(lay, bo.X, 'recorded inputs')
    k = 0 if c['init'] == 'design' else n0 if c['init'] == 'X' else 0
    for x in f.calls[k:]:
        check_feasible(cons, x, 'call of the objective')


@sub(P, 'fast', lambda: case(models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), dedup=None), 140, 4000,
     'at most 90% of the domain is feasible', shards=4)
def fast(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), dedup=None, max_cols=4), 48, 1500, 'at most 90% of the domain is feasible', shards=4)
def gp(c, info):
    drive(c, info)


@st.composite
def pull_case(draw):
    c = draw(loops.setup(cons=True, models=('tiny',), evaluators=('sequential', 'random'), inits=('XY',), max_cols=4, bandit=False))
    c['pull'] = draw(st.lists(gen.unit, min_size=8, max_size=8))
    return c


@sub(P, 'pulled-out', lambda: pull_case(), 160, 4000, 'the acquisition alone would lead out of the feasible region', shards=4)
def pulled_out(c, info):
    """A user's acquisition which knows nothing of the constraints and is best at a given place, feasible or not."""
    lay = gen.Layout(c['dom'])
    goal = lay.point((c['pull'] * 8)[:len(lay.blocks)])
    space = Design_space(gen.build_domain(c['dom']), c['cons'])
    m = loops.TinyGP(lay.model_bounds())
    acq = loops.pull(lay, goal, m, space)
    np.random.seed(c['seed'])
    bo = loops.make(c, loops.Obj(c), model=m, acquisition=acq)
    out = not gen.feasible(c['cons'], goal)[0]
    info.nontrivial(out)
    S = bo.suggest_next_locations()
    check_feasible(c['cons'], S, 'suggestion')
    check_rows(lay, S, 'suggestion')


@st.composite
def design_case(draw):
    dom = draw(gen.domain(max_cols=5, bandit=None))
    lay = gen.Layout(dom)
    return {'dom': dom, 'cons': draw(gen.constraints(lay, draw(gen.points(lay, 1, 1))[0], 3)), 'n': draw(st.integers(1, 60)),
            'design': draw(st.sampled_from(['random', 'random', 'grid', 'latin', 'sobol'])), 'seed': draw(gen.seeds)}


@sub(P, 'designs', lambda: design_case(), 250, 6000, 'at least ten points requested', shards=2)
def designs(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']), c['cons'])
    info.label(c['design'])
    info.nontrivial(c['n'] >= 10)
    try:
        X = initial_design(c['design'], space, c['n'])
    except InvalidConfigError:
        if c['design'] == 'random':
            raise Violation('the random design refuses constraints')
        return
    check_rows(lay, X, 'design')
    if len(X) != c['n'] and c['design'] != 'grid':
        raise Violation('%d points instead of %d' % (len(X), c['n']))
    check_feasible(c['cons'], X, 'design ' + c['design'])


@st.composite
def wide_case(draw):
    dom = draw(gen.domain(kinds=('continuous', 'continuous', 'discrete', 'categorical'), max_cols=3, bandit=False))
    lay = gen.Layout(dom)
    cc = [b for b in lay.blocks if b[1] == 'continuous']
    cons = []
    if cc:
        _, _, (j,), _, (lo, hi) = cc[draw(st.integers(0, len(cc) - 1))]
        w = (hi - lo) * draw(st.sampled_from([0.001, 0.003, 0.01, 0.05]))
        cons = [{'name': 'c', 'constraint': draw(st.sampled_from(['x[:,%d] - (%r)' % (j, hi - w), '(%r) - x[:,%d]' % (lo + w, j)]))}]
    return {'dom': dom, 'cons': cons, 'n': draw(st.sampled_from([50, 200, 500, 1000, 2000])), 'seed': draw(gen.seeds)}


@sub(P, 'nearly-everywhere', lambda: wide_case(), 80, 2500, 'an infeasible point has been drawn and replaced with high probability')
def nearly_everywhere(c, info):
    """Constraints that exclude very little of the domain, and designs large enough to meet it."""
    if not c['cons']:
        return
    space = Design_space(gen.build_domain(c['dom']), c['cons'])
    X = initial_design('random', space, c['n'])
    info.nontrivial(c['n'] >= 200)
    if len(X) != c['n']:
        raise Violation('%d points instead of %d' % (len(X), c['n']))
    check_feasible(c['cons'], X, 'design')


@st.composite
def narrow_case(draw):
    dom = draw(gen.domain(kinds=('continuous', 'continuous', 'discrete', 'categorical'), max_cols=4, bandit=False))
    lay = gen.Layout(dom)
    cc = [b for b in lay.blocks if b[1] == 'continuous']
    cons = []
    if cc:
        _, _, (j,), _, (lo, hi) = cc[draw(st.integers(0, len(cc) - 1))]
        w = (hi - lo) * draw(st.sampled_from([0.002, 0.005, 0.01, 0.03, 0.1]))
        a = lo + (hi - lo - w) * draw(gen.unit)
        cons = [{'name': 'lo', 'constraint': '%r - x[:,%d]' % (a, j)}, {'name': 'hi', 'constraint': 'x[:,%d] - (%r)' % (j, a + w)}]
    return {'dom': dom, 'cons': cons, 'part': w / (hi - lo) if cc else 1., 'n': draw(st.one_of(st.integers(1, 5), st.integers(1, 60))), 'seed': draw(gen.seeds)}


@sub(P, 'narrow', lambda: narrow_case(), 150, 4000, 'at most 3% of the domain is feasible')
def narrow(c, info):
    """Small feasible regions: sampling finds them, be it after many rounds."""
    if not c['cons']:
        return
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']), c['cons'])
    np.random.seed(c['seed'])
    info.nontrivial(c['part'] < 0.05)
    info.label('1/%d feasible' % round(1 / c['part']))
    X = initial_design('random', space, c['n'])
    check_rows(lay, X, 'design')
    if len(X) != c['n']:
        raise Violation('%d points instead of %d' % (len(X), c['n']))
    check_feasible(c['cons'], X, 'design')
