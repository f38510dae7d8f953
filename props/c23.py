"""C23 reproducibility."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation

P = 'C23'


def finish(c, draw):
    if gen.Layout(c['dom']).n_distinct() <= 60:
        c.pop('dedup', None)
    if c['model'] == 'GP_MCMC':
        c['acq'] = {'MPI': 'MPI_MCMC', 'EI': 'EI_MCMC', 'LCB': 'LCB_MCMC'}[c['acq']]
    c['ops'] = draw(st.lists(st.sampled_from([0, 1, 1, 2, -1]), min_size=1, max_size=3))
    if c['model'] == 'tiny' and draw(st.integers(0, 14)) == 0:
        c['ops'] = c['ops'][:1] + [12]          # now and then a long run
    c['maximize'] = draw(st.integers(0, 5)) == 0
    return trim(c)


def trim(c):
    """No long run of an expensive kind."""
    if c['evaluator'] == 'thompson_sampling':
        c['batch'] = min(c['batch'], 4)
    if c.get('opt') == 'CMA' or c['batch'] > 4 or c['evaluator'] == 'thompson_sampling' or c['model'] != 'tiny':
        c['ops'] = [min(n, 3) for n in c['ops']]
    return c


FAST = dict(models=('tiny',), evaluators=('sequential', 'random', 'random', 'thompson_sampling'), optimizers=('lbfgs', 'lbfgs', 'CMA'), dedup=None, max_cols=4)
GPS = dict(models=('GP', 'GP', 'GP_MCMC', 'sparseGP', 'InputWarpedGP'), evaluators=('sequential', 'random', 'local_penalization'), dedup=None, max_cols=2, max_batch=3)


@st.composite
def one(draw, **kw):
    return finish(draw(loops.setup(**kw)), draw)


class Run(object):
    """One optimisation, advanced operation by operation on a random state of its own (or on numpy's)."""

    def __init__(self, c, domain=None):
        self.c, self.f = c, loops.Obj(c)
        kw = {'maximize': True} if c['maximize'] else {}
        if domain is not None:
            kw['domain'] = domain
        self.bo = loops.make(c, self.f, **kw)
        self.out = [np.array(self.bo.X, dtype=float)]
        self.k = 0

    def step(self):
        n = self.c['ops'][self.k]
        self.k += 1
        if n < 0:
            self.out.append(np.array(self.bo.suggest_next_locations(), dtype=float))
        else:
            self.bo.run_optimization(max_iter=n, eps=-1)
            self.out += [np.array(self.bo.X, dtype=float), np.array(self.bo.Y, dtype=float), np.ravel(self.bo.x_opt).astype(float), np.ravel(self.bo.fx_opt).astype(float)]

    def all(self):
        while self.k < len(self.c['ops']):
            self.step()
        return self.out + [np.array([np.ravel(x) for x in self.f.calls], dtype=float).reshape(-1, 1)]


def compare(a, b, what):
    for u, v in zip(a, b):
        if u.shape != v.shape or not np.array_equal(u, v):
            raise Violation('%s: %r, otherwise %r' % (what, v.tolist(), u.tolist()))


def alone(c):
    np.random.seed(c['seed'])
    return Run(c).all()


def other_things(kind, c2):
    """Something else in the same process."""
    import GPyOpt
    if kind == 'optimizer':
        np.random.seed(c2['seed'])
        Run(c2).all()
    elif kind == 'construction':
        Run(c2)
    elif kind == 'design':
        from GPyOpt.experiment_design import initial_design
        s = GPyOpt.Design_space(gen.build_domain(c2['dom']))
        for t in ('random', 'latin', 'sobol'):
            initial_design(t, s, 5)
    elif kind == 'benchmark':
        g = GPyOpt.objective_examples.experiments2d.branin(sd=0.1)
        bo = GPyOpt.methods.BayesianOptimization(f=g.f, domain=[{'name': 'a', 'type': 'continuous', 'domain': b} for b in g.bounds], initial_design_numdata=3,
                                                 model=loops.TinyGP(g.bounds))
        bo.run_optimization(1)
    else:
        np.random.rand(17)


THINGS = ('optimizer', 'optimizer', 'construction', 'design', 'benchmark', 'numbers')


@st.composite
def repeat_case(draw, **kw):
    c = draw(one(**kw))
    return {'a': c, 'b': draw(one(**dict(FAST, optimizers=('lbfgs',), max_cols=3))), 'things': draw(st.lists(st.sampled_from(THINGS), min_size=1, max_size=2)), 'when': draw(st.sampled_from(['between', 'before'])),
            'seed': c['seed']}


def repeat(c, info):
    a = c['a']
    info.label(*loops.labels(a))
    info.label(*['in between: ' + t for t in c['things']])
    if 'design' in a:
        info.label('design ' + a['design'])
    if c['when'] == 'before':
        for t in c['things']:
            other_things(t, c['b'])
    r1 = alone(a)
    if c['when'] == 'between':
        for t in c['things']:
            other_things(t, c['b'])
    r2 = alone(a)
    compare(r1, r2, 'the same run a second time')
    info.nontrivial(max(abs(n) for n in a['ops']) > 0)


@sub(P, 'repeat', lambda: repeat_case(**FAST), 90, 3000, 'at least one proposal', shards=4)
def repeat_fast(c, info):
    repeat(c, info)


@sub(P, 'repeat-gp', lambda: repeat_case(**GPS), 18, 900, 'at least one proposal', shards=4)
def repeat_gp(c, info):
    repeat(c, info)


# ---------------------------------------------------------------------------------- against a process with no history
def in_child(fn):
    """Result of fn() computed in a forked process, so that nothing it does to the library stays in this one."""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn())
            except Exception as e:
                out = (False, '%s: %s' % (type(e).__name__, e))
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    ok, val = pickle.loads(data)
    if not ok:
        raise RuntimeError(val)
    return val


def sibling(c, how):
    """The same problem somewhere else: as many variables and values of the same types, other bounds and values."""
    def move(v):
        return v * 2 + 7 if how == 'moved' else (-v if how == 'mirrored' else v)
    out = {k: c[k] for k in c if k not in ('X0', 'cons', 'Y0')}
    dom = []
    for v in c['dom']:
        q = dict(v)
        if v.get('type') == 'bandit':
            q['domain'] = [[move(t) for t in a] for a in v['domain']]
        else:
            q['domain'] = [move(t) for t in v['domain']]
            if v.get('type', 'continuous') == 'continuous':
                q['domain'] = sorted(q['domain'])
        dom.append(q)
    out['dom'] = dom
    out['init'] = 'design'
    out.setdefault('n0', 5)
    out.setdefault('design', 'random')
    return out


@st.composite
def fresh_case(draw, **kw):
    a = draw(one(**kw))
    return {'a': a, 'b': draw(one(**dict(FAST, optimizers=('lbfgs',), max_cols=3))), 'how': draw(st.sampled_from(['moved', 'moved', 'mirrored', 'same', 'none'])),
            'ops': draw(st.lists(st.sampled_from([0, 1, -1]), min_size=1, max_size=2)), 'designs': draw(st.integers(0, 2)) == 0, 'seed': a['seed']}


def fresh(c, info):
    """A run in a process with a past equals the run in a new process."""
    import GPyOpt
    a = c['a']
    info.label(c['how'], *loops.labels(a))

    def after_others():
        from GPyOpt.experiment_design import initial_design
        if c['how'] != 'none':
            s = sibling(a, c['how'])
            s['ops'] = c['ops']
            np.random.seed(5)
            Run(s).all()
            if c['designs']:
                sp = GPyOpt.Design_space(gen.build_domain(s['dom']))
                for t in ('random', 'latin', 'sobol', 'grid'):
                    for n in (3, 5, len(np.atleast_2d(a.get('X0', [[0.]] * a.get('n0', 4))))):
                        initial_design(t, sp, n)
        else:
            np.random.seed(6)
            Run(c['b']).all()
        return alone(a)
    compare(in_child(lambda: alone(a)), in_child(after_others), 'the run after others in the same process, compared with a new process')
    info.nontrivial(max(abs(n) for n in a['ops']) > 0)


@sub(P, 'fresh', lambda: fresh_case(**FAST), 70, 2500, 'at least one proposal', shards=4)
def fresh_fast(c, info):
    fresh(c, info)


@sub(P, 'fresh-gp', lambda: fresh_case(**dict(GPS, models=('GP', 'GP', 'sparseGP', 'InputWarpedGP'))), 12, 500, 'at least one proposal', shards=4)
def fresh_gp(c, info):
    fresh(c, info)


@st.composite
def design_case(draw):
    dom = draw(gen.domain(max_vars=2, max_dim=2, max_cols=3))
    return {'dom': dom, 'how': draw(st.sampled_from(['moved', 'moved', 'mirrored', 'same'])), 'n': draw(st.integers(1, 9)), 'types': draw(st.lists(st.sampled_from(['random', 'latin', 'sobol', 'grid']), min_size=1, max_size=2)),
            'more': draw(st.booleans()), 'seed': draw(gen.seeds)}


@sub(P, 'fresh-designs', design_case, 120, 3000, 'a design computed after others', shards=2)
def fresh_designs(c, info):
    """Initial designs do not depend on the designs computed before in the same process."""
    import GPyOpt
    from GPyOpt.experiment_design import initial_design

    def one_design(dom, t):
        np.random.seed(c['seed'])
        return np.array(initial_design(t, GPyOpt.Design_space(gen.build_domain(dom)), c['n']), dtype=float)

    def later():
        for t in c['types']:
            one_design(sibling(c, c['how'])['dom'], t)
            if c['more']:
                one_design(c['dom'], t)
        return [one_design(c['dom'], t) for t in c['types']]
    compare_designs = zip(in_child(lambda: [one_design(c['dom'], t) for t in c['types']]), in_child(later))
    for a, b in compare_designs:
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation('the design of %d points is %r in a new process and %r after other designs' % (c['n'], a.tolist(), b.tolist()))
    info.label(c['how'], *c['types'])
    info.nontrivial(True)


@st.composite
def pair_case(draw, **kw):
    a = draw(one(**kw))
    same = draw(st.integers(0, 2))
    b = draw(one(**kw))
    if same:
        # two optimizers of one problem
        dom = a['dom']
        keep = {k: b[k] for k in ('seed', 'acq', 'ops', 'evaluator', 'batch', 'interval', 'normalize') if k in b}
        b = dict(a, **keep)
        if a['model'] == 'GP_MCMC':
            b['acq'] = a['acq']
        if b['evaluator'] == 'local_penalization' and b['model'] == 'tiny':
            b['evaluator'] = a['evaluator']
        b = trim(dict(b))
    na, nb = len(a['ops']) + 1, len(b['ops']) + 1
    order = draw(st.permutations([0] * na + [1] * nb))
    return {'a': a, 'b': b, 'order': order, 'share': bool(same == 2 and a['dom'] == b['dom']), 'seed': a['seed']}


def pair(c, info):
    cs = [c['a'], c['b']]
    info.label(*(loops.labels(c['a'])))
    dom = gen.build_domain(c['a']['dom']) if c['share'] else None
    info.label('domain object shared' if c['share'] else 'separate domains')
    refs = [alone(x) for x in cs]
    state = [None, None]
    runs = [None, None]
    for i in c['order']:
        if runs[i] is None:
            np.random.seed(cs[i]['seed'])
            runs[i] = Run(cs[i], domain=dom)
        else:
            np.random.set_state(state[i])
            runs[i].step()
        state[i] = np.random.get_state()
    for i in (0, 1):
        compare(refs[i], runs[i].all(), 'optimizer %d advanced alternately with another one' % i)
    info.nontrivial(c['order'] != sorted(c['order']) and c['order'] != sorted(c['order'])[::-1])


@sub(P, 'alternate', lambda: pair_case(**dict(FAST, max_cols=3)), 80, 3000, 'the operations alternate', shards=4)
def alternate(c, info):
    pair(c, info)


@sub(P, 'alternate-gp', lambda: pair_case(**dict(GPS, models=('GP',))), 12, 600, 'the operations alternate', shards=4)
def alternate_gp(c, info):
    pair(c, info)


@st.composite
def entropy_case(draw):
    return {'dom': draw(gen.domain(('continuous', 'continuous', 'discrete'), 2, 1, 2)), 'coef': draw(gen.coefs), 'seed': draw(gen.seeds), 'n': draw(st.integers(3, 6)),
            'samples': draw(st.integers(1, 4)), 'reps': draw(st.integers(2, 6)), 'design': draw(st.sampled_from(['random', 'latin', 'sobol']))}


@sub(P, 'entropy', entropy_case, 16, 400, 'acquisition values differ between locations', shards=2)
def entropy(c, info):
    """The entropy search acquisition, whose representer points are sampled."""
    import GPyOpt
    from GPyOpt.acquisitions import AcquisitionEntropySearch
    from GPyOpt.util.mcmc_sampler import AffineInvariantEnsembleSampler
    from GPyOpt.experiment_design import initial_design
    out = []
    for k in range(2):
        np.random.seed(c['seed'])
        space = GPyOpt.Design_space(gen.build_domain(c['dom']))
        f = loops.Obj(c)
        X = initial_design(c['design'], space, c['n'])
        Y = np.array([[f.value(x)] for x in X])
        m = GPyOpt.models.GPModel(optimize_restarts=1, max_iters=5, verbose=False)
        m.updateModel(X, Y, None, None)
        acq = AcquisitionEntropySearch(m, space, AffineInvariantEnsembleSampler(space), num_samples=c['samples'], num_representer_points=2 * c['reps'] + 2)
        try:
            v = acq._compute_acq(initial_design('random', space, 4))
        except ValueError:
            # no representer point with a positive expected improvement
            v = [-1.]
        out.append([X, np.array(v, dtype=float)])
    compare(out[0], out[1], 'entropy search a second time')
    info.nontrivial(len(set(np.ravel(out[0][1]).tolist())) > 1)
