"""C04 de-duplication."""
import numpy as np
from hypothesis import strategies as st
from vf import gen, loops
from vf.core import sub, Violation
from props.c01 import check_rows
from props.c03 import context, as_dict, check_ctx
from GPyOpt.core.errors import FullyExploredOptimizationDomainError

P = 'C04'
FULL = FullyExploredOptimizationDomainError


@st.composite
def case(draw, finite=True, models=('tiny',), evaluators=('sequential', 'random', 'thompson_sampling'), ctx=False):
    c = draw(loops.setup(models=models, evaluators=evaluators, inits=('XY', 'X', 'design') if finite else ('XY',), dedup=True, bandit=None if finite else False,
                         kinds=('discrete', 'categorical') if finite else ('continuous', 'discrete', 'categorical'), max_cols=3, max_vars=3, need_continuous=not finite))
    lay = gen.Layout(c['dom'])
    while lay.n_distinct() > 60 and finite:
        if len(c['dom']) > 1:
            c['dom'] = c['dom'][:-1]
        elif c['dom'][0].get('dimensionality', 1) > 1:
            c['dom'][0]['dimensionality'] -= 1
        else:
            c['dom'][0]['domain'] = c['dom'][0]['domain'][:-1]
        lay = gen.Layout(c['dom'])
    if c.get('X0'):
        c['X0'] = draw(gen.points(lay, 1, 6))
        c['n0'] = len(c['X0'])
    if finite and draw(st.booleans()):
        c['zero'] = True           # make sure the configuration of zeros exists
        for v in c['dom']:
            if v['type'] == 'bandit':
                v['domain'] = [list(a) for a in v['domain'] if any(a)] + [[0.] * len(v['domain'][0])]
            elif 0 not in v['domain']:
                v['domain'][-1] = 0
        lay = gen.Layout(c['dom'])
        if c.get('X0'):
            c['X0'] = draw(gen.points(lay, 1, 6))
            c['n0'] = len(c['X0'])
    for k in ('pending', 'ignored'):
        how = draw(st.integers(0, 3))
        if how == 1:
            c[k] = draw(gen.points(lay, 1, draw(st.sampled_from([5, 5, 5, 15]))))
        elif how == 2 and finite and k == 'ignored':
            c['leave'] = draw(st.integers(0, 3))           # ignore everything except this many
            c['leave_as'] = draw(st.sampled_from(['ignored', 'ignored', 'pending', 'both']))
    if c.get('zero'):
        z = [0.] * lay.n_obj
        where = draw(st.sampled_from(['X0', 'pending', 'ignored', None]))
        if where == 'X0' and 'X0' in c:
            c['X0'][0] = z
        elif where in ('pending', 'ignored'):
            c[where] = c.get(where, []) + [z]
            if draw(st.booleans()):
                c[where] = [z]
    if ctx:
        c['ctx'] = draw(context(lay))
    return c


def rows(X):
    return [tuple(float(v) for v in x) for x in X]


def drive(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    info.label(*loops.labels(c))
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    known = set(rows(bo.X))
    pend, ign = c.get('pending'), c.get('ignored')
    ctx = c.get('ctx') or []
    finite = np.isfinite(lay.n_distinct())
    in_ctx = lambda x: all([float(x[j]) for j in lay.blocks[k][2]] == [float(t) for t in v] for k, v in ctx)
    if 'leave' in c:
        fresh = [p for p in rows(lay.all_points()) if p not in known and p not in rows(pend or []) and in_ctx(p)]
        ign = [list(p) for p in rows(lay.all_points()) if p in known or p in rows(pend or []) or not in_ctx(p) or p in fresh[c['leave']:]]
        if c.get('leave_as') == 'pending':
            pend, ign = ign, None
        elif c.get('leave_as') == 'both':
            pend, ign = ign[::2] + (pend or []), ign[1::2]
    kw = {}
    if ctx:
        kw['context'] = as_dict(lay, ctx)
        info.label('context')
    for k, v in (('pending_X', pend), ('ignored_X', ign)):
        if v:
            kw[k] = np.array(v, dtype=float)
            info.label(k)
    taken = known | set(rows(pend or [])) | set(rows(ign or []))
    want = loops.batch_of(c)
    free = [k for k in range(len(lay.blocks)) if k not in [q[0] for q in ctx]]
    size = np.prod([np.inf if lay.blocks[k][1] == 'continuous' else float(len(lay.blocks[k][4])) for k in free] or [1.])
    left = len({p for p in rows(lay.all_points()) if p not in taken and in_ctx(p)}) if finite else np.inf if np.isinf(size) else None
    if left is None:
        left = size - len({p for p in taken if in_ctx(p)})
        if left != size and any(not in_ctx(p) for p in taken):
            left = max(left, 0)
    info.nontrivial(bool(len(taken) > len(known) or want > 1 or left < 5))
    info.label('%s left' % ('0' if left <= 0 else 'few' if left <= want else 'many'))
    try:
        S = bo.suggest_next_locations(**kw)
    except FULL:
        if left > 0:
            raise Violation('reported as fully explored with %r fresh configurations left (%d known)' % (left, len(taken)))
        return
    check_rows(lay, S, 'suggestion')
    check_ctx(lay, ctx, S, 'suggestion')
    R = rows(S)
    for p in R:
        if p in taken:
            raise Violation('%r is suggested although it is %s' % (p, 'evaluated' if p in known else 'pending or ignored'))
    if len(set(R)) != len(R):
        raise Violation('the batch %r contains a configuration twice' % (R,))
    if left <= 0:
        raise Violation('%r suggested, although nothing is left' % (R,))
    if len(R) != min(want, left):
        raise Violation('%d suggestions instead of %d (%r fresh ones exist)' % (len(R), min(want, left), left))


@sub(P, 'finite', lambda: case(), 240, 6000, 'pending or ignored points, a batch, or fewer than five configurations left', shards=4)
def finite(c, info):
    drive(c, info)


@sub(P, 'context', lambda: case(ctx=True), 120, 3000, 'pending or ignored points, a batch, or fewer than five configurations left', shards=3)
def in_context(c, info):
    drive(c, info)


@sub(P, 'mixed', lambda: case(finite=False), 60, 2000, 'pending or ignored points, a batch, or fewer than five configurations left', shards=2)
def mixed(c, info):
    drive(c, info)


@sub(P, 'gp', lambda: case(models=('GP',), evaluators=('local_penalization', 'local_penalization', 'sequential', 'random')), 60, 2000,
     'pending or ignored points, a batch, or fewer than five configurations left', shards=4)
def gp(c, info):
    drive(c, info)


@st.composite
def exhaust_case(draw):
    c = draw(case())
    lay = gen.Layout(c['dom'])
    while lay.n_distinct() > 14:
        if len(c['dom']) > 1:
            c['dom'] = c['dom'][:-1]
        elif c['dom'][0].get('dimensionality', 1) > 1:
            c['dom'][0]['dimensionality'] -= 1
        else:
            c['dom'][0]['domain'] = c['dom'][0]['domain'][:-1]
        lay = gen.Layout(c['dom'])
    if c.get('X0'):
        c['X0'] = draw(gen.points(lay, 1, 4))
        c['n0'] = len(c['X0'])
    c['again'] = draw(st.booleans())
    return c


@sub(P, 'exhaust', lambda: exhaust_case(), 60, 2000, 'at least three configurations to be found', shards=4)
def exhaust(c, info):
    lay = gen.Layout(c['dom'])
    f = loops.Obj(c)
    np.random.seed(c['seed'])
    bo = loops.make(c, f)
    n0 = len(bo.X)
    first = set(rows(bo.X))
    allp = set(rows(lay.all_points()))
    info.nontrivial(len(allp - first) >= 3)
    info.label(*loops.labels(c))
    full = False
    try:
        if c['again']:
            for _ in range(40):
                bo.run_optimization(max_iter=1, eps=-1)
        else:
            bo.run_optimization(max_iter=40, eps=-1)
    except FULL:
        full = True
    new = rows(bo.X[n0:])
    if len(set(new)) != len(new) or set(new) & first:
        raise Violation('configurations were evaluated again: %r after %r' % (new, sorted(first)))
    if not full:
        raise Violation('40 steps in a domain of %d configurations did not end with the dedicated error' % len(allp))
    if set(new) | first != allp:
        raise Violation('fully explored, but %r were never evaluated' % (sorted(allp - first - set(new)),))
    if len(bo.Y) != len(bo.X):
        raise Violation('%d inputs but %d outputs' % (len(bo.X), len(bo.Y)))
