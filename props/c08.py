"""C08 feasibility indicator and mask."""
import re

import numpy as np
from hypothesis import strategies as st
from vf import gen, stubs
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space
from GPyOpt.acquisitions import (AcquisitionEI, AcquisitionLCB, AcquisitionMPI, AcquisitionEI_MCMC, AcquisitionLCB_MCMC,
                                 AcquisitionMPI_MCMC)

P = 'C08'
NUM = r'\(?-?[0-9.e+-]+\)?'
SHARP = re.compile(r'^(x\[:,\d+\] - %s|%s - x\[:,\d+\])$' % (NUM, NUM))


@st.composite
def cons_any(draw, lay, near=False):
    """Constraints without regard to a witness; thresholds often hit exactly."""
    X = draw(gen.points(lay, 1, 6, many=True))
    w = X[0]
    cons = draw(gen.constraints(lay, w, 2))
    if draw(st.booleans()):
        j = draw(st.integers(0, lay.n_obj - 1))
        i = draw(st.integers(0, len(X) - 1))
        op = draw(st.sampled_from(['x[:,%d] - (%r)', '(%r) - x[:,%d]']))
        e = op % ((j, X[i][j]) if op.startswith('x') else (X[i][j], j))
        cons.append({'name': 'exact', 'constraint': e})
        if near and draw(st.booleans()):
            # just beyond the threshold: one subtraction decides the sign exactly
            q = list(X[i])
            q[j] = X[i][j] + draw(st.sampled_from([1e-12, -1e-12, 1e-10, -1e-10, 3e-16, -3e-16, 1e-7])) * (1. if X[i][j] == 0 else abs(X[i][j]))
            X = X + [q]
    if draw(st.integers(0, 3)) == 0:
        cons.append({'name': 'f', 'constraint': draw(st.sampled_from(
            ['np.abs(x[:,0]) - 1.5', 'x[:,0]**2 + x[:,-1]**2 - 9.', 'np.sin(x[:,0]) - 0.5', '-x[:,-1]', 'np.max(x, axis=1) - 3']))})
    return X, cons


@st.composite
def case(draw, near=False):
    dom = draw(gen.domain(bandit=None, max_vars=4, max_cols=5))
    lay = gen.Layout(dom)
    X, cons = draw(cons_any(lay, near=near))
    return {'dom': dom, 'X': X, 'cons': cons}


@sub(P, 'indicator', lambda: case(near=True), 900, 20000, 'feasible and infeasible rows in the same call')
def indicator(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']), [dict(d) for d in c['cons']])
    X = np.array(c['X'], dtype=float)
    ref = gen.feasible(c['cons'], X)
    info.nontrivial(ref.any() and not ref.all())
    v = gen.con_values(c['cons'], X)
    info.label('exactly on a boundary' if (v == 0).any() else 'no boundary', '%d constraints' % len(c['cons']))
    # exact zeros are decided, near zeros only if they are the result of one subtraction
    sharp = [SHARP.match(gen.expr(d)) is not None for d in c['cons']]
    ok = np.array([all(t == 0 or abs(t) > 1e-9 or e for t, e in zip(r, sharp)) for r in v])
    got = np.asarray(space.indicator_constraints(X), dtype=float)
    if got.size != len(X):
        raise Violation('%d answers for %d rows' % (got.size, len(X)))
    got = got.reshape(-1)
    if not set(got) <= {0., 1.}:
        raise Violation('answers %r are not zeros and ones' % got.tolist())
    for i in range(len(X)):
        if ok[i] and bool(got[i]) != bool(ref[i]):
            raise Violation('%r: constraint values %r, reported %s' % (X[i].tolist(), v[i].tolist(), 'feasible' if got[i] else 'infeasible'))
        one = np.asarray(space.indicator_constraints(X[i]), dtype=float).reshape(-1)
        if ok[i] and (one.size != 1 or bool(one[0]) != bool(ref[i])):
            raise Violation('%r alone: constraint values %r, reported %r' % (X[i].tolist(), v[i].tolist(), one.tolist()))
    if not space.has_constraints():
        raise Violation('has_constraints() is false although constraints were declared')
    free = Design_space(gen.build_domain(c['dom']))
    if not np.all(np.asarray(free.indicator_constraints(X)) == 1):
        raise Violation('rows are infeasible in a space without constraints')


ACQ = {'EI': AcquisitionEI, 'LCB': AcquisitionLCB, 'MPI': AcquisitionMPI,
       'EI_MCMC': AcquisitionEI_MCMC, 'LCB_MCMC': AcquisitionLCB_MCMC, 'MPI_MCMC': AcquisitionMPI_MCMC}


@st.composite
def several_case(draw):
    out = []
    for i in range(draw(st.integers(2, 3))):
        c = draw(case())
        for j, d in enumerate(c['cons']):
            d['name'] = draw(st.sampled_from(['c', 'c%d' % j, 'c0', 'con_%d' % i]))
        out.append(c)
    n = len(out)
    return {'spaces': out, 'order': draw(st.lists(st.integers(0, n - 1), min_size=3, max_size=8))}


@sub(P, 'several', lambda: several_case(), 250, 6000, 'a space is queried again after another one')
def several(c, info):
    """Several constrained spaces in one process (their constraints may share names), queried in any order."""
    spaces = [Design_space(gen.build_domain(s['dom']), [dict(d) for d in s['cons']]) for s in c['spaces']]
    o = c['order']
    info.nontrivial(any(o[i] == o[k] and o[j] != o[i] for i in range(len(o)) for j in range(i, len(o)) for k in range(j, len(o))))
    for i in o:
        s = c['spaces'][i]
        X = np.array(s['X'], dtype=float)
        v = gen.con_values(s['cons'], X)
        clear = np.array([all(t == 0 or abs(t) > 1e-9 for t in r) for r in v])
        got = np.asarray(spaces[i].indicator_constraints(X), dtype=float).reshape(-1)
        bad = clear & ((got == 1) != gen.feasible(s['cons'], X))
        if bad.any():
            raise Violation('space %d of %d: %r has constraint values %r, reported %r' % (i, len(spaces), X[bad][0].tolist(), v[bad][0].tolist(), got[bad][0]))


@st.composite
def mask_case(draw):
    c = draw(case())
    c['acq'] = draw(st.sampled_from(sorted(ACQ)))
    c['ps'] = draw(st.lists(stubs.model_params(), min_size=1, max_size=3))
    c['cost'] = draw(st.booleans())
    return c


@sub(P, 'mask', lambda: mask_case(), 700, 15000, 'feasible and infeasible rows in the same call')
def mask(c, info):
    lay = gen.Layout(c['dom'])
    con = Design_space(gen.build_domain(c['dom']), [dict(d) for d in c['cons']])
    free = Design_space(gen.build_domain(c['dom']))
    X = np.array(c['X'], dtype=float)
    v = gen.con_values(c['cons'], X)
    clear = np.array([all(t == 0 or abs(t) > 1e-9 for t in r) for r in v])
    ref = gen.feasible(c['cons'], X)
    Z = np.array([lay.encode(x) for x in X])
    info.nontrivial(ref.any() and not ref.all())
    info.label(c['acq'], 'categorical' if lay.n_model != lay.n_obj else 'plain')

    def model():
        return stubs.FuncModelMCMC(c['ps']) if 'MCMC' in c['acq'] else stubs.FuncModel(c['ps'][0])
    kw = {}
    if c['cost'] and 'LCB' not in c['acq']:
        kw = {'cost_withGradients': lambda x: (2. + np.sin(x[:, [0]]), np.hstack([np.cos(x[:, [0]]), np.zeros((x.shape[0], x.shape[1] - 1))]))}
    a, b = ACQ[c['acq']](model(), con, **kw), ACQ[c['acq']](model(), free, **kw)
    va, vb = np.asarray(a.acquisition_function(Z), dtype=float), np.asarray(b.acquisition_function(Z), dtype=float)
    fa, ga = [np.asarray(t, dtype=float) for t in a.acquisition_function_withGradients(Z)]
    fb, gb = [np.asarray(t, dtype=float) for t in b.acquisition_function_withGradients(Z)]
    for n, p, q in (('value', va, vb), ('value returned with the gradient', fa, fb), ('gradient', ga, gb)):
        if p.shape != q.shape or p.shape[0] != len(X):
            raise Violation('%s has shape %r with constraints and %r without' % (n, p.shape, q.shape))
        for i in range(len(X)):
            if not clear[i]:
                continue
            if ref[i] and not np.allclose(p[i], q[i], rtol=1e-12, atol=1e-14):
                raise Violation('%s of %s at the feasible %r is %r, without constraints %r' % (n, c['acq'], X[i].tolist(), p[i].tolist(), q[i].tolist()))
            if not ref[i] and np.any(p[i] != 0):
                raise Violation('%s of %s at the infeasible %r is %r' % (n, c['acq'], X[i].tolist(), p[i].tolist()))
