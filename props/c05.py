"""C05 encode/decode."""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space

P = 'C05'


@st.composite
def case(draw):
    dom = draw(gen.domain(bandit=None, max_vars=5, max_cols=8))
    other = draw(gen.domain(bandit=None, max_vars=3))
    return {'dom': dom, 'X': draw(gen.points(gen.Layout(dom), 1, 6, many=True)), 'other': other,
            'Xo': draw(gen.points(gen.Layout(other), 1, 2)), 'int': draw(st.booleans())}


@sub(P, 'roundtrip', lambda: case(), 700, 20000, 'the domain has a categorical variable or a repeated or a bandit one, and more than one row')
def roundtrip(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    other, olay = Design_space(gen.build_domain(c['other'])), gen.Layout(c['other'])
    X = np.array(c['X'], dtype=float)
    if c['int'] and np.all(X == np.round(X)) and not lay.bandit:
        X = X.astype(int)
        info.label('integer dtype')
    kinds = set(b[1] for b in lay.blocks)
    info.label(*kinds)
    info.nontrivial(len(X) > 1 and (kinds & {'categorical', 'bandit'} or len(lay.blocks) > len(c['dom'])))
    keep = X.copy()
    ref = np.array([lay.encode(x) for x in X])
    Z = np.asarray(space.unzip_inputs(X), dtype=float)
    if Z.shape != ref.shape or not np.array_equal(Z, ref):
        raise Violation('encoding of %r is %r, expected %r' % (X.tolist(), Z.tolist(), ref.tolist()))
    other.zip_inputs(other.unzip_inputs(np.array(c['Xo'], dtype=float)))       # another space in between
    back = np.asarray(space.zip_inputs(Z), dtype=float)
    if back.shape != X.shape or not np.array_equal(back, X):
        raise Violation('decoding gives %r instead of %r' % (back.tolist(), X.tolist()))
    for i in range(len(X)):
        zi = np.asarray(space.unzip_inputs(X[[i], :]), dtype=float)
        if zi.shape != (1, lay.n_model) or not np.array_equal(zi[0], Z[i]):
            raise Violation('row %d alone is encoded as %r, together with the others as %r' % (i, zi.tolist(), Z[i].tolist()))
        xi = np.asarray(space.zip_inputs(Z[[i], :]), dtype=float)
        if xi.shape != (1, lay.n_obj) or not np.array_equal(xi[0], X[i]):
            raise Violation('row %d alone is decoded as %r' % (i, xi.tolist()))
    perm = np.arange(len(X))[::-1]
    if not np.array_equal(np.asarray(space.unzip_inputs(X[perm]), dtype=float), Z[perm]):
        raise Violation('encoding depends on the order of the rows')
    if not np.array_equal(X, keep):
        raise Violation('the configurations were changed by encoding them')
    if not lay.bandit and len(X) == 1:
        zm = space.objective_to_model(X)
        if not np.array_equal(np.asarray(zm, dtype=float).reshape(-1), Z[0]):
            raise Violation('objective_to_model gives %r' % (zm,))
        xm = space.model_to_objective(Z)
        if not np.array_equal(np.asarray(xm, dtype=float).reshape(-1), X[0]):
            raise Violation('model_to_objective gives %r' % (xm,))


@sub(P, 'positions', lambda: case(), 500, 10000, 'more than one variable after expansion and a model layout different from the objective one, or bandits')
def positions(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    Design_space(gen.build_domain(c['other']))
    if len(set(lay.names)) < len(lay.names):
        return                                      # a variable called like the copy of another one
    info.nontrivial(len(lay.blocks) > 1 and (lay.bandit or lay.n_obj != lay.n_model))
    for name, kind, oc, mc, vals in lay.blocks:
        v = space.find_variable(name)
        if [int(i) for i in v.index_in_objective] != oc:
            raise Violation('%s (%s) is in columns %r of a configuration, reported %r' % (name, kind, oc, v.index_in_objective))
        if [int(i) for i in v.index_in_model] != mc:
            raise Violation('%s (%s) is in columns %r of the model inputs, reported %r' % (name, kind, mc, v.index_in_model))
        if v.dimensionality_in_model != len(mc):
            raise Violation('%s spans %d model coordinates, reported %r' % (name, len(mc), v.dimensionality_in_model))
    if space.model_dimensionality != lay.n_model:
        raise Violation('model dimensionality %r, expected %d' % (space.model_dimensionality, lay.n_model))
    if list(space.model_input_dims) != [len(b[3]) for b in lay.blocks]:
        raise Violation('model_input_dims %r, expected %r' % (space.model_input_dims, [len(b[3]) for b in lay.blocks]))
    if len(space.get_bounds()) != lay.n_model:
        raise Violation('%d bounds for %d model coordinates' % (len(space.get_bounds()), lay.n_model))
