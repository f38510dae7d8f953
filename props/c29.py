"""C29 design space description."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space, bounds_to_space
from GPyOpt.core.errors import InvalidConfigError, InvalidVariableNameError

P = 'C29'


@st.composite
def case(draw):
    dom = draw(gen.domain(bandit=None, max_vars=5, max_cols=8))
    for v in dom:
        if v.get('type') == 'bandit' and draw(st.booleans()):
            v['as_list'] = True
    return {'dom': dom, 'other': draw(gen.domain(bandit=None, max_vars=3))}


def eq(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(float(p) == float(q) for p, q in zip(x, y)) for x, y in zip(a, b))


@sub(P, 'describes', lambda: case(), 900, 20000, 'more than one declared variable or a repeated one')
def describes(c, info):
    dom = c['dom']
    lay = gen.Layout(dom)
    built = gen.build_domain(dom)
    space = Design_space(built)
    Design_space(gen.build_domain(c['other']))
    info.nontrivial(len(lay.blocks) > 1)
    info.label(*set(b[1] for b in lay.blocks))
    if space.dimensionality != lay.n_obj:
        raise Violation('dimensionality %r, declared %d' % (space.dimensionality, lay.n_obj))
    got = [v.name for v in space.space_expanded]
    if got != lay.names:
        raise Violation('variable names %r, expected %r' % (got, lay.names))
    top = [v.name for v in space.space]
    if top != [v.get('name', 'var_%d' % i) for i, v in enumerate(dom)]:
        raise Violation('declared names %r reported as %r' % ([v.get('name') for v in dom], top))
    if [v.type for v in space.space_expanded] != [b[1] for b in lay.blocks]:
        raise Violation('types %r, expected %r' % ([v.type for v in space.space_expanded], [b[1] for b in lay.blocks]))
    for k in ('continuous', 'discrete', 'categorical', 'bandit'):
        if bool(space.has_types[k]) != any(b[1] == k for b in lay.blocks):
            raise Violation('has_types[%s] = %r' % (k, space.has_types[k]))
    if bool(space.has_continuous()) != any(b[1] == 'continuous' for b in lay.blocks):
        raise Violation('has_continuous() = %r' % space.has_continuous())
    if bool(space.has_constraints()):
        raise Violation('constraints reported although none were declared')
    if not eq(space.get_bounds(), lay.model_bounds()):
        raise Violation('bounds %r, expected %r' % (space.get_bounds(), lay.model_bounds()))
    cont = [b[2][0] for b in lay.blocks if b[1] == 'continuous']
    disc = [b[2][0] for b in lay.blocks if b[1] == 'discrete']
    if [int(i) for i in space.get_continuous_dims()] != cont:
        raise Violation('continuous dimensions %r, expected %r' % (space.get_continuous_dims(), cont))
    if [int(i) for i in space.get_discrete_dims()] != disc:
        raise Violation('discrete dimensions %r, expected %r' % (space.get_discrete_dims(), disc))
    if not eq(space.get_continuous_bounds(), [b[4] for b in lay.blocks if b[1] == 'continuous']):
        raise Violation('continuous bounds %r' % (space.get_continuous_bounds(),))
    if [v.name for v in space.get_continuous_space()] != [v.name for v in space.space if v.type == 'continuous']:
        raise Violation('continuous subspace %r' % [v.name for v in space.get_continuous_space()])
    if [v.name for v in space.get_discrete_space()] != [v.name for v in space.space if v.type == 'discrete']:
        raise Violation('discrete subspace %r' % [v.name for v in space.get_discrete_space()])
    if not lay.bandit and space.input_dim() != len(cont) + len(disc):
        raise Violation('input_dim() = %r, expected %d' % (space.input_dim(), len(cont) + len(disc)))
    dsets = [b[4] for b in lay.blocks if b[1] == 'discrete']
    if dsets and int(np.prod([len(d) for d in dsets])) < 3000:
        grid = sorted(tuple(map(float, r)) for r in np.atleast_2d(space.get_discrete_grid()))
        ref = sorted(tuple(map(float, r)) for r in itertools.product(*dsets))
        if grid != ref:
            raise Violation('discrete grid has %d rows, expected the %d combinations of %r' % (len(grid), len(ref), dsets))
        info.label('grid')
    for b, v in zip(lay.blocks, space.space_expanded):
        if b[1] == 'discrete' and [float(t) for t in v.get_possible_values()] != [float(t) for t in b[4]]:
            raise Violation('values of %s: %r' % (b[0], v.get_possible_values()))
        if b[1] == 'categorical' and not np.array_equal(np.asarray(v.get_possible_values()), np.eye(len(b[4]))):
            raise Violation('encoded categories of %s: %r' % (b[0], v.get_possible_values()))
        if b[1] == 'bandit' and not np.array_equal(np.asarray(v.get_possible_values(), dtype=float), np.array(b[4])):
            raise Violation('arms of %s: %r' % (b[0], v.get_possible_values()))
        if b[1] == 'continuous':
            try:
                v.get_possible_values()
            except Exception:
                pass
            else:
                raise Violation('a continuous variable produced a list of values')
    arms = [tuple(a) for b in lay.blocks if b[1] == 'bandit' for a in b[4]]
    got = [tuple(map(float, np.atleast_1d(a))) for a in space.get_bandit()]
    if got != arms:
        raise Violation('arms %r, expected %r' % (got, arms))
    if len(set(lay.names)) == len(lay.names):
        for b in lay.blocks:
            v = space.find_variable(b[0])
            if v.name != b[0] or v.type != b[1]:
                raise Violation('looking for %s found %s (%s)' % (b[0], v.name, v.type))
            if b[1] != 'bandit' and v.dimensionality != 1:
                raise Violation('%s has dimensionality %r' % (b[0], v.dimensionality))
            if [float(t) for t in np.ravel(v.domain)] != [float(t) for t in np.ravel(b[4])]:
                raise Violation('%s has domain %r, declared %r' % (b[0], v.domain, b[4]))
    try:
        space.find_variable('no such variable')
    except InvalidVariableNameError:
        pass
    else:
        raise Violation('an unknown variable name was found')
    # subspaces by model position
    for b in lay.blocks:
        s = space.get_subspace([b[3][0]])
        if [v.name for v in s] != [b[0]]:
            raise Violation('the subspace of model coordinate %d is %r, expected %r' % (b[3][0], [v.name for v in s], b[0]))


@st.composite
def bad(draw):
    dom = draw(gen.domain(max_vars=3))
    how = draw(st.sampled_from(['no domain', 'unknown type', 'uneven arms', 'mixed']))
    k = draw(st.integers(0, len(dom) - 1))
    pos = draw(st.integers(0, len(dom)))
    return {'dom': dom, 'how': how, 'k': k, 'pos': pos, 'type': draw(st.sampled_from(['integer', 'Continuous', 'cont', '', 'ordinal', 'bandits']))}


@sub(P, 'rejects', lambda: bad(), 250, 5000, 'every case: one defect planted in an otherwise valid declaration')
def rejects(c, info):
    dom = gen.build_domain(c['dom'])
    info.nontrivial()
    info.label(c['how'])
    if c['how'] == 'no domain':
        del dom[c['k']]['domain']
    elif c['how'] == 'unknown type':
        dom[c['k']]['type'] = c['type']
    elif c['how'] == 'uneven arms':
        dom = [{'name': 'b', 'type': 'bandit', 'domain': [(1, 2), (3, 4, 5), (1, 1)][:2 + c['k'] % 2]}]
    else:
        dom.insert(c['pos'], {'name': 'the bandit', 'type': 'bandit', 'domain': np.array([[1, 2], [3, 4]])})
    try:
        Design_space(dom)
    except InvalidConfigError:
        return
    raise Violation('%s: the declaration %r was accepted' % (c['how'], dom))


@st.composite
def blist(draw):
    return {'bounds': draw(st.lists(gen.bounds(), min_size=1, max_size=6))}


@sub(P, 'bounds_list', lambda: blist(), 100, 2000, 'more than one dimension')
def bounds_list(c, info):
    b = [tuple(t) for t in c['bounds']]
    info.nontrivial(len(b) > 1)
    s = bounds_to_space(b)
    sp = Design_space(s)
    if not eq(sp.get_bounds(), b) or not eq(sp.get_continuous_bounds(), b) or sp.dimensionality != len(b):
        raise Violation('bounds %r became %r' % (b, sp.get_bounds()))
    if len(set(v.name for v in sp.space_expanded)) != len(b):
        raise Violation('names are not distinct: %r' % [v.name for v in sp.space_expanded])
