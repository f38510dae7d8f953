"""C06 rounding."""
import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation
from GPyOpt.core.task.space import Design_space

P = 'C06'


@st.composite
def case(draw):
    dom = draw(gen.domain(bandit=None, max_vars=5, max_cols=8))
    lay = gen.Layout(dom)
    z = []
    for _, kind, _, mc, vals in lay.blocks:
        if kind == 'categorical':
            mode = draw(st.integers(0, 3))
            if mode == 0:      # ties and exact indicators
                z += [float(draw(st.sampled_from([0., 1., 0.5]))) for _ in vals]
            elif mode == 1:    # differences far below the values themselves
                z += [0.3 + 1e-9 * draw(st.integers(0, 9)) for _ in vals]
            else:
                z += [draw(gen.fl(-0.5, 1.5)) for _ in vals]
            continue
        b = np.array(vals, dtype=float)
        lo, hi = (b.min(0), b.max(0)) if kind == 'bandit' else ([b.min()], [b.max()])
        for l, h in zip(np.atleast_1d(lo), np.atleast_1d(hi)):
            mode = draw(st.integers(0, 5))
            w = float(h - l) or 1.
            if mode == 0:
                z.append(float(draw(st.sampled_from([l, h]))))
            elif mode == 1 and kind == 'discrete' and len(vals) > 1:
                s = sorted(map(float, vals))
                k = draw(st.integers(0, len(s) - 2))
                z.append((s[k] + s[k + 1]) / 2 + draw(st.sampled_from([0., 1e-9, -1e-9, 0.01, -0.01])))
            elif mode == 2 and kind in ('discrete', 'bandit'):
                z.append(float(draw(st.sampled_from(sorted(set(np.ravel(b).tolist()))))))
            elif mode == 3:
                z.append(float(draw(st.sampled_from([l - 1e-7 * w, h + 1e-7 * w, l - 100 * w, h + 100 * w]))))
            else:
                z.append(float(l + w * draw(gen.fl(-0.6, 1.6))))
    return {'dom': dom, 'z': z, 'two_d': draw(st.booleans()), 'legal': draw(gen.points(lay, 1, 1))[0]}


@sub(P, 'nearest', lambda: case(), 1500, 40000, 'the point is not already legal')
def nearest(c, info):
    lay = gen.Layout(c['dom'])
    space = Design_space(gen.build_domain(c['dom']))
    z = np.array(c['z'], dtype=float)
    arg = z[None, :] if c['two_d'] else z
    keep = arg.copy()
    r = np.asarray(space.round_optimum(arg), dtype=float)
    info.nontrivial(lay.legal_model_row(z) is not None)
    info.label(*set(b[1] for b in lay.blocks))
    if not np.array_equal(arg, keep):
        raise Violation('the array passed to round_optimum was changed')
    if r.shape != (1, lay.n_model):
        raise Violation('the rounded point has shape %r, expected (1, %d)' % (r.shape, lay.n_model))
    for name, kind, _, mc, vals in lay.blocks:
        a, b = z[mc], r[0, mc]
        if kind == 'continuous':
            e = min(max(a[0], vals[0]), vals[1])
            if b[0] != e:
                raise Violation('%s: %r rounded to %r instead of %r (bounds %r)' % (name, a[0], b[0], e, vals))
        elif kind == 'discrete':
            if b[0] not in [float(v) for v in vals]:
                raise Violation('%s: %r rounded to %r, not in %r' % (name, a[0], b[0], vals))
            if abs(b[0] - a[0]) > min(abs(v - a[0]) for v in vals) * (1 + 1e-12) + 1e-13:
                raise Violation('%s: %r rounded to %r, which is not a nearest value of %r' % (name, a[0], b[0], vals))
        elif kind == 'categorical':
            if sorted(b) != [0.] * (len(b) - 1) + [1.]:
                raise Violation('%s: indicator group rounded to %r' % (name, b.tolist()))
            if a[int(np.argmax(b))] < a.max():
                raise Violation('%s: scores %r rounded to %r' % (name, a.tolist(), b.tolist()))
        else:
            if not any(np.array_equal(b, np.array(v, dtype=float)) for v in vals):
                raise Violation('%s: %r rounded to %r, which is not an arm' % (name, a.tolist(), b.tolist()))
            d = [np.linalg.norm(np.array(v) - a) for v in vals]
            if np.linalg.norm(b - a) > min(d) * (1 + 1e-9) + 1e-12:
                raise Violation('%s: %r rounded to %r, which is not a closest arm' % (name, a.tolist(), b.tolist()))
    rr = np.asarray(space.round_optimum(r), dtype=float)
    if not np.array_equal(rr, r):
        raise Violation('rounding twice gives %r instead of %r' % (rr.tolist(), r.tolist()))
    r2 = np.asarray(space.round_optimum(arg), dtype=float)
    if not np.array_equal(r2, r):
        raise Violation('rounding the same point again gives %r instead of %r' % (r2.tolist(), r.tolist()))
    e = lay.encode(np.array(c['legal']))
    re = np.asarray(space.round_optimum(e), dtype=float)
    if not np.array_equal(re, e[None, :]):
        raise Violation('the legal point %r was rounded to %r' % (e.tolist(), re.tolist()))
