"""Hypothesis strategies for JSON-able cases, and the objects built from them."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 2)


def fl(lo, hi, digits=3):
    """Short decimal numbers: they shrink and read well, and hit bounds and ties often."""
    k = 10 ** digits
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


# ----------------------------------------------------------------------------------------------------------- domains
BOUNDS = [(0., 1.), (-1., 1.), (-5., 10.), (0, 3), (-2, 2), (10., 12.5), (-1000., 1000.), (-7., -3.), (0.001, 0.002), (-0.5, 4.), (1e-5, 1e-3), (0., 1e4)]

names = st.sampled_from(['x', 'y', 'alpha', 'temperature', 'var1', 'v_2', 'B', 'n units', 'k9'])


@st.composite
def bounds(draw):
    if draw(st.booleans()):
        return list(draw(st.sampled_from(BOUNDS)))
    lo = draw(fl(-20, 20, 2))
    return [lo, round(lo + draw(fl(0.5, 20, 2)), 2)]


MAGNITUDES = [[1e-4, 1e-3, 1e-2, 1e-1, 0.5], [16, 32, 64, 128, 256, 512], [1000.1, 1000.2, 1000.4], [-2000, 0, 3000], [0.001, 0.002, 0.003, 0.005],
              [1e-6, 2e-6, 4e-6], list(range(10, 28)), [16777216, 16777217, 16777219, 16777222], [0.1, 0.1000001, 0.1000003]]


@st.composite
def values(draw, lo=1, hi=5, allow_float=True):
    if draw(st.integers(0, 7)) == 0:
        pool = draw(st.sampled_from([m for m in MAGNITUDES if len(m) >= lo]))
        return draw(st.permutations(pool))[:draw(st.integers(lo, max(lo, min(hi, len(pool)))))]
    el = st.integers(-6, 9)
    if allow_float and draw(st.integers(0, 3)) == 0:
        el = st.one_of(el, fl(-5, 5, 2))
    v = draw(st.lists(el, min_size=lo, max_size=hi, unique_by=float))
    how = draw(st.integers(0, 2))
    return sorted(v) if how == 0 else v


@st.composite
def variable(draw, kinds=('continuous', 'discrete', 'categorical'), max_dim=3, min_values=1, max_values=5, default_type=True):
    kind = draw(st.sampled_from(list(kinds)))
    v = {'type': kind}
    if kind == 'continuous':
        v['domain'] = draw(bounds())
        if default_type and draw(st.integers(0, 9)) == 0:
            del v['type']
    elif kind == 'bandit':
        width = draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5]))
        arms = draw(st.lists(st.tuples(*[st.one_of(st.integers(-5, 5), fl(-5, 5, 1))] * width), min_size=max(2, min_values), max_size=draw(st.sampled_from([6, 6, 6, 14])),
                             unique_by=lambda t: tuple(map(float, t))))
        v['domain'] = [list(a) for a in arms]
        if draw(st.integers(0, 5)) == 0:          # coordinates of other sizes, and arms which hardly differ in one of them
            off, sc = draw(st.sampled_from([(0, 1000.), (0, 1e-3), (1000., 1e-3)]))
            for j in range(width):
                if draw(st.booleans()):
                    for a in v['domain']:
                        a[j] = round(off + sc * a[j], 9)
    else:
        v['domain'] = draw(values(lo=max(min_values, 1), hi=max_values))
    if kind != 'bandit':
        d = draw(st.sampled_from([None, None, 1] + list(range(2, max_dim + 1)))) if max_dim >= 1 else None
        if d is not None:
            v['dimensionality'] = d
    return v


def width_obj(v):
    return len(v['domain'][0]) if v.get('type') == 'bandit' else v.get('dimensionality', 1)


@st.composite
def domain(draw, kinds=('continuous', 'discrete', 'categorical'), max_vars=4, max_dim=3, max_cols=6, min_values=1, max_values=5,
           bandit=False, named=None, need_continuous=False):
    """A declared domain. bandit: False, True or None (either)."""
    if bandit is None:
        bandit = draw(st.integers(0, 6)) == 0
    if max_vars >= 4 and max_cols >= 6 and draw(st.integers(0, 9)) == 0:          # now and then a wide domain
        max_vars, max_dim, max_cols = 7, draw(st.sampled_from([6, 12])), 14
    if bandit:
        vs = draw(st.lists(variable(('bandit',), 0, min_values), min_size=1, max_size=2))
    else:
        vs = draw(st.lists(variable(kinds, max_dim, min_values, max_values), min_size=1, max_size=max_vars))
        if need_continuous and not any(v.get('type', 'continuous') == 'continuous' for v in vs):
            vs.append({'type': 'continuous', 'domain': draw(bounds())})
    out, cols = [], 0
    for v in vs:
        w = width_obj(v)
        if cols + w > max_cols and out:
            continue
        if cols + w > max_cols and v.get('type') != 'bandit':
            v['dimensionality'] = 1
            w = 1
        out.append(v)
        cols += w
    if need_continuous and not bandit and not any(v.get('type', 'continuous') == 'continuous' for v in out):
        out[-1] = {'type': 'continuous', 'domain': draw(bounds())}
    long = [v for v in out if v.get('type') in ('discrete', 'categorical')]
    if long and max_values >= 5 and draw(st.integers(0, 6)) == 0:          # now and then a variable with many values
        long[draw(st.integers(0, len(long) - 1))]['domain'] = draw(values(lo=max_values + 2, hi=14))
    give = draw(st.integers(0, 3)) if named is None else (1 if named else 0)
    if give:
        ns = draw(st.lists(names, min_size=len(out), max_size=len(out), unique=True))
        for v, n in zip(out, ns):
            if give < 3 or draw(st.booleans()):
                v['name'] = n
    return out


def build_domain(dom):
    """The declaration a user would write: tuples for domains, arrays (or lists of tuples) for arms."""
    out = []
    for v in dom:
        v = dict(v)
        if v.get('type') == 'bandit':
            v['domain'] = np.array(v['domain'], dtype=float) if not v.pop('as_list', False) else [tuple(a) for a in v['domain']]
        else:
            v['domain'] = tuple(v['domain'])
        out.append(v)
    return out


# ------------------------------------------------------------------------------------------------- reference layout
class Layout(object):
    """What a declaration means, worked out independently of the library."""

    def __init__(self, dom):
        self.cols = []            # one per column of a configuration
        self.blocks = []          # (name, kind, objective columns, model columns, values)
        self.names = []
        o = m = 0
        for i, v in enumerate(dom):
            kind = v.get('type', 'continuous')
            name = v.get('name', 'var_%d' % i)
            if kind == 'bandit':
                w = len(v['domain'][0])
                self.blocks.append((name, kind, list(range(o, o + w)), list(range(m, m + w)), [list(map(float, a)) for a in v['domain']]))
                o += w; m += w
                self.names.append(name)
                continue
            d = v.get('dimensionality', 1)
            for k in range(d):
                nm = name if d == 1 else '%s_%d' % (name, k + 1)
                wm = len(v['domain']) if kind == 'categorical' else 1
                self.blocks.append((nm, kind, [o], list(range(m, m + wm)), list(v['domain'])))
                self.names.append(nm)
                o += 1; m += wm
        self.n_obj, self.n_model = o, m
        self.bandit = any(b[1] == 'bandit' for b in self.blocks)

    def legal_row(self, x, tol=0.0):
        """None if the configuration is valid, otherwise what is wrong with it."""
        x = np.asarray(x, dtype=float)
        if x.shape != (self.n_obj,):
            return 'has shape %s instead of (%d,)' % (x.shape, self.n_obj)
        if not np.all(np.isfinite(x)):
            return 'is not finite'
        for name, kind, oc, _, vals in self.blocks:
            if kind == 'continuous':
                if not (vals[0] - tol <= x[oc[0]] <= vals[1] + tol):
                    return '%s=%r outside %r' % (name, x[oc[0]], vals)
            elif kind == 'bandit':
                if not any(all(abs(x[c] - a[j]) <= tol for j, c in enumerate(oc)) for a in vals):
                    return '%s=%r is not one of the arms' % (name, [x[c] for c in oc])
            elif not any(abs(float(v) - x[oc[0]]) <= tol for v in vals):
                return '%s=%r is not one of %r' % (name, x[oc[0]], vals)
        return None

    def encode(self, x):
        z = np.zeros(self.n_model)
        for _, kind, oc, mc, vals in self.blocks:
            if kind == 'categorical':
                z[mc[[float(v) for v in vals].index(float(x[oc[0]]))]] = 1
            else:
                z[mc] = np.asarray(x)[oc]
        return z

    def legal_model_row(self, z):
        z = np.asarray(z, dtype=float)
        if z.shape != (self.n_model,):
            return 'has shape %s instead of (%d,)' % (z.shape, self.n_model)
        for name, kind, _, mc, vals in self.blocks:
            if kind == 'categorical':
                g = z[mc]
                if sorted(g) != [0.] * (len(g) - 1) + [1.]:
                    return 'indicator group of %s is %r' % (name, list(g))
        return self.legal_row(self.decode(z))

    def decode(self, z):
        x = np.zeros(self.n_obj)
        for _, kind, oc, mc, vals in self.blocks:
            if kind == 'categorical':
                x[oc[0]] = float(vals[int(np.argmax(z[mc]))])
            else:
                x[oc] = np.asarray(z)[mc]
        return x

    def model_bounds(self):
        out = []
        for _, kind, _, mc, vals in self.blocks:
            if kind == 'continuous':
                out.append((vals[0], vals[1]))
            elif kind == 'discrete':
                out.append((min(vals), max(vals)))
            elif kind == 'categorical':
                out += [(0, 1)] * len(vals)
            else:
                a = np.array(vals)
                out += [(a[:, j].min(), a[:, j].max()) for j in range(a.shape[1])]
        return out

    def point(self, us):
        """A valid configuration from numbers in [0,1), one per column block."""
        x = np.zeros(self.n_obj)
        for (_, kind, oc, _, vals), u in zip(self.blocks, us):
            if kind == 'continuous':
                x[oc[0]] = min(vals[1], vals[0] + (vals[1] - vals[0]) * u)
            elif kind == 'bandit':
                x[oc] = vals[min(len(vals) - 1, int(u * len(vals)))]
            else:
                x[oc[0]] = vals[min(len(vals) - 1, int(u * len(vals)))]
        return x

    def n_distinct(self):
        """Number of configurations, inf with continuous variables."""
        n = 1.
        for _, kind, _, _, vals in self.blocks:
            n *= np.inf if kind == 'continuous' else len(vals)
        return n

    def all_points(self):
        import itertools
        return [self.point([(i + .5) / len(b[4]) for i, b in zip(ix, self.blocks)])
                for ix in itertools.product(*[range(len(b[4])) for b in self.blocks])]


unit = st.integers(0, 1000).map(lambda i: i / 1000.)


def points(lay, lo=1, hi=6, distinct=False, many=False):
    """Strategy: list of valid configurations of a Layout (as lists); many: now and then some dozens."""
    if many:
        return st.one_of(*[points(lay, lo, hi)] * 9, st.tuples(seeds, st.sampled_from([17, 40, 130])).map(
            lambda t: [[float(v) for v in lay.point(list(us))] for us in np.round(np.random.RandomState(t[0]).rand(t[1], len(lay.blocks)), 3)]))
    row = st.lists(unit, min_size=len(lay.blocks), max_size=len(lay.blocks)).map(lambda us: [float(t) for t in lay.point(us)])
    return st.lists(row, min_size=lo, max_size=hi, unique_by=tuple if distinct else None)


# ------------------------------------------------------------------------------------------------------- constraints
@st.composite
def constraints(draw, lay, witness, max_n=2):
    """Constraint dictionaries satisfied (with room) by the configuration `witness`.  Reference form: a list of terms."""
    out = []
    for i in range(draw(st.integers(1, max_n))):
        kind = draw(st.sampled_from(['upper', 'lower', 'linear', 'quad', 'sum', 'slack']))
        j = draw(st.integers(0, lay.n_obj - 1))
        k = draw(st.integers(0, lay.n_obj - 1))
        w = witness
        span = _span(lay, j)
        if kind == 'upper':
            e = 'x[:,%d] - %r' % (j, _fine(w[j] + span * draw(fl(0.1, 0.5, 1)), span))
        elif kind == 'lower':
            e = '%r - x[:,%d]' % (_fine(w[j] - span * draw(fl(0.1, 0.5, 1)), span), j)
        elif kind == 'linear':
            a, b = draw(st.sampled_from([(1, 1), (1, -1), (2, -1), (-1, 1)]))
            c = a * w[j] + b * w[k] + 0.3 * (abs(a) * span + abs(b) * _span(lay, k))
            e = '%d*x[:,%d] + %d*x[:,%d] - (%r)' % (a, j, b, k, _fine(c, min(span, _span(lay, k))))
        elif kind == 'quad':
            r = 0.4 * span
            e = '(x[:,%d] - (%r))**2 - %r' % (j, _fine(w[j], span), float('%.8g' % (r * r)))
        elif kind == 'sum':
            tot = sum(_span(lay, q) for q in range(lay.n_obj))
            e = 'np.sum(x, axis=1) - (%r)' % _fine(sum(w) + 0.25 * tot, tot)
        else:
            e = 'x[:,%d] - (%r)' % (j, _fine(w[j] + 5 * span, span))
        d = {'name': 'c%d' % i}
        d['constrain' if draw(st.integers(0, 5)) == 0 else 'constraint'] = e
        out.append(d)
    return out


def _fine(v, span):
    """A readable number that differs from v by a tiny part of the span only."""
    return round(float(v), max(6, 6 - int(np.floor(np.log10(span)))))


def _span(lay, j):
    for _, kind, oc, _, vals in lay.blocks:
        if j in oc:
            if kind == 'bandit':
                v = [a[oc.index(j)] for a in vals]
                return float(max(v) - min(v)) or 1.
            return float(max(vals) - min(vals)) or 1.


def expr(c):
    return c.get('constraint', c.get('constrain'))


def con_values(cons, X):
    """Values of the constraint expressions, evaluated row by row (the reference for feasibility)."""
    X = np.atleast_2d(np.asarray(X, dtype=float))
    out = np.zeros((X.shape[0], len(cons)))
    for j, c in enumerate(cons):
        code = compile(expr(c), '<constraint>', 'eval')
        for i in range(X.shape[0]):
            out[i, j] = np.asarray(eval(code, {'np': np, 'x': X[[i], :].copy()})).reshape(-1)[0]
    return out


def feasible(cons, X):
    return np.all(con_values(cons, X) <= 0, axis=1)


# -------------------------------------------------------------------------------------------------------- objectives
class Objective(object):
    """A deterministic test function that records what it was called with."""

    def __init__(self, coef, scale=1., shift=0., fail_at=None, log=None):
        self.coef, self.scale, self.shift = coef, scale, shift
        self.calls = [] if log is None else log
        self.outputs = []
        self.fail_at = fail_at

    def value(self, x):
        x = np.asarray(x, dtype=float).reshape(-1)
        t = 0.
        for i, v in enumerate(x):
            a, b = self.coef[i % len(self.coef)]
            t += a * np.sin(b * v + i) + 0.1 * a * np.abs(v) ** 0.5
        return float(self.shift + self.scale * t)

    def __call__(self, x):
        self.calls.append(np.array(x, copy=True))
        if self.fail_at is not None and len(self.calls) - 1 in self.fail_at:
            raise UserFailure('objective failed on call %d' % (len(self.calls) - 1))
        y = self.value(x)
        self.outputs.append(y)
        return np.array([[y]])


class UserFailure(Exception):
    pass


coefs = st.lists(st.tuples(fl(0.5, 3, 1), fl(0.2, 2, 1)), min_size=1, max_size=3).map(lambda l: [list(t) for t in l])


@st.composite
def extra(draw, d, xlo, xhi, ylo, yhi, sizes=(0, 0, 0, 0, 0, 0, 0, 27, 40, 65), sep=0.02):
    """Now and then a larger data set: spread-out rows (2 decimals) and values."""
    n = draw(st.sampled_from(sizes))
    if not n:
        return [], []
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    X = []
    for _ in range(50 * n):
        x = np.round(r.uniform(xlo, xhi, d), 2)
        if all(np.abs(x - z).max() >= sep * (xhi - xlo) for z in X):
            X.append(x)
        if len(X) == n:
            break
    return [x.tolist() for x in X], np.round(r.uniform(ylo, yhi, len(X)), 2).tolist()
