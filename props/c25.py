"""C25 output savers."""
import copy
import os

import numpy as np
from hypothesis import strategies as st
from vf import gen
from vf.core import sub, Violation
from props.c20 import scratch

P = 'C25'
number = st.one_of(st.sampled_from([0., 1., -1., 2., -0.5]), gen.fl(-100, 100, 4), st.sampled_from([1e-12, -1e-12, 1e300, -1e250, 1. / 3, 12345.678901234567, 1e22]))


@st.composite
def case(draw):
    d = draw(st.integers(1, 4))
    its = []
    for i in range(draw(st.one_of(st.integers(1, 5), st.integers(1, 16)))):
        k = draw(st.sampled_from([1, 1, 1, 2, 3, 5] + ([0] if i else [])))          # nothing new in an iteration
        its.append([draw(st.lists(st.lists(number, min_size=d, max_size=d), min_size=k, max_size=k)), draw(st.lists(number, min_size=k, max_size=k)), draw(gen.fl(0, 50, 3))])
    if draw(st.integers(0, 11)) == 0:           # a long run
        for x, t in zip(*draw(gen.extra(d, -9, 9, 0, 50, (60, 130), 0))):
            its.append([[x], [t - 25.], t])
    savers = []
    for i in range(draw(st.integers(1, 4))):
        savers.append([draw(st.sampled_from(['logger', 'logger', 'report'])), draw(st.sampled_from([1, 1, 2, 3, 4, 7, -1])), draw(st.booleans()), draw(st.sampled_from(['csv', 'CSV', 'Csv'])),
                       draw(st.sampled_from(['ybest', 'Ybest', 'YBEST']))])
    return {'d': d, 'its': its, 'savers': savers, 'final': draw(st.sampled_from([True, True, True, False])), 'after': draw(st.sampled_from([0, 0, 0, 1, 2, 4])), 'verbosity': draw(st.booleans()),
            'step': draw(st.sampled_from([1, 1, 2])), 'start': draw(st.sampled_from([0, 1, 10])), 'name': draw(st.sampled_from(['exp', 'my-run', ''])),
            'twice': draw(st.booleans()), 'int': draw(st.integers(0, 4)) == 0, 'repeat': draw(st.integers(0, 3)) == 0}


class FakeBO(object):
    def __init__(self):
        self.now, self.saved = None, []

    def save_report(self, report_file=None):
        self.saved.append((report_file, self.now))


def one(c, d, its, info):
    from GPyOpt.interface import OutputEng
    if not os.path.isdir(d):
        os.mkdir(d)
    cfg = {'prjpath': d, 'experiment-name': c['name'], 'output': {'verbosity': c['verbosity']}}
    for i, (kind, k, named, fmt, content) in enumerate(c['savers']):
        s = {'type': kind, 'interval': k, 'filename': 's%d.txt' % i if named else None}
        if kind == 'logger':
            s.update(format=fmt, content=content)
        cfg['output']['saver%d' % i] = s
    before = copy.deepcopy(cfg)
    bo = FakeBO()
    eng = OutputEng(cfg)
    rec = []
    last = max(len(its) - 1 - c.get('after', 0), 0)      # iterations may go on after the one called final
    for j, (X, Y, dt) in enumerate(its):
        X = np.array(X, dtype=float).reshape(-1, c['d'])
        if c['int']:
            X = np.clip(np.round(X), -1000, 1000).astype(int)
        Y = np.array(Y, dtype=float)[:, None]
        rec.append((c['start'] + c['step'] * j, round(sum(t[2] for t in its[:j + 1]), 3), X.copy(), Y.copy()))
        bo.now = j
        final = c['final'] and j == last
        if final or j % 2:
            eng.append_iter(rec[-1][0], rec[-1][1], X, Y, bo, final=final)
        else:
            eng.append_iter(rec[-1][0], rec[-1][1], X, Y, bo)
    eng.close()
    if cfg != before:
        raise Violation('the configuration was changed')
    for x, y in zip(eng.Xs, [r[2] for r in rec]):
        if not np.array_equal(x, y):
            raise Violation('recorded inputs were changed')
    for i, (kind, k, named, _, _) in enumerate(c['savers']):
        exp = [j for j in range(len(its)) if (k > 0 and (j + 1) % k == 0) or (k == -1 and c['final'] and j == last)]
        if kind == 'report':
            files = {p for p, _ in bo.saved if p is not None and (os.path.basename(p) == 's%d.txt' % i if named else ('saver%d' % i) in os.path.basename(p))}
            got = [j for p, j in bo.saved if p in files]
            if got != exp:
                raise Violation('a report with the interval %d was written at the iterations %r of %d, expected %r' % (k, [g + 1 for g in got], len(its), [e + 1 for e in exp]))
            if any(os.path.dirname(p) != d for p in files):
                raise Violation('the report goes to %r' % files)
            continue
        fs = [f for f in os.listdir(d) if (f == 's%d.txt' % i if named else ('saver%d' % i) in f)]
        if len(fs) != 1:
            raise Violation('files of a logger: %r' % (fs,))
        lines = [l.split(',') for l in open(os.path.join(d, fs[0])).read().split('\n') if l]
        if not exp:
            if lines:
                raise Violation('a logger with the interval %d has the lines %r after %d iterations' % (k, lines, len(its)))
            continue
        head, rows = lines[0], lines[1:]

        def isnum(t):
            try:
                float(t)
                return True
            except ValueError:
                return False
        if len(head) != 3 + c['d'] or any(isnum(h) for h in head):
            raise Violation('header %r for %d inputs' % (head, c['d']))
        if len(rows) != len(exp):
            raise Violation('a logger with the interval %d has %d lines after %d iterations (final: %r), expected %d' % (k, len(rows), len(its), c['final'], len(exp)))
        for r, j in zip(rows, exp):
            if len(r) != 3 + c['d'] or not all(isnum(v) for v in r):
                raise Violation('line %r' % (r,))
            v = [float(t) for t in r]
            X = np.vstack([q[2] for q in rec[:j + 1]]).astype(float)
            Y = np.vstack([q[3] for q in rec[:j + 1]]).ravel()
            if v[0] != rec[j][0] or v[1] != rec[j][1]:
                raise Violation('the line for iteration %r at %r says %r' % (rec[j][0], rec[j][1], r))
            if v[2] != Y.min():
                raise Violation('best value after iteration %d: %r, logged %r' % (j + 1, Y.min(), v[2]))
            if not any(np.array_equal(x, v[3:]) for x in X[Y == Y.min()]):
                raise Violation('best value %r was attained at %r, logged %r' % (Y.min(), X[Y == Y.min()].tolist(), v[3:]))
        info.nontrivial(len(exp) > 1 or k == -1)
        info.label('logger interval %d' % k)


@sub(P, 'savers', case, 500, 20000, 'a logger wrote several lines or fired at the end', shards=2)
def savers(c, info):
    with scratch() as d:
        one(c, os.path.join(d, 'a'), c['its'], info)
        if c['twice']:
            one(c, os.path.join(d, 'b'), sorted(c['its'][::-1], key=lambda t: not t[0]), info)
    if not c['final']:
        info.label('no final iteration')


@st.composite
def bad_case(draw):
    return {'what': draw(st.sampled_from(['interval', 'format', 'content', 'type'])), 'k': draw(st.sampled_from([0, -2, -5])), 'text': draw(st.sampled_from(['json', 'xml', 'y', '', 'report '])),
            'kind': draw(st.sampled_from(['logger', 'report']))}


@sub(P, 'refusals', bad_case, 30, 200, 'always')
def refusals(c, info):
    """Savers which cannot be built are refused instead of being ignored."""
    from GPyOpt.interface import OutputEng
    with scratch() as d:
        s = {'type': c['kind'], 'interval': 1, 'filename': None, 'format': 'csv', 'content': 'ybest'}
        if c['what'] == 'interval':
            s['interval'] = c['k']
        else:
            s['type'] = 'logger'
            s[c['what']] = c['text']
        try:
            eng = OutputEng({'prjpath': d, 'experiment-name': 'e', 'output': {'a': s}})
        except Exception:
            info.nontrivial()
            return
        eng.close()
        raise Violation('a saver described by %r was accepted' % s)
