"""Sub-check registry, case execution, search, replay and evidence."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The case says nothing (a documented numerical refusal, for instance); counted, never a violation."""


class Hang(BaseException):
    pass


class StopSearch(BaseException):
    pass


class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, rule, shards, examples, case_limit, all_distinct):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.examples, self.case_limit = examples, case_limit


SUBS = []


def sub(prop, name, strategy, quick, thorough=None, rule='', shards=1, examples=(), case_limit=240):
    """Registers a sub-check. `strategy` yields JSON-able dicts; quick/thorough are numbers of generated cases."""
    def deco(fn):
        SUBS.append(Sub(prop, name, strategy, fn, quick, thorough or quick * 20, rule, shards, list(examples), case_limit, True))
        return fn
    return deco


class Info(object):
    """What a case reports about itself while it is being checked."""

    def __init__(self, prop, known):
        self.prop, self._known = prop, known
        self.labels, self.is_nontrivial, self.found = [], False, []

    def label(self, *names):
        self.labels += [str(n) for n in names]

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def known(self, key, message):
        """Reports a deviation which may be a listed finding: silent if it is, a violation if it is not."""
        for k in self._known:
            if k['property'] == self.prop and k['key'] == key:
                self.found.append(key)
                return
        raise Violation(message)


def load_known():
    """Lines 'KNOWN property=<id> key=<key> <text>'; 'fixed: ...' lines suppress nothing."""
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == 'KNOWN' and w[1].startswith('property=') and w[2].startswith('key='):
                    out.append({'property': w[1][9:], 'key': w[2][4:], 'text': w[3].strip()})
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def _seed_of(case):
    s = case.get('seed') if isinstance(case, dict) else None
    return int(s) % (2 ** 32 - 1) if s is not None else 20201


HARNESS_ERRORS = (MemoryError, ImportError)


def repo_frame(e):
    """The last frame of the code under test in the traceback of e, as text, or None."""
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO) + os.sep):
            last = '%s:%s in %s' % (os.path.relpath(f.filename, boot.REPO), f.lineno, f.name)
    return last


def run_case(s, case, known):
    """Runs one case. Returns (info, violation message or None)."""
    info = Info(s.prop, known)
    np.random.seed(_seed_of(case))
    import random
    random.seed(_seed_of(case))

    def on_alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, s.case_limit)
    try:
        s.fn(case, info)
        return info, None
    except Violation as e:
        return info, str(e)
    except Inconclusive as e:
        info.label('inconclusive: ' + str(e)[:60])
        info.is_nontrivial = False
        return info, None
    except np.linalg.LinAlgError as e:
        # GPy refuses covariance matrices which are numerically singular: says nothing about the property
        info.label('inconclusive: LinAlgError')
        info.is_nontrivial = False
        info.linalg = True
        return info, None
    except Hang as e:
        if any(('lbfgsb' in f.filename or 'evolution_strategy' in f.filename) for f in traceback.extract_tb(e.__traceback__)):
            # slow, not endless: the local search (of scipy, cma) limits the number of its evaluations
            info.label('inconclusive: long local search')
            info.is_nontrivial = False
            return info, None
        return info, 'a call did not return within %d s (at %s)' % (s.case_limit, repo_frame(e))
    except HARNESS_ERRORS:
        raise
    except Exception as e:
        where = repo_frame(e)
        if where is None and isinstance(e, (AttributeError, NameError, OSError)):
            raise
        return info, 'unexpected %s: %s (%s)' % (type(e).__name__, str(e)[:300], where or 'while the result was being checked: ' +
                                                 str(traceback.extract_tb(e.__traceback__)[-1]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def search(s, n, seed, known, time_cap):
    """Generates n cases. Returns a dict of counters and, on failure, the smallest failing case."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = {'sub': s.name, 'evaluations': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'known': [], 'fail': None,
          'skipped': 0, 'linalg': []}
    seen, seen_nt = set(), set()
    t0 = time.time()
    fails = []
    fail_t = [None]

    def one(case):
        now = time.time()
        if fail_t[0] is not None and now - fail_t[0] > 45:
            raise StopSearch()
        if now - t0 > time_cap:
            st['skipped'] += 1
            if fail_t[0] is not None:
                raise StopSearch()
            return
        case = json.loads(json.dumps(case))
        k = case_key(case)
        info, msg = run_case(s, case, known)
        st['evaluations'] += 1
        seen.add(k)
        for l in info.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        for f in info.found:
            if f not in st['known']:
                st['known'].append(f)
        if info.is_nontrivial and k not in seen_nt:
            seen_nt.add(k)
            if len(st['samples']) < 3:
                txt = json.dumps(case)
                st['samples'].append(json.loads(txt) if len(txt) < 3000 else txt[:3000] + '...')
        if getattr(info, 'linalg', False):
            st['linalg'].append(case)
        if msg is not None:
            fails.append((len(json.dumps(case)), len(fails), case, msg))
            if fail_t[0] is None:
                fail_t[0] = time.time()
            if 'did not return within' in msg:
                raise StopSearch()
            raise Violation(msg)

    try:
        for ex in s.examples:
            one(ex)
        if n > 0:
            phases = [Phase.generate, Phase.shrink]
            test = settings(max_examples=n, database=None, deadline=None, phases=phases, print_blob=False,
                            report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(given(s.strategy())(one))
            hypothesis.seed(seed)(test)()
    except StopSearch:
        pass
    except Violation:
        pass
    except Exception as e:
        if not fails:      # a harness error, unless Hypothesis complains about a failure that comes and goes
            raise
    if not fails and len(st['linalg']) > max(5, 0.5 * st['evaluations']):
        case = min(st['linalg'], key=lambda c: len(json.dumps(c)))
        fails.append((0, 0, case, 'LinAlgError on %d of %d cases' % (len(st['linalg']), st['evaluations'])))
    st['linalg'] = len(st['linalg'])
    if fails:
        fails.sort(key=lambda f: f[:2])
        _, _, case, msg = fails[0]
        st['fail'] = {'sub': s.name, 'case': case, 'message': msg}
    st['nontrivial'] = sorted(seen_nt)
    st['distinct'] = len(seen)
    st['wall'] = time.time() - t0
    return st


def subs_of(prop):
    __import__('props.' + prop.lower())
    return [s for s in SUBS if s.prop == prop]


def derive_seed(*parts):
    return int(hashlib.sha256('|'.join(map(str, parts)).encode()).hexdigest()[:12], 16)


def run_worker(s, n, seed, scratch, out, time_cap):
    """Runs one search in a forked child; writes its result to `out`."""
    d = os.path.join(scratch, 'w%d' % os.getpid())
    os.makedirs(d)
    os.chdir(d)
    os.environ['MPLCONFIGDIR'] = d
    log = os.open(os.path.join(scratch, 'log.%s.%d' % (s.name, os.getpid())), os.O_WRONLY | os.O_CREAT)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    try:
        res = search(s, n, seed, load_known(), time_cap)
    except BaseException:
        os.write(log, traceback.format_exc().encode())
        res = {'sub': s.name, 'error': traceback.format_exc()[-3000:]}
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.rename(tmp, out)


def check(prop, tier, seed, only=None, jobs=8, scale=1.0):
    import shutil
    import tempfile
    t0 = time.time()
    with boot.devnull_fds():
        subs = subs_of(prop)
    if only:
        subs = [s for s in subs if s.name in only]
    if not subs:
        print('no sub-checks for ' + prop)
        return 2
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    time_cap = 420 if tier == 'quick' else 5400
    tasks = []
    for s in subs:
        n = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(n * scale))
        shards = s.shards if tier == 'quick' else max(s.shards, 4)
        shards = max(1, min(shards, n))
        for k in range(shards):
            tasks.append((s, (n + shards - 1) // shards, derive_seed(seed, prop, s.name, k)))
    running, results, errors = {}, [], []
    queue = list(enumerate(tasks))
    try:
        while queue or running:
            while queue and len(running) < jobs:
                i, (s, n, sd) = queue.pop(0)
                out = os.path.join(scratch, 'out%d.json' % i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        run_worker(s, n, sd, scratch, out, time_cap)
                    except BaseException:
                        code = 3
                    finally:
                        os._exit(code)
                running[pid] = (s, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            s, out = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)      # whatever the worker left behind
            except (ProcessLookupError, PermissionError):
                pass
            if os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
                if 'error' in res:
                    errors.append('%s: %s' % (res['sub'], res['error']))
                else:
                    results.append(res)
            else:
                errors.append('%s: worker ended with status %s' % (s.name, status))
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    code = report(prop, tier, seed, subs, results, errors, time.time() - t0)
    return code


def report(prop, tier, seed, subs, results, errors, wall):
    known = load_known()
    per_sub, samples, nt = {}, [], set()
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        labels = {}
        for r in rs:
            for l, c in r['labels'].items():
                labels[l] = labels.get(l, 0) + c
        keys = set(k for r in rs for k in r['nontrivial'])
        nt |= set(s.name + k for k in keys)
        per_sub[s.name] = {'evaluations': sum(r['evaluations'] for r in rs), 'distinct_nontrivial': len(keys),
                           'skipped_for_time': sum(r['skipped'] for r in rs),
                           'classes': dict(sorted(labels.items(), key=lambda t: -t[1])[:40]), 'rule': s.rule,
                           'wall_s': round(max([r['wall'] for r in rs] or [0]), 1)}
        for r in rs[:1]:
            samples += [{'sub': s.name, 'case': c} for c in r['samples'][:2]]
    fails = [r['fail'] for r in results if r['fail']]
    found = sorted(set(k for r in results for k in r['known']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(p['evaluations'] for p in per_sub.values()), 'distinct_nontrivial': len(nt),
                       'rule': 'Cases come from Hypothesis strategies, one per sub-check; a case counts as non-trivial by the rule '
                               'of its sub-check (see sub_checks).  ' + '; '.join('%s: %s' % (s.name, s.rule) for s in subs),
                       'samples': samples, 'sub_checks': per_sub},
          'wall_s': round(wall, 2), 'violations': len(fails),
          'assumptions': ['NumPy, SciPy, GPy, paramz, emcee, cma, pyDOE and sobol_seq behave as documented',
                          'generated inputs are the ones the documentation declares valid (bounded sizes and magnitudes)']}
    if found:
        ev['coverage']['known_findings'] = found
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k['property'] == prop and k['key'] in found:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    print('%s tier=%s seed=%s: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, ev['coverage']['evaluations'], len(nt), wall))
    if fails:
        rdir = os.path.join(ROOT, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for f in fails:
            if f['sub'] in seen:
                continue
            seen.add(f['sub'])
            path = os.path.join(rdir, '%s-%s-%s.json' % (prop, f['sub'], case_key(f['case'])[:10]))
            with open(path, 'w') as fo:
                json.dump({'property': prop, 'sub': f['sub'], 'case': f['case'], 'message': f['message']}, fo, indent=1)
            print('  %s: %s' % (f['sub'], f['message'][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors:
            print('(also a harness error) ' + e[-600:])
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        with boot.devnull_fds():
            s = [s for s in subs_of(r['property']) if s.name == r['sub']][0]
            _, msg = run_case(s, r['case'], load_known())
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print('replay: the property holds on this case')
        return 0
    print('  %s: %s' % (r['sub'], msg))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return 1
