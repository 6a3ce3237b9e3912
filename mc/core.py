"""Bounded-exhaustive exploration core.

A *check* is a list of Spaces.  A Space enumerates, simplest first, a finite
set of cases (``cases(tier)``: a deterministic generator of plain-data case
descriptors) and decides each of them with ``run(case)``, which replays the
case on the real code and compares with the reference model.  ``run`` returns
a Result.  Nothing is sampled: every case of every space is executed, sharded
over the cores.  A run that hits its time cap says so in the evidence.
"""
import contextlib
import hashlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The real code disagrees with the model."""

    def __init__(self, what, **detail):
        super(Violation, self).__init__(what)
        self.what = what
        self.detail = detail


class CaseTimeout(BaseException):
    pass


class Stats(object):
    """Filled in by Space.run through the harness."""

    def __init__(self):
        self.cases = 0          # cases executed
        self.steps = 0          # model transitions taken
        self.traces = 0         # model traces replayed on the real code
        self.outcomes = set()   # hashes of distinct observed outcomes
        self.skipped = 0

    def merge(self, o):
        self.cases += o.cases
        self.steps += o.steps
        self.traces += o.traces
        self.outcomes |= o.outcomes
        self.skipped += o.skipped


class Space(object):
    name = 'space'
    bound = ''          # text: what is enumerated
    weight = 1
    case_timeout = 60
    serial = False      # run in one worker only (cases share nothing anyway)

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, st):
        """Execute one case; raise Violation; add to st.steps/traces/outcomes."""
        raise NotImplementedError

    def describe(self, case):
        return repr(case)


def jit_off():
    """Tracing and the PyPy JIT compiler do not go together well (memory and time grow)."""
    try:
        import pypyjit
        pypyjit.set_param('off')
    except ImportError:
        pass


def outcome(st, value):
    if len(st.outcomes) < 400000:
        st.outcomes.add(hash(value))


def setup_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import kajiki
    assert os.path.abspath(kajiki.__file__).startswith(os.path.abspath(REPO) + os.sep), \
        kajiki.__file__
    return kajiki


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = out


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(space, case, st):
    """None, or a dict describing the violation."""
    signal.setitimer(signal.ITIMER_REAL, space.case_timeout)
    try:
        space.run(case, st)
        return None
    except Violation as e:
        d = {'what': e.what}
        d.update(e.detail)
        return d
    except CaseTimeout:
        return {'what': 'no answer within %s s' % space.case_timeout}
    except Exception as e:
        return {'what': 'unexpected %s: %s' % (type(e).__name__, e),
                'traceback': traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(wid, nworkers, spaces, tier, deadline, path, max_fail):
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    res = {}
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    # For trying out planted bugs only: every n-th case, stop at the first failure.
    every = stride = int(os.environ.get('MC_STRIDE', '1'))
    stop = bool(os.environ.get('MC_STOP'))
    for si, space in enumerate(spaces):
        st = Stats()
        fails, samples, capped = [], [], False
        t0 = time.time()
        try:
            cases = space.cases(tier)
            if every > 1:
                cases = list(cases)
                stride = min(every, max(1, len(cases) // int(os.environ.get('MC_MIN', '300'))))
            for idx, case in enumerate(cases):
                if space.serial:
                    if si % nworkers != wid:
                        break
                elif idx % nworkers != wid:
                    continue
                if stride > 1 and (idx // nworkers) % stride:
                    capped = True
                    continue
                if (st.cases & 15) == 0 and time.time() > deadline:
                    capped = True
                    break
                st.cases += 1
                f = run_one(space, case, st)
                if f is not None:
                    f['index'] = idx
                    f['case'] = space.describe(case)
                    fails.append(f)
                    if stop or len(fails) >= max_fail:
                        break
                if len(samples) < 2 and (st.cases in (1, 40)):
                    samples.append(space.describe(case))
        except BaseException:
            fails.append({'what': 'the explorer failed', 'index': -1, 'case': '',
                          'traceback': traceback.format_exc()[-3000:]})
        res[space.name] = (st, fails, samples, capped, time.time() - t0)
        if stop and fails:
            break
    with open(path, 'wb') as f:
        pickle.dump(res, f, protocol=4)


def explore(check_id, spaces, level='model_checking', assumptions=(), known=(), argv=None,
            budget=None):
    """Run a check; returns the exit code."""
    t0 = time.time()
    tier = os.environ.get('MC_TIER') or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    # Nothing random decides anything; the seed only rotates which worker gets which case.
    ncpu = max(1, min(8, os.cpu_count() or 1))
    nworkers = int(os.environ.get('MC_WORKERS', ncpu))
    if budget is None:
        budget = {'quick': 600, 'thorough': 6 * 3600}[tier]
    budget = float(os.environ.get('MC_BUDGET', budget))
    deadline = t0 + budget
    only = os.environ.get('MC_SPACE')
    if only:
        spaces = [s for s in spaces if s.name in only.split(',')]
    tmp = tempfile.mkdtemp(prefix='mc-%s-' % check_id)
    pids = []
    for w in range(nworkers):
        path = os.path.join(tmp, '%d.pickle' % w)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker((w + seed) % nworkers, nworkers, spaces, tier, deadline, path, 3)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append((pid, path))
    results = []
    broken = []
    for pid, path in pids:
        _, status = os.waitpid(pid, 0)
        if status != 0 or not os.path.exists(path):
            broken.append('worker ended with status %s' % status)
            continue
        with open(path, 'rb') as f:
            results.append(pickle.load(f))
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    total = Stats()
    per_space, samples, fails = {}, [], []
    capped_any = False
    for space in spaces:
        st = Stats()
        sp_fails, capped, secs = [], False, 0
        for r in results:
            if space.name not in r:
                continue
            s, f, smp, c, secs1 = r[space.name]
            st.merge(s)
            sp_fails += f
            capped = capped or c
            secs = max(secs, secs1)
            for x in smp:
                if len([y for y in samples if y['space'] == space.name]) < 2:
                    samples.append({'space': space.name, 'case': x[:1500]})
        capped_any = capped_any or capped
        per_space[space.name] = {
            'enumerated': space.bound, 'cases': st.cases, 'model_transitions': st.steps,
            'traces_replayed': st.traces, 'distinct_outcomes': len(st.outcomes),
            'capped': capped, 'seconds': round(secs, 1)}
        total.merge(st)
        for f in sorted(sp_fails, key=lambda f: f['index']):
            fails.append((space, f))
    for b in broken:
        fails.append((spaces[0], {'what': b, 'index': -1, 'case': ''}))

    # Known findings are probed one by one; they are never part of a space.
    known_lines = []
    for kf in known:
        with quiet():
            still = kf['probe']()
        if still:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (check_id, kf['what']))

    evdir = os.environ.get('MC_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    coverage = {
        'states': total.cases, 'transitions': total.steps,
        'traces_validated_against_impl': total.traces,
        'distinct_outcomes': len(total.outcomes),
        'exhaustive': not capped_any and not fails,
        'spaces': per_space, 'samples': samples,
        'workers': nworkers,
    }
    if level == 'exploration':
        coverage['evaluations'] = total.traces
        coverage['distinct_nontrivial'] = len(total.outcomes)
        coverage['rule'] = 'distinct observed outcomes'
    ev = {'property': check_id, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': coverage, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    with open(os.path.join(evdir, check_id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for line in known_lines:
        print(line)
    print('%s %s: %d cases, %d model steps, %d traces replayed, %d distinct outcomes, %.1f s%s' % (
        check_id, tier, total.cases, total.steps, total.traces, len(total.outcomes),
        time.time() - t0, ' (CAPPED)' if capped_any else ''))
    for name in per_space:
        p = per_space[name]
        print('   %-28s cases=%-8d traces=%-8d outcomes=%-7d %.1fs' % (
            name, p['cases'], p['traces_replayed'], p['distinct_outcomes'], p['seconds']))
    if not fails:
        return 0
    for i, (space, f) in enumerate(fails[:5]):
        key = hashlib.sha1(repr((space.name, f['index'])).encode()).hexdigest()[:10]
        path = os.path.join(evdir, 'replay', '%s-%s.json' % (check_id, key))
        rec = {'property': check_id, 'space': space.name, 'tier': tier,
               'replay': 'bash check.sh %s replay %s' % (check_id, path)}
        rec.update(f)
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1, sort_keys=True, default=repr)
        print('VIOLATION property=%s replay=%s' % (check_id, path))
        print('   %s: %s' % (space.name, f['what'][:400]))
        for k in ('source', 'context', 'expected', 'observed'):
            if k in f:
                print('      %s: %s' % (k, str(f[k])[:600]))
        if 'source' not in f:
            print('      case: %s' % f['case'][:800])
        if 'traceback' in f:
            print(f['traceback'][-400:])
    return 1


def replay(check_id, spaces, path):
    with open(path) as f:
        rec = json.load(f)
    signal.signal(signal.SIGALRM, _alarm)
    for space in spaces:
        if space.name == rec['space']:
            for idx, case in enumerate(space.cases(rec['tier'])):
                if idx == rec['index']:
                    print(space.describe(case))
                    with quiet():
                        f = run_one(space, case, Stats())
                    print(json.dumps(f, indent=1, default=repr))
                    return 1 if f else 0
    print('no such case')
    return 2
