"""Case runner: forks workers, collects monitor verdicts and event counts, writes evidence."""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
CPU_LIMIT = 20.0          # CPU seconds before the no-progress monitor starts counting steps
STEP_LIMIT = 3_000_000    # lines of repository code executed after that => no progress


class NoProgress(BaseException):
    """Raised inside a case when repository code has executed STEP_LIMIT more lines without finishing"""


class SkipCase(Exception):
    """Raised by a case that generated an input outside the property's domain"""


class Monitor(object):
    """Collects events and verdicts of one case run (or many)."""

    def __init__(self):
        self.events = collections.Counter()     # monitor name -> number of decisions taken
        self.violations = []                    # (monitor, detail)
        self.sigs = set()
        self.samples = []
        self.case = None
        self.per_monitor = collections.Counter()

    # -- verdicts ------------------------------------------------------------------------------------------------
    def check(self, cond, name, *detail):
        """One monitor decision."""
        self.events[name] += 1
        if not cond:
            self.fail(name, *detail)
        return bool(cond)

    def fail(self, name, *detail):
        self.per_monitor[name] += 1
        if self.per_monitor[name] <= 3:
            text = ' | '.join(_short(d) for d in detail)
            self.violations.append((name, text, self.case))

    def count(self, name, n=1):
        """Count an observed event that is not itself a decision"""
        self.events[name] += n

    def near(self, a, b, name, *detail, rel=1e-9, scale=1.0):
        """Numbers (or flat sequences of numbers) agree to rel * max(1, scale, |b|)"""
        self.events[name] += 1
        ok, why = _near(a, b, rel, scale)
        if not ok:
            self.fail(name, why, *detail)
        return ok

    def raises(self, exc, func, name, *detail):
        """func() must raise exc"""
        self.events[name] += 1
        try:
            got = func()
        except exc:
            return True
        except NoProgress:
            raise
        except BaseException as err:
            self.fail(name, 'expected %s, got %s: %s' % (_excname(exc), type(err).__name__, err), *detail)
            return False
        self.fail(name, 'expected %s, got result %s' % (_excname(exc), _short(got)), *detail)
        return False

    def sig(self, *parts):
        """Register the signature of a non-trivial case (used to count distinct cases)"""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def sample(self, *parts):
        if len(self.samples) < 2:
            self.samples.append(' | '.join(_short(p, 600) for p in parts))


def _excname(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def _short(v, n=400):
    try:
        if type(v).__name__ == 'function':
            v = v()         # details worked out only when needed
        s = v if isinstance(v, str) else repr(v)
    except Exception as err:
        s = '<unprintable %s: %s>' % (type(v).__name__, err)
    return s if len(s) <= n else s[:n] + '...'


def _near(a, b, rel, scale):
    try:
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            a, b = list(a), list(b)
            if len(a) != len(b):
                return False, 'length %d != %d' % (len(a), len(b))
            for idx, (p, q) in enumerate(zip(a, b)):
                ok, why = _near(p, q, rel, scale)
                if not ok:
                    return False, '[%d] %s' % (idx, why)
            return True, ''
        diff = abs(float(a) - float(b))
        tol = rel * max(1.0, abs(scale), abs(float(b)))
        if diff <= tol:
            return True, ''
        return False, 'got %r expected %r (diff %.3g > %.3g)' % (a, b, diff, tol)
    except (TypeError, ValueError) as err:
        return False, 'not comparable: %s vs %s (%s)' % (_short(a), _short(b), err)


# -- no-progress monitor ---------------------------------------------------------------------------------------------
_steps = [0]


def _trace(frame, event, arg):
    if frame.f_code.co_filename.startswith(REPO):
        if event == 'line':
            _steps[0] += 1
            if _steps[0] > STEP_LIMIT:
                sys.settrace(None)
                raise NoProgress('%d lines of repository code after %.0f CPU s, now in %s:%d' % (
                    _steps[0], CPU_LIMIT, frame.f_code.co_filename, frame.f_lineno))
        return _trace
    return _trace


def _on_timer(signum, frame):
    _steps[0] = 0
    f = frame
    while f is not None:
        f.f_trace = _trace
        f = f.f_back
    sys.settrace(_trace)


def run_case(func, rng, mon, label):
    """Run one case under the monitors"""
    mon.case = label
    out = io.StringIO()
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with contextlib.redirect_stdout(out):
            func(rng, mon)
    except SkipCase:
        mon.count('skipped')
    except NoProgress as err:
        mon.fail('no-progress', str(err))
    except MemoryError:
        raise
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        mon.fail('unexpected-exception', '%s: %s' % (type(err).__name__, err), where)
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def load(prop):
    import_repo()
    return importlib.import_module('props.%s' % prop.lower())


_imported = False


def import_repo():
    global _imported
    if _imported:
        return
    _imported = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp(prefix='x7mpl')
    os.environ['MPLCONFIGDIR'] = tmp
    try:
        import matplotlib
        matplotlib.use = lambda *a, **k: None        # plot_viewer asks for TkAgg, which needs a display
        import x7.geom.geom
        import x7.geom.model
        import x7.geom.utils
        import numpy
        numpy.seterr(all='ignore')
        assert os.path.realpath(x7.geom.geom.__file__).startswith(REPO + '/'), x7.geom.geom.__file__
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def case_list(mod, tier, cases=None):
    """[(kind, index)...]: deterministic list of cases"""
    out = []
    for kind, quick, thorough in mod.KINDS:
        n = quick if tier == 'quick' else thorough
        if cases is not None:
            n = max(1, int(n * cases))
        out.extend((kind.__name__, i) for i in range(n))
    return out


def _worker(args):
    prop, seed, tier, items = args
    mod = load(prop)
    kinds = {k.__name__: k for k, q, t in mod.KINDS}
    mon = Monitor()
    for kind, idx in items:
        rng = random.Random('%s/%s/%d/%d' % (prop, kind, seed, idx))
        random.seed('%s/%s/%d/%d/global' % (prop, kind, seed, idx))
        run_case(kinds[kind], rng, mon, dict(kind=kind, index=idx))
        if len(mon.violations) > 20:
            break
    return dict(events=mon.events, violations=mon.violations, sigs=mon.sigs, samples=mon.samples,
                per_monitor=mon.per_monitor)


def known_findings(prop):
    """[(key, text)...] recorded in known_findings.txt for this property, keyed by monitor name"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out.append((key.replace('monitor=', ''), text))
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--cases', type=float, default=None, help='scale the number of cases')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--selftest', action='store_true', help='check that the code under test can be imported')
    args = ap.parse_args(argv)

    if args.selftest:
        import_repo()
        import x7.geom
        print('ok: monitors will run against', os.path.dirname(x7.geom.__file__))
        return 0

    if args.replay:
        return replay(args.replay)

    prop, tier = args.property, ('thorough' if args.tier == 'thorough' else 'quick')
    start = time.time()
    mod = load(prop)
    items = case_list(mod, tier, args.cases)
    random.Random(args.seed).shuffle(items)
    jobs = max(1, min(args.jobs, len(items)))
    chunk = max(1, min(200, len(items) // (jobs * 4) or 1))
    chunks = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    total = Monitor()
    wall_limit = 780 if tier == 'quick' else 3 * 3600
    inconclusive = None
    ctx = multiprocessing.get_context('fork')
    done = 0
    with ctx.Pool(jobs) as pool:
        results = pool.imap_unordered(_worker, [(prop, args.seed, tier, c) for c in chunks])
        for _ in chunks:
            try:
                r = results.next(timeout=max(1.0, wall_limit - (time.time() - start)))
            except multiprocessing.TimeoutError:
                inconclusive = 'wall-clock watchdog after %.0f s' % (time.time() - start)
                break
            done += 1
            total.events.update(r['events'])
            total.violations.extend(r['violations'])
            total.per_monitor.update(r['per_monitor'])
            total.sigs |= r['sigs']
            if len(total.samples) < 5:
                total.samples.extend(r['samples'][:1])
            if len(total.violations) > 200:
                break
        pool.terminate()

    known = known_findings(prop)
    known_keys = {k for k, t in known}
    fresh = [v for v in total.violations if v[0] not in known_keys]
    seen_known = {v[0] for v in total.violations if v[0] in known_keys}
    for key, text in known:
        if key in seen_known:
            print('KNOWN-FINDING: property=%s monitor=%s %s' % (prop, key, text))

    missing = []
    for name, need in getattr(mod, 'REQUIRED', {}).items():
        if args.cases is None and total.events[name] < need:
            missing.append('%s: %d < %d' % (name, total.events[name], need))
    ran = len(items) if inconclusive is None and done == len(chunks) else sum(len(c) for c in chunks[:done])
    wall = time.time() - start
    coverage = dict(
        evaluations=ran - total.events['skipped'],
        distinct_nontrivial=len(total.sigs),
        rule=mod.RULE,
        samples=total.samples[:5] or ['(none)'],
        monitor_decisions={k: v for k, v in sorted(total.events.items())},
        workload_kinds={k.__name__: sum(1 for it in items if it[0] == k.__name__) for k, q, t in mod.KINDS},
    )
    evidence = dict(property=prop, tier=tier, seed=args.seed, level='exploration', coverage=coverage,
                    assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(fresh))
    if not args.no_evidence:
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, '.%s.%d.tmp' % (prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))

    if fresh:
        fresh.sort(key=lambda v: (v[0], v[2]['kind'], v[2]['index']))
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        shown = set()
        for name, detail, case in fresh:
            if name in shown:
                continue
            shown.add(name)
            print('violated monitor %s [%s #%d] x%d: %s' % (
                name, case['kind'], case['index'], total.per_monitor[name], detail))
        name, detail, case = fresh[0]
        path = os.path.join(EVIDENCE, 'replay', '%s-%s-%d.json' % (prop, case['kind'], case['index']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=args.seed, kind=case['kind'], index=case['index'],
                           monitor=name, detail=detail), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if inconclusive or missing:
        print('INCONCLUSIVE property=%s %s' % (prop, inconclusive or '; '.join(missing)))
        return 3
    print('HELD property=%s tier=%s seed=%d: %d executions, %d distinct non-trivial, %d monitor decisions, %.1f s' % (
        prop, tier, args.seed, coverage['evaluations'], len(total.sigs), sum(total.events.values()), wall))
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r['property'])
    kinds = {k.__name__: k for k, q, t in mod.KINDS}
    mon = Monitor()
    rng = random.Random('%s/%s/%d/%d' % (r['property'], r['kind'], r['seed'], r['index']))
    random.seed('%s/%s/%d/%d/global' % (r['property'], r['kind'], r['seed'], r['index']))
    run_case(kinds[r['kind']], rng, mon, dict(kind=r['kind'], index=r['index']))
    for name, detail, case in mon.violations:
        print('violated monitor %s: %s' % (name, detail))
    if mon.violations:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    print('replay: no violation')
    return 0
