"""Driver for the runtime monitors.

A check module (checks/cNN.py) provides
    RULE      how workloads are generated and what makes one non-trivial
    MIN       {counter: minimum per run}: fewer observed events is inconclusive
    ASSUME    list of assumptions
    cases(rng, tier)   yields JSON-able workload descriptions
    run(case, mon)     executes the real code on one workload and feeds the
                       monitors; verdicts go through mon.violate / mon.known
Exit status: 0 held on everything observed, 1 violation, 2 inconclusive,
3 harness error.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised to abandon the rest of a workload after a violation."""


class Mon(object):
    """Collects what the monitors observed during one workload."""

    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.counts = collections.Counter()
        self.violations = []
        self.knowns = collections.Counter()
        self.digests = set()
        self.notes = {}
        self._tmp = None

    # -- bookkeeping -----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += int(n)

    def seen(self, *parts):
        """Record a distinct observed state/event signature."""
        self.digests.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def peak(self, name, value):
        value = float(value)
        if not (self.notes.get(name, -1.) >= value):
            self.notes[name] = value

    def violate(self, msg, **detail):
        self.violations.append(dict(msg=msg, detail=_jsonable(detail)))

    def known(self, kid):
        self.knowns[kid] += 1

    def check(self, ok, msg, **detail):
        self.counts['assertions'] += 1
        if not ok:
            self.violate(msg, **detail)
        return bool(ok)

    def require(self, ok, msg, **detail):
        if not self.check(ok, msg, **detail):
            raise Stop(msg)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vsg_')
        return self._tmp

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- calling the code under test -------------------------------------
    def call(self, what, fn, *a, **k):
        """A call that the property says must succeed."""
        self.counts['calls'] += 1
        try:
            return fn(*a, **k)
        except (CaseTimeout, MemoryError):
            raise
        except BaseException as e:        # SystemExit from argparse included
            self.violate('%s raised %s: %s' % (what, type(e).__name__, str(e)[:300]),
                         tb=traceback.format_exc()[-1500:])
            raise Stop(what)

    def call_raises(self, what, exc, fn, *a, **k):
        """A call that the property says must be refused with exc."""
        self.counts['calls'] += 1
        try:
            r = fn(*a, **k)
        except exc as e:
            self.counts['refusals'] += 1
            return e
        except (CaseTimeout, MemoryError):
            raise
        except BaseException as e:
            self.violate('%s: expected %s, got %s: %s' % (
                what, getattr(exc, '__name__', exc), type(e).__name__, str(e)[:200]))
            return e
        self.violate('%s: expected %s, but the call returned' % (
            what, getattr(exc, '__name__', exc)), result=repr(r)[:300])
        return None

    @contextlib.contextmanager
    def oracle(self, what):
        """Evaluating an oracle over a returned result; a result that cannot
        even be evaluated (wrong keys, shapes, types) violates the property."""
        try:
            yield
        except (Stop, CaseTimeout, MemoryError):
            raise
        except (ValueError, IndexError, KeyError, TypeError, AttributeError) as e:
            self.violate('%s: result cannot be evaluated: %s: %s' % (
                what, type(e).__name__, str(e)[:200]),
                tb=traceback.format_exc()[-1500:])


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_jsonable(v) for v in x]
        return repr(x)[:500]


def _alarm(sig, frm):
    raise CaseTimeout()


_MOD = None
_PROP = None
_CASE_S = 40          # the longest workload takes about 3 s on an idle machine


def _init(prop):
    global _MOD, _PROP
    _PROP = prop
    _MOD = importlib.import_module('checks.' + prop.lower())
    signal.signal(signal.SIGALRM, _alarm)


def _one(arg):
    idx, case = arg
    mon = Mon(_PROP, case)
    err = None
    t0 = time.time()
    cwd = os.getcwd()
    signal.alarm(_CASE_S)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            _MOD.run(case, mon)
    except Stop:
        if not mon.violations:
            err = ('error', 'Stop without violation')
    except CaseTimeout:
        err = ('timeout', 'workload exceeded %ds' % _CASE_S)
    except Exception as e:
        if isinstance(e, (OSError, MemoryError, ImportError, subprocess.SubprocessError)) and not isinstance(e, FileNotFoundError):
            err = ('error', traceback.format_exc()[-3000:])
        elif isinstance(e, AttributeError) and "module 'simplegrid" in str(e):
            err = ('error', traceback.format_exc()[-3000:])
        else:
            # every workload can be evaluated on a tree where the property holds
            mon.violate('workload cannot be evaluated: %s: %s' % (type(e).__name__, str(e)[:300]), tb=traceback.format_exc()[-2000:])
    finally:
        signal.alarm(0)
        try:
            os.chdir(cwd)
        except OSError:
            pass
        mon.cleanup()
    return (idx, mon.counts, mon.violations, mon.knowns, mon.digests, mon.notes,
            err, time.time() - t0)


def _worker(conn):
    while True:
        x = conn.recv()
        if x is None:
            return
        conn.send(_one(x))


def _pool(cases, nproc):
    """Runs the workloads in nproc processes and yields their results.  A process that dies while it runs a workload
    (an abort in native code, a bus error on a mapped file) is a result like any other."""
    ctx = mp.get_context('fork')
    todo = collections.deque(enumerate(cases))
    busy, idle = {}, []
    deaths = 0

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return a, p

    def give(w):
        if todo:
            x = todo.popleft()
            busy[w[0]] = (w, x, time.time())
            w[0].send(x)
        else:
            idle.append(w)

    def lost(x, msg, died):
        mon = Mon(_PROP, x[1])
        if died:
            mon.violate(msg)
        return (x[0], mon.counts, mon.violations, mon.knowns, mon.digests, mon.notes, None if died else ('timeout', msg), 0.)

    try:
        for _ in range(nproc):
            give(start())
        while busy:
            for c in mpc.wait(list(busy), timeout=5.):
                w, x, t = busy.pop(c)
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    w[1].join(10)
                    code = w[1].exitcode
                    c.close()
                    deaths += 1
                    if code == -signal.SIGKILL:         # (memory of the machine)
                        yield lost(x, 'workload was ended', False)
                    else:
                        yield lost(x, 'the process died (exit status %s) during the call' % code, True)
                    if deaths < 20:
                        give(start())
                    continue
                yield r
                give(w)
            for c, (w, x, t) in list(busy.items()):
                if time.time() - t > 2 * _CASE_S:       # stuck in native code
                    del busy[c]
                    w[1].kill()
                    c.close()
                    yield lost(x, 'workload exceeded %d s' % (2 * _CASE_S), False)
                    give(start())
    finally:
        for w in idle + [b[0] for b in busy.values()]:
            w[1].kill()
            w[0].close()


def load_known():
    res = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
            if m:
                res[m.group(2)] = dict(property=m.group(1), what=m.group(3))
    return res


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0).upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    replay = None
    while argv:
        a = argv.pop(0)
        if a == '--replay':
            replay = argv.pop(0)
        elif a == '--tier':
            tier = argv.pop(0)
        elif a == '--seed':
            seed = int(argv.pop(0))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    _init(prop)
    mod = _MOD
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        rng = random.Random('%s/%d/%s' % (prop, seed, tier))
        cases = list(mod.cases(rng, tier))
        for k in range(1, getattr(mod, 'ROUNDS', 8) if tier == 'quick' else 1):
            cases += mod.cases(random.Random('%s/%d/%s/%d' % (prop, seed, tier, k)), tier)
    results = []
    hung, budget = 0, 600. if tier == 'quick' else 3. * 3600
    nproc = min(8, max(1, len(cases)), os.cpu_count() or 1)
    if nproc == 1 or os.environ.get('VERIF_SERIAL'):
        results = [_one(x) for x in enumerate(cases)]
    else:
        for r in _pool(cases, nproc):
            results.append(r)
            hung += bool(r[6] and r[6][0] == 'timeout')
            if hung >= 8 or time.time() - t0 > budget:
                break
    results.sort(key=lambda r: r[0])
    slowest = max([r[7] for r in results] or [0.])
    for n, r in enumerate(results):
        if r[6] and r[6][0] == 'timeout' and not r[2]:
            # alone and with three times the limit: load of the machine is no excuse any more
            global _CASE_S
            _CASE_S, old = 3 * _CASE_S, _CASE_S
            again = _one((r[0], cases[r[0]]))
            _CASE_S = old
            if again[6] and again[6][0] == 'timeout':
                again[2].append(dict(msg='a call does not return (%d s, again when run alone)' % (3 * _CASE_S), detail={}))
            results[n] = again
            break

    counts = collections.Counter()
    knowns = collections.Counter()
    digests = set()
    notes = {}
    viol, errors, timeouts = [], [], []
    for idx, c, v, k, d, n, err, dt in results:
        counts.update(c)
        knowns.update(k)
        digests |= d
        for kk, vv in n.items():
            notes[kk] = max(vv, notes.get(kk, vv))
        if v:
            viol.append((idx, v))
        if err and err[0] == 'error':
            errors.append((idx, err[1]))
        elif err:
            timeouts.append((idx, err[1]))

    known_file = load_known()
    unknown_ids = [k for k in knowns if k not in known_file]
    rc = 0
    lines = []
    os.makedirs(OUT, exist_ok=True)
    if unknown_ids:
        rc = 1
        path = os.path.join(OUT, '%s-known.json' % prop)
        json.dump(dict(property=prop, case=cases[0], unknown=unknown_ids), open(path, 'w'))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append('  unlisted finding(s): %s' % ', '.join(unknown_ids))
    if viol:
        rc = 1
        for n, (idx, v) in enumerate(viol[:5]):
            path = os.path.join(OUT, '%s-%s.json' % (prop, hashlib.md5(
                json.dumps(cases[idx], sort_keys=True).encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, index=idx,
                               case=cases[idx], violations=v[:20]), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            for one in v[:3]:
                lines.append('  ' + one['msg'])
        lines.append('%d of %d workloads violate %s' % (len(viol), len(cases), prop))
    for k in sorted(knowns):
        if k in known_file:
            lines.append('KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)' % (
                prop, known_file[k]['what'], k, knowns[k]))
    inconclusive = []
    if rc == 0:
        if errors:
            rc = 3
            lines.append('HARNESS ERROR in %d workloads; first: %s\n%s' % (
                len(errors), json.dumps(cases[errors[0][0]])[:400], errors[0][1]))
        elif timeouts and len(timeouts) > len(cases) // 10:
            rc = 2
            inconclusive.append('%d workloads timed out' % len(timeouts))
        elif not replay:
            for name, least in getattr(mod, 'MIN', {}).items():
                if counts.get(name, 0) < least:
                    rc = 2
                    inconclusive.append('monitor counter %s=%d, needs %d' % (
                        name, counts.get(name, 0), least))
    lines += ['INCONCLUSIVE: ' + x for x in inconclusive]
    wall = time.time() - t0
    samples = []
    for i in sorted(set([0, len(cases) // 2, len(cases) - 1])):
        if 0 <= i < len(cases):
            samples.append(cases[i])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=len(results),
                  distinct_nontrivial=len(digests),
                  rule=mod.RULE,
                  samples=samples,
                  observed={k: int(v) for k, v in sorted(counts.items())},
                  peaks={k: v for k, v in sorted(notes.items())},
                  known_findings={k: int(v) for k, v in knowns.items()},
                  slowest_workload_s=round(slowest, 2), timeouts=len(timeouts), harness_errors=len(errors),
                  verdict={0: 'held on everything observed', 1: 'violated',
                           2: 'inconclusive', 3: 'harness error'}[rc]),
              assumptions=list(getattr(mod, 'ASSUME', [])),
              wall_s=round(wall, 3), violations=len(viol) + len(unknown_ids))
    if not replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('\n'.join(lines + ['%s %s seed=%d: %d workloads, %d distinct, %d assertions, %.1fs: %s' % (
        prop, tier, seed, len(results), len(digests), counts['assertions'], wall,
        ev['coverage']['verdict'])]))
    sys.stdout.flush()
    return rc
