"""C38: concurrent calls do not influence each other."""
import os
import random
import sys
import threading
import time
import numpy as np
from vlib import ops, sut, work

RULE = ('groups of three to five calls of any entry points (similar and unrelated ones; some threads sharing input arrays and files, some '
        'writing different files of one directory) are made in one thread after the other, and then at the same time, with a short '
        'switch interval and random yields at the lines of the package; every result, file and raised error is compared with that of '
        'the same call made alone, and the error handling state of each thread with what it was; distinct = (calls in flight at the '
        'same time, functions between which control was switched)')
MIN = {'concurrent_calls': 1800, 'overlapping_calls': 1200, 'switches': 20000, 'shared_inputs': 150, 'shared_directory': 60, 'state_checks': 1800, 'yields': 20000}
ASSUME = ['threads of one interpreter (with its global lock), which switch between lines of Python code and at calls that release the lock',
          'calls write different files, in directories of their own or in one directory; getobcs runs have results directories of their own']
WRITERS = ['write', 'wrmds']
KINDS = [k for k in ops.KINDS if k not in ('cli', 'tomitgrid')]
TOP = os.path.join(sut.REPO, 'simplegrid') + os.sep


def cases(r, tier):
    for k in range(130 if tier == 'quick' else 2600):
        ds = []
        first = dict(ops.desc(r, r.choice(WRITERS) if k % 9 == 8 else KINDS[k % len(KINDS)]), verbose=False)
        if r.random() < .8:
            first['fault'] = None
        ds = [first]
        for _ in range(r.choice([2, 2, 3, 4])):
            x = r.random()
            if x < .55:
                c = ops.vary(r, first)
            elif x < .8:
                c = dict(first, share=True)
            else:
                c = ops.desc(r, r.choice(KINDS + ['write', 'wrmds', 'write']))
            ds.append(dict(c, verbose=r.random() < .1))
        yield dict(calls=ds, noise=r.randint(0, 2 ** 31), rate=r.choice([.02, .1, .3, .7]), repeat=r.choice([1, 2, 3]), onedir=r.random() < .5,
                   states=[r.choice(['ignore', 'warn']) for _ in ds])


class Trace(object):
    """Yields at lines of the package and records where control was switched."""

    def __init__(self, seed, rate):
        self.seed, self.rate, self.last = seed, rate, None
        self.switches, self.yields, self.pairs = 0, 0, set()
        self.local = threading.local()

    def begin(self, k):
        self.local.k, self.local.r, self.local.n = k, random.Random(self.seed * 31 + k), 0
        sys.settrace(self.call)

    def end(self):
        sys.settrace(None)

    def call(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(TOP) else None

    def line(self, frame, event, arg):
        me, where = self.local.k, frame.f_code.co_name
        last, self.last = self.last, (me, where)
        if last and last[0] != me:
            self.switches += 1
            self.pairs.add((last[1], where))
        self.local.n += 1
        x = self.local.r.random() * (1 if self.local.n < 4000 else 30)     # (long calls: fewer later on)
        if x < self.rate:
            self.yields += 1
            time.sleep(0 if x < .8 * self.rate else 1e-5)
        return self.line


def prepared(c, k, d, onedir, first):
    """The described call; its output goes to a directory others write to."""
    if c.get('share') and first is not None and not first.outdir:
        op = ops.Op(first.what, first.fn, first.args, first.kw, first.outs)
    else:
        os.makedirs(d)
        op = ops.build(c, d)
    old = sorted(op.outs)
    if old and not op.outdir and os.path.isdir(os.path.dirname(old[0])) and (onedir or c.get('share')):
        top = onedir or os.path.dirname(old[0])
        new = os.path.join(top, 'out%d' % k)
        op.args = [new] + op.args[1:]
        op.outs = {os.path.join(top, os.path.basename(p).replace('out', 'out%d' % k, 1)) for p in old}
    return op


def outcome(op, d):
    _, how, arr = ops.collect(op)
    return None, how, arr


def run(c, mon):
    t = mon.tmp()
    # each call alone
    alone = []
    for side in ('alone', 'together'):
        os.makedirs(os.path.join(t, side, 'one'))
    group = {}
    for side in ('alone', 'together'):
        group[side] = []
        for k, x in enumerate(c['calls']):
            first = group[side][0] if group[side] else None
            group[side].append(prepared(x, k, os.path.join(t, side, str(k)), os.path.join(t, side, 'one') if c['onedir'] else None, first))
    for op in group['alone']:
        alone.append(outcome(op, t))
    n = len(c['calls'])
    got, spans, states = [[] for _ in range(n)], [[] for _ in range(n)], []
    bar = threading.Barrier(n)
    tr = Trace(c['noise'], c['rate'])
    failed = []

    def work_(k):
        try:
            st = c['states'][k]
            np.seterr(divide=st, invalid=st, over='ignore', under='ignore')
            was = dict(np.geterr())
            op = group['together'][k]
            for _ in range(c['repeat']):
                bar.wait(30)
                t0 = time.perf_counter()
                tr.begin(k)
                try:
                    x = outcome(op, t)
                finally:
                    tr.end()
                spans[k].append((t0, time.perf_counter()))
                got[k].append(x)
                states.append((k, was, dict(np.geterr())))
        except BaseException as e:
            failed.append(repr(e))
            bar.abort()

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work_, args=(k,), daemon=True) for k in range(n)]
        for x in th:
            x.start()
        for x in th:
            x.join()
    finally:
        sys.setswitchinterval(old)
    if failed:
        mon.violate('calls in several threads fail outside the calls: %s' % failed[:2])
        return
    mon.count('switches', tr.switches)
    mon.count('yields', tr.yields)
    mon.count('groups')
    mon.count('shared_inputs', sum(bool(x.get('share')) for x in c['calls']))
    mon.count('shared_directory', max(0, sum(any(os.path.join(t, 'together', 'one') in p for p in op.outs) for op in group['together']) - 1))
    for p in tr.pairs:
        mon.seen('switch', p)
    for k, x in enumerate(c['calls']):
        what = group['together'][k].what
        for j in range(n):
            if j < k and any(a < q and p < b for p, q in spans[k] for a, b in spans[j]):
                mon.seen('overlap', what, group['together'][j].what, x.get('share'))
        for m, (p, q) in enumerate(spans[k]):
            mon.count('concurrent_calls')
            mon.count('overlapping_calls', any(a < q and p < b for j in range(n) if j != k for a, b in spans[j]))
            e = ops.agree(x, alone[k], got[k][m])
            mon.check(e is None, '%s gives another result while %s are running in other threads: %s'
                      % (what, [group['together'][j].what for j in range(n) if j != k], e), call=x, number=k)
    for k, a, b in states:
        mon.count('state_checks')
        mon.check(a == b, '%s leaves its thread with the error handling of another: %s, before: %s' % (group['together'][k].what, b, a))
