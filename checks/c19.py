"""C19: calls have no side effects on their inputs or on the process."""
import atexit
import builtins
import codecs
import csv
import decimal
import faulthandler
import gc
import glob
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings
import numpy as np
import pyproj
import pyproj.datadir
import pyproj.network
from vlib import ops
from vlib.sut import sg

RULE = ('random successful and failing calls of every entry point; arguments are digested to the last byte (values, types, layout, '
        'identity, bytes behind views), all files under the scratch directory are snapshotted, and process-wide state is recorded before '
        'and after; distinct = (entry point, fault, layout, route or selection)')
MIN = {'calls': 900, 'failed': 200, 'argument_arrays': 2000, 'files_watched': 1500, 'memmap': 20, 'getobcs': 20, 'descriptors_looked_up': 5000, 'names_watched': 1000000}
ASSUME = ['time stamps of files are not watched']
HOSTILE = [None, 'errstate', 'warnings', 'config']
CONFIG = {k: v for k, v in vars(sg.config).items() if isinstance(v, float)}


def cases(r, tier):
    for k in range(1100 if tier == 'quick' else 20000):
        c = ops.desc(r, ops.KINDS[k % len(ops.KINDS)])
        c['hostile'] = r.choice(HOSTILE)
        yield c


def state():
    s = {}
    s['warning filters'] = [tuple(map(repr, f)) for f in warnings.filters]
    s['showwarning'] = id(warnings.showwarning)
    s['numpy error state'] = dict(np.geterr())
    s['numpy error callback'] = repr(np.geterrcall())
    s['numpy print options'] = {k: repr(v) for k, v in np.get_printoptions().items()}
    s['numpy random state'] = repr(np.random.get_state()[1][:8]) + repr(np.random.get_state()[2])
    s['random state'] = hash(random.getstate())
    s['working directory'] = os.getcwd()
    s['environment'] = dict(os.environ)
    s['sys.path'] = list(sys.path)
    s['sys.argv'] = list(sys.argv)
    s['recursion limit'] = sys.getrecursionlimit()
    s['streams'] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s['tempdir'] = tempfile.tempdir
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['signals'] = {int(k): repr(signal.getsignal(k)) for k in signal.valid_signals()}
    s['signal mask'] = sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, [])))
    u = os.umask(0)
    os.umask(u)
    s['umask'] = u
    s['threads'] = threading.active_count()
    s['hooks'] = (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()))
    s['garbage collection'] = (gc.isenabled(), gc.get_threshold())
    s['limits'] = [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_AS, resource.RLIMIT_STACK)]
    s['logging'] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable)
    s['exit handlers'] = atexit._ncallbacks()
    s['numpy buffer size'] = np.getbufsize()
    s['decimal context'] = repr(decimal.getcontext())
    s['network access of PROJ'] = pyproj.network.is_network_enabled()
    s['data directory of PROJ'] = pyproj.datadir.get_data_dir()
    s['interpreter settings'] = (sys.getswitchinterval(), sys.dont_write_bytecode, sys.getdlopenflags(), sys.get_int_max_str_digits(), gc.get_debug(),
                                 faulthandler.is_enabled(), tracemalloc.is_tracing(), list(map(id, sys.meta_path)), list(map(id, sys.path_hooks)), list(sys.warnoptions))
    s['priority'] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)), signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF))
    s['module settings'] = (csv.field_size_limit(), socket.getdefaulttimeout(), time.tzname, id(codecs.lookup_error('strict')))
    s['csv dialects'] = sorted(csv.list_dialects())
    for m in ('config', 'mitgridfilefields'):
        s['simplegrid.' + m] = {k: repr(v) for k, v in sorted(vars(getattr(sg, m)).items()) if not k.startswith('__')}
    return s


WATCHED = [builtins, np, np.linalg, np.random, pyproj, os, os.path, sys, warnings, logging, tempfile, struct, re, glob, csv]


def names():
    """What the names of other modules stand for."""
    out = {('sys.modules', k): v for k, v in list(sys.modules.items())}
    for m in WATCHED:
        out.update(((m.__name__, k), v) for k, v in list(vars(m).items()) if k not in ('_', 'last_exc', 'last_value', 'last_type', 'last_traceback', 'argv', 'path', 'tempdir'))
    return out


def run(c, mon):
    d = mon.tmp()
    work, cwd = os.path.join(d, 'data'), os.path.join(d, 'cwd')
    os.makedirs(work)
    os.makedirs(cwd)
    os.chdir(cwd)
    oldtmp = tempfile.tempdir
    olderr = np.geterr()
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.makedirs(tempfile.tempdir)
    try:
        with warnings.catch_warnings():
            if c['hostile'] == 'errstate':
                np.seterr(divide='ignore', invalid='warn', over='ignore', under='ignore')
            elif c['hostile'] == 'warnings':
                warnings.simplefilter('always', ResourceWarning)
                warnings.filterwarnings('ignore', message='x')
            elif c['hostile'] == 'config':
                for k, v in CONFIG.items():
                    setattr(sg.config, k, v * (1.25 if c['seed'] % 2 else .8))
            observe(c, mon, d, work)
    finally:
        tempfile.tempdir = oldtmp
        np.seterr(**olderr)
        for k, v in CONFIG.items():
            setattr(sg.config, k, v)


def observe(c, mon, d, work):
    op = ops.build(c, work)
    if c['op'] in ('rdmds',) and c['mm']:
        mon.count('memmap')
    if op.outdir:
        mon.count('getobcs')
    mon.seen(op.what, c['fault'], c['layout'], c.get('sel'), c['hostile'])
    args = [op.args, op.kw]
    before = ops.digest(args)
    mon.count('argument_arrays', len(ops.arrays(args)))
    files = ops.snapshot(d)
    mon.count('files_watched', len([x for x in files.values() if x is not None]))
    st = state()
    nm = names()
    res, err = None, None
    try:
        res = op.call()
    except Exception as e:
        err = e
    nm2 = names()
    st2 = state()
    mon.count('names_watched', len(nm))
    bad = [k for k in nm if nm2.get(k, state) is not nm[k] and k[1] not in ('__warningregistry__', '_filters_version', 'onceregistry')]
    files2 = ops.snapshot(d)
    mon.count('calls')
    if err is not None:
        mon.count('failed')
    how = '%s (%s)' % (op.what, 'failing with %s' % type(err).__name__ if err is not None else 'successful')
    mon.check(ops.digest(args) == before, '%s changed its arguments' % how, which=difference(op, before, args))
    mon.check(not bad, '%s put something else under names of other modules: %s' % (how, ['.'.join(k) for k in bad[:5]]))
    for k in st:
        mon.check(st[k] == st2[k], '%s changed the process: %s' % (how, k), before=repr(st[k])[:400], after=repr(st2[k])[:400])
    allowed = set(os.path.relpath(p, d) for p in op.outs)
    od = os.path.relpath(op.outdir, d) if op.outdir else None
    for p in sorted(set(files) | set(files2)):
        if files.get(p, 0) == files2.get(p, 0):
            continue
        ok = p in allowed or od is not None and (p == od or p.startswith(od + os.sep) or od.startswith(p + os.sep))
        mon.check(ok, '%s %s the file or directory %s' % (how, 'created' if p not in files else 'removed' if p not in files2 else 'changed', p))
    if res is not None and c['op'] == 'rdmds':
        # whatever the caller does with a returned array stays off the file
        for w, a in ops.arrays(res):
            try:
                a[...] = 7.
                if hasattr(a, 'flush'):
                    a.flush()
            except (ValueError, RuntimeError, OSError):
                pass
        files3 = ops.snapshot(d)
        mon.check(files3 == files2, '%s: modifying the returned array changed a file' % how)


    res = err = a = None
    gc.collect()
    left = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        mon.count('descriptors_looked_up')
        if t.startswith(d + os.sep):
            left.append(os.path.relpath(t, d))
    mon.check(not left, '%s left files open' % how, which=left)


def difference(op, before, args):
    now = ops.digest(args)
    out = []
    for n, x in enumerate(op.args):
        if before[2][0][2][n] != now[2][0][2][n]:
            out.append('positional %d' % n)
    b, a = dict(before[2][1][2]), dict(now[2][1][2])
    out += [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
    return out
