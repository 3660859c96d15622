"""C20: results depend only on the inputs and results are independent arrays."""
import json
import os
import pickle
import re
import subprocess
import sys
import tempfile
import numpy as np
from vlib import harness, ops, work

RULE = ('random calls of every entry point repeated with freshly made inputs after other (also failing) calls, with the verbose flag '
        'flipped, with other memory layouts, with the same arrays changed in place, after similar calls (same corner, size, file names), after overwriting every array of the first result, after their files were replaced by others of equal size and time stamp, with one result held and compared at the end, with the files left as they are, and in other processes in another order and another environment (working directory, variables, interpreter flags, umask, descriptor limit); '
        'returned arrays are tested pairwise and against the inputs for shared memory by writing into them; distinct = (entry point, '
        'layouts, interleaved calls)')
ROUNDS = 3
MIN = {'repeats': 350, 'replaced_files': 300, 'layouts': 170, 'verbose_flips': 350, 'returned_arrays': 1700, 'processes': 12, 'process_calls': 180, 'similar_calls': 200, 'changed_in_place': 100, 'held_arrays': 1500, 'same_files': 600, 'other_selections': 100, 'large_files': 8}
ASSUME = ['values agree exactly or within rounding (numpy rounds differently depending on the alignment of operands)']
KINDS = [k for k in ops.KINDS if k not in ('cli', 'tomitgrid')]   # tomitgrid is internal and returns views


def cases(r, tier):
    # other processes first: they take longest
    for k in range(8 if tier == 'quick' else 60):
        ds = []
        for _ in range(10):
            c = dict(ops.desc(r, r.choice(KINDS + ['regrid', 'addfringe', 'mkgrid', 'rdmds'])), verbose=False)
            ds.append(c)
            ds += [ops.vary(r, r.choice([c, ds[-1]])) for _ in range(r.randint(1, 3))]
        r.shuffle(ds)
        env = dict(HOME=None, TZ=r.choice(['UTC', 'Pacific/Auckland']), COLUMNS='20', LINES='3', PYTHONHASHSEED=str(r.randint(1, 9999)), LANG=None,
                   LC_ALL=r.choice(['C', 'C.UTF-8', 'POSIX']), OPENBLAS_NUM_THREADS=str(r.choice([1, 4])), OMP_NUM_THREADS='3', USER='nobody', TERM='dumb')
        yield dict(processes=ds, other=dict(cwd=r.choice(['/', '/usr', tempfile.gettempdir()]), umask=r.choice([0o22, 0o77, 0]), files=r.choice([1024, 64]),
                                            flags=r.choice([[], ['-O'], ['-OO'], ['-B'], ['-X', 'dev'], ['-b']]),
                                            env={k: v for k, v in env.items() if r.random() < .5}))
    for k in range(420 if tier == 'quick' else 9000):
        c = ops.desc(r, KINDS[k % len(KINDS)])
        if r.random() < .7:
            c['fault'] = None
        c['others'] = [ops.desc(r, r.choice(KINDS)) for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < .4:      # the same entry point with other inputs in between
            c['others'].append(ops.desc(r, c['op']))
        c['near'] = [ops.vary(r, c) for _ in range(r.choice([0, 1, 2]))]
        c['layout2'] = r.choice([x for x in work.LAYOUTS if x != c['layout']])
        yield c


def others(descs, keep=None):
    """Makes the described calls, for another process."""
    out = []
    for c in descs:
        with tempfile.TemporaryDirectory(prefix='vsg_') as d:
            _, how, arr = ops.collect(ops.build(c, d))
            out.append((repr(how).replace(d, 'DIR'), arr))
    return out


def other_process(descs, path, env=None):
    """env: what is different about the process."""
    env = env or {}
    code = ('import os, sys, json, pickle, resource; d = json.load(sys.stdin); from checks import c20; os.umask(%d); os.close(0); '
            'resource.setrlimit(resource.RLIMIT_NOFILE, (%d, 4096)); pickle.dump(c20.others(d), open(%r, "wb"))'
            % (env.get('umask', 0o22), env.get('files', 1024), path))
    e = dict(os.environ, PYTHONPATH=harness.VERIF)
    for k, v in env.get('env', {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    p = subprocess.run([sys.executable] + env.get('flags', []) + ['-c', code], input=json.dumps(descs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=110,
                       env=e, cwd=env.get('cwd', '/'))
    if p.returncode:
        raise OSError('process failed: ' + p.stderr.decode()[-800:])
    with open(path, 'rb') as f:
        return pickle.load(f)


def changed(f):
    """Other content of the same length."""
    with open(f, 'rb') as fd:
        b = fd.read()
    if f.endswith('.meta') or len(b) % 4 and b'.' not in b:
        return None
    try:
        t = b.decode('ascii')
    except UnicodeDecodeError:
        t = None
    if t is not None and b'\0' not in b:
        x = re.sub(r'(\.\d\d?)(\d)', lambda m: m.group(1) + str(9 - int(m.group(2))), t).encode()
    else:
        with np.errstate(all='ignore'):
            x = (np.frombuffer(b, '>f8' if len(b) % 8 == 0 else '>f4') * .97)
            x = x.astype('>f8' if len(b) % 8 == 0 else '>f4').tobytes()
    return x if x != b and len(x) == len(b) else None


def fresh(mon, n):
    d = os.path.join(mon.tmp(), 'x')      # same paths each time
    if os.path.isdir(d):
        os.rename(d, os.path.join(mon.tmp(), 'old%d' % n))
    os.makedirs(d)
    return d


def run(c, mon):
    if 'processes' in c:
        ds = c['processes']
        a = other_process(ds, os.path.join(mon.tmp(), '1'))
        b = other_process(ds[::-1], os.path.join(mon.tmp(), '2'), c['other'])[::-1]
        mon.seen('environment', c['other'])
        mon.count('processes', 2)
        for k, (x, y) in enumerate(zip(a, b)):
            mon.count('process_calls')
            mon.seen('process', k, ds[k]['op'], ds[k]['seed'])
            e = ops.agree(ds[k], (None,) + tuple(x), (None,) + tuple(y))
            mon.check(e is None, '%s gives another result after other calls: %s' % (ds[k]['op'], e), call=ds[k])
        return
    n = 0
    op = ops.build(c, fresh(mon, n))
    first = ops.collect(op)
    res = first[0]
    mon.count('large_files', bool(c.get('large')))
    mon.seen(op.what, c['layout'], c['layout2'], [x['op'] for x in c['others']], c['fault'])
    what = op.what
    # arrays of the result are independent of each other and of the inputs
    arr = ops.arrays(res)
    mon.count('returned_arrays', len(arr))
    before = ops.digest((op.args, op.kw))
    frozen = [ops.frozen(a) for _, a in arr]
    touched = set()
    for k, (w, a) in enumerate(arr):
        if a.size == 0:
            continue
        keep = np.array(a)
        try:
            a[...] = 12345.75 if a.dtype.kind == 'f' else 1
        except (ValueError, RuntimeError, OSError):
            mon.count('read_only')
            continue
        for j, (w2, b) in enumerate(arr):
            if j != k and j not in touched and not mon.check(b is a or ops.frozen(b) == frozen[j], '%s: writing into %s changes %s' % (what, w, w2)):
                touched.add(j)
            if j != k and b is a:
                mon.violate('%s: %s and %s are one array' % (what, w, w2))
        if not mon.check(ops.digest((op.args, op.kw)) == before, '%s: writing into %s changes an argument' % (what, w)):
            before = ops.digest((op.args, op.kw))
        a[...] = keep
        frozen[k] = ops.frozen(a)
        before = ops.digest((op.args, op.kw))
    for w, a in arr:                       # and now spoil it all
        try:
            a[...] = -999.
        except (ValueError, RuntimeError, OSError):
            pass
    if isinstance(res, dict):
        res.clear()
    # another result that is kept through all that follows
    n += 1
    held = ops.collect(ops.build(c, fresh(mon, n)))[0]
    held = [(w, a, ops.frozen(a)) for w, a in ops.arrays(held) if a.size and not isinstance(a, np.memmap)]
    mon.count('held_arrays', len(held))
    for k, o in enumerate(c['others']):
        d = os.path.join(mon.tmp(), 'o%d' % k)
        os.makedirs(d)
        ops.collect(ops.build(o, d))
    for o in c['near']:                    # similar calls, with files of the same names
        n += 1
        ops.collect(ops.build(o, fresh(mon, n)))
        mon.count('similar_calls')
    n += 1
    e = ops.agree(c, first, ops.collect(ops.build(c, fresh(mon, n))))
    mon.count('repeats')
    mon.check(e is None, '%s gives another result when repeated after %s: %s' % (what, [x['op'] for x in c['others']] or 'itself', e))
    n += 1
    e = ops.agree(c, first, ops.collect(ops.build(c, fresh(mon, n), verbose=not c['verbose'])))
    mon.count('verbose_flips')
    mon.check(e is None, '%s gives another result with the verbose flag %s: %s' % (what, not c['verbose'], e))
    # the same array objects with other values, as against new objects with these values
    n += 1
    op3 = ops.build(c, fresh(mon, n))
    ops.collect(op3)
    new = {}
    for w, a in ops.arrays([op3.args, op3.kw]):
        if a.flags.writeable and a.dtype.kind == 'f':
            a *= .97
            new[w] = a
    if new:
        x = ops.collect(op3)
        n += 1
        op4 = ops.build(c, fresh(mon, n))
        for w, a in ops.arrays([op4.args, op4.kw]):
            if w in new:
                a[...] = new[w]
        e = ops.agree(c, x, ops.collect(op4), True)
        mon.count('changed_in_place')
        mon.check(e is None, '%s gives another result for arrays that were changed since an earlier call: %s' % (what, e))
    # the same call on the same, untouched files, with other selections in between
    n += 1
    op5 = ops.build(c, fresh(mon, n))
    for k in range(2):
        if k and c['op'] == 'rdmds':
            for kw in ops.selections(c):
                ops.collect(ops.Op(op5.what, op5.fn, op5.args, kw))
                mon.count('other_selections')
        x = ops.collect(op5)
        e = ops.agree(c, first, x)
        mon.count('same_files')
        mon.check(e is None, '%s gives another result for the same files when called again: %s' % (what, e))
        for w, a in ops.arrays(x[0]):
            try:
                a[...] = 77.
            except (ValueError, RuntimeError, OSError):
                pass
        if isinstance(x[0], dict):
            x[0].clear()
    # files replaced by others of the same size and age
    n += 1
    d1, d2 = fresh(mon, n), os.path.join(mon.tmp(), 'y')
    os.makedirs(d2)
    op6, op7 = ops.build(c, d1), ops.build(c, d2)
    new = {}
    for p, _, fs in os.walk(d1):
        for f in fs:
            f = os.path.join(p, f)
            if f not in op6.outs and not (op6.outdir and f.startswith(op6.outdir)) and os.path.isfile(f):
                b = changed(f)
                if b is not None:
                    new[os.path.relpath(f, d1)] = b
    if new:
        kept = [(w, a, ops.frozen(a)) for w, a in ops.arrays(ops.collect(op6)[0]) if a.size]
        for f, b in new.items():
            st = os.stat(os.path.join(d1, f))
            for d in (d1, d2):
                with open(os.path.join(d, f), 'wb') as fd:
                    fd.write(b)
                os.utime(os.path.join(d, f), ns=(st.st_atime_ns, st.st_mtime_ns))
        for w, a, f in kept:
            mon.check(ops.frozen(a) == f, '%s: %s changes when the files it was read from are written again' % (what, w))
        e = ops.agree(c, ops.collect(op7), ops.collect(op6))
        mon.count('replaced_files', len(new))
        mon.check(e is None, '%s gives another result for files that replaced others of the same size and age: %s' % (what, e))
    for w, a, f in held:
        mon.check(ops.frozen(a) == f, '%s: %s was changed by later calls' % (what, w))
    n += 1
    op2 = ops.build(c, fresh(mon, n), layout=c['layout2'])
    if ops.arrays([op2.args, op2.kw]):
        e = ops.agree(c, first, ops.collect(op2))
        mon.count('layouts')
        mon.check(e is None, '%s gives another result for %s than for %s inputs: %s' % (what, c['layout2'], c['layout'], e))
