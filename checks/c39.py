"""C39: equivalent ways of writing down a call give the same result."""
import collections
import os
import struct
import types
import numpy as np
from vlib import mdsref, ops, work
from vlib.sut import sg

RULE = ('random calls of every entry point are made in their plain form and again with the same values written down otherwise: positional '
        'or keyword arguments, documented defaults left out or given, None for optional inputs, integers and numpy scalars for numbers, '
        'lists, tuples and arrays for vectors, other mappings and orders for dictionaries, integer-valued grids as integer arrays, '
        'read-only arrays and files, paths that are relative, indirect, through links or have blanks, dots, accents and extensions in '
        'their directory names, options in other orders and spellings; distinct = (entry point, changes made)')
MIN = {'selections': 1000, 'pairs': 900, 'positional': 150, 'defaults': 60, 'numbers': 500, 'paths': 300, 'names': 200, 'containers': 100, 'options': 60, 'integers': 40, 'returned': 600, 'wrmds_forms': 40, 'dirty': 60}
ASSUME = ['paths without wildcard characters; longitudes and latitudes within float32 for calls that use it']
NAMES = ['a b', 'dör', 'x.csv', 'T.0000000009', 'X.001.001', 'run.meta', 'x.data', 'my.mitgrid', "it's", '{0}', '%s%d', '-v', 'a,b;c', '.hidden', 'x#~', 'UPPER.CSV', 'run_obcs']
# documented argument names, in order
POS = {'read_mitgridfile': ('filename', 'ni', 'nj', 'strict', 'verbose'),
       'write_mitgridfile': ('filename', 'griddata', 'ni', 'nj', 'verbose'),
       'matchedges': ('aXG', 'aYG', 'bXG', 'bYG', 'geod', 'verbose'),
       'mds2mitgrid': ('rundir', 'verbose'),
       'lonlat2cart': ('lons', 'lats', 'rad'),
       'nearest': ('lon', 'lat', 'lons', 'lats', 'geod'),
       'rdmds': ('fnamearg', 'itrs', 'machineformat', 'rec', 'fill_value', 'returnmeta', 'astype', 'region', 'lev', 'usememmap', 'mm', 'squeeze', 'verbose'),
       'wrmds': ('fbase', 'arr', 'itr'),
       'mkgrid': ('verbose',), 'regrid': ('strict', 'verbose'), 'addfringe': ('strict', 'verbose'), 'stitch': ('strict', 'verbose'), 'getobcs': ('strict', 'verbose')}
DEF = {'rdmds': dict(machineformat='b', rec=None, fill_value=0, returnmeta=False, astype=float, region=None, lev=(), usememmap=False, squeeze=True, verbose=False),
       'wrmds': dict(itr=None, dataprec='float32', ndims=None, nrecords=None, times=None, fields=None, simulation=None, machineformat='b', deltat=None, dimlist=None),
       'lonlat2cart': dict(rad=1.), 'read_mitgridfile': dict(strict=False, verbose=False), 'write_mitgridfile': dict(verbose=False),
       'matchedges': dict(verbose=False), 'mds2mitgrid': dict(verbose=False), 'mkgrid': dict(verbose=False),
       'regrid': dict(strict=False, verbose=False), 'addfringe': dict(strict=False, verbose=False), 'stitch': dict(strict=False, verbose=False),
       'getobcs': dict(strict=False, verbose=False)}
NONE = {'regrid': ('mitgridfile', 'xg_file', 'yg_file', 'mitgrid_matrices', 'ni', 'nj'),
        'getobcs': ('parent_mitgridfile', 'parent_mitgrid_matrices', 'ni_parent', 'nj_parent', 'regional_mitgridfile', 'regional_mitgrid_matrices',
                    'ni_regional', 'nj_regional', 'resultsdir', 'OB_Jnorth', 'OB_Jsouth', 'OB_Ieast', 'OB_Iwest')}
KINDS = [k for k in ops.KINDS if k not in ('tomitgrid', 'fill', 'squad', 'pquad', 'parsemeta')] + ['cli', 'regrid', 'getobcs']


def cases(r, tier):
    for k in range(300 if tier == 'quick' else 9000):
        c = ops.desc(r, KINDS[k % len(KINDS)])
        if r.random() < .75:
            c['fault'] = None
        if c['fault'] == 'nodir':
            c['fault'] = None
        if 'region' in c and r.random() < .6:
            g = c['region']
            for n in g:
                g[n] = float(round(g[n]))
            if g['lon1'] == g['lon2']:
                g['lon2'] += 2.
            if g['lat1'] == g['lat2']:
                g['lat2'] -= 1. if g['lat2'] > -90. else -1.
        c['name'] = r.choice(NAMES)
        c['path'] = r.choice(['abs', 'rel', 'dot', 'updown', 'link', 'double', 'filelink'])
        c['changes'] = [x for x in ('call', 'defaults', 'numbers', 'containers', 'none', 'path', 'readonly', 'options', 'integers') if r.random() < .5]
        c['vseed'] = r.randint(0, 2 ** 31)
        yield c


def mapping(r, it, d):
    """The same matrices in some mapping."""
    k = r.randrange(8)
    if k == 5 and all(isinstance(v, np.ndarray) and v.dtype.kind in 'fi' for _, v in it):
        p = os.path.join(os.path.dirname(d), 'matrices%d.npz' % r.randrange(10 ** 9))
        np.savez(p, **dict(it))
        return np.load(p)
    return work.MAPS[k % 5](it)


def number(r, v):
    if isinstance(v, bool):
        return r.choice([v, int(v), np.bool_(v)])
    if isinstance(v, (int, np.integer)):
        return r.choice([np.int64, np.int32, int, np.intp])(v)
    if isinstance(v, float):
        return r.choice([np.float64(v), float(v)] + ([int(v), np.int64(v)] if np.isfinite(v) and v == int(v) else []) + ([np.float32(v)] if float(np.float32(v)) == v else []))
    return v


def respell(r, path, c, d):
    """Another path to the same file or directory."""
    how = c['path']
    tail = os.path.relpath(path, d)
    if how == 'rel':
        return tail
    if how == 'dot':
        return './' + tail
    if how == 'updown':
        return os.path.join(d, '..', os.path.basename(d), tail)
    if how == 'link':
        k = os.path.join(os.path.dirname(d), 'to here')
        if not os.path.islink(k):
            os.symlink(d, k)
        return os.path.join(k, tail)
    if how == 'double':
        return d + '//' + tail
    if how == 'filelink' and os.path.isfile(path):
        os.makedirs(os.path.join(d, 'links'), exist_ok=True)
        k = os.path.join(d, 'links', os.path.basename(path))
        if not os.path.islink(k):
            os.symlink(path, k)
        return k
    return path


def base(op):
    """Plain values that have an equal in the other types."""
    if op.what in ('mkgrid',) or op.what.startswith('regrid'):
        for n in ('lon1', 'lon2', 'lat1', 'lat2'):
            if n in op.kw:
                op.kw[n] = float(np.float32(op.kw[n]))


def changed(c, op, d, mon):
    r = work.rng(c['vseed'])
    ch = c['changes']
    name = op.what.split()[0]
    if op.cli:
        argv = list(op.args[0])
        if 'options' in ch or 'path' in ch:
            g, k = [], 0
            while k < len(argv):             # an option with its values
                m = k + 1
                while m < len(argv) and not (argv[m].startswith('-') and not argv[m][1:2].isdigit()):
                    m += 1
                g.append(argv[k:m])
                k = m
            out = []
            for x in g:
                if len(x) == 1 and '=' in x[0]:
                    x = x[0].split('=', 1)
                if 'path' in ch and len(x) == 2 and x[1].startswith(d):
                    x[1] = respell(r, x[1], c, d)
                    mon.count('paths')
                if 'options' in ch:
                    mon.count('options')
                    x = [{'-s': '--strict', '-v': '--verbose'}.get(x[0], x[0]) if r.random() < .5 else x[0]] + x[1:]
                    if len(x) == 2:
                        try:
                            v = float(x[1])
                            if '.' in x[1] or 'e' in x[1]:
                                x[1] = r.choice([x[1], repr(v), '%.17g' % v, '%.20e' % v] + (['%d' % v] if v == int(v) else []) + (['+' + x[1]] if v > 0 else []))
                            elif r.random() < .3:
                                x[1] = r.choice(['0' + x[1], '+' + x[1]]) if int(x[1]) > 0 else x[1]
                        except ValueError:
                            pass
                if len(x) == 2 and (x[1].startswith('-') or r.random() < .5):
                    x = ['='.join(x)]
                out.append(x)
            if 'options' in ch:
                r.shuffle(out)
            op.args = [sum(out, [])]
        return
    # paths
    if 'path' in ch:
        def there(v):
            if isinstance(v, str) and v.startswith(d + os.sep):
                mon.count('paths')
                return respell(r, v, c, d)
            return v
        op.args = [there(v) for v in op.args]
        op.kw = {k: there(v) for k, v in op.kw.items()}
    if name == 'wrmds' and 'containers' in ch:
        for k, v in list(op.kw.items()):
            v = v[0] if isinstance(v, list) and k in ('dataprec', 'ndims', 'nrecords', 'simulation') else v
            if k in ('dataprec', 'ndims', 'nrecords', 'simulation', 'machineformat', 'deltat') and v is not None:
                op.kw[k] = r.choice([v, [v]])
            elif k == 'fields' and v is not None:
                op.kw[k] = r.choice([list, tuple, np.array])(v)
            elif k == 'times' and v is not None:
                op.kw[k] = r.choice([list, tuple, np.array, lambda x: [int(y) if y == int(y) else y for y in x], lambda x: x if len(x) > 1 else x[0]])(v)
            elif k == 'dimlist':
                op.kw[k] = r.choice([list, tuple, np.array])(v)
            mon.count('wrmds_forms')
    if name == 'wrmds' and 'numbers' in ch:
        for k in ('itr', 'ndims', 'nrecords'):
            if isinstance(op.kw.get(k), int):
                op.kw[k] = number(r, op.kw[k])
    if 'numbers' in ch and name != 'wrmds':
        k = 1 if name in ('rdmds',) else 0
        op.args = op.args[:k] + [number(r, v) for v in op.args[k:]]
        if name == 'rdmds' and isinstance(op.args[1], np.integer):
            op.args[1] = int(op.args[1])
        op.kw = {k: number(r, v) for k, v in op.kw.items()}
        mon.count('numbers', len(op.args) + len(op.kw))
    if 'containers' in ch:
        for k, v in list(op.kw.items()):
            if isinstance(v, dict):
                it = list(v.items())
                r.shuffle(it)
                op.kw[k] = mapping(r, it, d)
                mon.count('containers')
            elif k.startswith('OB_'):
                op.kw[k] = r.choice([list, tuple, np.array, lambda x: np.array(x, 'i4'), lambda x: np.array(x, 'i2'), lambda x: [np.int64(y) for y in x]])(v)
                mon.count('containers')
            elif k in ('rec', 'region') and isinstance(v, (list, np.ndarray)):
                v = [int(x) for x in v]
                op.kw[k] = r.choice([list, np.array] + ([tuple] if k == 'region' else []))(v)
                mon.count('containers')
        if name == 'write_mitgridfile':
            it = list(op.args[1].items())
            r.shuffle(it)
            op.args[1] = mapping(r, it, d)
            mon.count('containers')
    if 'none' in ch:
        for k in NONE.get(name, ()):
            if k not in op.kw and r.random() < .5:
                op.kw[k] = None
    if 'readonly' in ch:
        for w, a in ops.arrays([op.args, op.kw]):
            if not isinstance(a, np.memmap):
                a.flags.writeable = False
                mon.count('read_only')
    if 'defaults' in ch and name in DEF:
        given = set(POS.get(name, ())[:len(op.args)]) | set(op.kw)
        for k, v in DEF[name].items():
            if k not in given and r.random() < .6:
                op.kw[k] = v
                mon.count('defaults')
        # and the other way round
        for k, v in list(op.kw.items()):
            if k in DEF[name] and type(v) is type(DEF[name][k]) and np.all(v == DEF[name][k]) and k in given:
                del op.kw[k]
                mon.count('defaults')
        while len(op.args) and name in POS and POS[name][len(op.args) - 1] in DEF[name] and op.args[-1] is False:
            op.args.pop()
            mon.count('defaults')
    if 'call' in ch and name in POS:
        k = r.randint(0, len(op.args))
        for n, v in zip(POS[name][k:], op.args[k:]):
            op.kw[n] = v
            mon.count('positional')
        op.args = op.args[:k]
        it = list(op.kw.items())
        r.shuffle(it)
        op.kw = dict(it)


def dirty(d, op):
    n = 0
    for p, _, fs in os.walk(d):
        for f in sorted(fs):
            f = os.path.join(p, f)
            if f.endswith('.mitgrid') and f not in op.outs and not (op.outdir and f.startswith(op.outdir)) and os.path.getsize(f) % 128 == 0 and os.path.getsize(f):
                with open(f, 'r+b') as fd:       # the last number of the first matrix
                    fd.seek(os.path.getsize(f) // 16 - 8)
                    fd.write(struct.pack('>d', 1.5))
                n += 1
    return n


def integral(c):
    """Grids on whole degrees, as floating point and as integer arrays."""
    r = work.rng(c['vseed'] + 1)
    lo, la = r.randint(-179, 170), r.randint(-80, 60)
    X, Y = np.meshgrid(lo + np.arange(r.randint(3, 7)), la + np.arange(r.randint(3, 6)), indexing='ij')
    k = X.shape[0] // 2
    if c['op'] == 'regrid':
        kw = dict(lon1=float(X[1, 0]), lat1=float(Y[0, -1]), lon2=float(X[-1, 0]), lat2=float(Y[0, 0]), lon_subscale=c['sub'][0], lat_subscale=c['sub'][1])
        return lambda t: ops.Op('regrid', sg.regrid.regrid, [], dict(kw, mitgrid_matrices={'XG': t(X), 'YG': t(Y), 'XC': t(X[1:, 1:])}))
    if c['op'] == 'matchedges':
        import pyproj
        g = pyproj.Geod(ellps='sphere')
        return lambda t: ops.Op('matchedges', sg.matchedges.matchedges, [t(X[:k + 1]), t(Y[:k + 1]), t(X[k:]), t(Y[k:]), g])
    if c['op'] == 'lonlat2cart':
        return lambda t: ops.Op('lonlat2cart', sg.util.lonlat2cart, [t(X), t(Y)])
    if c['op'] == 'nearest':
        import pyproj
        g = pyproj.Geod(ellps='sphere')
        return lambda t: ops.Op('nearest', sg.util.nearest, [float(X[1, 1]), float(Y[1, 1]), t(X), t(Y), g])
    return None


def selections(c, d):
    """Iterations, records, levels and regions given in several ways."""
    r = work.rng(c['vseed'] + 2)
    n = [r.randint(1, 6) for _ in range(4)]
    its = sorted(r.sample(range(0, 2000, 10), r.randint(1, 4)))
    for it in its:
        mdsref.put(os.path.join(d, 'S.%010d' % it), mdsref.values(c['seed'] + it, tuple(n), 'float64'), 'float64')
    some = r.sample(its, r.randint(1, len(its)))
    fn = os.path.join(d, 'S')
    ways = lambda v: [list(v), tuple(v), np.array(v), np.array(v, 'i4'), [np.int64(x) for x in v]]
    line = lambda v: [range(v[0], v[-1] + 1), np.arange(v[0], v[-1] + 1)] if list(v) == list(range(v[0], v[-1] + 1)) else []
    kw = dict(mm=r.random() < .3, squeeze=r.random() < .7)
    out = [('iterations', [fn, x], kw) for x in ways(some) + line(some) + [np.array(some, 'f8'), [float(x) for x in some], np.array(some, 'i8')[::-1][::-1]]], [('all iterations', [fn, x], kw) for x in (np.nan, float('nan'), np.float64('nan'), np.float32('nan'))], \
        [('last iteration', [fn, x], kw) for x in (np.inf, float('inf'), np.float64('inf'), np.float32('inf'))], \
        [('one iteration', [f, x], kw) for f, x in ((fn, its[0]), (fn, np.int64(its[0])), (fn, np.int32(its[0])), ('%s.%010d' % (fn, its[0]), -1))] + [('one iteration', ['%s.%010d' % (fn, its[0])], kw)]
    rec = r.sample(range(n[0]), r.randint(1, n[0]))
    out += [('records', [fn, its[0]], dict(kw, rec=x)) for x in ways(rec) + line(rec)],
    lev = r.sample(range(n[1]), r.randint(1, n[1]))
    out += [('levels', [fn, its[0]], dict(kw, lev=x)) for x in [list(lev), np.array(lev), (list(lev),), (np.array(lev),)] + line(lev)],
    x0, y0 = r.randint(0, n[3] - 1), r.randint(0, n[2] - 1)
    reg = [x0, r.randint(x0 + 1, n[3]), y0, r.randint(y0 + 1, n[2])]
    out += [('region', [fn, its[0]], dict(kw, region=x)) for x in ways(reg)],
    return out


def run(c, mon):
    t = mon.tmp()
    d0, d1 = os.path.join(t, 'plain'), os.path.join(t, c['name'])
    os.makedirs(d0)
    os.makedirs(d1)
    a = ops.build(c, d0)
    base(a)
    b = ops.build(c, d1)
    base(b)
    if c['vseed'] % 4 == 0:       # padding that matters if strict
        for d, op in ((d0, a), (d1, b)):
            mon.count('dirty', dirty(d, op))
    changed(c, b, d1, mon)
    one = ops.collect(a)
    os.chdir(d1)
    two = ops.collect(b)
    os.chdir('/')
    mon.count('pairs')
    mon.count('names')
    mon.count('returned', one[1][0] == 'returned')
    mon.seen(b.what, c['changes'], c['path'], c['name'])
    e = ops.agree(c, one, two)
    mon.check(e is None, '%s gives another result when the call is written down otherwise (%s, %s, %r): %s' % (b.what, c['changes'], c['path'], c['name'], e),
              args=repr(b.args)[:300], kw=repr(b.kw)[:600])
    m = integral(c) if 'integers' in c['changes'] else None
    if m:
        mon.count('integers')
        w = work.rng(c['vseed']).choice(['i8', 'i4', '>i4'])
        x = ops.collect(m(lambda x: x.astype('f8')))
        mon.check(x[1][0] == 'returned', '%s refuses a grid on whole degrees' % c['op'])
        e = ops.agree(c, x, ops.collect(m(lambda x: x.astype(w))), True)
        mon.check(e is None, '%s gives another result for a grid on whole degrees given as %s: %s' % (c['op'], w, e))
    if c['op'] == 'rdmds':
        d = os.path.join(t, 'sel')
        os.makedirs(d)
        for g in selections(c, d):
            first = None
            for what, args, kw in g:
                x = ops.collect(ops.Op('rdmds', sg.mds.rdmds, args, kw))
                mon.count('selections')
                if first is None:
                    first = x
                    mon.check(x[1][0] == 'returned', 'rdmds refuses %s %r %r' % (what, args[1:], kw))
                else:
                    e = ops.agree(c, first, x)
                    mon.check(e is None, 'rdmds gives another result for %s given as %r %r: %s' % (what, args[1:], kw, e))
