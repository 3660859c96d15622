"""C29: MDS meta/data pairs round-trip arrays and metadata."""
import os
import numpy as np
from vlib import mdsref, work
from vlib.sut import sg

RULE = ('random arrays of 2 to 5 dimensions and of double, single, integer and logical types written with every precision and byte order, ndims/nrecords splits, field lists of 0 to 45 '
        'names, times, iteration numbers and time steps; the data file is decoded independently and the pair is read back; distinct = '
        '(shape, precision, byte order, split, metadata present)')
MIN = {'pairs': 400, 'fields': 1500, 'long_field_lists': 40, 'deltat': 60, 'folded': 40, 'overwritten': 120, 'many_records': 6, 'other_types': 120, 'defaults': 120}
ASSUME = ['field and simulation names without blanks at the end, quotes inside or braces', 'files of at most one record dimension']


def cases(r, tier):
    for k in range(500 if tier == 'quick' else 10000):
        nd = r.randint(2, 5)
        shape = [r.randint(1, 5) for _ in range(nd)]
        if r.random() < .02:
            shape[-1] = 10000 + r.randint(0, 9)
            shape[:-1] = [min(n, 2) for n in shape[:-1]]
        elif r.random() < .02:           # many values
            shape[-2:] = r.choice([[work.large(r), work.large(r)], [256, 256], [128, 64], [1024, 65]])
            shape[:-2] = [min(n, 3) for n in shape[:-2]]
        elif r.random() < .03:           # many records, several dimensions of them
            shape = r.choice([[16, 17], [2, 10, 20], [40, 30], [256, 2], [3, 100], [2, 3, 60]]) + [r.randint(1, 3), r.randint(1, 3)]
            nd = len(shape)
        elif r.random() < .2:
            shape[-1] = r.randint(6, 40)
        yield dict(shape=shape, prec=r.choice(['float32', 'float64']), mf=r.choice(sorted(mdsref.FORMATS)),
                   split=r.choice(['none', 'ndims', 'nrecords', 'both']), nd=r.randint(2, min(nd, 3)),
                   itr=r.choice([None, 0, 1, 72, 2880, 1234567890]), times=r.choice([None, None, 0., 3600., [0., 86400.], [1.5e5, 1.6e5], [123456789.125, 123460389.125], 987654321.5, [1e-3 / 7., 1. / 3.]]),
                   nf=r.choice([None, None, 1, 2, 19, 20, 21, 40, 41, 45]), sim=r.choice([None, 'global_ocean run 1', 'x', 'ECCO v4 (r3)', "the boys'", "'round", 'a, b']),
                   dt=r.choice([None, None, None, 3600., 1200., .1, .3, 1., 7.]), listy=r.random() < .15, kind=r.choice(['exact', 'round', 'special']),
                   order=r.choice(['C', 'F', 'T', 'be']), tp=r.choice(['f8'] * 5 + ['i4', 'i8', 'f4', '>f4', 'i2', 'u1', 'bool', '>i8', 'f2']), seed=r.randint(0, 2 ** 31), nsteps=r.randint(0, 5000),
                   before=r.choice([None, None, None, 'longer', 'shorter', 'other']))


def run(c, mon):
    rr = np.random.RandomState(c['seed'])
    shape = tuple(c['shape'])
    a = rr.uniform(-1e6, 1e6, shape)
    if c['kind'] == 'exact':
        a = mdsref.values(c['seed'], shape, c['prec'])
    elif c['kind'] == 'special':
        sp = np.array([0., -0., np.inf, -np.inf, np.nan, 1e-300, 1e30, -1.5])
        a = sp[rr.randint(0, len(sp), shape)]
    if c['tp'] != 'f8':               # arrays of any other numeric type
        a = a.astype(c['tp']) if c['tp'][-2:] in ('f4', 'f2') else np.rint(np.clip(np.nan_to_num(a, nan=3.), -3e4, 3e4)).astype(c['tp']) \
            if c['tp'] != 'u1' else (np.abs(np.nan_to_num(a, nan=3., posinf=9.)) % 200.).astype('u1')
        mon.count('other_types')
    want64 = a.copy()
    if c['order'] == 'F':
        a = np.asfortranarray(a)
    elif c['order'] == 'T':
        a = np.ascontiguousarray(a.T).T
    elif c['order'] == 'be':
        a = a.astype(a.dtype.newbyteorder('>'))
    kw = dict(dataprec=c['prec'], machineformat=c['mf'])
    for k, v in (('dataprec', 'float32'), ('machineformat', 'b')):
        if kw[k] == v and c['seed'] % 3:        # left to its default
            del kw[k]
            mon.count('defaults')
    nd = min(3, a.ndim)
    if c['split'] in ('ndims', 'both'):
        nd = c['nd']
        kw['ndims'] = nd
    if c['split'] in ('nrecords', 'both'):
        nrec = int(np.prod(shape[:-nd], dtype=int))
        if c['split'] == 'nrecords':      # as many leading dimensions as make up nrecords
            n, k = 1, 0
            while n < nrec:
                n *= shape[k]
                k += 1
            nd = a.ndim - k
            if n != nrec or nd < 2:
                return
        kw['nrecords'] = nrec
    nrec = int(np.prod(shape[:-nd], dtype=int))
    dims = shape[-nd:]
    base = os.path.join(mon.tmp(), 'F')
    fields = None
    if c['nf'] is not None:
        fields = ['fl%d' % k + ('_longer-name(%d)' % k if (k + c['seed']) % 7 == 0 else 'abcdef'[:k % 5]) for k in range(c['nf'])]
        kw['fields'] = fields
    if c['sim'] is not None:
        kw['simulation'] = c['sim']
    itr, times = c['itr'], c['times']
    if c['dt'] is not None:
        mon.count('deltat')
        kw['deltat'] = c['dt']
        if c['nsteps'] % 2:
            itr, times = c['nsteps'], None
            kw['itr'] = itr
            times = [c['dt'] * itr]
        else:
            itr = c['nsteps']
            times = c['dt'] * itr
            if c['seed'] % 2:
                times = [0., times]
            kw['times'] = times
    else:
        if itr is not None:
            kw['itr'] = itr
        if times is not None:
            kw['times'] = times
    if c['listy']:
        for k in ('dataprec', 'ndims', 'nrecords', 'simulation', 'machineformat', 'deltat'):
            if k in kw:
                kw[k] = [kw[k]]
    if a.ndim > nd + 1:
        mon.count('folded')
    mon.count('many_records', nrec >= 256)
    mon.seen(shape, c['prec'], c['mf'], nd, kw.get('nrecords'), itr is None, times is None, c['nf'], c['sim'])
    name = base + ('' if itr is None else '.%010d' % itr)
    if c['before'] == 'other':        # an earlier pair of that name
        kb = {k: v for k, v in kw.items() if k in ('itr', 'times', 'deltat')}
        mon.call('wrmds (earlier)', sg.mds.wrmds, base, rr.uniform(-1, 1, (2, 3, 4)), fields=['A', 'B', 'C'], simulation='earlier', **kb)
    elif c['before']:
        for x in ('.data', '.meta'):
            with open(name + x, 'wb') as f:
                f.write((b'Z' if x == '.data' else b' nDims = [ 9 ];\n') * (20000 if c['before'] == 'longer' else 1))
    mon.count('overwritten', c['before'] is not None)
    mon.call('wrmds', sg.mds.wrmds, base, a, **kw)
    mon.count('pairs')
    mon.require(sorted(os.listdir(mon.tmp())) == sorted(os.path.basename(name) + x for x in ('.data', '.meta')),
                'files written: %s' % sorted(os.listdir(mon.tmp())), expected=os.path.basename(name))
    tp = mdsref.FORMATS[c['mf']] + mdsref.PRECS[c['prec']]
    with np.errstate(all='ignore'):
        file_vals = want64.astype('f8').astype(tp)
    raw = np.fromfile(name + '.data', tp)
    mon.require(raw.size == want64.size, 'data file holds %d values of %d' % (raw.size, want64.size))
    mon.check(mdsref.same(raw, file_vals.ravel()), 'data file does not hold the array in C order, requested precision and byte order')
    with mon.oracle('rdmds'):
        args = (base,) if itr is None else (base, itr)
        rkw = {} if c['mf'] == 'b' and c['seed'] % 3 else dict(machineformat=c['mf'])
        got, its, meta = mon.call('rdmds', sg.mds.rdmds, *args, **rkw, returnmeta=True)
        want = file_vals.astype('f8').reshape((nrec,) + dims)
        if nrec == 1:
            want = want[0]
        mon.check(got.dtype == np.dtype('f8'), 'result type is %s' % got.dtype)
        mon.check(mdsref.same(got, want), 'array read back differs', shape=np.shape(got), want=want.shape)
        nat = mon.call('rdmds astype=None', sg.mds.rdmds, *args, **rkw, astype=None)
        mon.check(nat.dtype.itemsize == np.dtype(tp).itemsize and nat.dtype.kind == 'f' and mdsref.same(nat, want), 'astype=None does not keep the file precision')
        exp = dict(dimlist=list(dims[::-1]), dataprec=[c['prec']], nrecords=[nrec], ndims=[nd])
        if fields is not None:
            exp.update(nflds=[len(fields)], fldlist=fields)
            mon.count('fields', len(fields))
            mon.count('long_field_lists', len(fields) > 20)
        if c['sim'] is not None:
            exp['simulation'] = [c['sim']]
        if itr is not None:
            exp['timestepnumber'] = [itr]
        for k, v in exp.items():
            g = list(meta.get(k, ['absent']))
            mon.check(g == list(v) and all(isinstance(x, type(y)) for x, y in zip(g, v)), 'metadata %s is %r, written %r' % (k, g, v))
        if times is not None:
            t = times if isinstance(times, list) else [times]
            g = meta.get('timeinterval')
            mon.check(isinstance(g, list) and len(g) == 1 and len(g[0]) == len(t) and
                      all(abs(x - y) <= 1e-11 * abs(y) for x, y in zip(g[0], t)), 'metadata timeInterval is %r, written %r' % (g, t))
        extra = set(meta) - set(exp) - {'timeinterval'}
        mon.check(not extra, 'metadata that was not written: %s' % sorted(extra))
        if itr is None:
            mon.check('timestepnumber' not in meta, 'an iteration number appeared')
        # metadata of a read can be given back to a write
        if c['seed'] % 3 == 0 and not c['listy']:
            m2 = {k: v for k, v in meta.items() if k in ('simulation', 'dataprec', 'ndims', 'nrecords')}
            b2 = os.path.join(mon.tmp(), 'again')
            mon.call('wrmds of a read', sg.mds.wrmds, b2, got, machineformat=c['mf'], dimlist=meta['dimlist'], **m2)
            with open(b2 + '.data', 'rb') as f, open(name + '.data', 'rb') as g:
                x, y = np.frombuffer(f.read(), tp), np.frombuffer(g.read(), tp)
            mon.check(mdsref.same(x, y), 'writing what was read with its metadata gives another file')
