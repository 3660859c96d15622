"""C31: MDS sub-selection equals slicing the full field."""
import os
import numpy as np
from vlib import mdsref, work
from vlib.sut import sg

RULE = ('random fields of 2 to 5 dimensions (with records, one or several iterations), in one file or in even/uneven/incomplete tiles, '
        'read with random record, level and region selections (scalars, lists, ranges, arrays, negative indices, repeats), with and '
        'without memory map and squeezing, and compared with slicing; distinct = (tiling, rank, selection, options)')
MIN = {'selections': 700, 'with_region': 250, 'with_lev': 250, 'with_rec': 250, 'memmap': 250, 'tiled': 250, 'unsqueezed': 150}
ASSUME = ['regions of at least one point inside the field', 'selected records and levels exist']


def pick(r, n):
    """A selection out of n: JSON-able description."""
    k = r.random()
    if k < .3:
        return r.randint(-n, n - 1)
    if k < .45:
        return [r.randint(-n, n - 1)]
    if k < .6:
        a = r.randint(0, n - 1)
        return dict(range=[a, r.randint(a + 1, n)])
    if k < .7:
        return dict(array=sorted(r.sample(range(n), r.randint(1, n))))
    return [r.randint(-n, n - 1) for _ in range(r.randint(1, n + 1))]


def real(s):
    if isinstance(s, dict):
        return range(*s['range']) if 'range' in s else np.array(s['array'])
    return s


def indices(s):
    s = real(s)
    return [s] if isinstance(s, int) else list(s)


def cases(r, tier):
    for k in range(900 if tier == 'quick' else 16000):
        nd = r.choice([2, 3, 3, 3, 4, 4, 5])
        dims = [r.randint(1, 4) for _ in range(nd - 2)] + [r.randint(1, 8), r.randint(1, 8)]
        if r.random() < .03:
            dims[r.choice([-1, -2])] = work.large(r)
        if r.random() < .03 and nd > 2:
            dims[0] = work.large(r, 60)
        nrec = r.choice([1, 1, 2, 5]) if r.random() < .97 else work.large(r, 100)
        c = dict(dims=dims, nrec=nrec, prec=r.choice(['float32', 'float64']), tiles=r.choice(['one', 'even', 'uneven']), missing=r.random() < .25,
                 mm=r.random() < .5, squeeze=r.random() < .7, seed=r.randint(0, 2 ** 31), its=r.choice([None, 'one', 'list1', 'list']))
        c['rec'] = pick(r, nrec) if r.random() < .5 else None
        c['lev'] = None
        if nd > 2 and r.random() < .6:
            m = r.randint(1, nd - 2)
            c['lev'] = [pick(r, dims[i]) for i in range(m)]
            c['bare'] = m == 1 and r.random() < .6
        c['region'] = None
        if r.random() < .55:
            ny, nx = dims[-2:]
            reg = []
            for n in (nx, ny):
                a = r.randint(0, n - 1)
                b = r.randint(a + 1, n)
                reg += [a - n if r.random() < .3 else a, b - n if b < n and r.random() < .3 else b]
            c['region'] = reg
        yield c


def run(c, mon):
    r = work.rng(c['seed'])
    d = mon.tmp()
    dims, nrec = tuple(c['dims']), c['nrec']
    ny, nx = dims[-2:]
    its = {None: [None], 'one': [72], 'list1': [5], 'list': [5, 72, 3]}[c['its']]
    tl = None
    if c['tiles'] != 'one':
        tl = mdsref.tiling(r, nx, ny, c['tiles'] == 'even')
        if c['missing'] and len(tl) > 1:
            tl = r.sample(tl, r.randint(1, len(tl) - 1))
        mon.count('tiled')
    full = []
    for it in its:
        a = mdsref.values(c['seed'] + (it or 0), (nrec,) + dims, c['prec'])
        base = os.path.join(d, 'T' if it is None else 'T.%010d' % it)
        if tl is None:
            mdsref.put(base, a, c['prec'])
            full.append(a)
        else:
            mdsref.put('', a, c['prec'], '>', [(base + '.%03d.001' % (k + 1),) + t for k, t in enumerate(tl)])
            f = np.full(a.shape, -5.)
            for i0, ie, j0, je in tl:
                f[..., j0:je, i0:ie] = a[..., j0:je, i0:ie]
            full.append(f)
    w = np.array(full)                       # it, rec, dims
    kw = dict(fill_value=-5., squeeze=c['squeeze'])
    keep = [c['its'] in ('list', 'list1')]
    if c['rec'] is not None:
        mon.count('with_rec')
        kw['rec'] = real(c['rec'])
        w = w[:, indices(c['rec'])]
        keep.append(not isinstance(c['rec'], int))
    else:
        keep.append(nrec > 1)
    nlev = 0
    if c['lev'] is not None:
        mon.count('with_lev')
        nlev = len(c['lev'])
        lv = tuple(real(s) for s in c['lev'])
        kw['lev'] = lv[0] if c.get('bare') else lv
        for k, s in enumerate(c['lev']):
            w = np.take(w, indices(s), axis=2 + k)
            keep.append(not isinstance(s, int))
    if c['region'] is not None:
        mon.count('with_region')
        kw['region'] = tuple(c['region'])
        i0, ie, j0, je = c['region']
        w = w[..., j0:je, i0:ie]
    if c['mm']:
        mon.count('memmap')
        kw[r.choice(['mm', 'usememmap'])] = True
    sel = w.shape[:2 + nlev]
    if c['squeeze']:
        shp = tuple(n for n in sel if n > 1)
    else:
        mon.count('unsqueezed')
        shp = tuple(n for n, k in zip(sel, keep) if k)
    w = w.reshape(shp + w.shape[2 + nlev:])
    form = {'list1': [list, tuple, lambda x: range(x[0], x[0] + 1), np.array], 'list': [list, tuple]}.get(c['its'], [list])
    args = () if c['its'] is None else (its[0],) if c['its'] == 'one' else (r.choice(form)(its),)
    mon.seen(c['tiles'], dims, nrec, c['rec'], c['lev'], c['region'], c['mm'], c['squeeze'], c['its'])
    with mon.oracle('rdmds'):
        got = mon.call('rdmds(rec=%r, lev=%r, region=%r, mm=%r)' % (c['rec'], c['lev'], c['region'], c['mm']), sg.mds.rdmds, os.path.join(d, 'T'), *args, **kw)
        mon.count('selections')
        mon.count('values', w.size)
        if mon.check(np.shape(got) == w.shape, 'shape is %s, slicing gives %s' % (np.shape(got), w.shape), squeeze=c['squeeze']):
            bad = ~(got == w)
            mon.check(not bad.any(), 'selection differs from slicing the whole field', where=np.argwhere(bad)[:4].tolist())
