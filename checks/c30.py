"""C30: MDS reading assembles tiles and iterations correctly."""
import os
import re
import numpy as np
from vlib import mdsref, work
from vlib.sut import sg

RULE = ('random fields of 2 to 4 dimensions written by an independent encoder as one file or as even, uneven, incomplete tilings, with '
        'tiles in one directory or spread over directories, as facet tiles with map2glob, for random sets of iterations, among files of similar names; read by list, '
        'single number, all or last, with random fill value, type and memory map; distinct = (tiling, missing, iterations, options)')
MIN = {'fields_read': 400, 'tiles': 3000, 'missing_tiles': 100, 'uneven': 60, 'facets': 40, 'iterations': 500, 'scans': 80, 'wildcards': 60, 'repeated': 20, 'many_tiles': 5, 'time_intervals': 60, 'decoys': 300, 'default_fill': 15, 'default_order': 25}
ASSUME = ['tile 001.001 exists when iterations are searched for']


def cases(r, tier):
    for k in range(600 if tier == 'quick' else 12000):
        nd = r.choice([2, 2, 3, 3, 4])
        dims = [r.randint(1, 4) for _ in range(nd - 2)] + [r.randint(1, 9), r.randint(1, 9)]
        mode = r.choice(['single', 'even', 'even', 'uneven', 'uneven', 'facets'])
        if r.random() < .02:                # many tiles
            dims = [2] * r.randint(0, 1) + (r.choice([[8, 8], [10, 10], [10, 10], [8, 16], [16, 16], [4, 25]]) if r.random() < .5 else [r.randint(10, 12), r.randint(10, 25)])
            mode = 'cells'
        elif r.random() < .03:
            dims[-1], dims[-2] = r.choice([(work.large(r), work.large(r, 90)), (work.large(r), dims[-2]), (dims[-1], work.large(r))])
        yield dict(dims=dims, nrec=r.choice([1, 1, 2, 4]), prec=r.choice(['float32', 'float64']), mf=r.choice(sorted(mdsref.FORMATS)),
                   mode=mode, missing=r.random() < .35, decoys=r.random() < .35,
                   dirs=r.random() < .25, its=r.choice([None, 'one', 'list', 'list', 'tuple', 'all', 'last']),
                   fill=r.choice([0, -999., 7.5, float('nan')]), astype=r.choice(['default', 'float', 'f4', None, 'i8', '>f8']), mm=r.choice([False, False, 'mm', 'usememmap']),
                   meta=r.random() < .3, times=r.random() < .5, seed=r.randint(0, 2 ** 31), key=r.choice(['dataprec', 'dataprec', 'format']))


def facets(r, dims):
    """Facet tiles: (i0, ie, j0, je, a, b) placed at flat position i0 + nx j0, rows a + b nx apart, not overlapping."""
    ny, nx = dims
    used = np.zeros(nx * ny, dtype=bool)
    out = []
    for _ in range(30):
        w, h = r.randint(1, nx), r.randint(1, 4)
        i0, j0 = r.randint(0, nx - w), r.randint(0, ny - 1)
        a, b = r.choice([(w, 0), (0, 1), (r.randint(w, nx), 0)])
        if b == 0 and j0 + h > ny:
            continue
        st = a + b * nx
        if h * st > nx * ny or j0 + h > ny:
            continue
        pos = (i0 + nx * j0 + np.arange(w)[None] + st * np.arange(h)[:, None])
        if pos.max() >= nx * ny or used[pos].any():
            continue
        used[pos] = True
        out.append((i0, i0 + w, j0, j0 + h, a, b, pos))
        if len(out) == 5:
            break
    return out


def run(c, mon):
    r = work.rng(c['seed'])
    d = mon.tmp()
    dims, nrec, mode = tuple(c['dims']), c['nrec'], c['mode']
    if c['astype'] == 'i8' and c['fill'] != c['fill']:
        c = dict(c, fill=-4)
    nx, ny = dims[-1], dims[-2]
    scan = c['its'] in ('all', 'last')
    its = [None] if c['its'] is None else sorted(r.sample([0, 1, 5, 72, 144, 2880, 99999, 123456789, 2 ** 31, 100000003, 1000000000, 5000000012, 9999999999, 10 ** 9 + 72], 1 if c['its'] == 'one' else r.randint(1, 5)))
    store = its + (r.sample([k for k in (3, 10, 4000, 100000) if k not in its], 2) if its[0] is not None and not scan else [])
    tl, fc = None, None
    if mode == 'facets':
        fc = facets(r, (ny, nx))
        if not fc:
            mode = 'single'
    if mode in ('even', 'uneven', 'cells'):
        tl = mdsref.tiling(r, nx, ny, mode == 'even') if mode != 'cells' else [(i, i + 1, j, j + 1) for j in range(ny) for i in range(nx)]
        mon.count('many_tiles', len(tl) >= 100)
        if mode == 'uneven' and len(set((t[1] - t[0], t[3] - t[2]) for t in tl)) > 1:
            mon.count('uneven')
        if c['missing'] and len(tl) > 1:
            keep = r.sample(range(len(tl)), r.randint(1, len(tl) - 1))
            if scan:
                keep = sorted(set(keep) | {0})
            mon.count('missing_tiles', len(tl) - len(keep))
            tl = [tl[k] for k in sorted(keep)]
    if fc:
        mon.count('facets')
    dirs = c['dirs'] and mode != 'single'
    if dirs:
        mon.count('wildcards')
    mon.seen(mode, dims, nrec, tl, len(its), c['its'], c['fill'], c['astype'], c['mm'], dirs)
    want = {}
    # averages: time intervals, now and then one and the same for several iterations
    times, span = {}, [0., 86400.] if c['seed'] % 4 == 0 else [3600.] if c['seed'] % 4 == 1 else None
    tp = mdsref.FORMATS[c['mf']]
    for it in store:
        a = mdsref.values(c['seed'] + (it or 0), (nrec,) + dims, c['prec'])
        base = 'T' if it is None else 'T.%010d' % it
        full = np.full(a.shape, c['fill'], dtype='f8')
        meta = dict(step=it, prec_key=c['key'])
        if c['times'] and it is not None:
            meta['times'] = times[it] = span or [float(it), it + 3600.]
        if mode == 'single':
            full = a
            mdsref.put(os.path.join(d, base), a, c['prec'], tp, **meta)
            mon.count('tiles')
        elif fc:
            flat = full.reshape(full.shape[:-2] + (-1,))
            for k, (i0, ie, j0, je, x, y, pos) in enumerate(fc):
                t = mdsref.values(c['seed'] + k + 7, (nrec,) + dims[:-2] + pos.shape, c['prec'])
                flat[..., pos] = t
                b = os.path.join(d, 'res_%04d' % k if dirs else '', base + '.%03d.001' % (k + 1))
                os.makedirs(os.path.dirname(b), exist_ok=True)
                dl = [(nx, i0 + 1, ie), (ny, j0 + 1, je)] + [(n, 1, n) for n in dims[-3::-1]]
                with open(b + '.meta', 'w') as f:
                    f.write(mdsref.meta_text(dl, nrec, c['prec'], map2glob=(x, y), **meta))
                mdsref.write_data(b + '.data', t, tp + mdsref.PRECS[c['prec']])
                mon.count('tiles')
        else:
            names = []
            for k, (i0, ie, j0, je) in enumerate(tl):
                n = k + 1
                b = os.path.join(d, 'res_%04d' % k if dirs else '', base + '.%03d.%03d' % ((n, 1) if r.random() < .5 or k == 0 else (1, n)))
                names.append((b, i0, ie, j0, je))
                full[..., j0:je, i0:ie] = a[..., j0:je, i0:ie]
            mdsref.put('', a, c['prec'], tp, names, **meta)
            mon.count('tiles', len(names))
        want[it] = full
    if c['decoys'] and its[0] is not None:      # files of like names
        for k in range(r.randint(1, 6)):
            i = r.choice(its + [3, 77, 4000, 10 ** 10 - 1])
            b = os.path.join(d, 'res_0000' if dirs else '', r.choice(['T.%010d.ave', 'T.ave.%010d', 'T2.%010d', 'xT.%010d', 'T%010d', 'T.%09d', 'T.%011d', 'T.%010d.001', 'T_%010d', 'Tave.%010d', 't.%010d',
                                                                         'T.%010d.meta', 'T.%010dx', 'T.x%010d', '.T.%010d', 'T..%010d', 'T-T.%010d.001.001', 'T.T.%010d.001.001']) % (i if r.random() < .7 else 77))
            if not re.search(r'/T\.\d{10}(\.\d{3}\.\d{3})?$', b) and not os.path.exists(b + '.meta') and (not tl or '.%010d.001' % i != b[-15:]):
                mdsref.put(b, mdsref.values(c['seed'] + 99, (nrec,) + dims, c['prec']), c['prec'], tp, step=i)
                mon.count('decoys')
    path = os.path.join(d, 'res_*', 'T') if dirs else os.path.join(d, 'T')
    kw = dict(machineformat=c['mf'], fill_value=c['fill'])
    if c['seed'] % 3 and c['fill'] == 0:            # left to their defaults
        del kw['fill_value']
        mon.count('default_fill', bool(tl and c['missing'] and len(its)))
    if c['seed'] % 3 and c['mf'] == 'b':
        del kw['machineformat']
        mon.count('default_order')
    if c['astype'] != 'default':
        kw['astype'] = None if c['astype'] is None else float if c['astype'] == 'float' else c['astype']
    if c['mm']:
        kw[c['mm']] = True
    if c['meta']:
        kw['returnmeta'] = True
    asked = list(its)
    if c['its'] is None:
        args = ()
    elif c['its'] == 'one':
        args = (its[0],)
    elif c['its'] in ('list', 'tuple'):
        r.shuffle(asked)
        if c['seed'] % 6 == 0:      # some more than once
            asked += [r.choice(asked) for _ in range(r.randint(1, 2))]
            mon.count('repeated')
        args = (asked,) if c['its'] == 'list' else (tuple(asked),)
    else:
        mon.count('scans')
        args = (np.nan if c['its'] == 'all' else np.inf,)
        asked = its if c['its'] == 'all' else its[-1:]
    with mon.oracle('rdmds'):
        res = mon.call('rdmds', sg.mds.rdmds, path, *args, **kw)
        got = res[0] if c['meta'] else res
        if c['meta']:
            if c['its'] is not None:
                mon.check([int(x) for x in res[1]] == asked, 'iterations returned %r, read %r' % (list(res[1]), asked))
                if c['times']:
                    t = [[float(x) for x in np.ravel(v)] for v in res[2].get('timeinterval', [])]
                    mon.count('time_intervals', len(asked))
                    mon.check(t == [times[k] for k in asked], 'time intervals returned %r, read %r' % (t, [times[k] for k in asked]))
                mon.check(list(res[2].get('timestepnumber', [])) == asked, 'time step numbers returned %r, read %r' % (res[2].get('timestepnumber'), asked))
        w = np.array([want[k] for k in asked])
        mon.count('fields_read')
        mon.count('iterations', len(asked))
        if w.shape[1] == 1:
            w = w[:, 0]
        if w.shape[0] == 1:
            w = w[0]
        tpw = {'default': 'f8', 'float': 'f8', 'f4': 'f4', 'i8': 'i8', '>f8': '>f8', None: mdsref.PRECS[c['prec']]}[c['astype']]
        mon.check(got.dtype.kind == ('i' if tpw == 'i8' else 'f') and got.dtype.itemsize == int(tpw[-1]), 'element type is %s, requested %s' % (got.dtype, c['astype']))
        w = w.astype(tpw)
        if mon.check(np.shape(got) == w.shape, 'shape is %s, expected %s' % (np.shape(got), w.shape)):
            bad = ~((got == w) | (np.isnan(got) & np.isnan(w)))
            mon.check(not bad.any(), 'values misplaced in the assembled field', where=np.argwhere(bad)[:4].tolist(), got=got[bad][:4].tolist(), want=w[bad][:4].tolist(), mode=mode)
