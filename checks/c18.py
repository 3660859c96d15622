"""C18: refinement conserves region area and is consistent across levels."""
import os
import numpy as np
from vlib import cmp, geo, gridmon, mit, work
from vlib.sut import sg

RULE = ('pipelines mkgrid/tile -> regrid -> regrid, by random subdivision counts, through memory or files; corner points, cell areas '
        'and (for a refined one-cell mkgrid grid) all sixteen matrices are compared across levels; distinct = (start, sizes, counts, '
        'transport)')
MIN = {'refinements': 500, 'one_cell': 80, 'identity': 60, 'area_sums': 250, 'cell_sums': 1000, 'many': 6}
ASSUME = ['areas compared within the rounding bounds plus the faceted/spherical difference of the levels']


def cases(r, tier):
    for k in range(300 if tier == 'quick' else 6000):
        c = dict(start=r.choice(['one', 'mkgrid', 'tile']), file=r.random() < .4)
        if c['start'] == 'tile':
            c['tile'] = work.tile_desc(r, nmax=3)
        else:
            c['region'] = work.region(r)
            c['n0'] = (1, 1) if c['start'] == 'one' else work.subscales(r, 3)
        c['f1'] = work.subscales(r, 3)
        c['f2'] = r.choice([(1, 1), work.subscales(r, 2)])
        if k % 30 == 11:        # into very many cells
            n = r.randint(40, 160)
            c.update(f1=r.choice([(n, 1), (1, n), (n, 2)]), f2=(1, 1))
        yield c


def through(mon, g, ni, nj, use_file, k):
    if not use_file:
        return dict(mitgrid_matrices=g)
    p = os.path.join(mon.tmp(), 'level%d.mitgrid' % k)
    mon.call('write', sg.gridio.write_mitgridfile, p, g, ni, nj)
    return dict(mitgridfile=p, ni=ni, nj=nj)


def corners(g):
    X, Y = np.asarray(g['XG']), np.asarray(g['YG'])
    return dict(lon1=float(X[0, -1]), lat1=float(Y[0, -1]), lon2=float(X[-1, 0]), lat2=float(Y[-1, 0]))


def run(c, mon):
    if c['start'] == 'tile':
        X, Y = work.tile(c['tile'])
        ni, nj = c['tile']['ni'], c['tile']['nj']
        g = mit.full_mats(mit.reference(X, Y, 1, 1))
        g['XG'], g['YG'] = X, Y
        first = None
    else:
        rg = c['region']
        g, ni, nj = mon.call('mkgrid', sg.mkgrid.mkgrid, lon1=rg['lon1'], lat1=rg['lat1'], lon2=rg['lon2'], lat2=rg['lat2'],
                             lon_subscale=c['n0'][0], lat_subscale=c['n0'][1])
        X, Y = np.array(g['XG']), np.array(g['YG'])
    mon.seen(c['start'], ni, nj, c['f1'], c['f2'], c['file'])
    base = mit.reference(X, Y, 1, 1)
    # true spherical and faceted area of the region at this level
    total = float(base.four('RAC', base.S).sum())
    for lev, (a, b) in enumerate((c['f1'], c['f2'])):
        X0, Y0 = np.array(g['XG'], 'f8'), np.array(g['YG'], 'f8')
        src = g
        r = mon.call('regrid level %d' % lev, sg.regrid.regrid, lon_subscale=a, lat_subscale=b,
                     **dict(corners(g), **through(mon, g, ni, nj, c['file'], lev)))
        mon.count('refinements')
        with mon.oracle('regrid'):
            g, n2, m2 = r
            mon.require((int(n2), int(m2)) == (ni * a, nj * b), 'level %d: %s,%s cells, expected %d,%d' % (lev, n2, m2, ni * a, nj * b))
            ni, nj = ni * a, nj * b
            if not gridmon.shapes(mon, g, ni, nj):
                return
            mon.check(mit.same_bits(g['XG'][::a, ::b], X0) and mit.same_bits(g['YG'][::a, ::b], Y0),
                      'level %d: corner points of the coarser grid moved' % lev)
            if (a, b) == (1, 1):
                mon.count('identity')
                mon.check(mit.same_bits(g['XG'], X0) and mit.same_bits(g['YG'], Y0), 'regridding by (1,1) changed corner points')
            ref = mit.reference(X0, Y0, a, b)
            br = ref.branch()
            mon.count('many', max(a, b) >= 40)
            if br is not None:
                w, t = ref.area('RAC', br)
                tol = t.sum() + 1e-9 * total
                if br == 'planar':
                    tol += abs(ref.four('RAC', ref.Pl).sum() - ref.four('RAC', ref.S).sum()) + ref.four('RAC', ref.PB).sum()
                if np.isfinite(tol) and tol < .05 * total:
                    mon.count('area_sums')
                    got = float(np.sum(g['RAC']))
                    mon.peak('relative area drift', abs(got - total) / total)
                    mon.check(abs(got - total) <= tol, 'level %d: refined areas sum to %r, the region has %r' % (lev, got, total), tol=float(tol))
                # and so do those of each single cell
                cell = lambda x: x.reshape(ni // a, a, nj // b, b).sum((1, 3))
                one = mit.reference(X0, Y0, 1, 1)
                want = one.four('RAC', one.S)
                tol = cell(t) + 1e-9 * want
                if br == 'planar':
                    tol = tol + np.abs(cell(ref.four('RAC', ref.Pl)) - cell(ref.four('RAC', ref.S))) + cell(ref.four('RAC', ref.PB))
                ok = np.isfinite(tol) & (tol < .05 * want)
                mon.count('cell_sums', ok.sum())
                mon.check(bool(np.all(np.abs(cell(np.asarray(g['RAC'], 'f8')) - want)[ok] <= tol[ok])),
                          'level %d: the areas of the parts of a cell do not sum to that of the cell' % lev)
            if c['start'] == 'one' and lev == 0:
                mon.count('one_cell')
                rg = c['region']
                direct = mon.call('mkgrid', sg.mkgrid.mkgrid, lon1=rg['lon1'], lat1=rg['lat1'], lon2=rg['lon2'], lat2=rg['lat2'],
                                  lon_subscale=a, lat_subscale=b)[0]
                cmp.same_grid(mon, g, direct, 'refined single cell vs mkgrid', ref)
