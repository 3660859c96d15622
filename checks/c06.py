"""C06: nearest-point search returns a true nearest neighbour."""
import numpy as np
import pyproj
from vlib import geo, work
from vlib.sut import sg

RULE = ('random queries (grid points, off-grid, poles, dateline, antipodes, either convention and winding) on curvilinear, rotated, '
        'global and scattered lon/lat matrices in all memory layouts, on spheres of different radius; every distance is recomputed '
        'independently; distinct = (matrix kind and shape, layout, query kind)')
MIN = {'queries': 800, 'refusals': 40, 'across': 60, 'with_undefined': 60, 'very_many_points': 3}
ASSUME = ['ties may be resolved either way', 'distances agree within 1e-12 of the sphere radius (3e-8 near antipodes)']


def cases(r, tier):
    for k in range(900 if tier == 'quick' else 15000):
        kind = r.choice(['tile', 'tile', 'global', 'scatter', 'dateline', 'pole', 'point'])
        c = dict(kind=kind, seed=r.randint(0, 2 ** 31), layout=r.choice(work.LAYOUTS), turn=r.randint(0, 3),
                 n=r.randint(1, 8), m=r.randint(1, 8), rad=r.choice([None, None, None, 1., 1000., 3.4e6]),
                 bad=r.choice([None] * 9 + ['1d', 'shape', '3d']), blank=r.random() < .15,
                 tp=r.choice(['f8'] * 12 + ['f4', 'i4', 'i2', 'f8i8', 'i4f8', 'f4f8']))
        if r.random() < .03:            # many points
            c['n'], c['m'] = r.choice([(work.large(r, 90), work.large(r, 60)), (work.large(r), r.randint(1, 4)), (r.randint(1, 4), work.large(r))])
        if k % 300 == 7:                # very many points
            kind = c['kind'] = r.choice(['scatter', 'scatter', 'tile'])
            c.update(n=r.randint(180, 260), m=r.randint(180, 260), tp='f8', bad=None, few=True)
        if kind in ('tile', 'dateline'):
            c['tile'] = work.tile_desc(r) if max(c['n'], c['m']) < 9 else work.tile_desc(r, ni=c['n'], nj=c['m'])
            if kind == 'dateline':
                c['tile']['clon'] = 180.
        yield c


def run(c, mon):
    r = np.random.RandomState(c['seed'])
    if c['kind'] in ('tile', 'dateline'):
        X, Y = work.tile(c['tile'])
    elif c['kind'] == 'global':
        X, Y = np.meshgrid(np.linspace(-180, 180, 2 * c['n'] + 1), np.linspace(-90, 90, 2 * c['m'] + 1), indexing='ij')
    elif c['kind'] == 'pole':
        X, Y = r.uniform(-180, 180, (c['n'], c['m'])), r.choice([-1, 1]) * r.uniform(86, 90, (c['n'], c['m']))
    elif c['kind'] == 'point':
        X, Y = r.uniform(-180, 180, (1, 1)), r.uniform(-90, 90, (1, 1))
    else:
        X, Y = r.uniform(-360, 360, (c['n'], c['m'])), np.degrees(np.arcsin(r.uniform(-1, 1, (c['n'], c['m']))))
    X, Y = np.rot90(X, c['turn']), np.rot90(Y, c['turn'])
    if c['tp'] != 'f8':                 # other element types
        mon.count('other_types')
        t1, t2 = (c['tp'][:2], c['tp'][2:]) if len(c['tp']) == 4 else (c['tp'], c['tp'])
        X, Y = X.astype(t1), Y.astype(t2)
    elif c['blank'] and X.size > 1:          # undefined points
        X, Y = np.array(X), np.array(Y)
        k = r.permutation(X.size)[:r.randint(1, X.size)]
        X.flat[k] = Y.flat[k] = np.nan
        mon.count('with_undefined')
    geod = pyproj.Geod(ellps='sphere') if c['rad'] is None else pyproj.Geod(a=c['rad'], b=c['rad'])
    rad = geod.a
    A, B = work.layout_as(X, c['layout']), work.layout_as(Y, c['layout'])
    if c['bad']:
        A2 = {'1d': A.ravel(), '3d': A[None], 'shape': np.zeros((A.shape[0] + 1, A.shape[1]))}[c['bad']]
        B2 = {'1d': B.ravel(), '3d': B[None], 'shape': B}[c['bad']]
        mon.seen('bad', c['bad'])
        mon.call_raises('nearest(%s)' % c['bad'], ValueError, sg.util.nearest, 0., 0., A2, B2, geod)
        return
    P = geo.vec(X, Y)
    queries = []
    ij = np.argwhere(np.isfinite(X))
    ij = tuple(ij[r.randint(len(ij))])
    queries.append(('exact', X[ij], Y[ij]))
    queries.append(('wound', X[ij] + r.choice([-360, 360]), Y[ij]))
    s = max(1e-9, float(np.degrees(np.ptp(P[np.isfinite(X)], axis=0).max())))
    queries.append(('near', X[ij] + s * r.uniform(-.5, .5), float(np.clip(Y[ij] + s * r.uniform(-.5, .5), -90, 90))))
    queries.append(('far', r.uniform(-180, 360), r.uniform(-90, 90)))
    queries.append(('pole', r.uniform(-180, 180), r.choice([-90., 90.])))
    queries.append(('dateline', r.choice([180., -180., 179.9999, -179.9999]), float(Y[ij])))
    queries.append(('antipode', X[ij] + 180., -Y[ij]))
    if c.get('few'):
        mon.count('very_many_points')
        queries = [queries[k] for k in r.permutation(len(queries))[:3]]
    for what, x, y in queries:
        res = mon.call('nearest', sg.util.nearest, float(x), float(y), A, B, geod)
        mon.count('queries')
        mon.seen(c['kind'], X.shape, c['layout'], c['turn'], what)
        with mon.oracle('nearest'):
            i, j, d = res
            D = rad * geo.angle(geo.vec(x, y)[None, None], P)
            tol = 1e-12 * rad + 1e-9 * np.nanmin(D)
            if what == 'antipode' or np.nanmax(D) > .99 * np.pi * rad:
                tol = tol + 3e-8 * rad
            mon.require(0 <= i < X.shape[0] and 0 <= j < X.shape[1] and int(i) == i and int(j) == j,
                        'indices (%r,%r) outside the matrix' % (i, j))
            if abs(x - X[i, j]) > 180.:
                mon.count('across')
            mon.peak('max distance error / radius', abs(float(d) - D[i, j]) / rad)
            mon.check(abs(float(d) - D[i, j]) <= tol, 'distance %r, but the point at (%d,%d) is %r away' % (float(d), i, j, float(D[i, j])))
            mon.check(D[i, j] <= np.nanmin(D) + 2 * tol, 'point (%d,%d) at %r is not the nearest: %s at %r' % (
                i, j, float(D[i, j]), np.unravel_index(np.nanargmin(D), D.shape), float(np.nanmin(D))))
