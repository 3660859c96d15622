"""C05: lon/lat to Cartesian conversion is exact on the sphere."""
import numpy as np
from vlib import work
from vlib.sut import sg

RULE = ('random and special longitude/latitude matrices (any winding, poles, quadrant boundaries) of all shapes and memory layouts, in double and single precision and as integers, '
        'default and explicit radii (also zero, negative, integers, tiny and huge); badly shaped pairs must be refused; distinct = (shape, layout, radius, kind)')
MIN = {'points': 2000, 'refusals': 40, 'radius': 100, 'other_types': 100, 'mixed_layouts': 60, 'meshes': 80}
ASSUME = ['agreement within 2e-14 times the radius (2e-6 for single precision input)']


def cases(r, tier):
    for k in range(600 if tier == 'quick' else 20000):
        n, m = [r.choice([1, 2, 3, r.randint(1, 9)]) for _ in (0, 1)]
        if r.random() < .05:
            n, m = r.choice([(work.large(r), m), (work.large(r, 90), r.randint(2, 40)), (n, work.large(r)), (work.large(r), work.large(r)), (n, r.choice([999, 1000, 1024, 4096, 5000]))])
        yield dict(n=n, m=m,
                   seed=r.randint(0, 2 ** 31), layout=r.choice(work.LAYOUTS), layout2=r.choice([None, None, r.choice(work.LAYOUTS)]), kind=r.choice(['any', 'special', 'tiny', 'mesh']),
                   tp=r.choice(['f8'] * 6 + ['i8', 'i4', 'f4', 'f8i8', 'i8f8', '>f8']),
                   rad=r.choice([None, None, 1., 2., 6370997., 1e-3, .5, 0., 0, 3, -2., 1e-200, 1e200, 'f4', 'i4', 'one']), how=r.choice(['pos', 'kw']),
                   bad=r.choice([None] * 5 + ['1d', '3d', 'shape', 'transposed', '0d']))


def run(c, mon):
    r = np.random.RandomState(c['seed'])
    sh = (c['n'], c['m'])
    if c['kind'] == 'special':
        lon = np.array([-540., -360., -270., -180., -90., -0., 0., 45., 90., 180., 270., 360., 450., 720.])[r.randint(0, 14, sh)]
        lat = np.array([-90., -45., -0., 0., 30., 89.999999, 90.])[r.randint(0, 7, sh)]
    elif c['kind'] == 'tiny':
        lon, lat = r.uniform(-1e-6, 1e-6, sh), r.uniform(-1e-6, 1e-6, sh)
    else:
        lon, lat = r.uniform(-540., 720., sh), r.uniform(-90., 90., sh)
    lon, lat = np.array(lon), np.array(lat)
    if c['kind'] == 'mesh':             # a meridian/parallel grid, some points of which may deviate
        lon, lat = np.meshgrid(lon[:, 0], lat[0], indexing='ij')
        if c['seed'] % 3 == 0:
            lon, lat = np.meshgrid(lon[:, 0], lat[0], indexing='xy') if lon.shape[0] == lon.shape[1] else (lon.copy(), lat.copy())
        lon, lat = lon.copy(), lat.copy()
        mon.count('meshes')
        for a in (lon, lat):
            for _ in range(r.choice([0, 0, 1, 2])):
                i, j = r.randint(0, sh[0]), r.randint(0, sh[1])
                w = r.choice(['point', 'row', 'column', 'rows'])
                at = {'point': (i, j), 'row': (i, slice(None)), 'column': (slice(None), j), 'rows': (slice(i, None), slice(None))}[w]
                a[at] *= r.uniform(.5, 1.)
    t1, t2 = (c['tp'][:2], c['tp'][2:]) if len(c['tp']) == 4 else (c['tp'], c['tp'])
    if t1[-2] == 'i':
        lon = np.rint(lon)
    if t2[-2] == 'i':
        lat = np.rint(lat)
    lon, lat = lon.astype(t1), lat.astype(t2)
    mon.count('other_types', c['tp'] != 'f8')
    tol = 2e-14 if 'f4' not in c['tp'] else 2e-6
    mon.seen(sh, c['layout'], c['layout2'], c['kind'], c['rad'], c['bad'], c['tp'])
    if c['bad']:
        a, b = {'1d': (lon.ravel(), lat.ravel()), '3d': (lon[None], lat[None]), 'shape': (lon, np.zeros((c['n'] + 1, c['m']))),
                'transposed': (np.zeros((2, 3)), np.zeros((3, 2))), '0d': (np.array(1.), np.array(2.))}[c['bad']]
        if r.uniform() < .5:
            a, b = b, a
        mon.call_raises('lonlat2cart(%s)' % c['bad'], ValueError, sg.util.lonlat2cart, a, b)
        return
    a, b = work.layout_as(lon, c['layout']), work.layout_as(lat, c['layout2'] or c['layout'])
    mon.count('mixed_layouts', c['layout2'] not in (None, c['layout']))
    if c['rad'] is None:
        got, rad = mon.call('lonlat2cart', sg.util.lonlat2cart, a, b), 1.
    else:
        # (single precision cannot hold the extremes)
        rad = {'f4': np.float32(1.5), 'i4': np.int32(6371), 'one': np.array(2.5)}.get(c['rad'], c['rad'] if 'f4' not in c['tp'] or c['rad'] not in (1e-200, 1e200) else 1e-3)
        mon.count('radius')
        got = mon.call('lonlat2cart', sg.util.lonlat2cart, a, b, **{'rad': rad}) if c['how'] == 'kw' else \
            mon.call('lonlat2cart', sg.util.lonlat2cart, a, b, rad)
    x, y = np.radians(lon.astype('g')), np.radians(lat.astype('g'))
    want = np.stack([np.cos(y) * np.cos(x), np.cos(y) * np.sin(x), np.sin(y)], -1) * np.longdouble(rad)
    with mon.oracle('lonlat2cart'):
        mon.require(got.shape == sh + (3,), 'shape %s, expected %s' % (got.shape, sh + (3,)))
        e = np.abs(got - want) / abs(float(rad) or 1.)
        mon.count('points', lon.size)
        if tol < 1e-9:
            mon.peak('max error / radius', e.max())
        mon.check(bool(np.all(e <= tol)), 'point is not where the sphere of radius %g has it' % float(rad),
                  worst=float(e.max()), at=np.argwhere(~(e <= tol))[:2].tolist())
