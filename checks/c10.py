"""C10: output longitudes keep the convention of the input region."""
import numpy as np
from vlib import gridcheck, gridmon, work

RULE = ('mkgrid regions and regrid blocks concentrated on the dateline, Greenwich and the convention boundaries (-180, 0, 180, '
        '360), in both conventions, and tiles standing on a corner beside Greenwich or the dateline or bending across them between their ends; distinct = (operation, convention, position bin, size)')
MIN = {'longitudes': 2000, 'across': 60, 'mixed_away_from_corners': 20, 'from_greenwich': 15, 'mixed_within_sides': 12}
ASSUME = ['regions do not contain a pole']


def cases(r, tier):
    for _ in range(80 if tier == 'quick' else 1500):
        # a tile standing on a corner, with Greenwich or the dateline just beside two of its corners
        c = work.grid_case(r)
        while c['op'] != 'regrid':
            c = work.grid_case(r)
        t = work.tile_desc(r)
        t.update(psi=r.choice([45., -45., 135., -135.]) + r.uniform(-12., 12.), clat=r.uniform(-50., 50.), conv=r.choice(['pm', 'pm', '360']),
                 dx=min(t['dx'], 3.), clon=r.choice([0., 0., 180.]), asp=r.uniform(.8, 1.25) * t['ni'] / t['nj'])
        t['dx'] = min(t['dx'], 20. / max(t['ni'], t['nj'] * t['asp']))
        t['clon'] += r.choice([-1, 1]) * r.uniform(.05, .4) * t['dx'] * t['ni']
        c.update(tile=t, block=work.block_desc(r, t, whole=r.random() < .7), ls=r.randint(1, 3), ms=r.randint(1, 3))
        yield c
    for _ in range(60 if tier == 'quick' else 1200):
        # a tile whose western or eastern side bends across Greenwich or the dateline between its ends
        c = work.grid_case(r)
        while c['op'] != 'regrid':
            c = work.grid_case(r)
        t = work.tile_desc(r, ni=r.randint(1, 4), nj=r.randint(2, 6))
        t.update(psi=r.choice([0., 180., 90.]) + r.uniform(-2., 2.), clat=r.uniform(-40., 40.), conv=r.choice(['pm', 'pm', '360']), jit=0.,
                 dx=min(t['dx'], 2.), asp=r.uniform(.8, 1.25), clon=0., stretch=0., bow=[r.choice([-1, 1]) * r.uniform(.4, .9), r.choice([-1, 1]) * r.uniform(.4, .9)])
        t.pop('snap', None)
        t.pop('latlon', None)
        t['dx'] = min(t['dx'], 20. / max(t['ni'], t['nj'] * t['asp']))
        B = work.tile(t)[0]
        B = np.where(B > 180., B - 360., B)
        k = r.randrange(4)
        line = (B[0], B[-1], B[:, 0], B[:, -1])[k]         # (one of the sides touches Greenwich in its middle)
        lo, hi = sorted((line[0], line[line.size // 2]))
        t['clon'] = r.choice([0., 0., 180.]) - r.uniform(lo, hi)
        c.update(tile=t, block=work.block_desc(r, t, whole=r.random() < .9), ls=r.randint(1, 3), ms=r.randint(1, 3))
        yield c
    for _ in range(500 if tier == 'quick' else 9000):
        if r.random() < .6:
            c = work.region(r, kind=r.choice(['greenwich', 'greenwich360', 'dateline', 'dateline360', 'edge0', 'edge180']))
            c['op'] = 'mkgrid'
            c['ls'], c['ms'] = work.subscales(r, 6)
            yield c
        else:
            c = work.grid_case(r)
            if c['op'] == 'regrid' and r.random() < .7:
                c['tile']['clon'] = r.choice([0., 180.]) + r.uniform(-.5, .5) * c['tile']['dx']
            yield c


def run(c, mon):
    o = gridcheck.Obs(c, mon)
    neg = o.XG < 0.
    mon.count('mixed_within_sides', bool(neg.any() and (not neg[0].any() and not neg[-1].any() or not neg[:, 0].any() and not neg[:, -1].any())))
    if neg.any() and not (neg[0, 0] or neg[-1, -1]) or neg.any() and not (neg[0, -1] or neg[-1, 0]):
        mon.count('mixed_away_from_corners')
    if np.ptp(o.XG) > 180.:
        mon.count('across')
    with mon.oracle('longitudes'):
        gridmon.convention(mon, o.g, o.XG)
        if c['op'] == 'mkgrid':
            gridmon.span(mon, o.g, o.XG)
