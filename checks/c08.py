"""C08: mkgrid puts the requested corners at the requested places."""
import numpy as np
from vlib import gridmon, work
from vlib.sut import sg

RULE = ('random corner pairs (four diagonal orders, across Greenwich/dateline, both longitude conventions, also one for each corner, spans 3e-4..110 '
        'degrees) with unequal subdivision counts; distinct = (subdivisions, corner order, longitude/latitude bin)')
MIN = {'corners': 400, 'mixed_conventions': 60}
ASSUME = ['regions span less than 180 degrees of longitude']


def cases(r, tier):
    for _ in range(500 if tier == 'quick' else 8000):
        c = work.region(r, pole=r.random() < .03)
        c['ls'], c['ms'] = work.subscales(r, 9 if tier == 'quick' else 14)
        if r.random() < .05:
            c['ls'], c['ms'] = (r.randint(15, 40), r.randint(1, 2))[::r.choice([1, -1])]
        if r.random() < .2:                # corners given in different conventions
            c[r.choice(['lon1', 'lon2'])] += r.choice([-360., 360.])
            c['mixed'] = True
        yield c


def run(c, mon):
    c = dict(c, op='mkgrid')
    mon.count('mixed_conventions', bool(c.get('mixed')))
    r = mon.call('mkgrid', work.call_grid, sg, c, None, None)
    with mon.oracle('mkgrid'):
        g, ni, nj = r
        mon.require(int(ni) == c['ls'] and int(nj) == c['ms'], 'ni,nj = %s,%s for %d x %d subdivisions' % (
            ni, nj, c['ls'], c['ms']))
        if not gridmon.shapes(mon, g, c['ls'], c['ms']):
            return
        want = {(0, -1): (c['lon1'], c['lat1']), (-1, 0): (c['lon2'], c['lat2']),
                (0, 0): (c['lon1'], c['lat2']), (-1, -1): (c['lon2'], c['lat1'])}
        for ij, (x, y) in want.items():
            mon.count('corners')
            mon.check(float(g['XG'][ij]) == x and float(g['YG'][ij]) == y,
                      'corner %s is (%r,%r), expected (%r,%r)' % (ij, float(g['XG'][ij]), float(g['YG'][ij]), x, y))
        mon.seen(c['ls'], c['ms'], c['lon1'] < c['lon2'], c['lat1'] < c['lat2'],
                 int(c['lon1'] // 20), int(c['lat1'] // 10))
