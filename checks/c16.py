"""C16: regrid aligns the result with the user-given NW/SE corners."""
import numpy as np
from vlib import cmp, geo, gridmon, mit, work
from vlib.sut import sg

RULE = ('each request is run on all four index rotations of the same source tile (both handednesses, ni != nj, unequal subdivision '
        'counts; some of thousands of points), for all four choices of the corner called northwest; the results must be one and the same grid with the given '
        'positions at their documented indices; distinct = (source size, block, corner, subdivisions, route)')
MIN = {'rotations': 800, 'orientations': 4, 'unequal': 100, 'big_tiles': 24}
ASSUME = []


def cases(r, tier):
    for k in range(8 if tier == 'quick' else 60):        # many points
        d, b = work.big_tile(r, *((90, 60) if k % 4 else (260, 120)))
        yield dict(op='regrid', tile=d, block=b, ls=r.randint(1, 3), ms=r.randint(1, 3), layout=r.choice(work.LAYOUTS), route=r.choice(['mem', 'file', 'xy']), big=True)
    for k in range(260 if tier == 'quick' else 6000):
        d = work.tile_desc(r, nopole=False)
        b = work.block_desc(r, d)
        n, m = b['i1'] - b['i0'], b['j1'] - b['j0']
        ls, ms = work.subscales(r, 4)
        while n * ls * m * ms > 60:
            ls, ms = max(1, ls - 1), max(1, ms - 1)
        yield dict(op='regrid', tile=d, block=b, ls=ls, ms=ms, layout=r.choice(work.LAYOUTS),
                   route=r.choice(['mem', 'mem', 'file', 'xy', 'csv']))


def run(c, mon):
    first = None
    if c['ls'] != c['ms']:
        mon.count('unequal')
    mon.count('orientations')
    for turn in range(4):
        b = dict(c['block'], turn=turn)
        s = work.Selection(c['tile'], b)
        ref = mit.reference(s.BX, s.BY, c['ls'], c['ms'])
        r = mon.call('regrid (source turned %d x 90 degrees)' % turn, work.call_grid, sg, dict(c, block=b), s, mon.tmp())
        mon.count('rotations')
        mon.count('big_tiles', c.get('big', False))
        mon.seen(c['tile']['ni'], c['tile']['nj'], b['i0'], b['i1'], b['j0'], b['j1'], b['corner'], turn, c['ls'], c['ms'], c['route'])
        with mon.oracle('regrid'):
            g, ni, nj = r
            n, m = s.BX.shape[0] - 1, s.BX.shape[1] - 1
            mon.require(int(ni) == n * c['ls'] and int(nj) == m * c['ms'],
                        'turn %d: ni,nj = %s,%s, expected %d,%d' % (turn, ni, nj, n * c['ls'], m * c['ms']))
            if not gridmon.shapes(mon, g, n * c['ls'], m * c['ms']):
                return
            nw = (float(g['XG'][0, -1]), float(g['YG'][0, -1]))
            se = (float(g['XG'][-1, 0]), float(g['YG'][-1, 0]))
            mon.check(nw == (s.BX[0, -1], s.BY[0, -1]), 'turn %d: first position is not at minimum i, maximum j' % turn,
                      got=nw, want=(s.BX[0, -1], s.BY[0, -1]))
            mon.check(se == (s.BX[-1, 0], s.BY[-1, 0]), 'turn %d: second position is not at maximum i, minimum j' % turn,
                      got=se, want=(s.BX[-1, 0], s.BY[-1, 0]))
            if first is None:
                first = g
            else:
                cmp.same_grid(mon, g, first, 'source turned %d times' % turn, ref)
