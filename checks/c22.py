"""C22: the strip next to the shared edge and its join slice."""
import numpy as np
import pyproj
from vlib import geo, mit, work
from vlib.sut import sg

RULE = ('two tiles cut from one random curvilinear tile in all four arrangements, second tile one cell deep or deeper, either longitude '
        'convention; the strip is compared with an independent great-circle construction; distinct = (arrangement, sizes, conventions)')
MIN = {'strips': 400, 'strip_points': 2500, 'shallow': 80, 'deep': 80}
ASSUME = ['arcs shorter than 180 degrees']


def cases(r, tier):
    for k in range(500 if tier == 'quick' else 10000):
        c = work.pair_desc(r)
        if r.random() < .2:
            n = c['tile']['ni'] if c['side'] in 'EW' else c['tile']['nj']
            c['cut'] = r.choice([1, n - 1])
        c['layout'] = r.choice(work.LAYOUTS)
        yield c


def run(c, mon):
    p = work.pair(c)
    geod = pyproj.Geod(ellps='sphere')
    mon.seen(p.side, p.na, p.nb, c['tile']['conv'], c['convb'], c['layout'])
    arr = [work.layout_as(a, c['layout']) for a in (p.aXG, p.aYG, p.bXG, p.bYG)]
    r = mon.call('matchedges', sg.matchedges.matchedges, *arr, geod)
    with mon.oracle('matchedges'):
        xs, ys, js = np.asarray(r[4]), np.asarray(r[5]), r[6]
        eA, nB = p.edge('a'), p.next_line()
        depth = p.nb[0 if p.side in 'EW' else 1]
        mon.count('shallow' if depth == 1 else 'deep')
        n = p.aXG[eA].size
        mon.count('strips')
        mon.require(xs.shape == (2 * n - 1,) and ys.shape == (2 * n - 1,), 'strip has shapes %s, %s for an edge of %d points' % (xs.shape, ys.shape, n))
        LX, LY = [p.aXG[eA], p.bXG[nB]], [p.aYG[eA], p.bYG[nB]]
        if p.side in 'WS':
            LX, LY = LX[::-1], LY[::-1]
        if p.side in 'EW':
            V = mit.compute_points(np.array(LX), np.array(LY), 1, 1)[1, :]
        else:
            V = mit.compute_points(np.array(LX).T, np.array(LY).T, 1, 1)[:, 1]
        e = geo.angle(geo.vec(xs, ys), V)
        mon.count('strip_points', e.size)
        mon.peak('max strip position error (rad)', e.max())
        mon.check(bool(np.all(e <= 1e-12)), 'strip is off the midpoints between the shared edge and the next line of the second tile',
                  worst=float(np.nanmax(e)), side=p.side)
        ringed = np.arange((2 * p.na[0] + 3) * (2 * p.na[1] + 3)).reshape(2 * p.na[0] + 3, 2 * p.na[1] + 3)
        want = {'E': ringed[-1, 1:-1], 'W': ringed[0, 1:-1], 'N': ringed[1:-1, -1], 'S': ringed[1:-1, 0]}[p.side]
        mon.check(np.array_equal(ringed[js], want), 'join slice does not address the %s side of the ringed grid' % p.side)
        put = np.zeros(ringed.shape)
        put[js] = xs
        mon.check(np.array_equal(put.ravel()[want], xs), 'strip does not fit its join slice')
