"""C21: edge matching finds the true common edge."""
import numpy as np
import pyproj
from vlib import geo, work
from vlib.sut import sg

RULE = ('two tiles cut from one random curvilinear tile in all four arrangements, either tile in either longitude convention; the corner '
        'points of B are displaced by a factor of the configured tolerance between 0 and 30, at one or both ends of the edge; the '
        'configured tolerance itself is changed; distinct = (arrangement, sizes, displacement class, tolerance, conventions)')
MIN = {'matched': 400, 'beyond': 80, 'swapped': 400, 'tol_changed': 80, 'dateline': 10}
ASSUME = ['points displaced by 0.7 to 1.4 times the tolerance are not judged']


def cases(r, tier):
    for k in range(700 if tier == 'quick' else 12000):
        c = work.pair_desc(r)
        c['tol'] = r.choice([None, None, 1e-6, 1e-4, 3e-3, 1e-8])
        c['factor'] = r.choice([0., 0., .5, .65, 1.5, 3., 30.])
        c['ends'] = r.choice([[0], [1], [0, 1]])
        c['dirs'] = [r.uniform(0, 2 * np.pi), r.uniform(0, 2 * np.pi)]
        c['verbose'] = r.random() < .05
        yield c


def run(c, mon):
    p = work.pair(c)
    old = sg.config.POINTS_ARE_CLOSE_ENOUGH
    geod = pyproj.Geod(ellps='sphere')
    try:
        if c['tol'] is not None:
            sg.config.POINTS_ARE_CLOSE_ENOUGH = c['tol']
            mon.count('tol_changed')
        tol = sg.config.POINTS_ARE_CLOSE_ENOUGH
        diag = 0.
        for X, Y in ((p.aXG, p.aYG), (p.bXG, p.bYG)):
            V = geo.vec(X, Y)
            diag += (geo.dist(V[0, 0], V[-1, -1]) + geo.dist(V[0, -1], V[-1, 0])) / 4.
        # every displacement must stay far below the cell size and above rounding
        step = c['factor'] * tol * diag
        cell = geo.R * min(work.min_spacing(geo.vec(p.UX, p.UY)), 1.)
        if step > .2 * cell:
            step = 0.
        if tol * diag < 1e-6:                 # below longitude rounding: out of reach
            sg.config.POINTS_ARE_CLOSE_ENOUGH = tol = old
            step = 0.
        eB = p.edge('b')
        EX, EY = p.bXG[eB].copy(), p.bYG[eB].copy()
        if step:
            for n in c['ends']:
                k = -n
                t = c['dirs'][n]
                a = np.degrees(step / geo.R)
                EX[k] += a * np.cos(t) / np.cos(np.radians(EY[k]))
                EY[k] += a * np.sin(t)
            p.bXG[eB], p.bYG[eB] = EX, EY
        beyond = step > 0. and c['factor'] > 1.
        mon.seen(p.side, p.na, p.nb, bool(step), c['factor'] if step else 0, tol, c['tile']['conv'], c['convb'], c['ends'])
        if np.ptp(p.UX) > 180.:
            mon.count('dateline')
        args = (p.aXG, p.aYG, p.bXG, p.bYG)
        gra = (p.bXG, p.bYG, p.aXG, p.aYG)
        if beyond:
            mon.count('beyond')
            for a in (args, gra):
                mon.call_raises('matchedges(%s, corner off by %.3g of the tolerance)' % (p.side, c['factor']), ValueError,
                                sg.matchedges.matchedges, *a, geod)
            return
        r = mon.call('matchedges', sg.matchedges.matchedges, *args, geod, c['verbose'])
        s = mon.call('matchedges swapped', sg.matchedges.matchedges, *gra, geod, c['verbose'])
        with mon.oracle('matchedges'):
            mon.count('matched')
            mon.check((r[0], r[2]) == (p.a_edge, p.b_edge), 'edges %r,%r reported, true edges %r,%r' % (r[0], r[2], p.a_edge, p.b_edge))
            mon.count('swapped')
            mon.check((s[0], s[2]) == (p.b_edge, p.a_edge), 'exchanged tiles: edges %r,%r reported, true edges %r,%r' % (
                s[0], s[2], p.b_edge, p.a_edge))
            for q, (X1, Y1, X2, Y2), w1, w2 in ((r, args, 'a', 'b'), (s, gra, 'b', 'a')):
                idx1 = np.arange(X1.size).reshape(X1.shape)
                idx2 = np.arange(X2.size).reshape(X2.shape)
                mon.check(np.array_equal(idx1[q[1]], idx1[p.edge(w1)]), 'the slice of the first tile is not its %s edge' % w1)
                mon.check(np.array_equal(idx2[q[3]], idx2[p.edge(w2)]), 'the slice of the second tile is not its %s edge' % w2)
                e = geo.dist(geo.vec(X1[q[1]], Y1[q[1]]), geo.vec(X2[q[3]], Y2[q[3]]))
                mon.count('edge_points', e.size)
                mon.peak('edge point separation / tolerance', np.max(e) / (tol * diag))
                mon.check(bool(np.all(e <= tol * diag * 1.01)), 'the returned slices do not select coincident points', worst=float(np.max(e)))
    finally:
        sg.config.POINTS_ARE_CLOSE_ENOUGH = old
