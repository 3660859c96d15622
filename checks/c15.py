"""C15: regrid preserves the existing corner points of the selected region."""
import numpy as np
from vlib import gridmon, mit, ops, work
from vlib.sut import sg

RULE = ('random blocks of random source tiles (some of thousands of points) in all four index rotations and both handednesses, corner positions exact or off by up to '
        '0.3 of the smallest spacing and wound by 360 degrees, all input routes; a second run with every other source point moved to '
        'the far side of the globe and every other field replaced must give the same grid; distinct = (source size, block, rotation, '
        'corner, subdivisions, route)')
MIN = {'corner_points': 3000, 'poisoned': 200, 'whole': 40, 'interior': 12, 'big_tiles': 9}
ASSUME = ['positions given are nearer to the intended corner than to any other source point']


def cases(r, tier):
    for k in range(12 if tier == 'quick' else 100):        # many points
        d, b = work.big_tile(r, *((90, 60) if k % 4 else (260, 120)))
        yield dict(op='regrid', tile=d, block=b, ls=r.randint(1, 3), ms=r.randint(1, 3), layout=r.choice(work.LAYOUTS), route=r.choice(['mem', 'file', 'xy']),
                   poison=r.random() < .6, seed=r.randint(0, 2 ** 31), big=True)
    for k in range(500 if tier == 'quick' else 10000):
        d = work.retype(r, work.tile_desc(r, nmin=r.choice([1, 1, 3]), nopole=False))
        b = work.block_desc(r, d)
        n, m = b['i1'] - b['i0'], b['j1'] - b['j0']
        ls, ms = work.subscales(r, 4)
        while n * ls * m * ms > 120:
            ls, ms = max(1, ls - 1), max(1, ms - 1)
        yield dict(op='regrid', tile=d, block=b, ls=ls, ms=ms, layout=r.choice(work.LAYOUTS),
                   route=r.choice(['mem', 'mem', 'file', 'xy', 'csv']), poison=r.random() < .6, seed=r.randint(0, 2 ** 31))


def run(c, mon):
    s = work.Selection(c['tile'], c['block'])
    b, d, ls, ms = c['block'], c['tile'], c['ls'], c['ms']
    n, m = s.BX.shape[0] - 1, s.BX.shape[1] - 1
    r = mon.call('regrid', work.call_grid, sg, c, s, mon.tmp())
    mon.seen(d['ni'], d['nj'], b['i0'], b['i1'], b['j0'], b['j1'], b['turn'], b['corner'], ls, ms, c['route'])
    mon.count('big_tiles', c.get('big', False))
    mon.count('whole' if (n + 1) * (m + 1) == s.srcXG.size else 'part')
    if b['i0'] > 0 and b['j0'] > 0 and b['i1'] < d['ni'] and b['j1'] < d['nj']:
        mon.count('interior')
    with mon.oracle('regrid'):
        g, ni, nj = r
        mon.require(int(ni) == n * ls and int(nj) == m * ms, 'ni,nj = %s,%s for a block of %d x %d cells times (%d,%d)' % (ni, nj, n, m, ls, ms))
        if not gridmon.shapes(mon, g, n * ls, m * ms):
            return
        mon.count('corner_points', s.BX.size)
        mon.check(mit.same_bits(g['XG'][::ls, ::ms], s.BX) and mit.same_bits(g['YG'][::ls, ::ms], s.BY),
                  'a source corner point of the block does not re-appear bit-identically',
                  got=g['XG'][::ls, ::ms][:2, :2].tolist(), want=s.BX[:2, :2].tolist())
        if not c['poison']:
            return
    # everything outside the block is irrelevant
    mon.count('poisoned')
    rr = np.random.RandomState(c['seed'])
    mats = s.mats(c['seed'] + 1)
    inside = np.zeros(s.srcXG.shape, dtype=bool)
    tag = np.zeros((d['ni'] + 1, d['nj'] + 1), dtype=bool)
    tag[b['i0']:b['i1'] + 1, b['j0']:b['j1'] + 1] = True
    inside[...] = np.rot90(tag, b['turn'])
    X, Y = s.srcXG.copy(), s.srcYG.copy()
    clon, clat = s.BX[0, 0], s.BY[0, 0]
    X[~inside] = work.wrap(clon + 180. + rr.uniform(-5, 5, X.shape), d['conv'])[~inside]
    Y[~inside] = (-clat * .5 + rr.uniform(-5, 5, X.shape))[~inside]
    mats['XG'], mats['YG'] = X.astype(s.etype), Y.astype(s.etype)
    r2 = mon.call('regrid', sg.regrid.regrid, mitgrid_matrices=mats, lon_subscale=ls, lat_subscale=ms, **s.kw)
    with mon.oracle('regrid'):
        g2 = r2[0]
        for n in mit.NAMES:
            # (rounding may depend on the alignment of operands)
            same = mit.same_bits(g2[n], g[n]) or ops.agree(dict(op='cli', fault=None), *[(None, 0, [("['%s']" % n, np.asarray(x[n], 'f8'))]) for x in (g2, g)]) is None
            mon.check(same, '%s depends on source points outside the block' % n)
