"""C27: stitching is order-independent and re-creates a split grid."""
import os
import numpy as np
from vlib import geo, mit, tiles, work
from vlib.sut import sg
from checks.c25 import fringe_terms

RULE = ('grids (refined lon/lat regions, curvilinear tiles) split into two or three tiles in a row or a block of four, written to '
        'files and stitched together again in every order and grouping; tiles either keep their terms over the cuts or have them '
        'undefined; distinct = (split, order, sizes, mode)')
MIN = {'stitches': 500, 'orders': 150, 'restored_values': 30000, 'seam_kept': 100, 'seam_undefined': 100, 'seam_of_one': 30}
ASSUME = ['cut positions exactly equal in all tiles']


def cases(r, tier):
    for k in range(140 if tier == 'quick' else 3000):
        d = work.tile_desc(r, nmin=4, nmax=7)
        d['mirror'] = False
        yield dict(tile=d, split=r.choice(['i2', 'j2', 'i3', 'j3', 'block']), cuts=[r.randint(1, 2), r.randint(3, 3)],
                   mode=r.choice(['kept', 'undefined']), seed=r.randint(0, 2 ** 31), junk=r.random() < .4)


class Shop(object):
    """Stitches through files."""

    def __init__(self, mon):
        self.mon, self.k = mon, 0

    def put(self, m):
        self.k += 1
        p = os.path.join(self.mon.tmp(), 't%d' % self.k)
        work.write_mit(p, m, *tiles.dims(m))
        return p

    def stitch(self, a, b):
        na, nb = tiles.dims(a), tiles.dims(b)
        r = self.mon.call('stitch', sg.stitch.stitch, tilea=self.put(a), nia=na[0], nja=na[1], tileb=self.put(b), nib=nb[0], njb=nb[1])
        self.mon.count('stitches')
        g = {n: np.asarray(r[0][n]) for n in mit.NAMES}
        for n in mit.NAMES:
            self.mon.require(g[n].shape == mit.shape(n, *tiles.dims(g)), '%s has shape %s' % (n, g[n].shape))
        return g


def run(c, mon):
    X, Y = work.tile(c['tile'])
    X[X == 0.] = 1e-13
    Y[Y == 0.] = 1e-13
    ni, nj = c['tile']['ni'], c['tile']['nj']
    if c['junk']:
        U = work.junk_mats(X, Y, c['seed'])
    else:
        U = mit.full_mats(mit.reference(X, Y, 1, 1))
        U['XG'], U['YG'] = X.copy(), Y.copy()
        for n in ('XC', 'YC'):
            U[n][U[n] == 0.] = 1e-13
    c1, c2 = c['cuts']
    sp = c['split']
    mon.seen(sp, ni, nj, c['cuts'], c['mode'], c['junk'])
    ci = {'i2': [c1], 'i3': [c1, c2], 'j2': [], 'j3': [], 'block': [c1]}[sp]
    cj = {'j2': [c1], 'j3': [c1, c2], 'i2': [], 'i3': [], 'block': [c1]}[sp]
    bi, bj = [0] + ci + [ni], [0] + cj + [nj]
    T = {}
    for a in range(len(bi) - 1):
        for b in range(len(bj) - 1):
            t = tiles.cut(U, bi[a], bi[a + 1], bj[b], bj[b + 1])
            if c['mode'] == 'undefined':
                if a > 0:
                    tiles.zero_edge(t, 'W')
                if a < len(bi) - 2:
                    tiles.zero_edge(t, 'E')
                if b > 0:
                    tiles.zero_edge(t, 'S')
                if b < len(bj) - 2:
                    tiles.zero_edge(t, 'N')
            T[a, b] = t
    s = Shop(mon)
    with mon.oracle('stitch'):
        if sp == 'block':
            rows = lambda f: (f(T[0, 0], T[1, 0]), f(T[0, 1], T[1, 1]))
            cols = lambda f: (f(T[0, 0], T[0, 1]), f(T[1, 0], T[1, 1]))
            fwd, bwd = s.stitch, lambda x, y: s.stitch(y, x)
            results = [fwd(*rows(fwd)), bwd(*cols(bwd))] + ([bwd(*rows(fwd)), fwd(*cols(bwd))] if c['seed'] % 2 else [])
        else:
            L = [T[k] for k in sorted(T)]
            if len(L) == 2:
                results = [s.stitch(L[0], L[1]), s.stitch(L[1], L[0])]
            else:
                left, right = s.stitch(L[0], L[1]), s.stitch(L[2], L[1])
                results = [s.stitch(left, L[2]), s.stitch(L[0], right), s.stitch(right, L[0])]
        if c['mode'] == 'kept' and sp in ('i2', 'j2'):
            # only the first tile has the terms over the cut
            for k in (0, 1):
                other = {n: x.copy() for n, x in L[1 - k].items()}
                tiles.zero_edge(other, {'i2': 'WE', 'j2': 'SN'}[sp][k])
                results.append(s.stitch(L[k], other))
                mon.count('seam_of_one')
        mon.count('orders', len(results))
        mon.count('seam_kept' if c['mode'] == 'kept' else 'seam_undefined', len(results))
        open_ = {n: np.zeros(U[n].shape, dtype=bool) for n in mit.NAMES}
        if c['mode'] == 'undefined':
            for axis, cuts in ((0, ci), (1, cj)):
                for n in tiles.SPAN[axis]:
                    for at in cuts:
                        open_[n][(at, slice(None)) if axis == 0 else (slice(None), at)] = True
        for k, g in enumerate(results):
            for n in mit.NAMES:
                mon.require(g[n].shape == U[n].shape, 'order %d: %s has shape %s instead of %s' % (k, n, g[n].shape, U[n].shape))
                j = ~open_[n]
                if n in mit.LENGTHS + mit.AREAS:
                    j &= U[n] != 0.        # (outer boundary terms: below)
                mon.count('restored_values', j.sum())
                mon.check(mit.same_bits(g[n][j], U[n][j]), 'order %d: %s of the re-created grid differs from the split grid' % (k, n),
                          where=np.argwhere(j & (g[n] != U[n]))[:4].tolist(), split=sp)
                z = ~open_[n] & (U[n] == 0.) if n in mit.LENGTHS + mit.AREAS else np.zeros(U[n].shape, bool)
                mon.check(bool(np.all(g[n][z] == 0.)), 'order %d: %s has a value where the split grid is undefined' % (k, n))
            if c['mode'] == 'undefined':
                seams(mon, g, X, Y, ci, cj)
        if c['mode'] == 'undefined':
            for k, g in enumerate(results[1:]):
                for n in mit.NAMES:
                    x, y = g[n], results[0][n]
                    both = (x != 0.) & (y != 0.) | ~open_[n]     # zeros over a cut: judged by seams()
                    mon.check(bool(np.allclose(x[both], y[both], rtol=1e-6, atol=1e-9, equal_nan=True)),
                              'results of stitching in different orders differ in %s' % n)


class _P(object):
    pass


def seams(mon, g, X, Y, ci, cj):
    """Terms over each cut: value of the unsplit grid, or (known finding) all zero."""
    for axis, cuts in ((0, ci), (1, cj)):
        for at in cuts:
            p = _P()
            p.UX, p.UY, p.side, p.cut = X, Y, 'EN'[axis], at
            line = (at, slice(None)) if axis == 0 else (slice(None), at)
            fringe_terms(mon, g, p, (line, line), 'C27-seam', len(ci) + len(cj) > 1)
