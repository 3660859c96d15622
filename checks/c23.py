"""C23: tiles that do not share an edge are refused."""
import os
import numpy as np
import pyproj
from vlib import cli, geo, mit, work
from vlib.sut import sg

RULE = ('pairs of tiles of eight non-adjacent kinds cut from random curvilinear tiles at random scale and position, given to edge '
        'matching, addfringe, stitch (both orders) and the two command-line tools; distinct = (kind, sizes, entry point)')
KINDS = ['apart', 'gap', 'corner', 'same', 'partial', 'inside', 'turned', 'half_turned', 'divided']
MIN = {'refusals': 600, 'cli': 60, 'spawned': 2}
MIN.update({'kind ' + k: 20 for k in KINDS})
ASSUME = ['a gap is at least 2 percent of the smallest cell']


def cases(r, tier):
    n = 450 if tier == 'quick' else 9000
    for k in range(n):
        kind = KINDS[k % len(KINDS)]
        d = work.tile_desc(r, nmin=4, nmax=7 if r.random() < .8 else 24)
        yield dict(kind=kind, tile=d, side=r.choice('NSEW'), seed=r.randint(0, 2 ** 31), x=[r.randint(0, 99) for _ in range(6)],
                   gap=r.choice([.02, .1, 1.]), convb=r.choice([None, 'pm', '360']), via=('cli' if k in (3, 11) else r.choice(['api', 'api', 'addfringe', 'stitch', 'cli'])),
                   spawn=k in (3, 11))


def build(c):
    """Corner matrices of tiles a and b."""
    X, Y = work.tile(c['tile'])
    ni, nj = c['tile']['ni'], c['tile']['nj']
    x, kind = c['x'], c['kind']
    ax = 0 if c['side'] in 'EW' else 1
    if kind == 'same':
        return (X, Y), (X.copy(), Y.copy())
    if ax == 1:
        # work along axis 0 of the transposed index space, then put it back
        X, Y, ni, nj = X.T, Y.T, nj, ni
    k = 1 + x[0] % (ni - 1)
    m = 1 + x[1] % (nj - 1)
    if kind == 'apart':
        k = 1 + x[0] % (ni - 2)
        k2 = k + 1 + x[2] % (ni - k - 1)
        a, b = np.s_[:k + 1, :], np.s_[k2:, :]
    elif kind == 'corner':
        a, b = np.s_[:k + 1, :m + 1], np.s_[k:, m:]
        if x[3] % 2:
            a, b = np.s_[:k + 1, m:], np.s_[k:, :m + 1]
    elif kind == 'partial':      # common corner, b's edge only part of a's
        a, b = np.s_[:k + 1, :], np.s_[k:, :m + 1]
        if x[3] % 2:
            b = np.s_[k:, m:]
    elif kind == 'inside':       # b's edge strictly inside a's
        m1 = 1 + x[1] % (nj - 2)
        m2 = m1 + 1 + x[3] % (nj - 1 - m1)
        a, b = np.s_[:k + 1, :], np.s_[k:, m1:m2 + 1]
    else:
        a, b = np.s_[:k + 1, :], np.s_[k:, :]
    A, B = [X[a].copy(), Y[a].copy()], [X[b].copy(), Y[b].copy()]
    if kind == 'gap':
        off = c['gap'] * work.min_spacing(geo.vec(X, Y))
        lon, lat = B
        t = x[4]
        B = [lon + np.degrees(off) * np.cos(t) / np.cos(np.radians(lat)), lat + np.degrees(off) * np.sin(t)]
    if kind == 'divided':        # one interior edge point of b missing
        q = 1 + x[2] % (nj - 1)
        whole = [n for n in range(2, nj + 1) if nj % n == 0]
        if x[3] % 3 == 1:        # every second, third, ... point left
            n = whole[x[5] % len(whole)]
            B = [z[:, ::n] for z in B]
        elif x[3] % 3 == 2:      # any of the interior points left
            q = [0] + sorted(work.rng(c['seed']).sample(range(1, nj), x[5] % (nj - 1))) + [nj]
            B = [z[:, q] for z in B]
        else:
            B = [np.delete(z, q, 1) for z in B]
    if ax == 1:
        A, B = [z.T for z in A], [z.T for z in B]
    if kind == 'turned':
        t = 1 + 2 * (x[2] % 2)
        B = [np.rot90(z, t) for z in B]
    if kind == 'half_turned':
        B = [np.rot90(z, 2) for z in B]
    if c['side'] in 'WS':
        A, B = B, A
    return tuple(np.ascontiguousarray(z) for z in A), tuple(np.ascontiguousarray(z) for z in B)


def run(c, mon):
    A, B = build(c)
    if c['convb']:
        B = (work.wrap(B[0], c['convb']), B[1])
    na, nb = (A[0].shape[0] - 1, A[0].shape[1] - 1), (B[0].shape[0] - 1, B[0].shape[1] - 1)
    mon.count('kind ' + c['kind'])
    mon.seen(c['kind'], na, nb, c['via'])
    geod = pyproj.Geod(ellps='sphere')
    what = '%s tiles: ' % c['kind']
    if c['via'] == 'api':
        mon.call_raises(what + 'matchedges', ValueError, sg.matchedges.matchedges, *A, *B, geod)
        mon.call_raises(what + 'matchedges swapped', ValueError, sg.matchedges.matchedges, *B, *A, geod)
        return
    d = mon.tmp()
    pa, pb, out = os.path.join(d, 'a.mitgrid'), os.path.join(d, 'b.mitgrid'), os.path.join(d, 'out.mitgrid')
    work.write_mit(pa, work.junk_mats(*A, c['seed']), *na)
    work.write_mit(pb, work.junk_mats(*B, c['seed'] + 1), *nb)
    for f, n, g, m in ((pa, na, pb, nb), (pb, nb, pa, na)):
        kw = dict(tilea=f, nia=n[0], nja=n[1], tileb=g, nib=m[0], njb=m[1])
        if c['via'] == 'addfringe':
            mon.call_raises(what + 'addfringe', ValueError, sg.addfringe.addfringe, **kw)
        elif c['via'] == 'stitch':
            mon.call_raises(what + 'stitch', ValueError, sg.stitch.stitch, **kw)
        else:
            argv = ['--tilea', f, '--nia', n[0], '--nja', n[1], '--tileb', g, '--nib', m[0], '--njb', m[1], '--outfile', out]
            for name, mod in (('addfringe', sg.addfringe), ('stitch', sg.stitch)):
                st, exc, txt = cli.run(mod.main, argv)
                mon.count('cli')
                mon.check(st != 0, what + 'sg%s exits with status 0' % name)
                mon.check(not os.path.exists(out), what + 'sg%s left an output file' % name)
    if c['spawn']:
        argv = ['--tilea', pa, '--nia', na[0], '--nja', na[1], '--tileb', pb, '--nib', nb[0], '--njb', nb[1], '--outfile', out]
        for name in ('addfringe', 'stitch'):
            st, txt = cli.spawn(name, argv)
            mon.count('spawned')
            mon.check(st > 0, what + 'sg%s process exits with status %d' % (name, st))
            mon.check(not os.path.exists(out), what + 'sg%s process left an output file' % name)
