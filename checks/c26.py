"""C26: stitch places both tiles without loss, gap or overlap."""
import os
import numpy as np
from vlib import cli, mit, tiles, work
from vlib.sut import sg

RULE = ('tile pairs in all four arrangements with different depths and arbitrary distinct values in all sixteen matrices of both tiles '
        '(corner points of the second displaced within the tolerance), from Python and through sgstitch; the result is compared bit by '
        'bit with an independent placement; distinct = (arrangement, sizes, conventions, route)')
MIN = {'values_placed': 30000, 'shared_values': 3000, 'stitched': 250}
ASSUME = ['only terms over the shared edge may be undefined (zero) in the first-named tile']


def cases(r, tier):
    for k in range(300 if tier == 'quick' else 6000):
        c = work.pair_desc(r, 4)
        c['seed'] = r.randint(0, 2 ** 31)
        c['via'] = r.choice(['api', 'api', 'api', 'cli'])
        c['fringe'] = r.random() < .6       # shared-edge terms of A defined
        c['extreme'] = r.random() < .3
        c['shift'] = r.random() < .5
        yield c


def run(c, mon):
    p = work.pair(c)
    if c['shift']:
        p.bYG = p.bYG + 1e-8 * c['tile']['dx']     # well inside the tolerance
    A = work.junk_mats(p.aXG, p.aYG, c['seed'])
    B = work.junk_mats(p.bXG, p.bYG, c['seed'] + 7)
    if c['extreme']:
        r = np.random.RandomState(c['seed'])
        special = np.array([np.inf, -np.inf, np.nan, 5e-324, 1e308, -1., 1e-300])
        for m in (A, B):
            for n in mit.NAMES:
                if n not in ('XG', 'YG'):
                    k = r.uniform(size=m[n].shape) < .3
                    m[n][k] = special[r.randint(0, len(special), k.sum())]
    for m in (A, B):       # an exact zero coordinate would be recomputed; not the subject here
        for n in ('XG', 'YG'):
            m[n][m[n] == 0.] = 1e-13
    ax = tiles.AXIS[p.side]
    if not c['fringe']:
        tiles.zero_edge(A, p.side)
    d = mon.tmp()
    pa, pb, out = [os.path.join(d, x) for x in ('a', 'b', 'o')]
    work.write_mit(pa, A, *p.na)
    work.write_mit(pb, B, *p.nb)
    kw = dict(tilea=pa, nia=p.na[0], nja=p.na[1], tileb=pb, nib=p.nb[0], njb=p.nb[1])
    ni = p.na[0] + p.nb[0] if ax == 0 else p.na[0]
    nj = p.na[1] + p.nb[1] if ax == 1 else p.na[1]
    mon.seen(p.side, p.na, p.nb, c['tile']['conv'], c['convb'], c['via'], c['fringe'])
    with mon.oracle('stitch'):
        if c['via'] == 'api':
            g, n2, m2 = mon.call('stitch', sg.stitch.stitch, **kw)
            mon.check((int(n2), int(m2)) == (ni, nj), 'ni,nj = %s,%s reported for a %d x %d grid' % (n2, m2, ni, nj))
        else:
            argv = sum([['--' + k, v] for k, v in kw.items()], []) + ['--outfile', out]
            st, exc, txt = cli.run(sg.stitch.main, argv)
            mon.require(st == 0, 'sgstitch failed: %r' % exc)
            with open(out, 'rb') as f:
                data = f.read()
            mon.require(len(data) == 128 * (ni + 1) * (nj + 1), 'output file has %d bytes' % len(data))
            g, pad = mit.decode(data, ni, nj)
        mon.count('stitched')
        first = p.side in 'EN'
        want = tiles.join(A, B, ax, 'first') if first else tiles.join(B, A, ax, 'second')
        at = p.cut
        for n in mit.NAMES:
            got, w = np.asarray(g[n]), want[n]
            mon.require(got.shape == mit.shape(n, ni, nj), '%s has shape %s, expected %s' % (n, got.shape, mit.shape(n, ni, nj)))
            judge = np.ones(w.shape, dtype=bool)
            if not c['fringe'] and n in tiles.SPAN[ax]:
                judge[tiles.seam(n, at, ax)] = False
            mon.count('values_placed', judge.sum())
            if tiles.EXTRA[n][ax]:
                mon.count('shared_values', judge[tiles.seam(n, at, ax)].sum())
            ok = mit.same_bits(got[judge], w[judge])
            mon.check(ok, '%s of the joined grid does not hold the values of its tiles' % n,
                      where=np.argwhere(judge & ~((got == w) | (np.isnan(got) & np.isnan(w))))[:4].tolist(), side=p.side)
