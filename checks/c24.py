"""C24: addfringe never alters values tile A already has."""
import os
import numpy as np
from vlib import cli, geo, mit, tiles, work
from vlib.sut import sg

RULE = ('tile pairs in all four arrangements; tile A holds arbitrary non-zero values (extreme magnitudes, infinities, NaN, negative) that '
        'agree with no recomputation, with the boundary terms of each side independently defined or zero; called from Python and through '
        'sgaddfringe; distinct = (arrangement, sizes, zero sides, kind of values)')
MIN = {'values_kept': 20000, 'boundary_zeros': 1000, 'zero_coordinates': 20}
ASSUME = ['terms other than boundary terms are non-zero in tile A']


def cases(r, tier):
    for k in range(300 if tier == 'quick' else 6000):
        c = work.pair_desc(r, 3)
        c['zero'] = [s for s in 'NSEW' if r.random() < .6]
        c['kind'] = r.choice(['junk', 'junk', 'extreme', 'real'])
        c['via'] = r.choice(['api', 'api', 'api', 'cli'])
        c['seed'] = r.randint(0, 2 ** 31)
        c['strict'], c['verbose'] = r.random() < .3, r.random() < .1
        if r.random() < .2:            # a tile with points exactly on longitude zero / the equator
            c['tile'].update(clat=0., psi=0., jit=0., clon=0.)
            c['snap'] = True
        yield c


def contents(c, p):
    """Tile A's sixteen matrices."""
    ni, nj = p.na
    if c['kind'] == 'real':
        m = mit.full_mats(mit.reference(p.aXG, p.aYG, 1, 1))
        m['XG'], m['YG'] = p.aXG.copy(), p.aYG.copy()
        j = work.junk_mats(p.aXG, p.aYG, c['seed'])
        for s in 'NSEW':               # all boundary terms defined first
            for n in tiles.SPAN[tiles.AXIS[s]]:
                m[n][tiles.line(s)] = j[n][tiles.line(s)]
    else:
        m = work.junk_mats(p.aXG, p.aYG, c['seed'])
        if c['kind'] == 'extreme':
            r = np.random.RandomState(c['seed'])
            special = np.array([np.inf, -np.inf, np.nan, 5e-324, -5e-324, 1e308, -1., 1e-300])
            for n in mit.NAMES:
                if n not in ('XG', 'YG'):
                    k = r.uniform(size=m[n].shape) < .4
                    m[n][k] = special[r.randint(0, len(special), k.sum())]
    for s in c['zero']:
        tiles.zero_edge(m, s)
    return m


def run(c, mon):
    p = work.pair(c)
    if c.get('snap'):
        for z in (p.aXG, p.aYG, p.bXG, p.bYG, p.UX, p.UY):
            z -= z.flat[0] * 0.        # keep dtype
        # shift so that one line of points has longitude/latitude exactly zero
        sx, sy = p.aXG[0, 0], p.aYG[0, 0]
        p.aXG, p.bXG = p.aXG - sx, p.bXG - sx
        p.aYG, p.bYG = p.aYG - sy, p.bYG - sy
    ni, nj = p.na
    A = contents(c, p)
    B = work.junk_mats(p.bXG, p.bYG, c['seed'] + 7)
    d = mon.tmp()
    pa, pb, out = [os.path.join(d, x) for x in ('a', 'b', 'o')]
    work.write_mit(pa, A, *p.na)
    work.write_mit(pb, B, *p.nb)
    mon.seen(p.side, p.na, p.nb, c['zero'], c['kind'], c['via'])
    with mon.oracle('addfringe'):
        if c['via'] == 'api':
            r = mon.call('addfringe', sg.addfringe.addfringe, c['strict'], c['verbose'], tilea=pa, nia=ni, nja=nj, tileb=pb, nib=p.nb[0], njb=p.nb[1])
            mon.check((r[0], r[1]) == (p.a_edge, p.b_edge), 'edges %r,%r returned, true edges %r,%r' % (r[0], r[1], p.a_edge, p.b_edge))
            g = r[2]
        else:
            argv = ['--tilea', pa, '--nia', ni, '--nja', nj, '--tileb', pb, '--nib', p.nb[0], '--njb', p.nb[1], '--outfile', out]
            argv += ['--strict'] * c['strict'] + ['--verbose'] * c['verbose']
            st, exc, txt = cli.run(sg.addfringe.main, argv)
            mon.require(st == 0, 'sgaddfringe failed: %r' % exc)
            with open(out, 'rb') as f:
                g, pad = mit.decode(f.read(), ni, nj)
        for n in mit.NAMES:
            got, was = np.asarray(g[n]), A[n]
            mon.require(got.shape == was.shape, '%s has shape %s' % (n, got.shape))
            nz = was != 0.
            mon.count('values_kept', nz.sum())
            mon.check(mit.same_bits(got[nz], was[nz]), 'non-zero values of tile A changed in %s' % n)
            z = ~nz
            if n in tiles.COORD:
                if z.any():
                    mon.count('zero_coordinates', z.sum())
                    v = got[z]
                    if n in ('XG', 'YG'):
                        v = (v + 180.) % 360. - 180.
                        mon.check(bool(np.all(np.abs(v) <= 1e-9)), 'a zero coordinate of %s moved' % n, values=v[:4].tolist())
                continue
            if p.side in 'EW' and n in tiles.SPAN[0] or p.side in 'NS' and n in tiles.SPAN[1]:
                keep = np.zeros(z.shape, dtype=bool)
                keep[tiles.line(p.side)] = True
                if n == 'RAZ':         # ends of the edge need further neighbours
                    ends = keep.copy()
                    inner = np.zeros(z.shape, dtype=bool)
                    inner[1:-1, 1:-1] = True
                    along = np.s_[:, 1:-1] if p.side in 'EW' else np.s_[1:-1, :]
                    ends[along] = False
                    keep &= ~ends
                z &= ~keep
            mon.count('boundary_zeros', z.sum())
            mon.check(bool(np.all(got[z] == 0.)), 'a zero of tile A away from the shared edge was filled in %s' % n,
                      where=np.argwhere(z & (got != 0.))[:4].tolist())
