"""C25: addfringe computes the boundary terms from the neighbouring tile."""
import os
import numpy as np
from vlib import geo, mit, tiles, work
from vlib.sut import sg

RULE = ('tile pairs in all four arrangements, tile A with undefined (zero) boundary terms and, in most cases, with some or all of its inner '
        'terms undefined too; each term over the shared edge is compared with an independent computation on the two tiles joined, each '
        'undefined inner term with an independent computation on tile A; distinct = (arrangement, sizes, share and names of undefined terms)')
MIN = {'fringe_terms': 1000, 'inner_lengths': 2000, 'inner_areas': 800, 'inner_centres': 300, 'centre_conventions': 150}
ASSUME = ['within the accuracy of the area formula chosen for either tile']


def cases(r, tier):
    for k in range(600 if tier == 'quick' else 8000):
        c = work.pair_desc(r, 3)
        c['others'] = r.random() < .5
        c['seed'] = r.randint(0, 2 ** 31)
        c['gaps'] = r.choice(['', '', 'some', 'some', 'name', 'all'])
        yield c


def run(c, mon):
    p = work.pair(c)
    ni, nj = p.na
    A = mit.full_mats(mit.reference(p.aXG, p.aYG, 1, 1))
    A['XG'], A['YG'] = p.aXG.copy(), p.aYG.copy()
    if c['others']:
        j = work.junk_mats(p.aXG, p.aYG, c['seed'])
        for s in 'NSEW':
            if s != p.side:
                for n in tiles.SPAN[tiles.AXIS[s]]:
                    A[n][tiles.line(s)] = j[n][tiles.line(s)]
        tiles.zero_edge(A, p.side)
    gaps = make_gaps(c, A, ni, nj)
    d = mon.tmp()
    pa, pb = os.path.join(d, 'a'), os.path.join(d, 'b')
    work.write_mit(pa, A, *p.na)
    work.write_mit(pb, work.junk_mats(p.bXG, p.bYG, c['seed'] + 7), *p.nb)
    mon.seen(p.side, p.na, p.nb, c['tile']['conv'], c['convb'], c['gaps'], sorted(gaps) if c['gaps'] == 'name' else 0)
    with mon.oracle('addfringe'):
        g = mon.call('addfringe', sg.addfringe.addfringe, tilea=pa, nia=ni, nja=nj, tileb=pb, nib=p.nb[0], njb=p.nb[1])[2]
        fringe_terms(mon, {n: np.asarray(g[n]) for n in mit.NAMES}, p, (tiles.line(p.side), tiles.line(p.side)), 'C25-no-fringe')
        inner_terms(mon, g, p, gaps)


def make_gaps(c, A, ni, nj):
    """Zeroes terms inside tile A, in place; {name: mask}."""
    if not c['gaps']:
        return {}
    r = np.random.RandomState(c['seed'] + 3)
    names = [n for n in mit.NAMES if n not in ('XG', 'YG')]
    if c['gaps'] == 'name':
        names = [names[k] for k in r.permutation(len(names))[:r.randint(1, 4)]]
    out = {}
    for n in names:
        m = np.zeros(A[n].shape, dtype=bool)
        inner = [slice(None), slice(None)]
        for ax in (0, 1):
            if n in tiles.SPAN[ax]:
                inner[ax] = slice(1, -1)
        m[tuple(inner)] = True
        if c['gaps'] == 'some':
            m &= r.uniform(size=m.shape) < .4
        A[n][m] = 0.
        out[n] = m
    return out


def inner_terms(mon, g, p, gaps):
    ref = mit.reference(p.aXG, p.aYG, 1, 1)
    for n, m in gaps.items():
        if not m.any():
            continue
        got = np.asarray(g[n], dtype='f8')[m]
        if n in ('XC', 'YC'):
            lon, lat = geo.lonlat(ref.pts['XC'])
            mon.count('inner_centres', m.sum())
            if n == 'YC':
                ok = np.abs(got - lat[m]) <= 1e-9
            else:
                ok = np.abs((got - lon[m] + 180.) % 360. - 180.) * np.cos(np.radians(lat[m])) <= 1e-9
                lo = -180. if (p.aXG < 0.).any() else 0.
                mon.count('centre_conventions', m.sum())
                mon.check(bool(np.all((got >= lo) & (got <= lo + 360.))), "an undefined cell centre is filled in another longitude convention than tile A's",
                          got=got[(got < lo) | (got > lo + 360.)][:4].tolist())
        elif n in mit.LENGTHS:
            mon.count('inner_lengths', m.sum())
            w = ref.len[n][m]
            ok = np.abs(got - w) <= 1e-6 + 1e-10 * w
        else:
            mon.count('inner_areas', m.sum())
            ok = np.zeros(got.shape, dtype=bool)
            for b in ([ref.branch()] if ref.branch() else ['planar', 'spherical']):
                w, t = ref.area(n, b)
                ok |= np.abs(got - w[m]) <= np.nan_to_num(t[m], nan=np.inf)
        mon.check(bool(ok.all()), 'an undefined inner term of tile A (%s) is not the value computed from its points' % n,
                  got=got[~ok][:4].tolist())


def fringe_terms(mon, g, p, where, kid, mixed=False):
    """Judge the terms over the shared edge: g's line where[axis] against the
    union of the two tiles.  All exactly zero is the known finding; with
    mixed=True (several stitches in a row, where a later one recomputes zeros
    inside its first tile) some of them may be."""
    U = mit.reference(p.UX, p.UY, 1, 1)
    ax = tiles.AXIS[p.side]
    at = p.cut
    got, want, tol = [], [], []
    for n in tiles.SPAN[ax]:
        line = g[n][where[ax]]
        uline = (at, slice(None)) if ax == 0 else (slice(None), at)
        if n in mit.AREAS:
            w, t = U.area(n, 'spherical')
            w2, t2 = U.area(n, 'planar')
            t = np.minimum(np.fmax(t, t2) + np.abs(w - w2), np.inf)
            w, t = w[uline], t[uline]
        else:
            w = U.len[n][uline]
            t = 1e-6 + 1e-9 * w
        ok = np.isfinite(w)
        got.append(line[ok])
        want.append(w[ok])
        tol.append(t[ok])
    got, want, tol = [np.concatenate(z) for z in (got, want, tol)]
    mon.count('fringe_terms', got.size)
    if got.size and np.all(got == 0.):
        mon.known(kid)
        return
    if mixed and np.any(got == 0.):
        mon.known(kid)
        got = np.where(got == 0., want, got)
    mon.check(bool(np.all(np.abs(got - want) <= np.nan_to_num(tol, nan=np.inf))), 'a term over the shared edge differs from the computation on the joined tiles',
              got=got[:6].tolist(), want=want[:6].tolist())
