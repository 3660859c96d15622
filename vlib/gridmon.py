"""Monitors over one grid returned by mkgrid or regrid."""
import numpy as np
from . import geo, mit

# tolerances (see DESIGN.md): positions in radians on the unit sphere
POS_TOL = 1e-12


def len_tol(ref):
    return 2e-7 + 1e-10 * ref


def shapes(mon, g, ni, nj):
    ok = mon.check(isinstance(g, dict) and sorted(g) == sorted(mit.NAMES), 'result does not hold the sixteen matrices',
                   keys=sorted(map(str, g)) if isinstance(g, dict) else repr(type(g)))
    for n in mit.NAMES:
        a = g.get(n) if ok else None
        if not mon.check(isinstance(a, np.ndarray) and a.shape == mit.shape(n, ni, nj),
                         'matrix %s has shape %s, expected %s' % (n, getattr(a, 'shape', None), mit.shape(n, ni, nj))):
            ok = False
    return ok


def points(mon, g, ref):
    for xn, yn in (('XC', 'YC'), ('XG', 'YG')):
        P = geo.vec(g[xn], g[yn])
        e = geo.angle(P, ref.pts[xn])
        mon.count('points', e.size)
        mon.peak('max position error (rad)', np.max(e))
        if not mon.check(np.all(e <= POS_TOL), '%s/%s: point off the great-circle subdivision' % (xn, yn),
                         worst=float(np.nanmax(e)), at=list(map(int, np.unravel_index(np.nanargmax(e), e.shape)))
                         if np.any(np.isfinite(e)) else None):
            return False
    return True


def convention(mon, g, XG):
    """XG: longitudes of the region handed in."""
    neg = bool(np.any(XG < 0.))
    lo, hi = (-180., 180.) if neg else (0., 360.)
    for n in ('XC', 'XG'):
        a = np.asarray(g[n])
        mon.count('longitudes', a.size)
        mon.check(bool(np.all((a >= lo) & (a <= hi))),
                  '%s leaves the %g..%g convention of its input' % (n, lo, hi),
                  min=float(np.min(a)), max=float(np.max(a)))


def span(mon, g, XG, tol=1e-9):
    """No longitude outside the region's own span (mkgrid regions)."""
    w = XG[0, 0]
    d = (XG[-1, 0] - w + 180.) % 360. - 180.
    lo, hi = min(0., d), max(0., d)
    for n in ('XC', 'XG'):
        t = (np.asarray(g[n]) - w - (lo + hi) / 2. + 180.) % 360. - 180. + (lo + hi) / 2.
        mon.check(bool(np.all((t >= lo - tol) & (t <= hi + tol))),
                  '%s has longitudes outside the region' % n, lo=lo, hi=hi, tmin=float(t.min()), tmax=float(t.max()))
        # a region that begins at Greenwich begins at 0, not at 360
        if min(XG[0, 0], XG[-1, 0]) == 0. and 0. < max(XG[0, 0], XG[-1, 0]) < 180.:
            mon.count('from_greenwich')
            mon.check(float(np.max(g[n])) < 180., '%s jumps to the other end of the convention' % n, max=float(np.max(g[n])), lo=lo, hi=hi)


def lengths(mon, g, ref):
    for n in mit.LENGTHS:
        want = ref.len[n]
        got = np.asarray(g[n], dtype='f8')
        d = np.isfinite(want)
        mon.count('lengths', d.sum())
        if not d.any():
            continue
        e = np.abs(got[d] - want[d])
        tol = len_tol(want[d])
        mon.peak('max length error / tolerance', np.max(np.where(np.isfinite(e), e / tol, 0)))
        bad = ~(e <= tol)
        if not mon.check(not bad.any(), '%s is not the great-circle length at its position' % n,
                         got=got[d][bad][:3].tolist(), want=want[d][bad][:3].tolist()):
            return False
    return True


def areas(mon, g, ref, branch, names=mit.AREAS):
    for n in names:
        want, tol = ref.area(n, branch)
        got = np.asarray(g[n], dtype='f8')
        d = np.isfinite(want)
        mon.count('areas_' + branch, d.sum())
        if not d.any():
            continue
        e = np.abs(got[d] - want[d])
        with np.errstate(all='ignore'):
            mon.peak('max area error / tolerance (%s)' % branch, np.nanmax(np.where(np.isfinite(tol[d]), e / tol[d], 0)))
            mon.peak('max relative area error (%s)' % branch, np.nanmax(e / want[d]))
        bad = ~(e <= tol[d])
        if not mon.check(not bad.any(), '%s is not the %s area around its point' % (n, branch),
                         got=got[d][bad][:3].tolist(), want=want[d][bad][:3].tolist(), tol=tol[d][bad][:3].tolist()):
            return False
    return True


def masks(mon, g, ni, nj, ref, branch):
    und = {'DXC': 'WE', 'DXV': 'WE', 'RAW': 'WE', 'DYC': 'NS', 'DYU': 'NS', 'RAS': 'NS', 'RAZ': 'WENS'}
    for n in mit.LENGTHS + mit.AREAS:
        a = np.asarray(g[n], dtype='f8')
        m = np.zeros(a.shape, dtype=bool)
        u = und.get(n, '')
        if 'W' in u:
            m[0, :] = m[-1, :] = True
        if 'N' in u:
            m[:, 0] = m[:, -1] = True
        mon.count('undefined_terms', m.sum())
        mon.count('defined_terms', (~m).sum())
        mon.check(bool(np.all(a[m] == 0.)), '%s: a term that needs points outside the tile is not zero' % n,
                  values=a[m][a[m] != 0.][:4].tolist())
        bad = ~m & ~((a > 0.) & np.isfinite(a))
        if n in mit.AREAS and branch != 'planar':
            # positivity is only judged where the documented formula can
            # resolve the area at all (thin cells)
            want, tol = ref.area(n, 'spherical')
            ill = ~(tol < .1 * want)
            mon.count('ill_conditioned', (ill & ~m).sum())
            bad &= ~(ill & np.isfinite(a))
        mon.check(not bad.any(), '%s: a defined term is not finite and positive' % n,
                  values=a[bad][:4].tolist(), where=np.argwhere(bad)[:4].tolist())
