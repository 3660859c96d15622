"""Comparison of two grids that should be the same."""
import numpy as np
from . import geo, mit


def same_grid(mon, a, b, what, ref=None, exact=('XG', 'YG')):
    """Positions within 1e-11 rad, lengths and areas within rounding; `ref`
    supplies area tolerances."""
    ok = True
    for n in mit.NAMES:
        if not mon.check(np.shape(a[n]) == np.shape(b[n]), '%s: shapes of %s differ: %s, %s' % (
                what, n, np.shape(a[n]), np.shape(b[n]))):
            return False
    for xn, yn in (('XC', 'YC'), ('XG', 'YG')):
        e = geo.angle(geo.vec(a[xn], a[yn]), geo.vec(b[xn], b[yn]))
        ok &= mon.check(bool(np.all(e <= 1e-11)), '%s: %s/%s differ' % (what, xn, yn), worst=float(np.nanmax(e)))
    for n in mit.LENGTHS:
        x, y = np.asarray(a[n], 'f8'), np.asarray(b[n], 'f8')
        ok &= mon.check(bool(np.all(np.abs(x - y) <= 1e-6 + 1e-10 * np.abs(y))), '%s: %s differs' % (what, n))
    for n in mit.AREAS:
        x, y = np.asarray(a[n], 'f8'), np.asarray(b[n], 'f8')
        if ref is not None and ref.branch() is None:
            continue
        if ref is not None:
            tol = 2 * np.nan_to_num(ref.area(n, ref.branch())[1], nan=0., posinf=np.inf)
        else:
            tol = 1e-6 * np.abs(y)
        ok &= mon.check(bool(np.all(np.abs(x - y) <= tol + 1e-9 * np.abs(y))), '%s: %s differs' % (what, n))
    return ok
