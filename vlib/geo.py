"""Independent spherical geometry (well-conditioned vector formulas)."""
import numpy as np

R = 6370997.0            # PROJ "sphere"
EPS = 2.220446049250313e-16


def vec(lon, lat):
    lon = np.radians(np.asarray(lon, dtype='f8'))
    lat = np.radians(np.asarray(lat, dtype='f8'))
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)


def lonlat(v):
    v = np.asarray(v)
    return (np.degrees(np.arctan2(v[..., 1], v[..., 0])),
            np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1]))))


def angle(a, b):
    """Great-circle angle; accurate for all separations."""
    return 2. * np.arctan2(np.sqrt(((a - b) ** 2).sum(-1)), np.sqrt(((a + b) ** 2).sum(-1)))


def dist(a, b):
    return R * angle(a, b)


def slerp(a, b, t):
    """Point at fraction t of the great-circle arc a->b (t scalar)."""
    w = angle(a, b)[..., None]
    with np.errstate(invalid='ignore', divide='ignore'):
        s = np.sin(w)
        r = (np.sin((1. - t) * w) * a + np.sin(t * w) * b) / s
    lin = (1. - t) * a + t * b
    r = np.where(w < 1e-9, lin, r)
    n = np.sqrt((r * r).sum(-1, keepdims=True))
    return r / n


def tri_area(a, b, c):
    """Spherical triangle area on the unit sphere (unsigned)."""
    num = np.abs((a * np.cross(b - a, c - a)).sum(-1))
    den = 1. + (a * b).sum(-1) + (b * c).sum(-1) + (c * a).sum(-1)
    return 2. * np.arctan2(num, den)


def corners(V):
    return V[:-1, :-1], V[1:, :-1], V[1:, 1:], V[:-1, 1:]


def sph_areas(V):
    A, B, C, D = corners(V)
    return tri_area(A, B, C) + tri_area(A, C, D)


def planar_areas(V):
    A, B, C, D = corners(V)
    n = np.cross(C - A, D - B)
    return .5 * np.sqrt((n * n).sum(-1))


def _tri_bound(p, q, r):
    """First-order rounding-error bound of Girard's formula evaluated with the
    spherical law of cosines in double precision (unit sphere)."""
    a, b, c = angle(q, r), angle(p, r), angle(p, q)
    tot = 0.
    with np.errstate(all='ignore'):
        for (x, y, z) in ((a, b, c), (b, a, c), (c, a, b)):
            sy, sz = np.sin(y), np.sin(z)
            # opposite side x, adjacent y and z; half-angle formula for the angle
            s = .5 * (x + y + z)
            h = np.clip(np.sin(s - y) * np.sin(s - z) / (sy * sz), 0., 1.)
            A = 2. * np.arcsin(np.sqrt(h))
            d = EPS * (4. / (sy * sz) + np.abs(np.cos(A)) * (1. / sy ** 2 + 1. / sz ** 2) + 4.)
            tot = tot + d / np.maximum(np.abs(np.sin(A)), np.sqrt(d))
    tot = tot + 8. * EPS * np.pi
    # a triangle with coinciding corners (at a pole) has no angles to get
    # wrong: its area is zero up to the separation of those corners
    short = np.minimum(a, np.minimum(b, c))
    tot = np.where(short < 1e-12, 1e-12, tot)
    return np.where(np.isfinite(tot), tot, np.inf)


def sph_bound(V):
    A, B, C, D = corners(V)
    return _tri_bound(A, B, C) + _tri_bound(A, C, D)


def planar_bound(V):
    A, B, C, D = corners(V)
    L = np.maximum(angle(A, C), angle(B, D))
    # each coordinate carries about one rounding of the unit vectors
    return 8. * EPS * L + 1e-12 * planar_areas(V)


def rot_to(clon, clat, psi):
    """Rotation taking the point (0E,0N) with local east/north axes to
    (clon, clat), axes turned by psi (all degrees)."""
    def rx(t):
        c, s = np.cos(np.radians(t)), np.sin(np.radians(t))
        return np.array([[1, 0, 0], [0, c, -s], [0, s, c]])

    def ry(t):
        c, s = np.cos(np.radians(t)), np.sin(np.radians(t))
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])

    def rz(t):
        c, s = np.cos(np.radians(t)), np.sin(np.radians(t))
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    return turned(turned(rz(clon), ry(-clat).T), rx(psi).T)


def turned(P, R):
    """P R^T; the same to the last bit every time (BLAS rounds differently
    depending on the alignment of its operands)."""
    return np.stack([P[..., 0] * R[k, 0] + P[..., 1] * R[k, 1] + P[..., 2] * R[k, 2] for k in range(3)], -1)
