"""Independent description and codec of the mitgrid format (not imported from
the package under test) and the reference construction of grids."""
import struct
import numpy as np
from . import geo

# name: (extra row, extra column)
SPEC = [('XC', 0, 0), ('YC', 0, 0), ('DXF', 0, 0), ('DYF', 0, 0), ('RAC', 0, 0),
        ('XG', 1, 1), ('YG', 1, 1), ('DXV', 1, 1), ('DYU', 1, 1), ('RAZ', 1, 1),
        ('DXC', 1, 0), ('DYC', 0, 1), ('RAW', 1, 0), ('RAS', 0, 1), ('DXG', 0, 1), ('DYG', 1, 0)]
NAMES = [s[0] for s in SPEC]
LENGTHS = ['DXG', 'DYG', 'DXF', 'DYF', 'DXC', 'DYC', 'DXV', 'DYU']
AREAS = ['RAC', 'RAZ', 'RAW', 'RAS']


def shape(name, ni, nj):
    for n, a, b in SPEC:
        if n == name:
            return (ni + a, nj + b)
    raise KeyError(name)


def encode(mats, ni, nj, padding=None):
    """Bytes of a mitgrid file.  padding: {(name, i, j): value} for padding
    positions (value written there instead of zero)."""
    out = []
    for name, a, b in SPEC:
        m = mats.get(name)
        for j in range(nj + 1):
            for i in range(ni + 1):
                if i < ni + a and j < nj + b:
                    v = float('nan') if m is None else float(m[i, j])
                else:
                    v = 0. if not padding else padding.get((name, i, j), 0.)
                out.append(v)
    return struct.pack('>%dd' % len(out), *out)


def decode(data, ni, nj):
    """Independent decoder: (mats, {padding position: value})."""
    slot = (ni + 1) * (nj + 1)
    if len(data) != 16 * slot * 8:
        raise ValueError('length %d, expected %d' % (len(data), 16 * slot * 8))
    vals = struct.unpack('>%dd' % (16 * slot), data)
    mats, pad = {}, {}
    for k, (name, a, b) in enumerate(SPEC):
        m = np.empty((ni + a, nj + b))
        for j in range(nj + 1):
            for i in range(ni + 1):
                v = vals[k * slot + j * (ni + 1) + i]
                if i < ni + a and j < nj + b:
                    m[i, j] = v
                else:
                    pad[(name, i, j)] = v
        mats[name] = m
    return mats, pad


def bits(a):
    return np.ascontiguousarray(np.asarray(a), dtype='>f8').view('>u8')


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    n = np.isnan(np.asarray(a, dtype='f8'))
    if not np.array_equal(n, np.isnan(np.asarray(b, dtype='f8'))):
        return False
    return bool(np.all((bits(a) == bits(b)) | n))


# ------------------------------------------------------------------ reference
def compute_points(XG, YG, ls, ms):
    """Double-resolution points (unit vectors) of a block of corner points."""
    P = geo.vec(XG, YG)
    n, m = P.shape[0] - 1, P.shape[1] - 1
    V = np.full((2 * ls * n + 1, 2 * ms * m + 1, 3), np.nan)
    V[::2 * ls, ::2 * ms] = P
    for s in range(1, 2 * ls):
        V[s::2 * ls, ::2 * ms] = geo.slerp(P[:-1], P[1:], s / (2. * ls))
    X = V[:, ::2 * ms].copy()
    for t in range(1, 2 * ms):
        V[:, t::2 * ms] = geo.slerp(X[:, :-1], X[:, 1:], t / (2. * ms))
    return V


def ring(V):
    W = np.full((V.shape[0] + 2, V.shape[1] + 2, 3), np.nan)
    W[1:-1, 1:-1] = V
    return W


class Ref(object):
    """Reference fields for a (ringed) double-resolution point array."""

    def __init__(self, W):
        self.W = W
        N, M = (W.shape[0] - 3) // 2, (W.shape[1] - 3) // 2
        self.ni, self.nj = N, M
        EX = geo.dist(W[:-1], W[1:])
        EY = geo.dist(W[:, :-1], W[:, 1:])
        self.EX, self.EY = EX, EY
        with np.errstate(all='ignore'):
            S = geo.sph_areas(W) * geo.R ** 2
            SB = geo.sph_bound(W) * geo.R ** 2
            Pl = geo.planar_areas(W) * geo.R ** 2
            PB = geo.planar_bound(W) * geo.R ** 2
        self.S, self.SB, self.Pl, self.PB = S, SB, Pl, PB
        self.pts = {'XC': W[2:-1:2, 2:-1:2], 'XG': W[1:-1:2, 1:-1:2]}

        def two_x(i0, ni, j0, nj):
            return EX[i0:i0 + 2 * ni:2, j0:j0 + 2 * nj:2] + EX[i0 + 1:i0 + 1 + 2 * ni:2, j0:j0 + 2 * nj:2]

        def two_y(i0, ni, j0, nj):
            return EY[i0:i0 + 2 * ni:2, j0:j0 + 2 * nj:2] + EY[i0:i0 + 2 * ni:2, j0 + 1:j0 + 1 + 2 * nj:2]

        self.len = {
            'DXG': two_x(1, N, 1, M + 1), 'DXF': two_x(1, N, 2, M),
            'DXC': two_x(0, N + 1, 2, M), 'DXV': two_x(0, N + 1, 1, M + 1),
            'DYG': two_y(1, N + 1, 1, M), 'DYF': two_y(2, N, 1, M),
            'DYC': two_y(2, N, 0, M + 1), 'DYU': two_y(1, N + 1, 0, M + 1)}

    def four(self, name, A):
        N, M = self.ni, self.nj
        i0, n, j0, m = {'RAC': (1, N, 1, M), 'RAZ': (0, N + 1, 0, M + 1),
                        'RAW': (0, N + 1, 1, M), 'RAS': (1, N, 0, M + 1)}[name]
        t = 0.
        for di in (0, 1):
            for dj in (0, 1):
                t = t + A[i0 + di:i0 + di + 2 * n:2, j0 + dj:j0 + dj + 2 * m:2]
        return t

    def mean_edges(self):
        return np.nanmean(self.EX), np.nanmean(self.EY)

    def branch(self, T=10.e3, slack=.01):
        """'planar', 'spherical' or None when too close to the threshold."""
        x, y = self.mean_edges()
        big = max(x, y)
        if big < T * (1 - slack):
            return 'planar'
        if big > T * (1 + slack):
            return 'spherical'
        return None

    def area(self, name, branch):
        """(reference, tolerance) arrays; NaN where undefined."""
        if branch == 'planar':
            r, b = self.four(name, self.Pl), self.four(name, self.PB)
            return r, 3. * b + 1e-10 * r
        r, b = self.four(name, self.S), self.four(name, self.SB)
        return r, b + 1e-10 * r


def reference(XG, YG, ls, ms):
    return Ref(ring(compute_points(XG, YG, ls, ms)))


def full_mats(ref, branch=None):
    """A complete set of sixteen matrices from the reference (zeros where
    undefined); used as independent tile input."""
    out = {}
    branch = branch or ref.branch() or 'spherical'
    lon, lat = geo.lonlat(ref.pts['XC'])
    out['XC'], out['YC'] = lon, lat
    lon, lat = geo.lonlat(ref.pts['XG'])
    out['XG'], out['YG'] = lon, lat
    for k in LENGTHS:
        out[k] = np.nan_to_num(ref.len[k])
    for k in AREAS:
        out[k] = np.nan_to_num(ref.area(k, branch)[0])
    return out
