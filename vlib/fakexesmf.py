"""Stand-in for xesmf: a Regridder with a known linear operator.

xESMF/ESMF is not installed, and simplegrid's guarantees are about which parent
values go to which boundary points, not about ESMF's weights.  As in xesmf,
weights are stored in `filename` and, with reuse_weights, taken from there if
the file exists.  The stand-in interpolates with a smooth kernel of compact support; oracles apply the same
operator to points they computed themselves.
"""
import os
import numpy as np

LOG = []


def _vec(lon, lat):
    lon, lat = np.radians(np.asarray(lon, 'f8')), np.radians(np.asarray(lat, 'f8'))
    return np.stack((np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)), -1)


def operator(P, Q):
    """Weights from points P[n,m,3] to points Q[...,3]."""
    d = [0.]
    for a in (P[1:] - P[:-1], P[:, 1:] - P[:, :-1]):
        if a.size:
            d.append(np.sqrt((a ** 2).sum(-1)).max())
    s = 1.5 * max(d) or 1.
    q, p = Q.reshape(-1, 1, 3), P.reshape(1, -1, 3)
    w = np.clip(1. - np.sqrt(((q - p) ** 2).sum(-1)) / s, 0., None) ** 2
    t = w.sum(1, keepdims=True)
    return np.where(t > 0., w / np.where(t > 0., t, 1.), 0.)


def apply(W, field, shape):
    # (as sparse weights do: points without weight do not contribute, whatever is there)
    f = np.asarray(field, 'f8').ravel()
    if np.isfinite(f).all():
        return W.dot(f).reshape(shape)
    with np.errstate(all='ignore'):
        return np.array([(w[w != 0.] * f[w != 0.]).sum() for w in W]).reshape(shape)


class Regridder(object):
    def __init__(self, ds_in, ds_out, method, filename=None, reuse_weights=False, **kw):
        lon, lat = np.asarray(ds_in['lon']), np.asarray(ds_in['lat'])
        lo2, la2 = np.asarray(ds_out['lon']), np.asarray(ds_out['lat'])
        for a, b in ((lon, lat), (lo2, la2)):
            if a.ndim != 2 or a.shape != b.shape:
                raise ValueError('lon and lat must be 2-d arrays of one shape')
        if method not in ('bilinear', 'conservative', 'nearest_s2d', 'nearest_d2s', 'patch'):
            raise ValueError('unknown method')
        self.shape_in, self.shape_out = lon.shape, lo2.shape
        self.method, self.filename = method, filename
        if filename and reuse_weights and os.path.exists(filename):
            with open(filename, 'rb') as f:
                self._w = np.load(f)
            LOG.append(('reused', filename))
        else:
            self._w = operator(_vec(lon, lat), _vec(lo2, la2))
            if filename:
                with open(filename, 'wb') as f:
                    np.save(f, self._w)
        LOG.append(('regridder', self.shape_in, self.shape_out))

    def __call__(self, a, **kw):
        a = np.asarray(a)
        if a.shape[-2:] != tuple(self.shape_in):
            raise ValueError('shape of the field %s differs from the source grid %s' % (a.shape, self.shape_in))
        LOG.append(('field', a.shape))
        lead = a.shape[:-2]
        out = [apply(self._w, x, self.shape_out) for x in a.reshape((-1,) + a.shape[-2:])]
        return np.array(out).reshape(lead + tuple(self.shape_out))
