"""Independent writer of MITgcm meta/data files and workload generators."""
import os
import random
import numpy as np

FORMATS = {'b': '>', '>': '>', 'ieee-be': '>', 'l': '<', '<': '<', 'ieee-le': '<'}
PRECS = {'float32': 'f4', 'float64': 'f8'}


def fmt_list(vals, r=None):
    """Comma separated list in MITgcm or odd layout."""
    if r is None:
        return ' ' + ','.join('%5d' % v for v in vals) + ' '
    out = []
    for v in vals:
        out.append(r.choice(['%d', '%5d', '%3d']) % v)
    sep = [r.choice([',', ', ', ',   ', ',\n ', ',\n']) for _ in out]
    return r.choice(['', ' ', '\n ']) + ''.join(a + b for a, b in zip(out, sep[:-1] + [''])) + r.choice(['', ' ', '\n '])


def meta_text(dims, nrec, prec='float64', step=None, times=None, flds=None, simulation=None, map2glob=None, prec_key='dataprec', extra=()):
    """dims: [(n, first, last)] x first, ones-based."""
    t = ''
    if simulation is not None:
        t += " simulation = { '%s' };\n" % simulation
    t += ' nDims = [ %3d ];\n' % len(dims)
    t += ' dimList = [\n' + ',\n'.join(' %5d,%5d,%5d' % d for d in dims) + '\n ];\n'
    if map2glob is not None:
        t += ' map2glob = [ %5d,%5d ];\n' % tuple(map2glob)
    t += " %s = [ '%s' ];\n" % (prec_key, prec)
    t += ' nrecords = [ %5d ];\n' % nrec
    if step is not None:
        t += ' timeStepNumber = [ %10d ];\n' % step
    if times is not None:
        t += ' timeInterval = [' + ''.join('%20.12E' % x for x in times) + ' ];\n'
    if flds is not None:
        t += ' nFlds = [ %4d ];\n fldList = {\n' % len(flds)
        for k in range(0, len(flds), 20):
            t += ''.join(" '%-8s'" % f for f in flds[k:k + 20]) + '\n'
        t += ' };\n'
    for e in extra:
        t += e
    return t


def write_data(path, a, tp):
    with open(path, 'wb') as f:
        f.write(np.ascontiguousarray(a, dtype=tp).tobytes())


def put(base, a, prec='float64', pre='>', tiles=None, **meta):
    """Write array a[rec, ..., y, x].  tiles: [(suffix or directory-qualified
    base, i0, ie, j0, je)] or None for one global file."""
    nrec, dims = a.shape[0], a.shape[1:]
    tp = pre + PRECS[prec]
    nx, ny = dims[-1], dims[-2]
    if tiles is None:
        tiles = [(base, 0, nx, 0, ny)]
    for (b, i0, ie, j0, je) in tiles:
        dl = [(nx, i0 + 1, ie), (ny, j0 + 1, je)] + [(n, 1, n) for n in dims[-3::-1]]
        os.makedirs(os.path.dirname(b) or '.', exist_ok=True)
        with open(b + '.meta', 'w') as f:
            f.write(meta_text(dl, nrec, prec, **meta))
        write_data(b + '.data', a[..., j0:je, i0:ie], tp)


def splits(r, n, even):
    if even:
        k = r.choice([d for d in range(1, n + 1) if n % d == 0 and n // d <= 20])
        return list(range(0, n + 1, k))
    cuts = sorted(r.sample(range(1, n), r.randint(0, min(3, n - 1)))) if n > 1 else []
    return [0] + cuts + [n]


def tiling(r, nx, ny, even=False):
    """[(i0, ie, j0, je)] covering nx x ny."""
    sx, sy = splits(r, nx, even), splits(r, ny, even)
    return [(sx[i], sx[i + 1], sy[j], sy[j + 1]) for j in range(len(sy) - 1) for i in range(len(sx) - 1)]


def values(seed, shape, prec='float64'):
    """Distinct recognisable values exactly representable in prec."""
    r = np.random.RandomState(seed % 2 ** 32)
    n = int(np.prod(shape))
    a = r.permutation(n).astype('f8') + 1. + r.randint(0, 4) * .25
    if r.rand() < .7:
        a *= 2. ** r.randint(-8, 9)
    if r.rand() < .4:
        a += a / 7.                       # (needs all digits of the precision)
    k = r.rand()
    if k < .5:
        a *= -1. if k < .25 else r.choice([-1., 1.], n)
    return a.astype(PRECS[prec]).astype('f8').reshape(shape)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
