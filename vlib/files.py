"""Generators and helpers for the file checks."""
import os
import struct
import numpy as np
from . import mit, work

SPECIAL = [0., -0., float('inf'), -float('inf'), float('nan'), 5e-324, -5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, -1.7976931348623157e308, 1e-300, 1., -1.]


def size(r, most=12):
    k = r.random()
    if most >= 12 and k < .015:         # (slices of 2**k terms, and around)
        return r.choice([(31, 31), (63, 63), (63, 31), (127, 127), (64, 64), (127, 31), (r.randint(13, 130), r.randint(13, 130)), (1, 511), (255, 255)])
    if k < .1:
        return 1, 1
    if k < .25:
        return r.choice([(1, r.randint(2, most)), (r.randint(2, most), 1)])
    return r.randint(1, most), r.randint(1, most)


def content(seed, ni, nj, kind):
    """Sixteen matrices of the requested kind of content."""
    r = np.random.RandomState(seed)
    out = {}
    for n in mit.NAMES:
        sh = mit.shape(n, ni, nj)
        if kind == 'bits':
            a = r.randint(0, 256, size=sh + (8,)).astype('u1').view('f8')[..., 0].copy()
            a[np.isnan(a)] = np.nan
        elif kind == 'special':
            a = np.array(SPECIAL)[r.randint(0, len(SPECIAL), size=sh)]
        elif kind == 'index':
            a = np.arange(np.prod(sh), dtype='f8').reshape(sh) + 1000. * (1 + mit.NAMES.index(n)) + .5
        else:
            a = r.uniform(-360., 360., sh)
        out[n] = a
    return out


def read(path):
    with open(path, 'rb') as f:
        return f.read()
