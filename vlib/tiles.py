"""Cutting grids into tiles and putting them together, independently of the
package under test.  A grid is a dict of sixteen matrices."""
import numpy as np
from . import mit

# boundary terms that span the W/E (axis 0) or S/N (axis 1) edges of a tile
SPAN = {0: ('DXC', 'DXV', 'RAW', 'RAZ'), 1: ('DYC', 'DYU', 'RAS', 'RAZ')}
EXTRA = {n: (a, b) for n, a, b in mit.SPEC}
AXIS = {'E': 0, 'W': 0, 'N': 1, 'S': 1}
COORD = ('XC', 'YC', 'XG', 'YG')


def line(side):
    """Index of the points of an edge."""
    return {'W': np.s_[0, :], 'E': np.s_[-1, :], 'S': np.s_[:, 0], 'N': np.s_[:, -1]}[side]


def cut(m, i0, i1, j0, j1):
    """Sub-grid of cells i0..i1-1, j0..j1-1."""
    out = {}
    for n, (a, b) in EXTRA.items():
        out[n] = np.array(m[n][i0:i1 + a, j0:j1 + b], dtype='f8')
    return out


def zero_edge(m, side):
    """Make the terms that span an edge undefined (zero), in place."""
    for n in SPAN[AXIS[side]]:
        m[n][line(side)] = 0.
    return m


def dims(m):
    return np.asarray(m['XC']).shape


def join(first, second, axis, winner):
    """first (western/southern) and second tile joined; `winner` ('first' or
    'second') supplies the values on the shared line."""
    out = {}
    for n, ex in EXTRA.items():
        f, s = first[n], second[n]
        if ex[axis]:
            if winner == 'first':
                s = s[1:] if axis == 0 else s[:, 1:]
            else:
                f = f[:-1] if axis == 0 else f[:, :-1]
        out[n] = np.concatenate((f, s), axis)
    return out


def seam(n, at, axis):
    """Index of the joined matrix n's line over the seam at cell count `at`."""
    assert EXTRA[n][axis]
    return (at, slice(None)) if axis == 0 else (slice(None), at)
