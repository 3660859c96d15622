"""Workload generators (JSON-able descriptions) and their construction."""
import random
import collections
import types
import numpy as np
from . import geo, mit


# sizes around which block-wise implementations change over
ROUND = [31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 255, 256, 257]


def large(r, most=260):
    n = r.choice(ROUND) if r.random() < .6 else r.randint(30, most)
    return min(n, most)


# ------------------------------------------------------------------ regions
REGION_KINDS = ['plain', 'plain', 'plain', 'greenwich', 'greenwich360', 'dateline', 'dateline360',
                'edge0', 'edge180', 'high', 'equator']
SCALES = [(1e-6, 3e-4), (3e-4, 3e-3), (5e-3, .1), (.05, .6), (.6, 6.), (4., 40.), (30., 110.)]


def loguni(r, a, b):
    return float(np.exp(r.uniform(np.log(a), np.log(b))))


def wrap(lon, conv):
    lon = np.asarray(lon, dtype='f8')
    out = np.mod(lon, 360.)
    if conv == 'pm':
        out = np.where(out > 180., out - 360., out)
    return out


def region(r, big=True, kind=None, pole=False):
    """Corner pair of a lon/lat region: (lon1, lat1, lon2, lat2)."""
    kind = kind or r.choice(REGION_KINDS)
    lo, hi = r.choice(SCALES if big else SCALES[:-1])
    dx = loguni(r, lo, hi)
    dy = min(loguni(r, lo, hi), 70.)
    if r.random() < .7:        # keep aspect ratios moderate most of the time
        dy = min(70., dx * loguni(r, .3, 3.))
    if pole:
        lat_hi = 90.
        lat_lo = 90. - max(dy, .5)
        dx = min(max(dx, .5), 100.)
        if r.random() < .5:
            lat_lo, lat_hi = -90., lat_lo - 90. + (90. - lat_lo)
            lat_lo, lat_hi = -90., -90. + max(dy, .5)
    elif kind == 'high':
        lat_hi = r.uniform(75., 85.)
        lat_lo = lat_hi - min(dy, 40.)
        if r.random() < .5:
            lat_lo, lat_hi = -lat_hi, -lat_lo
        dx = min(dx, 60.)
    elif kind == 'equator':
        f = r.uniform(.1, .9)
        lat_lo, lat_hi = -f * dy, (1 - f) * dy
    else:
        lat_lo = r.uniform(-72., 72. - dy) if dy < 140 else -70.
        lat_hi = lat_lo + dy
    f = r.uniform(.1, .9)
    conv = 'pm'
    if kind == 'greenwich':
        w = -f * dx
    elif kind == 'greenwich360':
        w, conv = -f * dx, '360'
    elif kind == 'dateline':
        w = 180. - f * dx
    elif kind == 'dateline360':
        w, conv = 180. - f * dx, '360'
    elif kind == 'edge0':
        w, conv = r.choice([0., -dx]), r.choice(['pm', '360'])
    elif kind == 'edge180':
        w, conv = r.choice([180. - dx, -180.]), 'pm'
    else:
        conv = r.choice(['pm', '360'])
        w = r.uniform(-180., 180. - dx) if conv == 'pm' else r.uniform(0., 360. - dx)
    e = w + dx
    W, E = float(wrap(w, conv)), float(wrap(e, conv))
    if kind == 'edge180':
        if w == -180.:
            W = -180.
        else:
            E = 180.
    if r.random() < .3 and not pole:
        W, E, lat_lo, lat_hi = [round(x, r.choice([1, 3])) for x in (W, E, lat_lo, lat_hi)]
        if (W - E) % 360. == 0.:
            E = W + .25 if W < 179. or 180. < W < 359. else W - .25
        if lat_lo == lat_hi:
            lat_hi = lat_lo + .25
    if not pole and kind != 'edge180' and r.random() < .15:
        # corners exactly on the equator, and perhaps on the prime meridian
        lat_lo, lat_hi = r.choice([(0., dy), (-dy, 0.)])
        if kind in ('plain', 'edge0'):
            W, E = [(0., dx), (-dx, 0.), (360. - dx, 360.)][r.randint(0, 1) if conv == 'pm' else r.choice([0, 2])]
    c = dict(lon1=W, lat1=lat_hi, lon2=E, lat2=lat_lo)
    flip = r.choice(['', '', '', 'x', 'y', 'xy'])
    if 'x' in flip:
        c['lon1'], c['lon2'] = c['lon2'], c['lon1']
    if 'y' in flip:
        c['lat1'], c['lat2'] = c['lat2'], c['lat1']
    return c


def subscales(r, most=6):
    k = r.random()
    if k < .12:
        return 1, 1
    if k < .24:
        return r.choice([(1, r.randint(2, most + 3)), (r.randint(2, most + 3), 1)])
    if most > 4 and k < .27:        # many cells in one direction
        a, b = int(loguni(r, 30, 300)), r.choice([1, 1, 2])
        return (a, b) if r.random() < .5 else (b, a)
    if most > 4 and k < .28:        # many cells in both
        return r.randint(15, 40), r.randint(15, 40)
    a, b = r.randint(1, most), r.randint(1, most)
    if a == b and r.random() < .6:
        b = a % most + 1
    return a, b


# ------------------------------------------------------------------ tiles
def tile_desc(r, nmin=1, nmax=5, ni=None, nj=None, scales=None, nopole=True):
    """Description of a curvilinear tile of corner points."""
    lo, hi = r.choice(scales or [(1e-6, 3e-4), (3e-4, 3e-3), (5e-3, .1), (.1, 2.), (.1, 2.), (1., 9.)])
    d = dict(seed=r.randint(0, 2 ** 31), ni=ni or r.randint(nmin, nmax), nj=nj or r.randint(nmin, nmax),
             dx=loguni(r, lo, hi), asp=loguni(r, .4, 2.5), jit=r.choice([0., 0., .05, .15]),
             stretch=r.choice([0., .3]),
             psi=r.choice([0., 0., 90., 37., r.uniform(-180., 180.)]),
             conv=r.choice(['pm', '360']), mirror=r.random() < .15)
    ext = d['dx'] * max(d['ni'], d['nj'] * d['asp']) * 1.3
    if ext > 80.:
        d['dx'] *= 80. / ext
        ext = 80.
    m = min(80., 88. - .75 * ext) if nopole else 89.
    d['clat'] = r.uniform(-m, m)
    d['clon'] = r.choice([0., 180., -90., r.uniform(-180, 180), r.uniform(-180, 180)])
    if r.random() < .15 and ext / np.cos(np.radians(d['clat'])) < 100.:
        d.update(latlon=True, jit=0.)     # along meridians and parallels
        if r.random() < .5 and abs(d['clat']) < 60.:
            d['snap'] = [r.choice([None, 0., 180.]), r.choice([None, 0.])]   # a column, a row exactly there
            if d['snap'][0] is not None:
                d['clon'] = d['snap'][0]
            if d['snap'][1] is not None:
                d['clat'] = 0.
    return d


def big_tile(r, most=260, less=120):
    """A tile of many points and a small block of it."""
    d = tile_desc(r, ni=large(r, most), nj=large(r, less), scales=[(.001, .02), (.01, .2)])
    d.pop('snap', None)
    if d['ni'] == d['nj']:
        d['ni'] += r.randint(1, 9)
    b = block_desc(r, d)
    b['i0'], b['j0'] = r.randint(0, d['ni'] - 4), r.randint(0, d['nj'] - 4)
    b['i1'], b['j1'] = b['i0'] + r.randint(1, 4), b['j0'] + r.randint(1, 4)
    return d, b


MAPS = [dict, collections.OrderedDict, lambda x: types.MappingProxyType(dict(x)), lambda x: collections.UserDict(dict(x)),
        lambda x: collections.ChainMap(dict(list(x)[::2]), dict(list(x)[1::2]))]


def retype(r, d, p=.06):
    """Now and then, a source whose positions are not double precision."""
    if r.random() < p:
        d['etype'] = r.choice(['f4', 'f4', 'i4', 'i8', 'i2', 'g'])
        d.pop('snap', None)
        if d['etype'][0] == 'i':        # whole degrees
            d.update(latlon=True, jit=0., dx=r.uniform(2.5, 5.), asp=1., clat=r.uniform(-25., 25.))
        elif d['etype'] == 'f4':
            d['dx'] = max(d['dx'], .1)
            d['clat'] = max(-45., min(45., d['clat']))
    return d


def short(d, lon, lat):
    """Coordinates of few decimal digits."""
    return (lon, lat) if d.get('digits') is None else (np.round(lon, d['digits']) + 0., np.round(lat, d['digits']) + 0.)


def tile(d):
    """(XG, YG) of a described tile, canonical orientation (i ~ u, j ~ v)."""
    r = np.random.RandomState(d['seed'])
    ni, nj = d['ni'], d['nj']
    du = d['dx'] * (1. + d['stretch'] * r.uniform(-1, 1, ni))
    dv = d['dx'] * d['asp'] * (1. + d['stretch'] * r.uniform(-1, 1, nj))
    if d.get('graded'):         # spacings of different orders of magnitude
        g = np.random.RandomState(d['seed'] + 1)
        du, dv = du * 10. ** g.uniform(-d['graded'], 0., ni), dv * 10. ** g.uniform(-d['graded'], 0., nj)
        du[g.randint(ni)], dv[g.randint(nj)] = d['dx'], d['dx'] * d['asp']
    u = np.concatenate(([0.], np.cumsum(du)))
    v = np.concatenate(([0.], np.cumsum(dv)))
    u -= u.mean()
    v -= v.mean()
    k = 1. / np.cos(np.radians(d['clat']))
    if d.get('latlon') and abs(d['clat']) - v[0] < 89.5 and -u[0] * k < 75.:
        U, V = np.meshgrid(d['clon'] + u * k, d['clat'] + v, indexing='ij')
        if d.get('snap'):
            if d['snap'][0] is not None:
                U = U - U[r.randint(ni + 1), 0] + d['snap'][0]
            if d['snap'][1] is not None:
                V = V - V[0, r.randint(nj + 1)] + d['snap'][1]
        if d['mirror']:
            U, V = U[:, ::-1].copy(), V[:, ::-1].copy()
        if d.get('etype', 'f')[0] == 'i':
            U, V = np.round(U) + 0., np.round(V) + 0.
        return short(d, wrap(U, d['conv']), V)
    U, V = np.meshgrid(u, v, indexing='ij')
    U = U + d['jit'] * d['dx'] * r.uniform(-1, 1, U.shape)
    V = V + d['jit'] * d['dx'] * d['asp'] * r.uniform(-1, 1, U.shape)
    if d.get('bump'):           # other positions in the middle only
        I, J = np.meshgrid(np.arange(ni + 1), np.arange(nj + 1), indexing='ij')
        w = np.clip(np.minimum(np.minimum(I, ni - I), np.minimum(J, nj - J)) - 3., 0., 1.)
        U, V = U + d['bump'] * d['dx'] * w, V - .7 * d['bump'] * d['dx'] * w
    if d.get('bow'):            # sides that bend outwards or inwards
        s, t = (U - U.min()) / np.ptp(U), (V - V.min()) / np.ptp(V)
        U, V = U + d['bow'][0] * np.ptp(U) * t * (1. - t), V + d['bow'][1] * np.ptp(V) * s * (1. - s)
    P = geo.turned(geo.vec(U, V), geo.rot_to(d['clon'], d['clat'], d['psi']))
    lon, lat = geo.lonlat(P)
    if d['mirror']:
        lon, lat = lon[:, ::-1].copy(), lat[:, ::-1].copy()
    return short(d, wrap(lon, d['conv']), lat)


def rot_k(B, corner):
    """Number of rot90 turns that put the block corner `corner` (0..3 meaning
    (0,-1), (-1,-1), (-1,0), (0,0)) at [0,-1]."""
    idx = [(0, -1), (-1, -1), (-1, 0), (0, 0)]
    tag = np.zeros(B, dtype=int)
    tag[idx[corner]] = 1
    for k in range(4):
        if np.rot90(tag, k)[0, -1] == 1:
            return k
    raise AssertionError


def block_desc(r, d, whole=None):
    ni, nj = d['ni'], d['nj']
    if whole or (whole is None and r.random() < .25):
        i0, i1, j0, j1 = 0, ni, 0, nj
    else:
        i0 = r.randint(0, ni - 1)
        i1 = r.randint(i0 + 1, ni)
        j0 = r.randint(0, nj - 1)
        j1 = r.randint(j0 + 1, nj)
    return dict(i0=i0, i1=i1, j0=j0, j1=j1, corner=r.randint(0, 3), turn=r.randint(0, 3),
                off=r.choice([0., 0., .1, .3]), oseed=r.randint(0, 2 ** 31),
                wind=[r.choice([0, 0, 0, 1, -1]), r.choice([0, 0, 0, 1, -1])])


def min_spacing(P):
    """Smallest distance (unit sphere) between neighbouring points."""
    a = [geo.angle(P[1:], P[:-1]).min(), geo.angle(P[:, 1:], P[:, :-1]).min(),
         geo.angle(P[1:, 1:], P[:-1, :-1]).min(), geo.angle(P[1:, :-1], P[:-1, 1:]).min()]
    return min(a)


class Selection(object):
    """A regrid request on a described tile: source matrices as handed in,
    corner positions, and the block the result must be built from."""

    def __init__(self, d, b):
        XG, YG = tile(d)
        self.etype = d.get('etype', 'f8')
        if self.etype == 'f4':
            XG, YG = XG.astype('f4').astype('f8'), YG.astype('f4').astype('f8')
        self.P = geo.vec(XG, YG)
        self.srcXG, self.srcYG = np.rot90(XG, b['turn']).copy(), np.rot90(YG, b['turn']).copy()
        self.ni, self.nj = self.srcXG.shape[0] - 1, self.srcXG.shape[1] - 1
        s = np.s_[b['i0']:b['i1'] + 1, b['j0']:b['j1'] + 1]
        BX, BY = XG[s], YG[s]
        k = rot_k(BX.shape, b['corner'])
        self.BX, self.BY = np.rot90(BX, k), np.rot90(BY, k)
        r = np.random.RandomState(b['oseed'])
        sp = np.degrees(min_spacing(self.P))
        pos = []
        for n, (x, y) in enumerate(((self.BX[0, -1], self.BY[0, -1]), (self.BX[-1, 0], self.BY[-1, 0]))):
            if b['off']:
                t = r.uniform(0, 2 * np.pi)
                a = b['off'] * sp
                y2 = y + a * np.sin(t)
                if abs(y2) < 89.9:
                    x, y = x + a * np.cos(t) / np.cos(np.radians(y)), y2
            pos.append((float(x) + 360. * b['wind'][n], float(y)))
        self.kw = dict(lon1=pos[0][0], lat1=pos[0][1], lon2=pos[1][0], lat2=pos[1][1])

    def mats(self, seed=0, layout='C'):
        """A full in-memory mitgrid dictionary around XG, YG (other fields are
        recognisable junk that regrid must not use)."""
        r = np.random.RandomState(seed)
        out = {}
        for n in mit.NAMES:
            out[n] = r.uniform(-1e3, 1e3, mit.shape(n, self.ni, self.nj))
        out['XG'], out['YG'] = self.srcXG.astype(self.etype), self.srcYG.astype(self.etype)
        return {k: layout_as(v, layout) for k, v in out.items()}


LAYOUTS = ['C', 'F', 'view', 'be', 'neg']


def layout_as(a, layout):
    """Same values, different memory layout."""
    a = np.asarray(a)
    if layout == 'C':
        return np.ascontiguousarray(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'be':
        return a.astype(a.dtype.newbyteorder('>'))
    if layout == 'neg':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    big = np.full([2 * n + 1 for n in a.shape], -777. if a.dtype.kind == 'f' else 77, a.dtype.newbyteorder('='))
    v = big[tuple(slice(0, 2 * n, 2) for n in a.shape)]
    v[...] = a
    return v


# ------------------------------------------------------------------ grid calls
def grid_case(r, allow_big=True, pole=False):
    """mkgrid or regrid request."""
    if r.random() < .5 or pole:
        c = region(r, big=allow_big, pole=pole)
        c['op'] = 'mkgrid'
        c['ls'], c['ms'] = subscales(r, 6)
        return c
    if r.random() < .04:            # long tiles
        n, m = int(loguni(r, 20, 150)), r.randint(1, 2)
        d = tile_desc(r, ni=n if r.random() < .5 else m, nj=None, nopole=True)
        if d['ni'] == m:
            d['nj'] = n
        d['dx'] = min(d['dx'], 50. / (n * max(1., d['asp'])))
        b = block_desc(r, d, r.random() < .6)
    else:
        d = retype(r, tile_desc(r, nopole=True))
        b = block_desc(r, d)
    n, m = b['i1'] - b['i0'], b['j1'] - b['j0']
    if b['corner'] in (1, 3):
        n, m = m, n
    ls, ms = subscales(r, 4)
    while n * ls * m * ms > 150 and ls * ms > 1:
        ls, ms = max(1, ls - 1), max(1, ms - 1)
    return dict(op='regrid', tile=d, block=b, ls=ls, ms=ms,
                layout=r.choice(LAYOUTS), route=r.choice(['mem', 'mem', 'file', 'xy', 'csv']))


def grid_source(c):
    """Corner matrix the result must be a subdivision of."""
    if c['op'] == 'mkgrid':
        XG = np.array([[c['lon1'], c['lon1']], [c['lon2'], c['lon2']]])
        YG = np.array([[c['lat2'], c['lat1']], [c['lat2'], c['lat1']]])
        return XG, YG, None
    s = Selection(c['tile'], c['block'])
    return s.BX, s.BY, s


CSV = [str, lambda t: ' ' + t, lambda t: t + ' ', lambda t: t if t[0] == '-' else '+' + t, lambda t: t + '0' if 'e' not in t else t,
       lambda t: t[:-2] if t.endswith('.0') else t, lambda t: t[:-1] if t.endswith('.0') else t,
       lambda t: t.replace('e', 'E'), lambda t: t if 'e' in t else t + 'e0', lambda t: t if 'e' in t else t + 'E+00']


def write_csv(path, A):
    """Numbers exactly as they are, in some notation that depends on them."""
    r = random.Random(np.ascontiguousarray(A).tobytes())
    mixed = r.random() < .6
    rows = [','.join((r.choice(CSV) if mixed else str)(repr(float(x))) for x in row) for row in A]
    nl = r.choice(['\n', '\n', '\n', '\r\n'])
    with open(path, 'w', newline='') as f:
        f.write(nl.join(rows) + r.choice([nl, nl, '']))


def write_bin(path, A):
    with open(path, 'wb') as f:
        f.write(np.asarray(A, dtype='>f8').tobytes(order='F'))


def call_grid(sg, c, sel, tmp, verbose=False):
    if c['op'] == 'mkgrid':
        return sg.mkgrid.mkgrid(verbose, lon1=c['lon1'], lat1=c['lat1'], lon2=c['lon2'],
                                lat2=c['lat2'], lon_subscale=c['ls'], lat_subscale=c['ms'])
    kw = dict(sel.kw)
    kw.update(lon_subscale=c['ls'], lat_subscale=c['ms'])
    kw.update(route_args(c.get('route', 'mem'), sel, tmp, c.get('layout', 'C')))
    return sg.regrid.regrid(False, verbose, **kw)


def route_args(route, sel, tmp, layout='C', seed=0):
    import os
    ni, nj = sel.ni, sel.nj
    if route == 'mem':
        return dict(mitgrid_matrices=sel.mats(seed, layout))
    if route == 'file':
        p = os.path.join(tmp, 'src.mitgrid')
        with open(p, 'wb') as f:
            f.write(mit.encode(sel.mats(seed), ni, nj))
        return dict(mitgridfile=p, ni=ni, nj=nj)
    if route == 'xy':
        a, b = os.path.join(tmp, 'src.xg'), os.path.join(tmp, 'src.yg')
        write_bin(a, sel.srcXG)
        write_bin(b, sel.srcYG)
        return dict(xg_file=a, yg_file=b, ni=ni, nj=nj)
    a = os.path.join(tmp, 'xg.csv' if route in ('csv', 'csvx') else 'src.xg')
    b = os.path.join(tmp, 'yg.csv' if route in ('csv', 'csvy') else 'src.yg')
    (write_csv if route in ('csv', 'csvx') else write_bin)(a, sel.srcXG)
    (write_csv if route in ('csv', 'csvy') else write_bin)(b, sel.srcYG)
    return dict(xg_file=a, yg_file=b, ni=ni, nj=nj)


# ------------------------------------------------------------------ tile pairs
class Pair(object):
    """Two tiles cut out of one union tile.  `side` tells where B lies as seen
    from A: 'E', 'W', 'N' or 'S'."""
    CODE = {'N': 0, 'S': 1, 'E': 2, 'W': 3}
    OPP = {'N': 'S', 'S': 'N', 'E': 'W', 'W': 'E'}

    def __init__(self, d, cut, side, convb=None, pert=0., pseed=0):
        UX, UY = tile(d)
        self.UX, self.UY = UX, UY
        if side in 'EW':
            lo = np.s_[:cut + 1, :]
            hi = np.s_[cut:, :]
        else:
            lo = np.s_[:, :cut + 1]
            hi = np.s_[:, cut:]
        a, b = (lo, hi) if side in 'EN' else (hi, lo)
        self.aXG, self.aYG = UX[a].copy(), UY[a].copy()
        self.bXG, self.bYG = UX[b].copy(), UY[b].copy()
        self.side = side
        self.a_edge, self.b_edge = self.CODE[side], self.CODE[self.OPP[side]]
        self.cut = cut
        self.na = (self.aXG.shape[0] - 1, self.aXG.shape[1] - 1)
        self.nb = (self.bXG.shape[0] - 1, self.bXG.shape[1] - 1)
        if convb:
            self.bXG = wrap(self.bXG, convb)

    def edge(self, which):
        """Index of the shared edge line within tile 'a' or 'b'."""
        s = self.side if which == 'a' else self.OPP[self.side]
        return {'E': np.s_[-1, :], 'W': np.s_[0, :], 'N': np.s_[:, -1], 'S': np.s_[:, 0]}[s]

    def next_line(self):
        """B's line of points next to the shared edge."""
        s = self.OPP[self.side]
        return {'E': np.s_[-2, :], 'W': np.s_[1, :], 'N': np.s_[:, -2], 'S': np.s_[:, 1]}[s]


def pair_desc(r, most=4):
    d = tile_desc(r, nmin=2, nmax=2 * most)
    d['mirror'] = False
    # keep unions moderate: one direction up to 2*most, the other up to most
    side = r.choice('NSEW')
    if side in 'EW':
        d['nj'] = r.randint(1, most)
        n = d['ni']
    else:
        d['ni'] = r.randint(1, most)
        n = d['nj']
    if r.random() < .025:               # long edges, or tiles of many cells across
        d['ni'], d['nj'] = r.choice([(large(r, 130), r.randint(2, 8)), (r.randint(2, 8), large(r, 130))])
        n = d['ni'] if side in 'EW' else d['nj']
        d['dx'] = min(d['dx'], 50. / (max(d['ni'], d['nj']) * max(1., d['asp'])))
        d.pop('snap', None)
        d.pop('latlon', None)
    ext = d['dx'] * max(d['ni'], d['nj'] * d['asp']) * 1.3
    m = max(0., min(80., 88. - .75 * ext))
    d['clat'] = max(-m, min(m, d['clat']))
    return dict(tile=d, cut=r.randint(1, n - 1), side=side,
                convb=r.choice([None, None, 'pm', '360']), mseed=r.randint(0, 2 ** 31))


def pair(c):
    return Pair(c['tile'], c['cut'], c['side'], c.get('convb'))


def junk_mats(XG, YG, seed, zeros=0.):
    """Matrices with arbitrary non-zero recognisable values around XG, YG."""
    ni, nj = XG.shape[0] - 1, XG.shape[1] - 1
    r = np.random.RandomState(seed)
    out = {}
    for n in mit.NAMES:
        sh = mit.shape(n, ni, nj)
        v = r.uniform(.5, 2.5, sh) * 10. ** r.randint(-3, 6, sh)
        if zeros:
            v[r.uniform(size=sh) < zeros] = 0.
        out[n] = v
    out['XG'], out['YG'] = XG.copy(), YG.copy()
    return out


def write_mit(path, mats, ni, nj, padding=None):
    with open(path, 'wb') as f:
        f.write(mit.encode(mats, ni, nj, padding))


def rng(seed):
    return random.Random(seed)
