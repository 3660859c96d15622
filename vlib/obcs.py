"""Workloads and expectations for getobcs."""
import os
import numpy as np
from . import fakexesmf, geo, mdsref, mit, work

TRACER, UVEL, VVEL = ('T', 'S', 'Eta', 'W'), ('U', 'UICE'), ('V', 'VICE')
FIELDS = TRACER + UVEL + VVEL
SURFACE = ('Eta', 'UICE', 'VICE')
VEC = {'N': 'OB_Jnorth', 'S': 'OB_Jsouth', 'E': 'OB_Ieast', 'W': 'OB_Iwest'}


def desc(r, vectors=.4, big=False, holes=False):
    """A parent run, a regional grid well inside it, and a call."""
    n, m = r.randint(8, 13 if big else 10), r.randint(8, 13 if big else 10)
    d = work.tile_desc(r, ni=n, nj=m, scales=[(.05, .3), (.3, 2.), (2., 4.)])
    d.pop('snap', None)
    d.update(jit=r.choice([0., .05]), stretch=r.choice([0., .1]), mirror=False, asp=1. if r.random() < .5 else work.loguni(r, .8, 1.25))
    g = dict(d, seed=r.randint(0, 2 ** 31), ni=r.randint(1, 6), nj=r.randint(1, 6), conv=r.choice(['pm', '360']), jit=r.choice([0., .1]))
    if r.random() < .05:            # many cells along a boundary
        g['ni'], g['nj'] = r.choice([(work.large(r, 300), r.randint(1, 2)), (r.randint(1, 2), work.large(r, 300))])
    # regional extent: at most the parent's less three cells on each side
    ext = min((n - 6.4) / g['ni'], (m - 6.4) / g['nj'])
    g['dx'] = d['dx'] * ext * r.uniform(.5, .8)
    g['psi'] = d['psi'] + r.choice([0., 0., 5., -8.])
    c = dict(parent=d, regional=g, seed=r.randint(0, 2 ** 31), prec=r.choice(['float32', 'float64']), nz=r.choice([1, 2, 3, 5]),
             nt=r.choice([1, 1, 2, 3]), fields=['T'] + [f for f in FIELDS[1:] if r.random() < .45], tiles=r.choice(['one', 'one', 'even', 'uneven']),
             psrc=r.choice(['file', 'mem', 'mem']), rsrc=r.choice(['file', 'mem']), out=r.choice([None, None, 'new', 'new', 'nested', 'nested', 'old', 'old', 'parent']),
             others=r.random() < .35, slash=r.choice(['', '', '/', '//']), via=r.choice(['api', 'api', 'cli']), strict=r.random() < .3, verbose=r.random() < .1)
    if c['via'] == 'cli':
        c.update(psrc='file', rsrc='file')
    if r.random() < .05:
        c.update(r.choice([dict(nz=r.randint(9, 23)), dict(nt=r.randint(8, 12)), dict(nz=r.randint(6, 12), nt=r.randint(4, 9))]))
    # values that are not ordinary numbers (land), fields of different depths
    c['land'] = r.choice([None] * 5 + ['nan', 'nan', 'huge', 'inf', 'zero', 'nanfield', 'zerolev'])
    c['depths'] = r.random() < .2
    c['vec'] = {}
    for e in 'NSEW':
        if r.random() < vectors:
            ln, far = (g['ni'], g['nj']) if e in 'NS' else (g['nj'], g['ni'])
            k = r.choice(['zero', 'const', 'neg', 'mix', 'mix', 'edge'])
            # the point one further in (south, west) always exists on the grid
            if k == 'zero':
                v = [0] * r.choice([1, ln, 2, ln + 3])
            elif k == 'const':
                v = [r.randint(1, far)] * ln
            elif k == 'neg':
                v = [-r.randint(1, far)] * ln
            elif k == 'edge':
                v = [r.choice([1, far, -1, -far])] * ln
            else:
                v = [r.choice([1, -1]) * r.randint(1, far) for _ in range(ln)]
            if holes and ln > 1 and any(v) and r.random() < .2:     # no boundary at some of the points
                for k in r.sample(range(ln), r.randint(1, ln - 1)):
                    v[k] = 0
            c['vec'][e] = v
    c['vtype'] = r.choice(['list', 'array', 'tuple', 'int32'])
    return c


def points(XG, YG):
    V = mit.compute_points(XG, YG, 1, 1)
    return {'T': V[1::2, 1::2], 'U': V[0::2, 1::2], 'V': V[1::2, 0::2]}


def kind(f):
    return 'U' if f in UVEL else 'V' if f in VVEL else 'T'


class Run(object):
    def __init__(self, c, tmp):
        self.c, self.tmp = c, tmp
        r = self.r = work.rng(c['seed'])
        self.PX, self.PY = work.tile(c['parent'])
        self.RX, self.RY = work.tile(c['regional'])
        self.np_, self.nr = [(X.shape[0] - 1, X.shape[1] - 1) for X in (self.PX, self.RX)]
        self.pp, self.pr = points(self.PX, self.PY), points(self.RX, self.RY)
        self.res = os.path.join(tmp, r.choice(['run', 'results', 'T.dir']))
        os.makedirs(self.res)
        # (files are found by name, so the order times were written in is arbitrary)
        self.times = sorted(r.sample([0, 1, 7, 10, 72, 100, 8760, 999999, 1234567890, 9, 99, 101, 720, 4] + ([] if c['nt'] <= 12 else list(range(2000, 2000 + 24 * c['nt'], 24))), c['nt']))
        ni, nj = self.np_
        self.data = {}
        rl = work.rng(c['seed'] + 11)
        tl = mdsref.tiling(r, ni, nj, c['tiles'] == 'even')
        for k, f in enumerate(c['fields']):
            nz = 1 if f in SURFACE else c['nz'] + (r.choice([0, 1, -1, 2]) if c.get('depths') else 0) or 1
            self.data[f] = np.zeros((len(self.times), nz, nj, ni))
            for t in r.sample(range(len(self.times)), len(self.times)):
                a = mdsref.values(c['seed'] % 10 ** 8 + 100 * k + t, (1, nz, nj, ni), c['prec'])
                if c.get('land') == 'nanfield':
                    a[...] = np.where(rl.random() < .4, np.nan, a)
                elif c.get('land') == 'zerolev':        # whole levels of zeros, at the surface too
                    for l in range(nz):
                        if rl.random() < .4:
                            a[:, l] = 0.
                elif c.get('land'):
                    for _ in range(rl.randint(1, 4)):
                        i, j = rl.randrange(ni), rl.randrange(nj)
                        a[:, rl.randrange(nz):, j:j + rl.randint(1, 4), i:i + rl.randint(1, 4)] = {'nan': np.nan, 'huge': 1e30, 'inf': np.inf, 'zero': 0.}[c['land']]
                self.data[f][t] = a[0]
                if f in SURFACE:
                    a = a[:, 0]
                base = os.path.join(self.res, '%s.%010d' % (f, self.times[t]))
                if c['tiles'] == 'one':
                    mdsref.put(base, a, c['prec'], step=self.times[t])
                else:
                    mdsref.put('', a, c['prec'], '>', [(base + '.%03d.001' % (i + 1,),) + q for i, q in enumerate(tl)])
        if c.get('others'):
            # other output of the same run, at other times and of other sizes
            for f in r.sample(['TFLUX', 'Ttave', 'THETA', 'Tsurf', 'SST', 'SIarea', 'S0', 'UVEL', 'Uveltave', 'U10', 'VVEL', 'Vres', 'WVEL', 'Wtave',
                               'Etatave', 'EtaSQ', 'UICEtend', 'VICEX', 'pickup', 'PH', 'surfDiag'], r.randint(1, 5)):
                a = mdsref.values(c['seed'] % 10 ** 8 + 7777, (1, 2, nj, ni) if r.random() < .5 else (1, nj, ni), c['prec'])
                for t in r.sample([2, 5, 11, 73, 8761, 1000000], r.randint(1, 3)):
                    mdsref.put(os.path.join(self.res, '%s.%010d' % (f, t)), a, c['prec'], step=t)
            for f in r.sample(['XC', 'Depth', 'T', 'hFacC', 'S'], 2):
                mdsref.put(os.path.join(self.res, f), mdsref.values(c['seed'] % 10 ** 8 + 5, (1, nj, ni), c['prec']), c['prec'])
            with open(os.path.join(self.res, 'T.0000000003.meta.old'), 'w') as f:
                f.write('x')
        self.kw = {}
        for what, X, Y, src, n in (('parent', self.PX, self.PY, c['psrc'], self.np_), ('regional', self.RX, self.RY, c['rsrc'], self.nr)):
            m = mit.full_mats(mit.reference(X, Y, 1, 1))
            m['XG'], m['YG'] = X.copy(), Y.copy()
            if src == 'mem':
                self.kw[what + '_mitgrid_matrices'] = m
            else:
                p = os.path.join(tmp, what + '.mitgrid')
                work.write_mit(p, m, *n)
                self.kw.update({what + '_mitgridfile': p, 'ni_' + what: n[0], 'nj_' + what: n[1]})
        self.kw['parent_resultsdir'] = self.res + c['slash']
        self.out = self.res + '_obcs'
        if c['out']:
            self.out = os.path.join(tmp, 'obc' if c['out'] != 'nested' else 'deep/er')
            self.kw['resultsdir'] = self.out
        if c['out'] == 'parent':        # beside the results themselves
            self.out = self.res + r.choice(['', '/'])
            self.kw['resultsdir'] = self.out
        if c['out'] == 'old':
            os.makedirs(self.out)
        for e, v in c['vec'].items():
            if c['via'] == 'api':
                v = {'list': list, 'tuple': tuple, 'array': np.array, 'int32': lambda x: np.array(x, 'i4')}[c['vtype']](v)
            self.kw[VEC[e]] = v

    def argv(self):
        out = []
        for k, v in self.kw.items():
            out.append(['--' + k] + [str(x) for x in (v if isinstance(v, list) else [v])])
        if self.c['strict']:
            out.append(['--strict'])
        if self.c['verbose']:
            out.append(['-v'])
        self.r.shuffle(out)
        return sum(out, [])

    def cells(self, e):
        """Zeros-based (i, j) of the boundary cells, or None if switched off."""
        ni, nj = self.nr
        ln, far = (ni, nj) if e in 'NS' else (nj, ni)
        v = self.c['vec'].get(e)
        if v is None:
            v = [far if e in 'NE' else 1] * ln
        if not any(v):
            return None
        x = [far + k if k < 0 else k - 1 for k in v]
        a = list(range(ln))
        return (a, x) if e in 'NS' else (x, a)

    def defined(self, e):
        """Which points of the boundary exist (a zero among other indices means none)."""
        v = self.c['vec'].get(e)
        return np.ones(self.nr[0] if e in 'NS' else self.nr[1], dtype=bool) if v is None else np.array(v) != 0

    def sites(self, e, f):
        """Positions of the points MITgcm prescribes on boundary e for field f."""
        i, j = self.cells(e)
        k = kind(f)
        if k == 'U' and e == 'W':
            i = [a + 1 for a in i]
        if k == 'V' and e == 'S':
            j = [a + 1 for a in j]
        return self.pr[k][i, j]

    def expected(self, f, e):
        """[boundary, depth, time]"""
        k = kind(f)
        d = self.data[f]
        P, Q = self.pp[k], self.sites(e, f)
        W = fakexesmf.operator(P, Q)
        out = np.zeros((Q.shape[0], d.shape[1], d.shape[0]))
        for t in range(d.shape[0]):
            for z in range(d.shape[1]):
                a = np.zeros(P.shape[:2])
                a[:self.np_[0], :self.np_[1]] = d[t, z].T
                out[:, z, t] = fakexesmf.apply(W, a, (-1,))
        # nothing may depend on what lies beyond the stored parent points
        pad = np.ones(P.shape[:2])
        pad[:self.np_[0], :self.np_[1]] = 0.
        assert not W.dot(pad.ravel()).any() and np.allclose(W.sum(1), 1.), 'regional grid too close to the rim'
        return out

    def wanted(self):
        return {'OB%s%s' % (e, f.lower()): (f, e) for f in self.c['fields'] for e in 'NSEW' if self.cells(e) is not None}

    def decode(self, name, f, e):
        """[boundary, depth, time] or the raw length if that is wrong."""
        with open(os.path.join(self.out, name), 'rb') as fd:
            b = fd.read()
        n = (self.nr[0] if e in 'NS' else self.nr[1], self.data[f].shape[1], len(self.times))
        if len(b) != 8 * n[0] * n[1] * n[2]:
            return len(b)
        v = np.frombuffer(b, '>f8')
        a = np.empty(n)
        for t in range(n[2]):
            for z in range(n[1]):
                for k in range(n[0]):
                    a[k, z, t] = v[k + n[0] * (z + n[1] * t)]
        return a


def same(a, w):
    f = w[np.isfinite(w)]
    s = (np.abs(f).max() if f.size else 0.) + 1e-300
    with np.errstate(all='ignore'):
        return (np.abs(a - w) <= 1e-7 * s) | (a == w) | (np.isnan(a) & np.isnan(w))
