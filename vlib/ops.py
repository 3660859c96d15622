"""Random calls of every entry point, for the side-effect and determinism
monitors.  build(c, dir) makes the inputs of a described call from scratch;
the same description always gives the same inputs."""
import json
import os
import numpy as np
import pyproj
from . import cli, mdsref, mit, obcs, work
from .sut import sg

KINDS = ['mkgrid', 'regrid', 'regrid', 'matchedges', 'addfringe', 'stitch', 'read', 'write', 'lonlat2cart', 'nearest', 'squad', 'pquad',
         'rdmds', 'rdmds', 'wrmds', 'parsemeta', 'mds2mitgrid', 'getobcs', 'cli', 'fill', 'tomitgrid']
FAULTS = ['arg', 'missing', 'short', 'dirty', 'nodir']


def desc(r, kind=None):
    k = kind or r.choice(KINDS)
    c = dict(op=k, seed=r.randint(0, 2 ** 31), layout=r.choice(work.LAYOUTS), verbose=r.random() < .25, strict=r.random() < .3,
             fault=r.choice([None, None, None] + FAULTS))
    if k == 'cli':
        c['tool'] = r.choice(['mkgrid', 'regrid', 'addfringe', 'stitch', 'getobcs'])
    if k == 'mkgrid' or c.get('tool') == 'mkgrid':
        c.update(region=work.region(r), sub=work.subscales(r, 4))
    if k == 'regrid' or c.get('tool') == 'regrid':
        c['tile'] = work.tile_desc(r, nmax=4, nopole=k != 'cli')
        c.update(block=work.block_desc(r, c['tile']), sub=work.subscales(r, 3), route=r.choice(['mem', 'mem', 'file', 'xy', 'csv', 'csvx']))
        if k == 'cli' and c['route'] == 'mem':
            c['route'] = 'file'
    if k in ('matchedges', 'addfringe', 'stitch', 'lonlat2cart', 'nearest', 'squad', 'pquad', 'fill', 'tomitgrid') or c.get('tool') in ('addfringe', 'stitch'):
        c['pair'] = work.pair_desc(r, 3)
        c['far'] = r.random() < .2
    if k == 'getobcs' or c.get('tool') == 'getobcs':
        o = obcs.desc(r, .3)
        o.update(nz=r.choice([1, 2]), nt=1, tiles='one', via='cli' if k == 'cli' else 'api')
        if k == 'cli':
            o.update(psrc='file', rsrc='file')
        c['obcs'] = o
    if k in ('read', 'write'):
        c.update(ni=r.randint(1, 6), nj=r.randint(1, 6))
        if r.random() < .15:            # large files
            c.update(ni=r.randint(64, 130), nj=r.randint(64, 130), large=True)
    if k in ('rdmds', 'wrmds', 'mds2mitgrid', 'parsemeta'):
        c.update(ni=r.randint(1, 6), nj=r.randint(1, 6), nz=r.randint(1, 3), nrec=r.randint(1, 3), prec=r.choice(['float32', 'float64']),
                 mm=r.random() < .5, sel=r.choice(['all', 'rec', 'lev', 'region', 'meta', 'tiles']))
        if r.random() < .08:
            c.update(ni=r.randint(40, 90), nj=r.randint(40, 90), large=True)
    return c


def vary(r, c):
    """A call that has much in common with c: same places and sizes, other extent or contents."""
    c = json.loads(json.dumps(c))
    f = r.choice([.003, .01, .1, .5, .9])
    c['fault'] = None
    if 'region' in c:
        g = c['region']
        k = r.choice(['sw', 'sw', 'nw', 'se', 'lon', 'lat'])
        if k != 'lat':
            x = (g['lon2'] - g['lon1']) * f
            g.update({'lon1': g['lon2'] - x} if k == 'se' else {'lon2': g['lon1'] + x})
        if k != 'lon':
            y = (g['lat1'] - g['lat2']) * f
            g.update({'lat2': g['lat1'] - y} if k in ('nw', 'lat') else {'lat1': g['lat2'] + y})
    elif 'tile' in c or 'pair' in c:
        t = c['tile'] if 'tile' in c else c['pair']['tile']
        t[r.choice(['dx', 'dx', 'seed'])] *= f
        t['seed'] = int(t['seed'])
    elif 'obcs' in c:
        c['obcs']['seed'] = int(c['obcs']['seed'] * f)
    else:
        c['seed'] = int(c['seed'] * f)
    return c


class Op(object):
    """fn(*args, **kw); outs: paths the call may create or change."""

    def __init__(self, what, fn, args=(), kw=None, outs=(), cli=False, outdir=None):
        self.what, self.fn, self.args, self.kw = what, fn, list(args), dict(kw or {})
        self.outs, self.cli, self.outdir = set(outs), cli, outdir

    def call(self):
        return self.fn(*self.args, **self.kw)


def _spoil(c, path):
    if c['fault'] == 'missing':
        os.unlink(path)
    elif c['fault'] == 'short':
        os.truncate(path, max(0, os.path.getsize(path) - 8 * (1 + c['seed'] % 5)))


def _pad(c, ni, nj):
    return {('XC', ni, 0): 1.5, ('DXG', ni, nj): -2.} if c['fault'] == 'dirty' else None


def _cli(tool, kw, out, c):
    argv = ['--%s=%s' % (k, repr(float(v)) if isinstance(v, (float, np.floating)) else v) for k, v in sorted(kw.items())]
    if out:
        argv.append('--outfile=' + out)
    argv += (['-s'] if c['strict'] and tool != 'mkgrid' else []) + (['-v'] if c['verbose'] else [])
    if c['fault'] == 'arg' and argv:
        argv.pop(0)
    mod = getattr(sg, tool)

    def fn(argv=argv):
        st, exc, txt = cli.run(mod.main, argv, 'sg' + tool)
        if st:
            raise RuntimeError('exit status %s: %r' % (st, exc))
        return None
    return Op('sg' + tool, fn, [argv], outs=[out] if out else [], cli=True)


def build(c, d, layout=None, verbose=None):
    """The described call with inputs made from scratch in directory d."""
    r = work.rng(c['seed'])
    L = layout or c['layout']
    v = c['verbose'] if verbose is None else verbose
    k, bad = c['op'], c['fault']
    t = c.get('tool') or k
    out = os.path.join(d, 'out')
    if bad == 'nodir':
        out = os.path.join(d, 'no', 'such', 'out')
    lay = lambda a: work.layout_as(a, L)
    if t == 'mkgrid':
        kw = dict(c['region'], lon_subscale=c['sub'][0], lat_subscale=c['sub'][1])
        if k == 'cli':
            return _cli(t, kw, out, c)
        if bad == 'arg':
            kw['lat_subscale'] = 0
        return Op(k, sg.mkgrid.mkgrid, [v], kw)
    if t == 'regrid':
        s = work.Selection(c['tile'], c['block'])
        a = work.route_args(c['route'], s, d, L, c['seed'] % 1000)
        if c['route'] == 'file':
            work.write_mit(a['mitgridfile'], s.mats(3), s.ni, s.nj, _pad(c, s.ni, s.nj))
        if c['route'] != 'mem':
            _spoil(c, a.get('mitgridfile') or a['yg_file'])
        kw = dict(s.kw, lon_subscale=c['sub'][0], lat_subscale=c['sub'][1], **a)
        if k == 'cli':
            return _cli(t, kw, out, c)
        if bad == 'arg':
            kw.update(lon2=kw['lon1'], lat2=kw['lat1'])
        return Op('regrid via ' + c['route'], sg.regrid.regrid, [c['strict'], v], kw)
    if t in ('addfringe', 'stitch'):
        p = work.pair(c['pair'])
        pa, pb = os.path.join(d, 'a.mitgrid'), os.path.join(d, 'b.mitgrid')
        work.write_mit(pa, work.junk_mats(p.aXG, p.aYG, 1, .2), *p.na, padding=_pad(c, *p.na))
        bY = p.bYG + (7. * c['pair']['tile']['dx'] if c['far'] else 0.)
        work.write_mit(pb, work.junk_mats(p.bXG, bY, 2), *p.nb)
        _spoil(c, pb)
        kw = dict(tilea=pa, nia=p.na[0], nja=p.na[1], tileb=pb, nib=p.nb[0], njb=p.nb[1])
        if k == 'cli':
            return _cli(t, kw, out, c)
        return Op(k, getattr(getattr(sg, k), k), [c['strict'], v], kw)
    if t == 'getobcs':
        run = obcs.Run(c['obcs'], d)
        if bad in ('missing', 'short'):
            f = sorted(x for x in os.listdir(run.res) if x.endswith('.data'))
            _spoil(c, os.path.join(run.res, f[c['seed'] % len(f)]))
        if k == 'cli':
            op = _cli(t, {}, None, c)
            argv = run.argv()
            if bad == 'arg':
                k = argv.index('--ni_regional')
                del argv[k:k + 2]
            op.args = [argv]
        else:
            kw = dict(run.kw)
            for m in kw:
                if m.endswith('matrices'):
                    kw[m] = {a: lay(b) for a, b in kw[m].items()}
            if bad == 'arg':
                kw.pop('regional_mitgridfile', None)
                kw.pop('regional_mitgrid_matrices', None)
            op = Op(k, sg.getobcs.getobcs, [c['strict'], v], kw)
        op.outdir = run.out
        return op
    geod = pyproj.Geod(ellps='sphere')
    if k == 'matchedges':
        p = work.pair(c['pair'])
        bY = p.bYG + (7. * c['pair']['tile']['dx'] if c['far'] else 0.)
        return Op(k, sg.matchedges.matchedges, [lay(p.aXG), lay(p.aYG), lay(p.bXG), lay(bY), geod, v])
    if k in ('lonlat2cart', 'nearest', 'squad', 'pquad', 'fill', 'tomitgrid'):
        p = work.pair(c['pair'])
        X, Y = p.UX.copy(), p.UY.copy()
        if k == 'lonlat2cart':
            return Op(k, sg.util.lonlat2cart, [lay(X), lay(Y)] + ([r.choice([1., 6370997.])] if r.random() < .5 else []))
        if k == 'nearest':
            if bad == 'arg':
                X = X[:, :-1]
            return Op(k, sg.util.nearest, [float(p.UX[0, 0]), float(p.UY[0, 0]), lay(X), lay(Y), geod])
        from . import geo
        if k in ('squad', 'pquad'):
            V = geo.vec(X, Y)
            if bad == 'arg':
                V[0] = V[1]                  # coincident corners: arithmetic warnings
            return Op(k + '_uarea', getattr(sg.util, k + '_uarea'), [lay(V)])
        if k == 'fill':
            W = np.full((2, 2 * X.shape[0] - 1, 2 * X.shape[1] - 1), np.nan)
            W[0, ::2, ::2], W[1, ::2, ::2] = X, Y
            n, m = W.shape[1:]
            return Op('computegrid.fill', sg.computegrid.fill, [lay(W[0]), lay(W[1]), 0, n - 1, 0, m - 1, 1, 1, geod, v])
        V = mit.ring(mit.compute_points(X, Y, 1, 1))
        lon, lat = geo.lonlat(V)
        n, m = lon.shape
        return Op('computegrid.tomitgrid', sg.computegrid.tomitgrid,
                  [lay(lon), lay(lat), 0, 1, n - 2, n - 1, 0, 1, m - 2, m - 1, geod, v])
    if k == 'read':
        f = os.path.join(d, 'in.mitgrid')
        work.write_mit(f, work.junk_mats(np.ones((c['ni'] + 1, c['nj'] + 1)), np.ones((c['ni'] + 1, c['nj'] + 1)), c['seed']), c['ni'], c['nj'],
                       _pad(c, c['ni'], c['nj']))
        _spoil(c, f)
        return Op('read_mitgridfile', sg.gridio.read_mitgridfile, [f, c['ni'] + (bad == 'arg'), c['nj'], c['strict'], v])
    if k == 'write':
        g = {n: lay(a) for n, a in work.junk_mats(np.ones((c['ni'] + 1, c['nj'] + 1)), np.ones((c['ni'] + 1, c['nj'] + 1)), c['seed']).items()}
        if bad == 'arg':
            g['XC'] = lay(np.ones((c['ni'] + 2, c['nj'])))
        elif bad == 'missing':
            del g['RAS']
        elif bad == 'dirty':
            g['DXG'] = None
        return Op('write_mitgridfile', sg.gridio.write_mitgridfile, [out, g, c['ni'], c['nj'], v], outs=[out])
    a = mdsref.values(c['seed'], (c['nrec'], c['nz'], c['nj'], c['ni']), c['prec'])
    if k == 'wrmds':
        w = lay(a.astype(mdsref.PRECS[c['prec']]))
        kw = dict(itr=r.choice([None, 5]), dataprec=[c['prec']] if r.random() < .5 else c['prec'], ndims=3, nrecords=[c['nrec']],
                  fields=['F%d' % i for i in range(c['nrec'])], times=r.choice([[1., 2.], [3600.], None]), simulation=['s'], dimlist=[c['ni'], c['nj'], c['nz']])
        if bad == 'arg':
            kw['dimlist'] = [1, 2, 9]
        base = out + ('' if kw['itr'] is None else '.%010d' % kw['itr'])
        return Op(k, sg.mds.wrmds, [out, w], kw, outs=[base + '.meta', base + '.data'])
    if k == 'mds2mitgrid':
        run = os.path.join(d, 'run')
        os.makedirs(run)
        for n in mit.NAMES:
            if r.random() < .8:
                mdsref.put(os.path.join(run, n), a[:1, 0], c['prec'])
        f = sorted(os.listdir(run))
        if f:
            _spoil(c, os.path.join(run, f[c['seed'] % len(f)]))
        return Op(k, sg.mds2mitgrid.mds2mitgrid, [run, v])
    base = os.path.join(d, 'T.0000000005')
    tl = [(base, 0, c['ni'], 0, c['nj'])]
    if c['sel'] == 'tiles':
        tl = [(base + '.%03d.001' % (i + 1,),) + q for i, q in enumerate(mdsref.tiling(r, c['ni'], c['nj']))]
    mdsref.put('', a, c['prec'], '>', tl, flds=['F%d' % i for i in range(c['nrec'])], times=[1., 2.])
    _spoil(c, tl[-1][0] + r.choice(['.data', '.meta']))
    if k == 'parsemeta':
        return Op(k, sg.mds.parsemeta, [tl[0][0] + '.meta'])
    kw = dict(mm=c['mm'])
    if c['sel'] == 'rec':
        kw['rec'] = [0] if r.random() < .5 else np.array([c['nrec'] - 1])
    elif c['sel'] == 'lev':
        kw['lev'] = ([0, c['nz'] - 1],) if r.random() < .5 else np.array([0])
    elif c['sel'] == 'region':
        kw['region'] = [0, c['ni'], 0, 1]
    elif c['sel'] == 'meta':
        kw['returnmeta'] = True
    its = r.choice([5, [5], np.array([5]), np.inf])
    if bad == 'arg':
        its = [5, 6]
    return Op(k, sg.mds.rdmds, [os.path.join(d, 'T'), its], kw)


def selections(c):
    """Other selections for the rdmds call described."""
    return [dict(region=[c['ni'] - 1, c['ni'], 0, 1]), dict(rec=c['nrec'] - 1, mm=True), dict(lev=[0], returnmeta=True, squeeze=False), {}]


# --------------------------------------------------------------- observation
def digest(x, seen=None):
    """Everything observable of an argument: values, types, layout, identity."""
    seen = seen or set()
    if isinstance(x, np.ndarray):
        b = x
        while isinstance(b.base, np.ndarray):
            b = b.base
        return ('array', id(x), x.dtype.str, x.shape, x.strides, bool(x.flags.writeable), x.tobytes(), b.tobytes() if b is not x else None)
    if isinstance(x, dict):
        return ('dict', id(x), tuple((repr(k), digest(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x) if isinstance(x, list) else 0, tuple(digest(v) for v in x))
    return (type(x).__name__, repr(x) if isinstance(x, (int, float, str, bool, type(None), np.generic)) else id(x))


def snapshot(top):
    """{relative path: content or None for a directory}"""
    out = {}
    for base, dirs, files in os.walk(top):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), top)] = None
        for x in files:
            p = os.path.join(base, x)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, top)] = (os.stat(p).st_mode, f.read())
    return out


def arrays(x, path='result'):
    """All arrays inside a result, with where they are."""
    if isinstance(x, np.ndarray):
        return [(path, x)]
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in arrays(v, '%s[%r]' % (path, k))]
    if isinstance(x, (list, tuple)):
        return [y for k, v in enumerate(x) for y in arrays(v, '%s[%d]' % (path, k))]
    return []


def frozen(x):
    """Value of a result, comparable with ==."""
    if isinstance(x, np.ndarray):
        a = np.asarray(x)
        if a.dtype.kind == 'f':
            a = np.where(np.isnan(a), np.nan, a)      # one NaN
        return ('array', a.dtype.str[1:], a.shape, np.ascontiguousarray(a.astype(a.dtype.newbyteorder('='))).tobytes())
    if isinstance(x, dict):
        return ('dict', tuple(sorted((repr(k), frozen(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(frozen(v) for v in x))
    if isinstance(x, (float, np.floating)):
        return ('f', float(x).hex())
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return ('i', int(x))
    return repr(x)


def collect(op):
    """Runs a call: (structure and scalars, [(where, array)]) of everything it
    returns and writes, or ('raised', kind)."""
    try:
        res = op.call()
    except Exception as e:
        return None, ('raised', type(e).__name__), []
    arr = [(w, np.array(a)) for w, a in arrays(res)]
    rest = [shape_of(res)]
    for p in sorted(op.outs):
        if os.path.exists(p):
            with open(p, 'rb') as f:
                b = f.read()
            if op.cli and len(b) % 128 == 0:       # a grid file: sixteen matrices of equal size
                rest.append((os.path.basename(p), len(b)))
                v = np.frombuffer(b, '>f8').reshape(16, -1)
                arr += [("%s['%s']" % (os.path.basename(p), n), v[k].copy()) for k, n in enumerate(mit.NAMES)]
            else:
                rest.append((os.path.basename(p), b))
    if op.outdir and os.path.isdir(op.outdir):
        for p in sorted(os.listdir(op.outdir)):
            if p.startswith('OB'):
                with open(os.path.join(op.outdir, p), 'rb') as f:
                    b = f.read()
                rest.append((p, len(b)))
                arr.append((p, np.frombuffer(b[:len(b) // 8 * 8], '>f8').copy()))
    return res, ('returned', rest), arr


def shape_of(x):
    """Result with the array values left out."""
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.newbyteorder('=').str, x.shape)
    if isinstance(x, dict):
        return ('dict', sorted((repr(k), shape_of(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('seq', [shape_of(v) for v in x])
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return '%.12g' % x
    return repr(x)


def equal(a, b):
    """Same values; a NaN equals a NaN."""
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def agree(c, one, two, loose=False):
    """None, or what differs.  Values agree exactly or within rounding (numpy
    and BLAS round differently depending on the alignment of their operands)."""
    if one[1] != two[1]:
        return 'outcome %s, %s' % (repr(one[1])[:200], repr(two[1])[:200])
    if [w for w, _ in one[2]] != [w for w, _ in two[2]]:
        return 'arrays returned'
    by = dict(one[2])
    for (w, x), (_, y) in zip(one[2], two[2]):
        if equal(x, y):
            continue
        if x.shape != y.shape or x.dtype.kind != 'f':
            return w
        ok = np.isfinite(x) & np.isfinite(y)
        tol = 1e-9 * np.abs(x[ok]).max(initial=0.)
        if any("['%s']" % n in w for n in mit.AREAS):
            # spherical excess of thin cells: an arccos near 1 turns rounding into 1e-8
            # (and cells of centimetres are a difference of almost equal corners)
            tol += 1e-7 * 6370997. ** 2 if loose or spherical(c) else 1e-14 * 6370997. * np.sqrt(np.abs(x[ok]).max(initial=0.))
        elif c['op'] == 'squad':
            # (the angles at coincident corners are arbitrary)
            tol += 1e-7 if c['fault'] != 'arg' else 7.
        elif c['op'] == 'pquad':
            # (one rounding of the corners, over an edge)
            tol += 1e-14 * np.sqrt(np.abs(x[ok]).max(initial=0.))
        elif c['op'] == 'matchedges' or any("['%s']" % n in w for n in mit.LENGTHS):
            tol += 1e-6
        elif w[-6:] in ("['XG']", "['YG']", "['XC']", "['YC']") and not loose:
            # (the longitude is ill-defined at the poles)
            lat = by.get(w.replace("['X", "['Y"))
            with np.errstate(all='ignore'):
                if lat is not None and lat.shape == x.shape:
                    tol = np.where(np.abs(lat) < 89., 2e-11, tol)[ok]
        if not (equal(np.where(ok, 0., x), np.where(ok, 0., y)) and np.all(np.abs(x[ok] - y[ok]) <= tol)):
            return '%s (by up to %.3g, of %d)' % (w, np.abs(x[ok] - y[ok]).max(initial=0.), x.size)
    return None


def spherical(c):
    """Whether a call may use the spherical area formula."""
    if c['op'] == 'regrid':
        s = work.Selection(c['tile'], c['block'])
        return mit.reference(s.BX, s.BY, *c['sub']).branch() != 'planar'
    if c['op'] == 'mkgrid':
        g = c['region']
        XG = np.array([[g['lon1'], g['lon1']], [g['lon2'], g['lon2']]])
        YG = np.array([[g['lat2'], g['lat1']], [g['lat2'], g['lat1']]])
        return mit.reference(XG, YG, *c['sub']).branch() != 'planar'
    return True
