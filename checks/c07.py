"""C07: quadrilateral area utilities agree with true area."""
import numpy as np
from vlib import geo, work
from vlib.sut import sg

RULE = ('corner arrays of curvilinear tiles (10 m to 160 degree cells, jittered, mirrored, any position, all memory layouts), of cells '
        'touching a pole, and of one octant; both routines are compared with independent formulas within rounding bounds; distinct = '
        '(kind, shape, scale class, layout)')
MIN = {'spherical_cells': 2000, 'faceted_cells': 2000, 'pole_cells': 60, 'cross_checks': 40, 'huge_cells': 60}
ASSUME = ['first-order rounding bound for the spherical routine, cells convex']


def cases(r, tier):
    for k in range(1200 if tier == 'quick' else 15000):
        c = dict(kind=r.choice(['tile', 'tile', 'tile', 'pole', 'octant', 'wide', 'huge']), seed=r.randint(0, 2 ** 31), layout=r.choice(work.LAYOUTS),
                 n=r.randint(1, 4), m=r.randint(1, 4), flip=r.random() < .3)
        if r.random() < .015:            # many cells
            c['many'] = True
            c['n'], c['m'] = r.choice([(work.large(r, 66), work.large(r, 40)), (work.large(r), r.randint(1, 2)), (r.randint(1, 2), work.large(r))])
        if c['kind'] == 'tile':
            c['tile'] = work.tile_desc(r, nopole=False, scales=[(1e-4, 1e-3), (.02, .1), (.05, 1.), (1., 8.), (5., 20.)])
            if c.get('many'):
                c['tile'] = work.tile_desc(r, ni=c['n'], nj=c['m'], nopole=False, scales=[(.02, .1), (.05, 1.), (1., 4.)])
        yield c


def run(c, mon):
    r = np.random.RandomState(c['seed'])
    if c['kind'] == 'tile':
        X, Y = work.tile(c['tile'])
        scale = int(np.floor(np.log10(c['tile']['dx'])))
    elif c['kind'] == 'pole':
        w = r.uniform(1., 60.)
        X, Y = np.meshgrid(np.linspace(0, w, c['n'] + 1) + r.uniform(-180, 180), np.linspace(90 - r.uniform(2, 50), 90, c['m'] + 1), indexing='ij')
        if r.uniform() < .5:
            Y = -Y
        scale = 'pole'
    elif c['kind'] == 'octant':
        X, Y = np.array([[0., 0.], [90., 90.]]) + r.uniform(-180, 180), np.array([[0., 90.], [0., 90.]])
        scale = 'oct'
    elif c['kind'] == 'huge':              # triangles of up to half the sphere
        a, b = r.uniform(40, 88), r.uniform(20, 85)
        X, Y = np.meshgrid([-a, a], np.array([-b, b]), indexing='ij')
        X, Y = X + r.uniform(-180, 180) + r.uniform(-5, 5, X.shape), np.clip(Y + r.uniform(-20, 20), -89, 89)
        scale = 'huge'
    else:
        a = r.uniform(20, 60)
        X, Y = np.meshgrid(np.linspace(-a, a, c['n'] + 2), np.linspace(-a, a, c['m'] + 2), indexing='ij')
        scale = 'wide'
    V = geo.vec(X, Y)
    if c['flip']:
        V = V[:, ::-1]
    if c['layout'] in ('view', 'neg', 'F', 'be', 'C'):
        cart = work.layout_as(V, c['layout'] if c['layout'] != 'neg' else 'C')
    n, m = V.shape[0] - 1, V.shape[1] - 1
    mon.seen(c['kind'], n, m, scale, c['layout'], c['flip'])
    S, SB = geo.sph_areas(V), geo.sph_bound(V)
    F, FB = geo.planar_areas(V), geo.planar_bound(V)
    L = max(geo.angle(V[1:], V[:-1]).max(), geo.angle(V[:, 1:], V[:, :-1]).max())
    s = mon.call('squad_uarea', sg.util.squad_uarea, cart)
    f = mon.call('pquad_uarea', sg.util.pquad_uarea, cart)
    with mon.oracle('areas'):
        mon.require(np.shape(s) == (n, m), 'squad_uarea: shape %s for %d x %d cells' % (np.shape(s), n, m))
        mon.require(np.shape(f) == (n, m), 'pquad_uarea: shape %s for %d x %d cells' % (np.shape(f), n, m))
        ok = np.isfinite(SB) & (SB < .2 * S)
        mon.count('spherical_cells', ok.sum())
        if c['kind'] == 'huge':
            mon.count('huge_cells', ok.sum())
        if c['kind'] in ('pole', 'octant'):
            mon.count('pole_cells', m)
            mon.check(not np.any(np.isnan(s)), 'squad_uarea is NaN')
        if ok.any():
            mon.peak('spherical error / bound', np.nanmax((np.abs(s - S) / (SB + 1e-10 * S))[ok]))
        mon.check(bool(np.all(np.abs(s - S)[ok] <= (SB + 1e-10 * S)[ok])), 'squad_uarea is not the spherical area',
                  got=np.asarray(s)[ok][:3].tolist(), want=S[ok][:3].tolist())
        mon.count('faceted_cells', n * m)
        tol = 3 * FB + 1e-10 * F
        mon.peak('faceted error / bound', np.max(np.abs(f - F) / tol))
        mon.check(bool(np.all(np.abs(f - F) <= tol)), 'pquad_uarea is not the faceted area',
                  got=np.asarray(f)[:2, :2].tolist(), want=F[:2, :2].tolist())
        well = ok & (SB < 1e-3 * S)
        if L < .02 and well.any():
            mon.count('cross_checks')
            mon.check(bool(np.all(np.abs(s - f)[well] <= (SB + (.5 * L * L + 1e-9) * S)[well])),
                      'the two routines disagree on small well-conditioned cells')
