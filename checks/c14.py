"""C14: undefined boundary terms are exactly zero and all others positive."""
from vlib import gridcheck, gridmon, work

RULE = ('random non-degenerate mkgrid regions and regrid selections, ni != nj, single-cell tiles and cells of sizes up to eleven orders of magnitude apart included; every entry of the '
        'twelve metric matrices is classified as undefined (zero) or defined (finite, positive); distinct = (operation, size, '
        'subdivisions, position bin)')
MIN = {'undefined_terms': 5000, 'defined_terms': 20000, 'graded': 30}
ASSUME = ['cells whose spherical area is ill-conditioned (rounding bound above 10% of the area) are not judged positive']


def cases(r, tier):
    for _ in range(40 if tier == 'quick' else 900):          # cells of very different sizes
        c = work.grid_case(r)
        while c['op'] != 'regrid':
            c = work.grid_case(r)
        t = work.tile_desc(r, ni=r.randint(2, 6), nj=r.randint(2, 6), scales=[(.005, .1), (.1, 9.)])
        t.update(graded=r.choice([2., 4., 5.5, 5.5]), stretch=0., jit=0.)
        t.pop('snap', None)
        yield dict(c, tile=t, block=work.block_desc(r, t, whole=True), ls=r.randint(1, 2), ms=r.randint(1, 2))
    for _ in range(400 if tier == 'quick' else 9000):
        c = work.grid_case(r)
        k = r.random()
        if k < .1:
            c['ls'] = 1
        elif k < .2:
            c['ms'] = 1
        yield c


def run(c, mon):
    o = gridcheck.Obs(c, mon)
    mon.count('graded', 'graded' in c.get('tile', {}))
    with mon.oracle('masks'):
        gridmon.masks(mon, o.g, o.ni, o.nj, o.ref, o.branch)
