"""C12: cell areas are true areas and tile the region."""
import numpy as np
from vlib import geo, gridcheck, gridmon, mit, work

RULE = ('random mkgrid regions and regrid selections from metre to tens-of-degree cells, some touching a pole; each defined area '
        'is compared with the sum of its four sub-cells (independent vector formula) within the first-order rounding bound of the '
        'documented formula, and RAC is summed over the region; distinct = (operation, size, branch, position bin)')
MIN = {'areas_planar': 500, 'areas_spherical': 2000, 'pole_cells': 20, 'region_sums': 200}
ASSUME = ['rounding bound of the law-of-cosines formula (observed errors stay below 6% of it)',
          'grids whose mean edge is within 1% of the threshold are excluded (C13 decides the switch)']


def cases(r, tier):
    for _ in range(400 if tier == 'quick' else 9000):
        yield work.grid_case(r, pole=r.random() < .12)


def run(c, mon):
    o = gridcheck.Obs(c, mon)
    with mon.oracle('areas'):
        for n in mit.AREAS:
            mon.check(not np.any(np.isnan(np.asarray(o.g[n], dtype='f8'))), '%s contains NaN' % n,
                      where=np.argwhere(np.isnan(np.asarray(o.g[n], dtype='f8')))[:4].tolist())
        if o.branch is None:
            return
        if np.any(np.abs(o.YG) == 90.):
            mon.count('pole_cells', o.ni)
        gridmon.areas(mon, o.g, o.ref, o.branch)
        # conservation: the cells tile the region
        want, tol = o.ref.area('RAC', o.branch)
        tot = float(np.sum(o.g['RAC']))
        t = float(np.sum(tol)) + 1e-10 * float(want.sum())
        if np.isfinite(t):
            mon.count('region_sums')
            mon.check(abs(tot - want.sum()) <= t, 'RAC does not sum to the area of the region',
                      got=tot, want=float(want.sum()))
