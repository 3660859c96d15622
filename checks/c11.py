"""C11: edge lengths are great-circle distances between the right points."""
from vlib import gridcheck, gridmon

RULE = ('random mkgrid regions and regrid selections from metre to tens-of-degree cells; each defined entry of the eight length '
        'matrices is compared with the sum of its two half-edges from an independent double-resolution construction; distinct = '
        '(operation, size, subdivisions, position bin, route, rotation)')
MIN = {'lengths': 5000, 'mkgrid_calls': 60, 'regrid_calls': 60}
ASSUME = ['lengths agree within 2e-7 m + 1e-10 relative', 'sphere radius 6370997 m (the PROJ sphere the package uses)']


def cases(r, tier):
    return gridcheck.cases(r, tier, 400, 9000)


def run(c, mon):
    o = gridcheck.Obs(c, mon)
    with mon.oracle('lengths'):
        gridmon.lengths(mon, o.g, o.ref)
