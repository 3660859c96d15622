"""C09: grid points are equal great-circle subdivisions."""
from vlib import gridcheck, gridmon

RULE = ('random mkgrid regions and regrid selections (regular, rotated-pole, jittered source tiles in all rotations, all '
        'input routes); every corner and centre of the result is compared with an independently constructed subdivision; '
        'distinct = (operation, size, subdivisions, position bin, route, rotation)')
MIN = {'points': 2000, 'mkgrid_calls': 60, 'regrid_calls': 60}
ASSUME = ['arcs shorter than 180 degrees', 'positions agree within 1e-12 rad (6 micrometres on the Earth)']


def cases(r, tier):
    return gridcheck.cases(r, tier, 400, 9000)


def run(c, mon):
    o = gridcheck.Obs(c, mon)
    with mon.oracle('points'):
        gridmon.points(mon, o.g, o.ref)
