"""Shared driver of the grid monitors (C08..C14)."""
import numpy as np
from . import geo, gridmon, mit, work
from .sut import sg


class Obs(object):
    """One observed grid call with its reference."""

    def __init__(self, case, mon):
        self.case = case
        XG, YG, sel = work.grid_source(case)
        self.XG, self.YG, self.sel = XG, YG, sel
        n, m = XG.shape[0] - 1, XG.shape[1] - 1
        self.ni, self.nj = n * case['ls'], m * case['ms']
        self.ref = mit.reference(XG, YG, case['ls'], case['ms'])
        r = mon.call(case['op'], work.call_grid, sg, case, sel, mon.tmp())
        mon.count(case['op'] + '_calls')
        with mon.oracle('result'):
            self.g, ni, nj = r
            mon.require(int(ni) == self.ni and int(nj) == self.nj, 'cell counts (%s,%s), expected (%d,%d)' % (
                ni, nj, self.ni, self.nj))
            if not gridmon.shapes(mon, self.g, self.ni, self.nj):
                from .harness import Stop
                raise Stop('shapes')
        self.branch = self.ref.branch()
        mon.seen(case['op'], self.ni, self.nj, case['ls'], case['ms'], self.branch, bool(np.any(XG < 0)),
                 int(np.floor(XG.min() / 20.)), int(np.floor(YG.min() / 10.)), case.get('route'), case.get('layout'),
                 case.get('block', {}).get('turn'), case.get('block', {}).get('corner'))
        mon.count('cells', self.ni * self.nj)
        mon.count('branch_%s' % self.branch)


def cases(r, tier, n_quick, n_thorough, **k):
    for _ in range(n_quick if tier == 'quick' else n_thorough):
        yield work.grid_case(r, **k)
