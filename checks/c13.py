"""C13: the faceted/spherical switch follows the configured threshold."""
import numpy as np
from vlib import gridcheck, gridmon, mit, work
from vlib.sut import sg

RULE = ('grids of 0.5..10 degree cells (where the two formulas differ by far more than rounding) with the configured transition '
        'length set to values around each mean edge length, several values in turn on one grid; the formula used is identified '
        'from RAC; also cells of kilometres to centimetres, where only the faceted formula is accurate; distinct = (operation, size, position bin, relation of the threshold to the two means)')
MIN = {'calls': 400, 'planar': 60, 'spherical': 60, 'between': 50, 'default': 20, 'tiny': 20}
ASSUME = ['threshold at least 2e-7 (relative) away from a mean edge length']


def cases(r, tier):
    for k in range(180 if tier == 'quick' else 3400):
        tiny = k % 9 == 4        # metres to centimetres: only the faceted formula is accurate
        for _ in range(100):
            c = work.grid_case(r)
            XG, YG, _s = work.grid_source(c)
            ref = mit.reference(XG, YG, c['ls'], c['ms'])
            if max(ref.mean_edges()) < 1e3 if tiny else min(ref.mean_edges()) > 2e4:
                break
        else:
            continue
        c['tiny'] = tiny
        c['tseed'] = r.randint(0, 2 ** 31)
        yield c


def run(c, mon):
    r = work.rng(c['tseed'])
    XG, YG, sel = work.grid_source(c)
    ref = mit.reference(XG, YG, c['ls'], c['ms'])
    mx, my = ref.mean_edges()
    lo, hi = min(mx, my), max(mx, my)
    Ts = [('above', hi * (1 + r.choice([1e-6, 1e-3, .2, 5.]))), ('below', lo * (1 - r.choice([1e-6, 1e-3, .2, .9]))),
          ('near', hi * (1 - 1e-6)), ('default', None)]
    if hi > lo * 1.0001:
        Ts.append(('between', lo + (hi - lo) * r.choice([.05, .5, .95])))
    r.shuffle(Ts)
    if c.get('tiny'):
        Ts = [t for t in Ts if t[0] in ('above', 'default')]
    default = sg.config.PLANAR_SPHER_TRANSITION
    for what, T in Ts:
        try:
            sg.config.PLANAR_SPHER_TRANSITION = default if T is None else T
            res = mon.call(c['op'], work.call_grid, sg, c, sel, mon.tmp())
        finally:
            sg.config.PLANAR_SPHER_TRANSITION = default
        with mon.oracle('areas'):
            g = res[0]
            want = ref.branch(default if T is None else T, 2e-7)
            if want is None:
                continue
            other = 'planar' if want == 'spherical' else 'spherical'
            for n in ('RAC',):
                a, ta = ref.area(n, want)
                b, tb = ref.area(n, other)
                if c.get('tiny'):
                    tb = np.zeros_like(b)
                    ok = ta < .01 * a
                    mon.count('tiny', ok.any())
                else:
                    ok = np.isfinite(ta) & np.isfinite(tb) & (np.abs(a - b) > 3 * (ta + tb))
                if ok.sum() < 1:
                    mon.count('indistinct')
                    continue
                got = np.asarray(g[n], dtype='f8')
                mon.count(want)
                mon.count(what)
                mon.seen(c['op'], c['ls'], c['ms'], what, want, int(XG.min() // 20), int(YG.min() // 10))
                mon.check(bool(np.all(np.abs(got - a)[ok] <= ta[ok])),
                          'threshold %s (mean edges %.6g, %.6g; threshold %.6g): expected the %s formula' % (
                              what, mx, my, T or default, want),
                          is_other=bool(np.all(np.abs(got - b)[ok] <= tb[ok])))
    mon.check(sg.config.PLANAR_SPHER_TRANSITION == default, 'configuration value changed')
