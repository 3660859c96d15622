"""C33: MDS run directories convert to the same grid."""
import os
import numpy as np
from vlib import mdsref, mit, work
from vlib.sut import sg

RULE = ('run directories holding random subsets of the sixteen fields (and unrelated output), in one file or in even/uneven tiles, in '
        'either precision, addressed with and without trailing separator, relative, absolute and by default; each returned matrix is '
        'compared with the field written; distinct = (size, subset, tiling, precision, way of addressing)')
MIN = {'conversions': 500, 'present': 3000, 'absent': 800, 'tiled': 150, 'default_dir': 60, 'zero_fields': 150, 'unreadable': 40, 'special_values': 150}
ASSUME = ['big-endian files of one record, as MITgcm writes them']


def cases(r, tier):
    for k in range(320 if tier == 'quick' else 9000):
        ni, nj = r.choice([1, 2, r.randint(1, 12)]), r.choice([1, 3, r.randint(1, 12)])
        if r.random() < .03:
            ni, nj = r.choice([(work.large(r), nj), (ni, work.large(r)), (work.large(r, 130), work.large(r, 130))])
        yield dict(ni=ni, nj=nj, prec=r.choice(['float32', 'float64', 'float64']),
                   keep=r.choice([1., 1., .7, .3, .1]), tiles=r.choice(['one', 'one', 'even', 'uneven', 'mixed']), junk=r.random() < .5,
                   seed=r.randint(0, 2 ** 31), name=r.choice(['run', 'a.b', 'run 1', 'XC', 'tiles']))


def run(c, mon):
    r = work.rng(c['seed'])
    ni, nj = c['ni'], c['nj']
    d = os.path.join(mon.tmp(), c['name'])
    os.makedirs(d)
    want, tl = {}, mdsref.tiling(r, ni, nj, c['tiles'] == 'even')
    for k, n in enumerate(mit.NAMES):
        if r.random() >= c['keep']:
            want[n] = None
            continue
        a = mdsref.values(c['seed'] % 10 ** 8 + 17 * k, (1, nj, ni), c['prec'])
        if r.random() < .1:
            a = a * 0.
            mon.count('zero_fields')
        if r.random() < .1:
            for _ in range(r.randint(1, 4)):
                a[0, r.randrange(nj), r.randrange(ni)] = r.choice([np.nan, np.inf, -np.inf, 1e30, -9999., -0., 1e-30, 0.])
            mon.count('special_values')
            a = a.astype(mdsref.PRECS[c['prec']]).astype('f8')
        base = os.path.join(d, n)
        if c['tiles'] == 'one' or c['tiles'] == 'mixed' and r.random() < .5:
            mdsref.put(base, a, c['prec'])
        else:
            mdsref.put('', a, c['prec'], '>', [(base + '.%03d.%03d' % (i + 1, 1),) + t for i, t in enumerate(tl)])
        w = np.zeros(mit.shape(n, ni, nj))
        w[:ni, :nj] = a[0].T
        want[n] = w
    if c['junk']:
        for n in ('T.0000000010', 'hFacC', 'XCx', 'pickup.0000000072', 'DXCG.0000000001'):
            mdsref.put(os.path.join(d, n), mdsref.values(3, (1, 2, nj + 1, ni + 2)), 'float64')
        with open(os.path.join(d, 'STDOUT.0000'), 'w') as f:
            f.write('text')
    any_ = [n for n in mit.NAMES if want[n] is not None]
    mon.seen(ni, nj, tuple(any_), c['tiles'], c['prec'])
    if c['tiles'] != 'one':
        mon.count('tiled')
    ways = [('absolute', d, None), ('trailing', d + os.sep, None)]
    k = r.choice(['relative', 'relative trailing', 'default', 'none'])
    if k == 'default':
        ways.append((k, None, d))
    elif k != 'none':
        ways.append((k, os.path.join('.', c['name']) + (os.sep if 'trailing' in k else ''), mon.tmp()))
    for what, path, cwd in ways:
        if cwd:
            os.chdir(cwd)
        v = r.random() < .2
        if what == 'default':
            mon.count('default_dir')
            res = mon.call('mds2mitgrid()', sg.mds2mitgrid.mds2mitgrid, verbose=v)
        else:
            res = mon.call('mds2mitgrid(%s)' % what, sg.mds2mitgrid.mds2mitgrid, path, v)
        mon.count('conversions')
        with mon.oracle('mds2mitgrid'):
            g, n, m = res
            mon.check(set(g) == set(mit.NAMES), 'keys are not the sixteen matrix names', keys=sorted(map(str, g)))
            if any_:
                mon.check((int(n), int(m)) == (ni, nj), 'cell counts %s, %s for a %d x %d run' % (n, m, ni, nj), way=what)
            for name in mit.NAMES:
                w, x = want[name], g[name]
                if w is None:
                    mon.count('absent')
                    mon.check(x is None, '%s is absent in the run directory, but not None' % name, way=what)
                    continue
                mon.count('present')
                if mon.check(np.shape(x) == w.shape, '%s: shape %s, documented %s' % (name, np.shape(x), w.shape), way=what):
                    mon.check(mdsref.same(x, w), '%s differs from the field in the run directory' % name, way=what,
                              where=np.argwhere(np.asarray(x) != w)[:4].tolist())
    if any_ and c['seed'] % 3 == 0:          # a field that is there, but cannot be read
        n = r.choice(any_)
        f = sorted(x for x in os.listdir(d) if x.split('.')[0] == n)
        f = os.path.join(d, r.choice(f))
        how = r.choice(['gone', 'short', 'garbled'])
        with open(f, 'rb') as h:
            text = h.read()
        if f.endswith('.data'):
            os.unlink(f)
            if how != 'gone':
                with open(f, 'wb') as h:
                    h.write(text[:len(text) - r.randint(1, len(text))])
        else:
            with open(f, 'wb') as h:
                h.write(text[:len(text) // 3] if how == 'short' else text.replace(b'];', b''))
        mon.count('unreadable')
        mon.seen('unreadable', how, f.endswith('.data'))
        mon.call_raises('mds2mitgrid of a run with a damaged %s' % os.path.basename(f), Exception, sg.mds2mitgrid.mds2mitgrid, d)
