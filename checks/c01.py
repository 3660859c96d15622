"""C01: mitgrid files round-trip every matrix exactly."""
import os
import numpy as np
from vlib import files, mit, work
from vlib.sut import sg

RULE = ('grids of 1x1..12x12 (some up to 130x90 and 6000x3) cells with random bit patterns, special values (inf, nan, -0, subnormal) or '
        'index-coded content in each of the sixteen matrices, handed over in five memory layouts and in other numeric types, some matrices absent; files re-written in place; distinct = '
        '(ni, nj, content kind, layout, absent set)')
MIN = {'matrices': 3000, 'absent': 50, 'rewrites': 100, 'in_place': 100, 'other_types': 100}
ASSUME = ['NaN payload bits are not part of the promise']


def cases(r, tier):
    for k in range(800 if tier == 'quick' else 9000):
        ni, nj = files.size(r)
        if r.random() < (.01 if tier == 'quick' else .004):
            ni, nj = r.choice([(r.randint(40, 130), r.randint(30, 90)), (r.randint(1, 3), r.randint(200, 6000)),
                               (r.randint(200, 6000), r.randint(1, 3))])
        yield dict(ni=ni, nj=nj, kind=r.choice(['bits', 'special', 'index', 'real']), seed=r.randint(0, 2 ** 31),
                   layout=r.choice(work.LAYOUTS),
                   absent=[n for n in mit.NAMES if r.random() < .3] if r.random() < .25 else [],
                   tp=r.choice(['f8'] * 5 + ['f4', 'i4', 'i8', '>f8', '>f4', 'bool', 'u1']), strict=r.random() < .5, verbose=r.random() < .1)


def run(c, mon):
    ni, nj = c['ni'], c['nj']
    want = files.content(c['seed'], ni, nj, c['kind'])
    if c['tp'] != 'f8':               # matrices of other types hold their values
        with np.errstate(all='ignore'):
            for n in mit.NAMES:
                a = np.asarray(want[n])
                a = a.astype(c['tp']) if 'f' in c['tp'] else np.rint(np.clip(np.nan_to_num(a), 0 if c['tp'] in ('u1', 'bool') else -2e9, 200 if c['tp'] in ('u1', 'bool') else 2e9)).astype(c['tp'])
                want[n] = a
        mon.count('other_types')
    given = {n: (None if n in c['absent'] else work.layout_as(want[n], c['layout'])) for n in mit.NAMES}
    p = os.path.join(mon.tmp(), 'a.mitgrid')
    r = mon.call('write', sg.gridio.write_mitgridfile, p, given, ni, nj)
    mon.check(bool(r) is True, 'write does not report success', returned=repr(r))
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        g = mon.call('read', sg.gridio.read_mitgridfile, p, ni, nj, c['strict'], c['verbose'])
    with mon.oracle('read back'):
        mon.require(sorted(g) == sorted(mit.NAMES), 'matrices returned: %s' % sorted(g))
        for n in mit.NAMES:
            mon.count('matrices')
            if n in c['absent']:
                mon.count('absent')
                w = np.full(mit.shape(n, ni, nj), np.nan)
            else:
                w = want[n].astype('f8')
            mon.check(mit.same_bits(g[n], w), '%s does not survive the round trip' % n,
                      shape=getattr(g[n], 'shape', None), want_shape=w.shape)
        mon.seen(ni, nj, c['kind'], c['layout'], tuple(c['absent']))
    # file -> matrices -> file
    want = {n: a.astype('f8') for n, a in want.items()}
    data = mit.encode(want, ni, nj)
    q, q2 = os.path.join(mon.tmp(), 'b.mitgrid'), os.path.join(mon.tmp(), 'c.mitgrid')
    with open(q, 'wb') as f:
        f.write(data)
    g = mon.call('read', sg.gridio.read_mitgridfile, q, ni, nj, True)
    mon.call('rewrite', sg.gridio.write_mitgridfile, q2, g, ni, nj)
    mon.count('rewrites')
    mon.check(files.read(q2) == data, 'reading and writing a zero-padded file does not reproduce it')
    mon.check(files.read(q) == data, 'the file read was changed')
    # in place
    mon.call('rewrite in place', sg.gridio.write_mitgridfile, q, g, ni, nj)
    mon.count('in_place')
    mon.check(files.read(q) == data, 'reading a file and writing the result to the same place does not reproduce it')
    # what was read stays what it was, whatever becomes of the file
    os.truncate(q, 0)
    with mon.oracle('held'):
        for n in mit.NAMES:
            mon.check(mit.same_bits(g[n], want[n]), '%s changed with the file it was read from' % n)
