"""C02: mitgrid files have exactly the documented byte layout."""
import os
import numpy as np
from vlib import files, mit, work
from vlib.sut import sg

RULE = ('files written by the package are decoded by an independent codec (and vice versa, with arbitrary padding bytes) for grids '
        'of all shapes and layouts; distinct = (ni, nj, content kind, layout, direction)')
MIN = {'written_files': 200, 'foreign_files': 200, 'padding_cells': 5000}
ASSUME = ['layout as documented in mitgridfilefields.py and MITgcm: 16 slots, big-endian doubles, column-major']


def cases(r, tier):
    for k in range(800 if tier == 'quick' else 9000):
        ni, nj = files.size(r)
        yield dict(ni=ni, nj=nj, kind=r.choice(['bits', 'special', 'index', 'real']), seed=r.randint(0, 2 ** 31),
                   layout=r.choice(work.LAYOUTS), pad=r.choice(['zero', 'all', 'few']))


def run(c, mon):
    ni, nj = c['ni'], c['nj']
    want = files.content(c['seed'], ni, nj, c['kind'])
    p = os.path.join(mon.tmp(), 'a.mitgrid')
    if c['seed'] % 3 == 0:      # overwriting a longer file
        with open(p, 'wb') as f:
            f.write(b'\xff' * (16 * (ni + 2) * (nj + 2) * 8 + 5))
    mon.call('write', sg.gridio.write_mitgridfile, p,
             {n: work.layout_as(a, c['layout']) for n, a in want.items()}, ni, nj)
    data = files.read(p)
    mon.count('written_files')
    mon.seen('w', ni, nj, c['kind'], c['layout'])
    if mon.check(len(data) == 16 * (ni + 1) * (nj + 1) * 8, 'file has %d bytes, expected %d' % (
            len(data), 16 * (ni + 1) * (nj + 1) * 8)):
        got, pad = mit.decode(data, ni, nj)
        for n in mit.NAMES:
            mon.check(mit.same_bits(got[n], want[n]), '%s is not where the format puts it' % n)
        mon.count('padding_cells', len(pad))
        bad = [k for k, v in pad.items() if not v == 0.]
        mon.check(not bad, 'padding is not zero', where=bad[:4])
    # a file from elsewhere
    r = np.random.RandomState(c['seed'] + 1)
    padding = {}
    if c['pad'] != 'zero':
        for n, a, b in mit.SPEC:
            for i in range(ni + 1):
                for j in range(nj + 1):
                    if not (i < ni + a and j < nj + b) and (c['pad'] == 'all' or r.uniform() < .1):
                        padding[(n, i, j)] = float(files.SPECIAL[r.randint(len(files.SPECIAL))])
    q = os.path.join(mon.tmp(), 'b.mitgrid')
    with open(q, 'wb') as f:
        f.write(mit.encode(want, ni, nj, padding))
    g = mon.call('read', sg.gridio.read_mitgridfile, q, ni, nj)
    mon.count('foreign_files')
    mon.seen('r', ni, nj, c['kind'], c['pad'])
    with mon.oracle('read'):
        mon.check(sorted(g) == sorted(mit.NAMES), 'matrices returned: %s' % sorted(g))
        for n in mit.NAMES:
            mon.check(mit.same_bits(g[n], want[n]), '%s: reader disagrees with the format' % n)
