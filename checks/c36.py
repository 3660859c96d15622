"""C36: boundary index vectors follow the MITgcm OBCS conventions."""
from vlib import obcs
from checks import c34

RULE = ('calls with random index vectors per boundary (positive, negative, mixed, outermost, innermost, zero at some points, all zero of any length, omitted), '
        'as lists, tuples and arrays and on the command line; values at each boundary point are recomputed for the cell the convention '
        'names; distinct = (sizes, vectors, way of calling)')
MIN = {'boundary_values': 3000, 'given N': 30, 'given S': 30, 'given E': 30, 'given W': 30, 'off': 20, 'omitted': 20, 'cli': 15,
       'negative': 150, 'holes': 60}
ASSUME = c34.ASSUME + ['vectors have the length of their boundary, or are all zero']


def cases(r, tier):
    for k in range(150 if tier == 'quick' else 1600):
        c = obcs.desc(r, .85, holes=True)
        c.update(nz=r.choice([1, 2]), nt=1, tiles='one', fields=['T', 'U', 'V'] if r.random() < .6 else ['T'] + r.sample(['U', 'V', 'Eta'], 1))
        yield c


def run(c, mon):
    r = c34.execute(c, mon)
    for e in 'NSEW':
        v = c['vec'].get(e)
        mon.count('omitted' if v is None else 'given ' + e if any(v) else 'off')
        mon.count('holes', sum(k == 0 for k in v or []) if any(v or []) else 0)
        mon.count('negative', sum(k < 0 for k in v or []))
    import os
    have = set(x for x in os.listdir(r.out) if x.startswith('OB')) if os.path.isdir(r.out) else set()
    mon.check(have == set(r.wanted()), 'boundaries written: %s, requested: %s' % (sorted(have), sorted(r.wanted())))
    c34.values(mon, r)
