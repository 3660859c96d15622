"""C03: strict reading rejects exactly the files with non-zero padding."""
import os
import numpy as np
from vlib import files, mit, work
from vlib.sut import sg

RULE = ('files with clean padding, with a single non-zero value (nan, inf, subnormal, ordinary) or a negative zero at a random '
        'padding position of a random matrix, data partly or wholly NaN or zero, strict given as logical or integer, and files truncated at a random byte, read directly and through regrid, addfringe and '
        'stitch, strict and lenient; distinct = (entry point, strict, matrix, position class, value)')
MIN = {'refusals': 150, 'clean_strict': 60, 'lenient_dirty': 60, 'truncated': 150, 'nan_matrices': 1500}
ASSUME = []
PADDED = [s for s in mit.SPEC if not (s[1] and s[2])]
VALUES = [1., -3.5, 5e-324, 1e-300, float('nan'), float('inf'), 1e300]


def cases(r, tier):
    for k in range(1200 if tier == 'quick' else 12000):
        via = r.choice(['read', 'read', 'read', 'regrid', 'addfringe', 'stitch'])
        c = dict(via=via, strict=r.random() < .65, dirt=r.choice(['none', 'one', 'one', 'one', 'negzero', 'two']),
                 seed=r.randint(0, 2 ** 31), trunc=None, nans=r.choice(['no', 'no', 'one', 'some', 'all', 'first', 'zeros']), yes=r.choice(['bool', 'bool', 'int', 'np']))
        if r.random() < .3:
            c['trunc'] = r.choice(['last', 'word', 'bytes', 'matrix', 'empty', 'slot'])
        if via == 'read':
            c['ni'], c['nj'] = files.size(r, 8)
        elif via == 'regrid':
            c['tile'] = work.tile_desc(r)
            c['block'] = work.block_desc(r, c['tile'])
        else:
            c['pair'] = work.pair_desc(r, 3)
            c['dirty'] = r.choice('ab')
        yield c


def dirt(c, ni, nj):
    r = work.rng(c['seed'])
    pad, what = {}, []
    if c['dirt'] == 'none':
        return pad, what
    for _ in range(2 if c['dirt'] == 'two' else 1):
        n, a, b = r.choice(PADDED)
        k = r.random()
        pos = [(i, j) for i in range(ni + 1) for j in range(nj + 1) if not (i < ni + a and j < nj + b)]
        if k < .3:                          # ends of the padding lines
            pos = [pos[0], pos[-1]]
        ij = r.choice(pos)
        pad[(n,) + ij] = -0. if c['dirt'] == 'negzero' else r.choice(VALUES)
        what.append((n, ij[0] == ni, ij[1] == nj, ij[0] == 0, ij[1] == 0))
    return pad, what


def cut(c, data):
    if not c['trunc']:
        return data
    r = work.rng(c['seed'] + 7)
    n = len(data)
    k = {'last': n - 1, 'word': n - 8, 'bytes': r.randint(0, n - 1), 'matrix': n - n // 16, 'empty': 0,
         'slot': (n // 16) * r.randint(0, 15)}[c['trunc']]
    return data[:k]


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def same(a, b):
    return sorted(a) == sorted(b) and all(mit.same_bits(a[n], b[n]) for n in b)


def run(c, mon):
    p, q, clean = [os.path.join(mon.tmp(), x) for x in ('p.mitgrid', 'q.mitgrid', 'clean.mitgrid')]

    def flag(strict):           # lenient is the default
        return [strict] if strict or c['seed'] % 2 else []
    if c['via'] == 'read':
        ni, nj = c['ni'], c['nj']
        mats = files.content(c['seed'], ni, nj, 'index')

        def call(strict, path):
            return sg.gridio.read_mitgridfile(path, ni, nj, *flag(strict))
    elif c['via'] == 'regrid':
        sel = work.Selection(c['tile'], c['block'])
        ni, nj = sel.ni, sel.nj
        mats = sel.mats(c['seed'])

        def call(strict, path):
            return sg.regrid.regrid(*flag(strict), mitgridfile=path, ni=ni, nj=nj, lon_subscale=1, lat_subscale=2, **sel.kw)[0]
    else:
        P = work.pair(c['pair'])
        tiles = {'a': (P.na, work.junk_mats(P.aXG, P.aYG, c['seed'])), 'b': (P.nb, work.junk_mats(P.bXG, P.bYG, c['seed'] + 1))}
        other = 'b' if c['dirty'] == 'a' else 'a'
        (ni, nj), mats = tiles[c['dirty']]
        (oi, oj), om = tiles[other]
        work.write_mit(q, om, oi, oj)

        def call(strict, path):
            kw = dict(nia=P.na[0], nja=P.na[1], nib=P.nb[0], njb=P.nb[1])
            kw['tile' + c['dirty']], kw['tile' + other] = path, q
            r = getattr(getattr(sg, c['via']), c['via'])(*flag(strict), **kw)
            return r[2] if c['via'] == 'addfringe' else r[0]
    # (data that are absent, missing or zero say nothing about the padding)
    rr = work.rng(c['seed'] + 3)
    can = [n for n in mit.NAMES if c['via'] == 'read' or n not in ('XG', 'YG')]
    mats = dict(mats)
    for n in {'no': [], 'one': [rr.choice(can)], 'some': rr.sample(can, 5)}.get(c['nans'], can):
        mats[n] = np.array(mats[n])
        if c['nans'] == 'first':
            mats[n].flat[rr.choice([0, -1])] = np.nan
        else:
            mats[n][...] = 0. if c['nans'] == 'zeros' else np.nan
        mon.count('nan_matrices')
    pad, what = dirt(c, ni, nj)
    yes = {'bool': bool, 'int': int, 'np': np.bool_}[c['yes']]
    data = cut(c, mit.encode(mats, ni, nj, pad))
    put(p, data)
    if c['trunc']:
        mon.count('truncated')
        mon.seen(c['via'], 'trunc', c['trunc'], len(data) % 8, ni, nj)
        try:
            r = call(yes(c['strict']), p)
        except Exception:
            mon.count('truncation_refused')
            return
        mon.violate('%s returned a grid from a file truncated to %d of %d bytes' % (
            c['via'], len(data), 128 * (ni + 1) * (nj + 1)), result=repr(r)[:200])
        return
    nonzero = any(not v == 0. for v in pad.values())
    mon.seen(c['via'], c['strict'], tuple(what), repr(sorted(pad.values())))
    if c['strict'] and nonzero:
        mon.call_raises('strict ' + c['via'], RuntimeError, call, yes(True), p)
        return
    put(clean, mit.encode(mats, ni, nj))
    got = mon.call('%s (strict=%s)' % (c['via'], c['strict']), call, yes(c['strict']), p)
    if c['strict']:
        mon.count('clean_strict')
    elif nonzero:
        mon.count('lenient_dirty')
    with mon.oracle(c['via']):
        if c['via'] == 'read':
            mon.check(same(got, mats), 'padding changed the values read')
        want = mon.call('%s on the clean file' % c['via'], call, False, clean)
        mon.check(same(got, want), 'result differs from that of the same file with zero padding')
