"""C17: all regrid input routes give the same grid and bad input is refused."""
import os
import numpy as np
from vlib import cmp, mit, work
from vlib.sut import sg

RULE = ('each request runs through a mitgrid file, in-memory matrices, and binary/csv/mixed XG/YG file pairs; then with missing source, '
        'missing ni/nj (None, 0, absent) for each file route, one file of a pair missing, and positions on one row or column; now and then files of some megabytes; distinct = '
        '(source size, block, subdivisions, rotation) and (kind of refusal)')
MIN = {'routes': 900, 'refusals': 400, 'dirty_files': 150, 'big_routes': 8, 'mappings': 100}
ASSUME = ['csv numbers are written with full precision']
ROUTES = ['mem', 'file', 'xy', 'csv', 'csvx', 'csvy']


def cases(r, tier):
    for k in range(2 if tier == 'quick' else 20):
        d = work.tile_desc(r, ni=r.randint(230, 420), nj=r.randint(230, 300), scales=[(.001, .05)])
        d.pop('snap', None)
        b = work.block_desc(r, d)
        b['i0'] = r.randint(0, d['ni'] - 4)
        b['j0'] = r.randint(0, d['nj'] - 4)
        b['i1'], b['j1'] = b['i0'] + r.randint(1, 4), b['j0'] + r.randint(1, 4)
        yield dict(tile=d, block=b, ls=1, ms=1, seed=r.randint(0, 2 ** 31), big=True)
    for k in range(220 if tier == 'quick' else 5000):
        d = work.tile_desc(r, nopole=False)
        if d['dx'] * min(1., d['asp']) > .2 and r.random() < .5:
            d['digits'] = r.choice([1, 2, 2, 3, 4])
        b = work.block_desc(r, d)
        n, m = b['i1'] - b['i0'], b['j1'] - b['j0']
        ls, ms = work.subscales(r, 3)
        while n * ls * m * ms > 40:
            ls, ms = max(1, ls - 1), max(1, ms - 1)
        yield dict(tile=d, block=b, ls=ls, ms=ms, seed=r.randint(0, 2 ** 31))


def big(c, mon):
    """Many points: files of some megabytes."""
    s = work.Selection(c['tile'], c['block'])
    mon.seen('big', c['tile']['ni'], c['tile']['nj'], c['block']['turn'])
    first = None
    for route in ('mem', 'file', 'xy', 'csv'):
        sub = os.path.join(mon.tmp(), route)
        os.makedirs(sub, exist_ok=True)
        a = work.route_args(route, s, sub, 'C', c['seed'])
        mon.count('bytes', sum(os.path.getsize(v) for v in a.values() if isinstance(v, str)))
        res = mon.call('regrid via ' + route, sg.regrid.regrid, **dict(s.kw, lon_subscale=1, lat_subscale=1, **a))
        mon.count('big_routes')
        with mon.oracle('regrid'):
            g = res[0]
            mon.check(mit.same_bits(g['XG'], s.BX) and mit.same_bits(g['YG'], s.BY), 'route %s: source points differ' % route)
            first = first or g
            cmp.same_grid(mon, g, first, 'route ' + route, mit.reference(s.BX, s.BY, 1, 1))


def run(c, mon):
    if c.get('big'):
        return big(c, mon)
    s = work.Selection(c['tile'], c['block'])
    ref = mit.reference(s.BX, s.BY, c['ls'], c['ms'])
    rr = work.rng(c['seed'])
    kw = dict(s.kw, lon_subscale=c['ls'], lat_subscale=c['ms'])
    d, b = c['tile'], c['block']
    mon.seen(d['ni'], d['nj'], b['i0'], b['i1'], b['j0'], b['j1'], b['turn'], b['corner'], c['ls'], c['ms'])
    first = None
    args = {}
    for n, route in enumerate(ROUTES):
        sub = os.path.join(mon.tmp(), route)
        os.makedirs(sub, exist_ok=True)
        # the file routes see different junk in the fields regrid must not use
        args[route] = work.route_args(route, s, sub, 'C', c['seed'] + n)
        if route == 'mem':
            args[route]['mitgrid_matrices'] = work.MAPS[c['seed'] % 5](list(args[route]['mitgrid_matrices'].items()))
            mon.count('mappings', c['seed'] % 5 > 0)
        res = mon.call('regrid via ' + route, sg.regrid.regrid, **dict(kw, **args[route]))
        mon.count('routes')
        with mon.oracle('regrid'):
            if first is None:
                first = res
                mon.check(mit.same_bits(res[0]['XG'][::c['ls'], ::c['ms']], s.BX), 'in-memory route does not reproduce the source points')
            else:
                mon.check(tuple(map(int, res[1:])) == tuple(map(int, first[1:])), 'route %s: counts %s, in memory %s' % (route, res[1:], first[1:]))
                mon.check(mit.same_bits(res[0]['XG'][::c['ls'], ::c['ms']], s.BX) and
                          mit.same_bits(res[0]['YG'][::c['ls'], ::c['ms']], s.BY), 'route %s: source points differ' % route)
                cmp.same_grid(mon, res[0], first[0], 'route ' + route, ref)
    # a file with non-zero padding: ignored by default, refused with strict
    dirty = os.path.join(mon.tmp(), 'dirty.mitgrid')
    slots = [(n, i, j) for n, a, e in mit.SPEC for i in range(s.ni + 1) for j in range(s.nj + 1) if not (i < s.ni + a and j < s.nj + e)]
    with open(dirty, 'wb') as f:
        f.write(mit.encode(s.mats(c['seed']), s.ni, s.nj, {k: rr.choice([1., -2., float('nan')]) for k in rr.sample(slots, rr.randint(1, 3))}))
    kd = dict(kw, mitgridfile=dirty, ni=s.ni, nj=s.nj)
    mon.count('dirty_files')
    with mon.oracle('regrid'):
        cmp.same_grid(mon, mon.call('regrid of a file with non-zero padding', sg.regrid.regrid, **kd)[0], first[0], 'file with non-zero padding', ref)
        mon.call_raises('strict regrid of a file with non-zero padding', RuntimeError, sg.regrid.regrid, True, **kd)
        res = mon.call('strict regrid of a clean file', sg.regrid.regrid, True, **dict(kw, **args['file']))
        cmp.same_grid(mon, res[0], first[0], 'strict', ref)

    # refusals
    def refuse(what, **k):
        k = {a: v for a, v in k.items() if v != 'absent'}
        mon.seen('refuse', what)
        mon.call_raises(what, ValueError, sg.regrid.regrid, **k)
    refuse('no source', **kw)
    refuse('no source but ni, nj', ni=s.ni, nj=s.nj, **kw)
    refuse('only xg_file', **dict(kw, xg_file=args['xy']['xg_file'], ni=s.ni, nj=s.nj))
    refuse('only yg_file', **dict(kw, yg_file=args['xy']['yg_file'], ni=s.ni, nj=s.nj))
    for route in rr.sample(['file', 'xy', 'csv'], 2):
        miss = rr.choice([('ni',), ('nj',), ('ni', 'nj')])
        v = rr.choice([None, 0, 'absent'])
        refuse('%s route without %s (%s)' % (route, '/'.join(miss), v), **dict(kw, **dict(args[route], **{m: v for m in miss})))
    # files of other sizes
    for f in ('xg_file', 'yg_file'):
        raw = open(args['xy'][f], 'rb').read()
        k = rr.choice([-8, -1, 8, 8 * (s.nj + 1), len(raw), -8 * (s.nj + 1)])
        odd = os.path.join(mon.tmp(), 'odd_' + f)
        with open(odd, 'wb') as o:
            o.write(raw[:k] if k < 0 else (raw + raw)[:len(raw) + k])
        if k != -1:         # (part of a number)
            refuse('%s of another size' % f, **dict(kw, **dict(args['xy'], **{f: odd})))
            mon.count('odd_sizes')
    short = os.path.join(mon.tmp(), 'short.mitgrid')
    with open(short, 'wb') as o:
        o.write(open(args['file']['mitgridfile'], 'rb').read()[:-8 * rr.randint(1, (s.ni + 1) * (s.nj + 1))])
    refuse('mitgrid file that is too short', **dict(kw, **dict(args['file'], mitgridfile=short)))
    # positions that are not numbers
    k = dict(kw, **args[rr.choice(ROUTES)])
    for w in rr.sample(['lon1', 'lat1', 'lon2', 'lat2'], 2):
        k[w] = float('nan')
        refuse('positions that are not numbers', **k)
    # positions on one row, one column, one point
    i, j = rr.randint(0, s.ni), rr.randint(0, s.nj)
    i2 = rr.choice([k for k in range(s.ni + 1) if k != i])
    j2 = rr.choice([k for k in range(s.nj + 1) if k != j])
    for what, (a, e) in (('row', ((i, j), (i, j2))), ('column', ((i, j), (i2, j))), ('point', ((i, j), (i, j)))):
        k = dict(lon1=float(s.srcXG[a]), lat1=float(s.srcYG[a]), lon2=float(s.srcXG[e]), lat2=float(s.srcYG[e]),
                 lon_subscale=c['ls'], lat_subscale=c['ms'])
        refuse('both positions on one %s' % what, **dict(k, **args[rr.choice(ROUTES)]))
