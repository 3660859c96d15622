"""C28: the command-line tools do what the library calls do."""
import os
import runpy
import numpy as np
from vlib import cli, mit, ops, work
from vlib.sut import sg

RULE = ('random valid and invalid option sets for the four tools (option order, = and separate values, short and long flags, all regrid '
        'input routes, dirty padding with and without --strict, damaged and missing files, existing output files, output onto an input, missing options, degenerate selections); '
        'the file a tool leaves is compared byte by byte with an independent encoding of what the library call returns; distinct = '
        '(tool, outcome, route, flags, sizes)')
MIN = {'ok sgmkgrid': 30, 'ok sgregrid': 30, 'ok sgaddfringe': 30, 'ok sgstitch': 30, 'failing': 90, 'spawned': 8,
       'strict_refused': 10, 'onto an input': 20, 'over another file': 60, 'as a module': 150}
ASSUME = ['an output file that exists beforehand is a regular file the user may write', "numpy rounds differently depending on the alignment of operands: differences of rounding size are not judged"]
TOOLS = ['mkgrid', 'regrid', 'addfringe', 'stitch']


def cases(r, tier):
    n = 520 if tier == 'quick' else 8000
    for k in range(n):
        t = TOOLS[k % 4]
        c = dict(tool=t, seed=r.randint(0, 2 ** 31), strict=r.random() < .4, verbose=r.random() < .3,
                 fault=r.choice([None] * 7 + ['badsize', 'missing', 'short', 'option', 'degenerate']), dirty=r.random() < .35,
                 there=r.choice([None, None, None, 'longer', 'shorter', 'input']), spawn=k in (0, 1, 2, 3, 4, 5, 6, 7) or (tier != 'quick' and k % 500 < 4))
        if k < 4:
            c.update(fault=None, dirty=False)
        elif k < 8:
            c.update(fault='missing')
        if t == 'mkgrid':
            c['region'] = work.region(r)
            c['sub'] = work.subscales(r, 5)
        elif t == 'regrid':
            c['tile'] = work.tile_desc(r, nmax=4, nopole=True, **({} if r.random() < .8 else dict(scales=[(3e-8, 3e-6)])))
            c['block'] = work.block_desc(r, c['tile'])
            c['sub'] = work.subscales(r, 3)
            c['route'] = r.choice(['file', 'file', 'xy', 'csv', 'csvx', 'csvy'])
        else:
            c['pair'] = work.pair_desc(r, 3)
        yield c


def num(x):
    return repr(float(x)) if isinstance(x, (float, np.floating)) else str(x)


def argv_of(opts, r, strict, verbose):
    parts = []
    for k, v in opts.items():
        v = num(v)
        if 'e' in v and v[0] == '-' or r.random() < .4:
            parts.append(['--%s=%s' % (k, v)])
        else:
            parts.append(['--' + k, v])
    if strict:
        parts.append([r.choice(['-s', '--strict'])])
    if verbose:
        parts.append([r.choice(['-v', '--verbose'])])
    r.shuffle(parts)
    return sum(parts, [])


def dirt(r, ni, nj, on):
    if not on:
        return None
    pads = [(n, i, j) for n, a, b in mit.SPEC for i in range(ni + 1) for j in range(nj + 1) if not (i < ni + a and j < nj + b)]
    return {r.choice(pads): r.choice([1., -1., 1e-300, float('nan')])}


def run(c, mon):
    r = work.rng(c['seed'])
    d = mon.tmp()
    out = os.path.join(d, 'out.mitgrid')
    t = c['tool']
    opts, strict = {}, c['strict'] and t != 'mkgrid'
    if t == 'mkgrid':
        opts = dict(c['region'])
        opts.update(lon_subscale=c['sub'][0], lat_subscale=c['sub'][1])
        call = lambda: sg.mkgrid.mkgrid(c['verbose'], **opts)
        if c['fault'] == 'option':
            opts.pop(r.choice(sorted(opts)))
        elif c['fault']:
            opts[r.choice(['lon_subscale', 'lat_subscale'])] = 0
        size = c['sub']
    elif t == 'regrid':
        s = work.Selection(c['tile'], c['block'])
        a = work.route_args(c['route'], s, d, 'C', 5)
        if c['route'] == 'file':
            work.write_mit(a['mitgridfile'], s.mats(5), s.ni, s.nj, dirt(r, s.ni, s.nj, c['dirty']))
        opts = dict(s.kw, lon_subscale=c['sub'][0], lat_subscale=c['sub'][1], **a)
        files = [k for k in a if k not in ('ni', 'nj')]
        size = (s.ni, s.nj)
        call = lambda: sg.regrid.regrid(strict, c['verbose'], **opts)
        if c['fault'] == 'degenerate':
            opts['lon2'], opts['lat2'] = opts['lon1'], opts['lat1']
    else:
        p = work.pair(c['pair'])
        pa, pb = os.path.join(d, 'a.mitgrid'), os.path.join(d, 'b.mitgrid')
        which = r.choice('ab')
        work.write_mit(pa, work.junk_mats(p.aXG, p.aYG, 1, .2), p.na[0], p.na[1], dirt(r, p.na[0], p.na[1], c['dirty'] and which == 'a'))
        work.write_mit(pb, work.junk_mats(p.bXG, p.bYG, 2), p.nb[0], p.nb[1], dirt(r, p.nb[0], p.nb[1], c['dirty'] and which == 'b'))
        opts = dict(tilea=pa, nia=p.na[0], nja=p.na[1], tileb=pb, nib=p.nb[0], njb=p.nb[1])
        files = ['tilea', 'tileb']
        size = (p.na, p.nb)
        if c['fault'] == 'degenerate':
            opts.update(tileb=pa, nib=p.na[0], njb=p.na[1])
        fn = getattr(getattr(sg, t), t)
        call = lambda: fn(strict, c['verbose'], **opts)
    if t != 'mkgrid' and c['fault']:
        if c['fault'] == 'missing':
            os.unlink(opts[r.choice(files)])
        elif c['fault'] == 'short':
            f = opts[r.choice(files)]
            n = os.path.getsize(f)
            os.truncate(f, r.choice([0, n // 2, n - 8]))
        elif c['fault'] == 'badsize':
            k = r.choice([k for k in opts if k[:2] in ('ni', 'nj')])
            opts[k] += r.choice([1, 3])
        elif c['fault'] == 'option':
            opts.pop(r.choice([k for k in sorted(opts) if k not in files]))
    name = 'sg' + t
    # what the library does with these inputs
    lib, err = None, None
    try:
        lib = call()
    except Exception as e:
        err = e
    before = None
    if c['there'] == 'input' and t != 'mkgrid':
        # an input file is replaced by the result
        p = opts[r.choice(files)]
        if os.path.exists(p):
            out = p
            mon.count('onto an input')
    elif c['there'] in ('longer', 'shorter'):
        with open(out, 'wb') as f:
            f.write(b'\x55' * (10 if c['there'] == 'shorter' else 80000))
        mon.count('over another file')
    if os.path.exists(out):
        with open(out, 'rb') as f:
            before = f.read()
    there = sorted(os.listdir(d))
    argv = argv_of(dict(opts, outfile=out), r, strict, c['verbose'])
    mod = getattr(sg, t)
    if c['spawn']:
        st, txt = cli.spawn(t, argv)
        mon.count('spawned')
        exc = txt[-300:]
    elif c['seed'] % 8 == 0:        # python -m simplegrid.<tool>
        st, exc, txt = cli.run(lambda: None if runpy.run_module('simplegrid.' + t, run_name='__main__') else None, argv, name)
        mon.count('as a module')
    else:
        st, exc, txt = cli.run(mod.main, argv, name)
    mon.seen(t, err is None, c.get('route'), strict, c['verbose'], size, c['fault'] if err is not None else None)
    if err is not None:
        mon.count('failing')
        if strict and c['dirty'] and isinstance(err, RuntimeError):
            mon.count('strict_refused')
        mon.check(st != 0, '%s exits with status 0 although the library call raises %s' % (name, type(err).__name__), err=str(err)[:200])
        if before is None:
            mon.check(not os.path.exists(out), '%s left an output file although the library call raises %s' % (name, type(err).__name__))
        else:
            with open(out, 'rb') as f:
                mon.check(f.read() == before, '%s changed an existing file although the library call raises %s' % (name, type(err).__name__))
        return
    mon.count('ok ' + name)
    mon.require(st == 0, '%s exits with status %s although the library call succeeds' % (name, st), exc=repr(exc)[:300])
    with mon.oracle('library result'):
        if t == 'addfringe':
            g, ni, nj = lib[2], opts['nia'], opts['nja']
        else:
            g, ni, nj = lib
        want = mit.encode(g, int(ni), int(nj))
    mon.require(os.path.exists(out), '%s left no output file' % name)
    with open(out, 'rb') as f:
        got = f.read()
    mon.check(len(got) == len(want), '%s wrote %d bytes for a grid of %s x %s cells (%d bytes)' % (name, len(got), ni, nj, len(want)))
    if len(got) == len(want):
        a, b = np.frombuffer(got, '>f8'), np.frombuffer(want, '>f8')
        same = bool(np.array_equal(a.view('>u8')[~np.isnan(b)], b.view('>u8')[~np.isnan(b)]) and np.array_equal(np.isnan(a), np.isnan(b)))
        if not same and not np.any((a == 0.) & (b == 0.) & (np.signbit(a) != np.signbit(b))):
            # (numpy rounds differently depending on the alignment of operands)
            mon.count('rounded otherwise')
            sets = [(None, 0, [("['%s']" % n, v.reshape(16, -1)[k]) for k, n in enumerate(mit.NAMES)]) for v in (a, b)]
            same = ops.agree(dict(op='cli', fault=None), *sets) is None
        mon.check(same, '%s wrote values other than the library call returns' % name)
    mon.check(sorted(set(os.listdir(d)) - set(there)) == ([] if before is not None else ['out.mitgrid']),
              '%s left more than the output file' % name, files=os.listdir(d))
