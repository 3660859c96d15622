"""C32: MDS metadata parsing is faithful and damage is refused."""
import os
import numpy as np
from vlib import mdsref, work
from vlib.sut import sg

RULE = ('meta files with random keys and values in random layout (line breaks, spacing, comments holding delimiters, strings holding '
        'comment marks) are parsed and compared; then each is given one malformation of each applicable kind; then field reads with '
        'truncated or missing files, incompatible tiles, unknown precision and byte order; distinct = (kind, malformation, layout seed)')
MIN = {'entries': 1500, 'malformed': 800, 'damaged': 300, 'mal no =': 60, 'mal no opening': 60, 'mal no closing': 60, 'mal wrong closing': 60,
       'mal no semicolon': 60, 'mal bad value': 60, 'mal cut': 60, 'crlf': 60}
ASSUME = ['commas directly follow their value; comments lie on one line', 'data files longer than needed are not judged']
DAMAGE = ['short', 'short', 'short', 'nodata', 'nometa', 'noiter', 'incompatible', 'prec', 'endian', 'wrprec']


def cases(r, tier):
    n = 400 if tier == 'quick' else 8000
    for k in range(n):
        yield dict(kind='meta', seed=r.randint(0, 2 ** 31))
        yield dict(kind='damage', what=r.choice(DAMAGE), seed=r.randint(0, 2 ** 31), dims=[r.randint(1, 3) for _ in range(r.randint(0, 2))] +
                   [r.randint(1, 6), r.randint(1, 6)], nrec=r.choice([1, 2, 3]), prec=r.choice(['float32', 'float64']), tiled=r.random() < .5,
                   mm=r.random() < .5, rec=r.random() < .3, iters=r.random() < .3)


def comment(r):
    t = r.choice(['', ' note', ' x = [ 3 ];', ' }', ' ] ;', " it's", ' 1, 2'])
    return r.choice(['', '', '', '', '//' + t, '/*' + t + ' */'])


def entry(r, key):
    """(tokens, expected values): tokens are glued with random blanks."""
    if r.random() < .3:
        vals = [r.choice(['abc', 'THETA', 'a b', 'x//y', 'a/*b*/c', 'k=1', 'p, q', 'ETAN  z', 'T\x0c1', 'a\tb', 'g\x1cr', 'g\x1dr', 'x\x85y', 'l\u2028s', 'v\x0bt', 'd\xf6r', 'a;b', '[1]', '(x)', '"q"', '%d', '#5', '\\n', '*', '&amp', '']) for _ in range(r.randint(1, 30))]
        return '{', ["'%s'" % (v + ' ' * r.choice([0, 0, 3])) for v in vals], vals
    out, exp = [], []
    for _ in range(r.randint(1, 9)):
        k = r.random()
        if k < .5:
            v = r.choice([0, 1, -1, 90, 1170, 2 ** 40, r.randint(-9999, 9999), r.choice([2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 31 + 1, 3 * 10 ** 9, 2 ** 32 - 1, 2 ** 32, 10 ** 10, 2 ** 53 + 1, -2 ** 33, 2 ** 62 + 1, 255, 256, 32768, 65536, 999999999, 10 ** 9]), r.randint(2 ** 31, 2 ** 33)])
            out.append(('%d' if v < 0 or r.random() < .8 else '%05d') % v)
        elif k < .8:
            v = r.choice([0., 1.5, -2.25, 86400., r.uniform(-1e6, 1e6), 1e-30, 1e300, -1e-300, 2. ** 31, 4e9, 1e16, 1e22])
            s = r.choice(['%r', '%.12E', '%.6e', '%f', '%.0E', '%.0e']) % v
            out.append(s)
            v = float(s)
        else:
            v = r.choice(['float32', 'float64', 'abc', 'x'])
            out.append("'%s'" % v)
        exp.append(v)
    return '[', out, exp


def layout(r, key, op, toks):
    """Text of one entry, as a list of pieces (so that one can be damaged)."""
    br = lambda: r.choice(['', ' ', '  ', '', comment(r).replace('//', '//') + '\n ' if r.random() < .5 else '\n'])
    pieces = [('key', ' ' * r.randint(0, 2) + key), ('eq', ' ' * r.randint(0, 2) + '=' + ' ' * r.randint(0, 3)), ('open', op), ('sp', br())]
    for n, t in enumerate(toks):
        pieces.append(('tok', t))
        if n < len(toks) - 1:
            if op == '[':
                pieces.append(('sp', r.choice([',', ', ', ',    ', ' ', '  ', ',\n', ', // ]\n', ', /* c } */ ', '\n  '])))
            else:
                pieces.append(('sp', r.choice([' ', '   ', '\n', '\n ', ' // }\n', ' /* ] */ '])))
    pieces += [('sp', r.choice(['', ' ', '\n ', '\n', '  '])), ('close', {'[': ']', '{': '}'}[op]), ('semi', ';'),
               ('end', r.choice(['', '', '  ', ' // done', ' /* x */']) + '\n')]
    return pieces


def text(entries, r):
    t = ''
    for e in entries:
        t += ''.join(p[1] for p in e)
        if r.random() < .2:
            t += r.choice(['\n', '   \n', '// a comment = [ 1 ];\n', '/* other */\n'])
    return t


def same_values(got, want):
    return isinstance(got, list) and len(got) == len(want) and all(type(a) is type(b) and a == b for a, b in zip(got, want))


def run_meta(c, mon):
    r = work.rng(c['seed'])
    keys = r.sample(['nDims', 'dimList', 'dataprec', 'nrecords', 'timeStepNumber', 'timeInterval', 'nFlds', 'fldList', 'simulation', 'x_1', 'Z'], r.randint(1, 7))
    exp, ents = {}, []
    for k in keys:
        op, toks, vals = entry(r, k)
        exp[k] = vals
        ents.append(layout(r, k, op, toks))
    p = os.path.join(mon.tmp(), 'a.meta')
    t = text(ents, r)
    nl = r.choice(['\n', '\n', '\n', '\r\n'])
    mon.count('crlf', nl != '\n')
    with open(p, 'w', newline=nl) as f:
        f.write(t)
    mon.seen('meta', t)
    with mon.oracle('parsemeta'):
        for how in ('name', 'file'):
            if how == 'name':
                got = mon.call('parsemeta', sg.mds.parsemeta, p)
            else:
                with open(p) as f:
                    got = mon.call('parsemeta of a file object', sg.mds.parsemeta, f)
            mon.check(sorted(got) == sorted(exp), 'keys %s, file has %s' % (sorted(got), sorted(exp)), text=t)
            for k in exp:
                mon.count('entries')
                mon.check(same_values(got.get(k), exp[k]), 'values of %s are %r, file has %r' % (k, got.get(k), exp[k]), text=t)
    # one malformation each
    for kind in ('no =', 'no opening', 'no closing', 'wrong closing', 'no semicolon', 'bad value', 'cut'):
        n = r.randrange(len(ents))
        e = [list(q) for q in ents[n]]
        at = {'no =': 'eq', 'no opening': 'open', 'no closing': 'close', 'wrong closing': 'close', 'no semicolon': 'semi'}.get(kind)
        bad = ents[:n] + [e] + ents[n + 1:]
        if kind == 'bad value':
            if e[2][1] != '[':
                continue
            q = r.choice([q for q in e if q[0] == 'tok'])
            q[1] = r.choice(['1x', '1.2.3', 'abc', '--3', '1.0f0', 'float32', '+-1', '1e', '#'])
        elif kind == 'cut':
            q = r.choice([k for k in range(2, len(e)) if e[k][0] in ('open', 'tok', 'close')])
            e = e[:q + (r.random() < .5 and e[q][0] != 'close')]
            bad = ents[:n] + [e]
        elif kind == 'wrong closing':
            for q in e:
                if q[0] == 'close':
                    q[1] = {']': '}', '}': ']'}[q[1]]
        else:
            for q in e:
                if q[0] == at:
                    q[1] = q[1].replace('=', '') if at == 'eq' else ''
        s = text(bad, r)
        with open(p, 'w', newline=nl) as f:
            f.write(s)
        mon.count('malformed')
        mon.count('mal ' + kind)
        mon.call_raises('meta file with %s: %r' % (kind, s if len(s) < 400 else s[:400] + '...'), Exception, sg.mds.parsemeta, p)


def run_damage(c, mon):
    r = work.rng(c['seed'])
    d, w = mon.tmp(), c['what']
    dims, nrec = tuple(c['dims']), c['nrec']
    ny, nx = dims[-2:]
    its = [3, 7] if c['iters'] or w == 'noiter' else [None]
    tl = mdsref.tiling(r, nx, ny) if c['tiled'] else None
    if w == 'incompatible' and (tl is None or len(tl) < 2):
        its, c = [3, 7], dict(c)
    stems, arr = [], []
    for it in its:
        a = mdsref.values(c['seed'], (nrec,) + dims, c['prec'])
        arr.append(a)
        base = os.path.join(d, 'T' if it is None else 'T.%010d' % it)
        if tl is None:
            mdsref.put(base, a, c['prec'])
            stems.append(base)
        else:
            L = [(base + '.%03d.001' % (k + 1),) + t for k, t in enumerate(tl)]
            mdsref.put('', a, c['prec'], '>', L)
            stems += [x[0] for x in L]
    args = () if its == [None] else (its,)
    kw = dict(usememmap=c['mm'])
    want = np.array(arr)
    rec = None
    if c['rec'] and w == 'short':
        rec = [r.randrange(nrec)]
        kw['rec'] = rec
        want = want[:, rec]
    victim = r.choice(stems)
    what = '%s%s%s' % (w, ', memory map' if c['mm'] else '', ', tiles' if tl else '')
    must = True
    if w == 'short':
        f = victim + '.data'
        size = os.path.getsize(f)
        n = r.choice([0, size - 1, size - 4, size - 8, size // 2, r.randrange(size)])
        n = max(0, n)
        os.truncate(f, n)
        if rec is not None:
            must = n < size // nrec * (rec[0] + 1)
        what += ' (%d of %d bytes, rec=%r)' % (n, size, rec)
    elif w == 'nodata':
        os.unlink(victim + '.data')
    elif w == 'nometa':
        for s in stems:
            if s.startswith(victim.rsplit('.', 2)[0] if tl else victim):
                os.unlink(s + '.meta')
    elif w == 'noiter':
        args = (r.choice([[3, 8], [9], 4]),)
    elif w == 'incompatible':
        p = victim + '.meta'
        t = open(p).read()
        k = r.choice(['nrecords', 'dataprec', 'dims', 'extra'])
        if k == 'nrecords':
            t = t.replace(' nrecords = [ %5d ];' % nrec, ' nrecords = [ %5d ];' % (nrec + 1))
        elif k == 'dataprec':
            t = t.replace(c['prec'], 'float32' if c['prec'] == 'float64' else 'float64')
        elif k == 'dims':
            t = t.replace('%5d,' % nx, '%5d,' % (nx + 1), 1)
        else:
            t += ' nFlds = [ 1 ];\n'
        open(p, 'w').write(t)
        what += ' ' + k
    elif w == 'prec':
        bad = r.choice(['float16', 'int32', 'real*8', 'float128', 'FLOAT64'])
        for s in stems:
            t = open(s + '.meta').read().replace(c['prec'], bad)
            open(s + '.meta', 'w').write(t)
        what += ' ' + bad
    elif w == 'endian':
        kw['machineformat'] = r.choice(['x', 'big', '', 'native', 'B'])
        what += ' %r' % kw['machineformat']
    mon.count('damaged')
    mon.seen(w, what, dims, nrec)
    before = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    if w == 'wrprec':
        if r.random() < .5:
            mon.call_raises('wrmds with unknown precision', Exception, sg.mds.wrmds, os.path.join(d, 'W'), arr[0], dataprec=r.choice(['float16', 'f8', 'double']))
        else:
            mon.call_raises('wrmds with unknown byte order', Exception, sg.mds.wrmds, os.path.join(d, 'W'), arr[0], machineformat=r.choice(['x', 'big', '']))
        return
    if must:
        mon.call_raises('rdmds, ' + what, Exception, sg.mds.rdmds, os.path.join(d, 'T'), *args, **kw)
    else:
        try:
            got = sg.mds.rdmds(os.path.join(d, 'T'), *args, squeeze=True, **kw)
        except Exception:
            mon.count('refusals')
        else:
            mon.check(mdsref.same(np.ravel(got), want.ravel()), 'rdmds, %s: values that are not in the file' % what)
    after = {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}
    mon.check(before == after, 'rdmds, %s: a file changed' % what)


def run(c, mon):
    (run_meta if c['kind'] == 'meta' else run_damage)(c, mon)
