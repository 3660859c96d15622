"""C04: a failed write is never reported as success."""
import os
import resource
import signal
import subprocess
import sys
import numpy as np
from vlib import files, mit, work
from vlib.sut import sg

RULE = ('each writer (mitgrid file, MDS data and meta file, command-line tools) runs in a forked process whose file-size limit cuts '
        'the output at a chosen byte (0, 1, around the 4 KiB / 8 KiB / 64 KiB buffer sizes, last word, last byte, random), or whose '
        'target is /dev/full; a monitor compares reported success with the bytes another process finds; distinct = (writer, output '
        'size class, cut position class)')
MIN = {'faults': 200, 'reported': 200, 'successes': 60, 'devfull': 30}
ASSUME = ['faults injected by RLIMIT_FSIZE (EFBIG) and /dev/full (ENOSPC)', 'runs as a process that ignores SIGXFSZ, as Python does']


def cases(r, tier):
    n = 600 if tier == 'quick' else 6000
    for k in range(n):
        w = r.choice(['mit', 'mit', 'mit', 'mds', 'mds', 'cli'])
        c = dict(writer=w, seed=r.randint(0, 2 ** 31))
        k2 = r.random()
        if k2 < .35:
            c['ni'], c['nj'] = r.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)])
        elif k2 < .8:
            c['ni'], c['nj'] = r.randint(3, 20), r.randint(3, 20)
        else:
            c['ni'], c['nj'] = r.randint(30, 70), r.randint(20, 50)
        if w == 'cli':
            c['ni'], c['nj'] = r.randint(1, 6), r.randint(1, 6)
        c['fault'] = r.choice(['none', 'full', 'cut', 'cut', 'cut'])
        c['at'] = r.choice(['zero', 'one', 'lastbyte', 'lastword', 'lastbuf', '4096', '8192', '65536', 'mid', 'rand', 'half', 'lastslot'])
        c['f64'] = r.random() < .5
        if k % 8 == 5 and w != 'cli':
            # large matrices; most cuts within the last buffer
            c['ni'], c['nj'] = r.choice([(100, 99), (r.randint(80, 200), r.randint(80, 200)), (r.randint(3000, 30000), r.randint(1, 3)),
                                         (1, r.randint(3000, 30000)), (r.randint(200, 300), r.randint(200, 300))])
            c['at'] = r.choice(['lastbyte', 'lastword', 'lastbuf', 'lastbuf', 'last', 'last', c['at']])
        c['meta'] = r.random() < .3
        yield c


def limit(c, n):
    r = work.rng(c['seed'])
    k = {'zero': 0, 'one': 1, 'lastbyte': n - 1, 'lastword': n - 8, 'lastbuf': (n - 1) // 4096 * 4096, '4096': 4096,
         '8192': 8192, '65536': 65536, 'mid': n // 2 + 3, 'rand': r.randint(0, n - 1), 'half': n // 2,
         'lastslot': n - n // 16, 'last': n - 1 - r.randint(0, 5000)}[c['at']]
    return max(0, min(k, n - 1))


def guarded(fn, lim, mon):
    """Run fn in a forked child under a file-size limit; 'ok', 'raised' or
    'status:N'."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = b'E'
        try:
            os.close(rfd)
            signal.alarm(60)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            if lim is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            try:
                fn()
                code = b'K'
            except SystemExit as e:
                code = b'K' if e.code in (None, 0) else b'R'
            except BaseException:
                code = b'R'
        finally:
            try:
                os.write(wfd, code)
            finally:
                os._exit(0)
    os.close(wfd)
    out = b''
    while True:
        b = os.read(rfd, 10)
        if not b:
            break
        out += b
    os.close(rfd)
    os.waitpid(pid, 0)
    return {b'K': 'ok', b'R': 'raised'}.get(out, 'died')


def sizeclass(n):
    return n if n < 1200 else 'k%d' % (n.bit_length())


def run(c, mon):
    d = mon.tmp()
    ni, nj = c['ni'], c['nj']
    r = np.random.RandomState(c['seed'])
    if c['writer'] == 'mit':
        mats = files.content(c['seed'], ni, nj, 'real')
        path = os.path.join(d, 'o.mitgrid')
        want = {path: mit.encode(mats, ni, nj)}
        target = path

        def fn(p):
            if not sg.gridio.write_mitgridfile(p, mats, ni, nj):
                raise RuntimeError('reported failure')
    elif c['writer'] == 'mds':
        a = r.uniform(-1, 1, (nj, ni))
        prec = 'float64' if c['f64'] else 'float32'
        path = os.path.join(d, 'f')
        want = {path + '.data': a.astype('>f8' if c['f64'] else '>f4').tobytes(), path + '.meta': None}
        target = path + ('.meta' if c['meta'] else '.data')
        fields = ['F%d' % k for k in range(r.randint(1, 30))] if c['meta'] else None

        def fn(p):
            sg.mds.wrmds(p, a, dataprec=prec, fields=fields, itr=None)
    else:
        path = os.path.join(d, 'o.mitgrid')
        g, a, b = sg.mkgrid.mkgrid(lon1=1., lat1=3., lon2=2., lat2=1., lon_subscale=ni, lat_subscale=nj)
        want = {path: mit.encode(g, ni, nj)}
        target = path

        def fn(p):
            sys.argv = ['sgmkgrid', '--lon1', '1', '--lat1', '3', '--lon2', '2', '--lat2', '1', '--lon_subscale', str(ni),
                        '--lat_subscale', str(nj), '--outfile', p]
            sg.mkgrid.main()
    # a fault-free run establishes the complete output
    st = guarded(lambda: fn(path), None, mon)
    mon.count('successes')
    if not mon.check(st == 'ok', '%s: fault-free write did not succeed (%s)' % (c['writer'], st)):
        return
    for p in want:
        got = files.read(p)
        if want[p] is None:
            want[p] = got
            mon.check(len(got) > 20, 'meta file is empty')
        mon.check(got == want[p], '%s: reported success, but another process finds %d of %d bytes' % (
            os.path.basename(p), len(got), len(want[p])))
        os.unlink(p)
    n = len(want[target])
    if c['fault'] == 'none':
        return
    mon.count('faults')
    if c['fault'] == 'full':
        mon.count('devfull')
        os.symlink('/dev/full', target)
        st = guarded(lambda: fn(path), None, mon)
        mon.seen(c['writer'], sizeclass(n), 'full', c['meta'])
        if st == 'raised':
            mon.count('reported')
        # (a writer that replaces the file does not meet the full device)
        complete = not os.path.islink(target) and all(os.path.isfile(p) and files.read(p) == want[p] for p in want)
        mon.check(st == 'raised' or st == 'ok' and complete, '%s: writing %d bytes to a full device was reported as success (%s)' % (c['writer'], n, st),
                  target=os.path.basename(target))
        return
    lim = limit(c, n)
    if c['writer'] == 'mds':
        # the limit hits whichever file is longer; make sure it is the chosen one
        other = [p for p in want if p != target][0]
        if lim < len(want[other]) and c['meta']:
            pass
    st = guarded(lambda: fn(path), lim, mon)
    mon.seen(c['writer'], sizeclass(n), c['at'], c['meta'])
    complete = all(os.path.exists(p) and files.read(p) == want[p] for p in want)
    if st == 'raised':
        mon.count('reported')
    mon.check(st == 'raised' or (st == 'ok' and complete),
              '%s: write cut after %d of %d bytes was reported as success (%s)' % (c['writer'], lim, n, st),
              sizes={os.path.basename(p): os.path.getsize(p) if os.path.exists(p) else None for p in want})
