"""C34: boundary files hold the parent fields interpolated at the boundary points."""
import glob
import os
import numpy as np
from vlib import cli, obcs
from vlib.sut import sg

RULE = ('random parent runs (fields, depths, times, single files or tiles) on curvilinear parent and regional grids of any relative '
        'resolution; every boundary value is recomputed at the independently located tracer, U or V point; distinct = (sizes, fields, '
        'tiling, boundary vectors, sources)')
MIN = {'boundary_values': 4000, 'u_files': 60, 'v_files': 60, 'tracer_files': 150, 'several_times': 25, 'tiled': 20, 'missing_times': 10}
ASSUME = ['xESMF is replaced by a stand-in applying a known linear operator', 'a temperature field is present',
          'the regional grid lies inside the parent grid']


def cases(r, tier):
    for k in range(140 if tier == 'quick' else 1500):
        yield obcs.desc(r, .25, tier != 'quick')


def execute(c, mon):
    run = obcs.Run(c, mon.tmp())
    mon.seen(run.np_, run.nr, tuple(c['fields']), c['tiles'], c['vec'], c['psrc'], c['rsrc'], c['nz'], run.times)
    if c['via'] == 'api':
        mon.call('getobcs', sg.getobcs.getobcs, c['strict'], c['verbose'], **run.kw)
    else:
        st, exc, txt = cli.run(sg.getobcs.main, run.argv(), 'sggetobcs')
        mon.require(st == 0, 'sggetobcs exits with status %s: %r' % (st, exc), argv=run.argv())
        mon.count('cli')
    return run


def values(mon, run):
    """Compares the contents of all expected files."""
    for name, (f, e) in sorted(run.wanted().items()):
        with mon.oracle('getobcs'):
            if not mon.check(os.path.exists(os.path.join(run.out, name)), 'no file %s' % name):
                continue
            a = run.decode(name, f, e)
            if not mon.check(not isinstance(a, int), '%s has %s bytes' % (name, a if isinstance(a, int) else '')):
                continue
            w = run.expected(f, e)
            mon.count({'T': 'tracer', 'U': 'u', 'V': 'v'}[obcs.kind(f)] + '_files')
            mon.count('boundary_values', w.size)
            ok = obcs.same(a, w) | ~run.defined(e)[:, None, None]
            mon.check(bool(ok.all()), '%s: boundary values differ from the parent field at the boundary points' % name,
                      where=np.argwhere(~ok)[:4].tolist(), times=run.times)


def run(c, mon):
    r = execute(c, mon)
    if c['tiles'] != 'one':
        mon.count('tiled')
    if len(r.times) > 1:
        mon.count('several_times')
    values(mon, r)
    lone = [f for f in c['fields'] if f != 'T']
    if len(r.times) > 1 and lone:
        missing(mon, c, r, lone[c['seed'] % len(lone)])


def missing(mon, c, r, f):
    """A field that lacks one of the times is refused (rather than made up)."""
    t = r.times[c['seed'] // 7 % len(r.times)]
    for p in glob.glob(os.path.join(r.res, '%s.%010d.*' % (f, t))):
        os.unlink(p)
    out = os.path.join(mon.tmp(), 'less')
    kw = dict(r.kw, resultsdir=out)
    mon.count('missing_times')
    mon.call_raises('getobcs, with %s missing at time %d' % (f, t), Exception, sg.getobcs.getobcs, **kw)
    left = [n for n in (os.listdir(out) if os.path.isdir(out) else []) if n[3:] == f.lower()]
    mon.check(not left, '%s missing at time %d, but there are files %s' % (f, t, left))
