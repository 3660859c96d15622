"""C37: boundary files depend on the call, not on earlier runs into the same directory."""
import copy
import os
import shutil
import time
from vlib import cli, obcs
from vlib.sut import sg
from checks import c34

RULE = ('sequences of two to four getobcs runs into one results directory that differ in the regional grid, the parent grid (of the same or '
        'other sizes), the results, times, depths, fields or boundary vectors; after every run all of its boundary files are '
        'recomputed from that run alone; distinct = (sizes, sequence of changes, fields)')
MIN = {'boundary_values': 4000, 'other_regional': 25, 'other_parent': 25, 'other_results': 25, 'other_vectors': 15, 'same_again': 10, 'old_results': 25, 'newer_files': 15, 'other_interior': 5, 'replaced': 25,
       'square': 15}
ASSUME = c34.ASSUME + ['as documented for xESMF, the stand-in stores weights in the named file and takes them from there if it exists',
                       'files of fields or boundaries the last run does not have are not judged']


def cases(r, tier):
    for k in range(36 if tier == 'quick' else 700):
        c = obcs.desc(r, .2)
        c.update(nz=r.choice([1, 2]), nt=r.choice([1, 2]), via=r.choice(['api', 'api', 'api', 'cli']))
        if r.random() < .3:
            c['parent']['nj'] = c['parent']['ni'] = max(c['parent']['ni'], c['parent']['nj'])
            c['regional']['nj'] = c['regional']['ni'] = min(c['regional']['ni'], c['regional']['nj'])
            c['vec'] = {}
        big = k % 9 == 5        # a parent of very many points
        if big:
            n, m = r.randint(34, 44), r.randint(34, 44)
            f = min(n, m) / max(c['parent']['ni'], c['parent']['nj'])
            f = 1. / f
            c['parent'].update(ni=n, nj=m, dx=c['parent']['dx'] * f, latlon=False)
            c.update(nz=1, nt=1, fields=c['fields'][:3])
        if c['via'] == 'cli':
            c.update(psrc='file', rsrc='file')
        seq = [c]
        steps = []
        for q in range(1 if big else r.randint(1, 3)):
            n = copy.deepcopy(seq[r.randint(0, len(seq) - 1)])
            s = r.choice(['regional', 'regional', 'parent', 'parent', 'results', 'vectors', 'same', 'sizes', 'interior'])
            if big:
                s = r.choice(['interior', 'interior', 'parent'])
            if s == 'regional':
                g = n['regional']
                g['psi'] += r.choice([-4., 2., 5.])
                g['dx'] *= r.uniform(.6, .8)
                g['seed'] += 1
                if r.random() < .4:
                    g['conv'] = '360' if g['conv'] == 'pm' else 'pm'
            elif s == 'parent':
                # (the region stays well inside)
                turn = r.choice([0., 2., -30.])
                for g in (n['parent'], n['regional']):
                    g['clon'] += turn
                n['parent']['dx'] *= r.choice([1.04, 1.02])
            elif s == 'interior':
                n['parent'].pop('latlon', None)
                n['parent']['bump'] = r.choice([.1, .2, -.15])
            elif s == 'results':
                n.update(seed=r.randint(0, 2 ** 31), nz=r.choice([1, 2, 3]), nt=r.choice([1, 2, 3]))
                n['fields'] = ['T'] + [f for f in obcs.FIELDS[1:] if r.random() < .45]
            elif s == 'vectors':
                m = obcs.desc(r, .8)
                n['vec'] = {}
                for e in 'NSEW':
                    ln, far = (n['regional']['ni'], n['regional']['nj'])[::1 if e in 'NS' else -1]
                    if r.random() < .6:
                        n['vec'][e] = [r.choice([1, -1]) * r.randint(1, far) for _ in range(ln)]
            elif s == 'sizes':
                k = obcs.desc(r, .2)
                k.update(via=n['via'], nz=1, nt=1)
                if k['via'] == 'cli':
                    k.update(psrc='file', rsrc='file')
                n = k
            steps.append(s)
            seq.append(n)
        yield dict(seq=seq, steps=steps, replace=[r.random() < .5 for _ in steps])


def run(c, mon):
    tmp = mon.tmp()
    out = os.path.join(tmp, 'obcs')
    t = None
    for k, (d, s) in enumerate(zip(c['seq'], [None] + c['steps'])):
        if t and c['replace'][k - 1]:      # the parent model was run again in the same place
            shutil.rmtree(t)
            mon.count('replaced')
        else:
            t = os.path.join(tmp, 'r%d' % k)
        os.mkdir(t)
        r = obcs.Run(d, t)
        if d['seed'] % 2:      # results that are older than the files of earlier runs
            mon.count('old_results')
            for f in os.listdir(r.kw['parent_resultsdir']):
                os.utime(os.path.join(r.kw['parent_resultsdir'], f), (1e9, 1e9))
        r.out = r.kw['resultsdir'] = out
        if d['via'] == 'api':
            mon.call('getobcs', sg.getobcs.getobcs, d['strict'], d['verbose'], **r.kw)
        else:
            st, exc, txt = cli.run(sg.getobcs.main, r.argv(), 'sggetobcs')
            mon.require(st == 0, 'sggetobcs exits with status %s: %r' % (st, exc), argv=r.argv())
        if c['seq'][0]['seed'] % 3 == 0:    # earlier files from another machine or day
            mon.count('newer_files')
            when = time.time() + [3600., 1e5, 3e7][d['seed'] % 3]
            for p, _, fs in os.walk(out):
                for f in fs:
                    os.utime(os.path.join(p, f), (when, when))
        if s:
            mon.count('same_again' if s == 'same' else 'other_' + s)
        if r.np_[0] == r.np_[1] and r.nr[0] == r.nr[1]:
            mon.count('square')
        c34.values(mon, r)
    mon.seen(r.np_, r.nr, tuple(c['steps']), tuple(d['fields']))
