"""C35: boundary files are big-endian, column-major, one per field and edge."""
import os
import numpy as np
from vlib import obcs
from vlib.sut import sg
from checks import c34

RULE = ('random parent runs (some of thousands of boundary values) and calls, with boundaries switched off, absent fields, new, nested, existing and default result directories, first and repeated runs into one directory, '
        'parent path with and without trailing separators; the set of files, their lengths, byte order and element order are compared '
        'with an independent element-by-element decoding; distinct = (sizes, fields, edges, directory kind)')
MIN = {'files': 300, 'default_dir': 12, 'new_dir': 12, 'existing_dir': 8, 'parent_dir': 4, 'switched_off': 15, 'absent_fields': 150, 'runs_again': 20, 'files_of_thousands': 8}
ASSUME = c34.ASSUME + ['files other than OB* (interpolation weights) are not judged']


def cases(r, tier):
    for k in range(140 if tier == 'quick' else 1500):
        c = obcs.desc(r, .1)
        for e in 'NSEW':
            if r.random() < .25:
                c['vec'][e] = [0] * r.choice([1, 3])
        c['nz'], c['nt'] = r.choice([2, 3, 4]), r.choice([1, 2, 3])
        if k % 40 == 7:         # thousands of values in a file
            c.update(r.choice([dict(nz=r.randint(20, 40), nt=r.randint(30, 45)), dict(nz=50, nt=r.randint(20, 30)), dict(nz=3, nt=r.randint(200, 400))]), fields=['T'] + r.sample(obcs.FIELDS[1:], 1), tiles='one')
        c['again'] = r.choice([None, None, 'longer', 'other', 'same']) if c['via'] == 'api' else None
        yield c


def run(c, mon):
    r = c34.execute(c, mon)
    if c['again']:
        # boundary files of an earlier run are replaced
        for x in sorted(os.listdir(r.out)) if os.path.isdir(r.out) and c['again'] != 'same' else ():
            if x.startswith('OB'):
                with open(os.path.join(r.out, x), 'ab' if c['again'] == 'longer' else 'wb') as f:
                    f.write(b'xxxxxxxx' * 3)
        mon.call('getobcs again', sg.getobcs.getobcs, c['strict'], c['verbose'], **r.kw)
        mon.count('runs_again')
    mon.count({None: 'default_dir', 'old': 'existing_dir', 'parent': 'parent_dir'}.get(c['out'], 'new_dir'))
    mon.count('switched_off', sum(r.cells(e) is None for e in 'NSEW'))
    mon.count('absent_fields', len(obcs.FIELDS) - len(c['fields']))
    mon.require(os.path.isdir(r.out), 'no results directory', out=r.out, there=os.listdir(r.tmp))
    have = set(x for x in os.listdir(r.out) if x.startswith('OB'))
    want = set(r.wanted())
    mon.count('files', len(have))
    mon.count('files_of_thousands', sum(os.path.getsize(os.path.join(r.out, x)) > 4096 * 8 for x in have))
    mon.check(have == want, 'boundary files present: missing %s, unexpected %s' % (sorted(want - have), sorted(have - want)))
    new = [x for x in sorted(os.listdir(r.tmp)) if os.path.join(r.tmp, x) not in (r.res, r.out) and not x.endswith('.mitgrid') and
           not r.out.startswith(os.path.join(r.tmp, x))]
    mon.check(not new, 'getobcs left other things: %s' % new)
    mon.check(c['out'] == 'parent' or not [x for x in os.listdir(r.res) if x.startswith('OB')], 'boundary files in the parent results directory')
    c34.values(mon, r)
