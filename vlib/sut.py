"""Imports the package under test from the working tree (default /repo).

simplegrid/__init__.py imports getobcs, which imports xesmf, which needs ESMF,
which is not available offline.  A stand-in module named `xesmf` is installed
before the import: it interpolates with a known linear operator
(vlib/fakexesmf.py).
"""
import os
import sys
import types
import warnings
from . import fakexesmf

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if 'xesmf' not in sys.modules:
    _m = types.ModuleType('xesmf')
    _m.Regridder = fakexesmf.Regridder
    sys.modules['xesmf'] = _m
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import simplegrid as sg
_here = os.path.realpath(os.path.dirname(sg.__file__))
if _here != os.path.realpath(os.path.join(REPO, 'simplegrid')):
    sys.stderr.write('harness error: imported %s, not %s\n' % (_here, REPO))
    sys.exit(3)
