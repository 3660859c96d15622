"""Runs a command-line entry point in-process and reports its exit status."""
import io
import os
import subprocess
import sys
import traceback
from . import harness


def run(main, argv, prog='tool'):
    """(status, exception or None, stdout text).  An exception leaving main()
    is exit status 1, exactly as for the installed console script."""
    old = sys.argv, sys.stdout, sys.stderr
    out, err = io.StringIO(), io.StringIO()
    exc = None
    try:
        sys.argv = [prog] + [str(a) for a in argv]
        sys.stdout, sys.stderr = out, err
        try:
            st = main()
            st = 0 if st is None else st
            status = st if isinstance(st, int) else 1
        except SystemExit as e:
            exc = e
            status = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
        except (harness.CaseTimeout, MemoryError):
            raise
        except BaseException as e:
            exc = e
            status = 1
    finally:
        sys.argv, sys.stdout, sys.stderr = old
    return status, exc, out.getvalue() + err.getvalue()


def spawn(module, argv, cwd=None):
    """Same as a real process of its own: exit status and output."""
    code = ('import sys; from vlib import sut; sys.argv[0] = "tool"; '
            'import importlib; m = importlib.import_module("simplegrid.%s"); sys.exit(m.main())' % module)
    p = subprocess.run([sys.executable, '-c', code] + [str(a) for a in argv], cwd=cwd,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100,
                       env=dict(os.environ, PYTHONPATH=harness.VERIF))
    return p.returncode, p.stdout.decode(errors='replace')
