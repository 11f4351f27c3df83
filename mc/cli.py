"""Runs the command-line entry points in process, with captured streams and contained standard input."""
import importlib
import io
import os
import sys

from mc.engine import CaseTimeout, scratch

TOOLS = {'similar': 'finalfusion.scripts.similar', 'analogy': 'finalfusion.scripts.analogy',
         'select': 'finalfusion.scripts.select', 'convert': 'finalfusion.scripts.convert',
         'explicit': 'finalfusion.scripts.bucket_to_explicit'}


class Result:
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc

    @property
    def ok(self):
        return self.code == 0

    def __repr__(self):
        return 'exit %r, stdout %r, stderr %r, exception %r' % (self.code, self.out[:500], self.err[:500], self.exc)


def run(tool, args, stdin=None):
    """stdin: bytes or None (empty). Returns a Result; code is 0 exactly if the process would have exited with 0."""
    mod = importlib.import_module(TOOLS[tool])
    path = os.path.join(scratch(), 'stdin')
    with open(path, 'wb') as f:
        f.write(stdin or b'')
    fd = os.open(path, os.O_RDONLY)
    if fd != 0:
        os.dup2(fd, 0)
        os.close(fd)
    old = sys.argv, sys.stdout, sys.stderr, sys.stdin
    bout, berr = io.BytesIO(), io.BytesIO()
    sys.argv = ['ffp-' + tool] + list(args)
    sys.stdout = io.TextIOWrapper(bout, encoding='utf-8', write_through=True)
    sys.stderr = io.TextIOWrapper(berr, encoding='utf-8', write_through=True)
    sys.stdin = open(0, encoding='utf-8', closefd=False)
    streams = sys.stdout, sys.stderr  # keep them alive: collecting them would close the buffers
    code, exc = 0, None
    try:
        try:
            mod.main()
        except CaseTimeout:
            raise
        except SystemExit as e:
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:  # pylint: disable=broad-except
            code, exc = 1, e
        for s in streams:
            s.flush()
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = old
        try:
            os.close(0)
        except OSError:
            pass
        null = os.open(os.devnull, os.O_RDWR)
        if null != 0:
            os.dup2(null, 0)
            os.close(null)
    return Result(code, bout.getvalue().decode('utf-8'), berr.getvalue().decode('utf-8'), exc)
