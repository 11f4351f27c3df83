"""Development tool: a check on a thinned-out enumeration, to sort mutants quickly.  Never used by MANIFEST.json.

usage: VERIF_REPO=copy fast.py Cxx CASES_PER_SUITE
"""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402  pylint: disable=unused-import

if __name__ == '__main__':
    from mc import engine, runner
    K = int(sys.argv[2])
    if sys.argv[1] in ('C19', 'C18'):
        engine.DEEPER['quick'] = 'quick'
    init = engine.Suite.__init__

    def thin(self, name, cases, *args, **kw):
        def some():
            if name in ('big', 'sparse', 'large', 'huge', 'written-big', 'many', 'many-queries', 'written-sizes', 'foreign-sizes', 'sizes', 'long-words'):
                return iter(())
            c = list(cases())
            return iter(c[::max(1, len(c) // (2 if name in ('assignments', 'concurrent', 'threads', 'schedules') else K))])
        init(self, name, some, *args, **kw)

    engine.Suite.__init__ = thin
    engine.os.cpu_count = lambda: 1
    sys.exit(runner.main([sys.argv[1], 'quick']))
