#!/opt/venv/bin/python
"""
usage: check.py --setup | check.py <ID> quick|thorough | check.py <ID> --replay FILE
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONIOENCODING': 'utf-8'}
# No format depends on the locale, so everything runs in the plainest one.  The tools checked by C18 read their input in
# the encoding of the locale, as every text tool does.
PLAIN = {'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'LC_ALL': 'C', 'LANG': 'C'}
UTF8 = {'PYTHONUTF8': '1', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}


def _python():
    for cand in ('/opt/venv/bin/python', sys.executable):
        if os.path.exists(cand):
            return cand
    return sys.executable


if os.environ.get('VERIF_BOOTED') != '1':
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(ENV)
    env.update(UTF8 if sys.argv[1:2] in (['--setup'], ['C18']) else PLAIN)
    env['VERIF_BOOTED'] = '1'
    py = _python()
    os.execve(py, [py, os.path.join(VERIF, 'check.py')] + sys.argv[1:], env)

sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

if __name__ == '__main__':
    from mc import boot
    if sys.argv[1:] == ['--setup']:
        print('built', boot.build())
        sys.exit(0)
    from mc import runner
    sys.exit(runner.main(sys.argv[1:]))
