"""Development tool: plants bugs in scratch copies, confirms them, records them in seeded/, runs checks against them.

usage: seedtool.py make SEEDS.py [ID...]   confirm (tests pass, demo distinguishes) and write seeded/<id>/
       seedtool.py run [ID[:CHECK,...]...] run the checks (default: the seed's own property) against each seed, in parallel
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PRE = '''import os, sys, tempfile, struct
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import numpy as np
import finalfusion as ff
tmp = tempfile.TemporaryDirectory()
def path(name):
    return os.path.join(tmp.name, name)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(name):
    d = tempfile.mkdtemp(prefix='seed-' + name + '-')
    shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def build(d):
    env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'])
    for f in ('explicit_indexer', 'hash_indexers', 'ngrams'):
        p = d + '/src/finalfusion/subword/%s.c' % f
        if os.path.exists(p):
            os.remove(p)
    return sh(['/opt/venv/bin/python', 'setup.py', 'build_ext', '--inplace'], cwd=d, env=env)


def tests(d):
    env = dict(os.environ, PATH='/opt/venv/bin:/usr/bin:/bin', PYTHONPATH=d + '/src', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    script = open('/opt/vp/test.sh').read().replace('bash /opt/vp/build.sh', 'true').replace('unset PYTHONPATH', '')
    script = script.replace('/repo', d)
    out = d + '.json'
    r = sh(['bash', '-c', script, 'test.sh', out], env=env)
    try:
        res = json.load(open(out))
        os.remove(out)
    except OSError:
        return ['no results: ' + r.stdout[-500:]]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(res.get('passed', []))
    return [t for t in stable if t not in passed]


def demo(folder, d):
    env = {k: v for k, v in os.environ.items()}
    env['PYTHONPATH'] = d + '/src'
    env['PATH'] = '/opt/venv/bin:' + env['PATH']
    try:
        return sh(['bash', os.path.join(folder, 'demo.sh')], cwd=d, env=env, timeout=300)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess([], 99, 'TIMEOUT')


def make(seed):
    id = seed['id']
    d = copy(id)
    try:
        native = False
        for f, old, new in seed['edits']:
            p = os.path.join(d, f if f.startswith('src') else 'src/finalfusion/' + f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, 'EDIT does not match uniquely: %s %d' % (f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
            native |= p.endswith(('.pyx', '.pxd', '.c', '.h'))
        diff = sh(['git', 'diff'], cwd=d).stdout
        if native:
            r = build(d)
            if r.returncode:
                return id, 'BUILD ' + r.stdout[-1500:]
        folder = os.path.join(d, '..', os.path.basename(d) + '-demo')
        os.makedirs(folder)
        open(folder + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: the behaviour holds; non-zero: it is broken\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(folder + '/demo.sh', 0o755)
        open(folder + '/demo.py', 'w').write('"""%s"""\n' % seed['breaks'].replace('"""', '') + PRE + seed['demo'].strip('\n') + '\n')
        try:
            a = demo(folder, REPO)
            if a.returncode:
                return id, 'DEMO fails on the unchanged tree: ' + a.stdout[-1500:]
            b = demo(folder, d)
            if b.returncode == 0:
                return id, 'DEMO does not notice'
            bad = tests(d)
            if bad:
                return id, 'TESTS notice: %s' % bad[:5]
            out = os.path.join(V, 'seeded', id)
            os.makedirs(out, exist_ok=True)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(folder, f), out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': seed['prop'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        return id, 'ok (demo: %s)' % b.stdout.strip()[-150:].replace('\n', ' | ')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(spec):
    id, _, checks = spec.partition(':')
    meta = json.load(open(os.path.join(V, 'seeded', id, 'meta.json')))
    checks = checks.split(',') if checks else [meta['property']]
    if checks == ['all']:
        checks = ['C%02d' % i for i in range(1, 22)]
    d = copy(id)
    try:
        r = sh(['git', 'apply', os.path.join(V, 'seeded', id, 'patch.diff')], cwd=d)
        if r.returncode:
            return id, 'PATCH ' + r.stdout
        res = []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=d + '/build')
            r = sh(['python3', 'check.py', c, 'quick'], cwd=V, env=env)
            vio = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % c)]
            res.append('%s:%s' % (c, 'CAUGHT' if r.returncode == 1 and vio else 'missed' if r.returncode == 0 else 'ERROR ' + r.stdout[-600:]))
        return id, ' '.join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        spec = importlib.util.spec_from_file_location('seeds', sys.argv[2])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo = [s for s in m.SEEDS if len(sys.argv) < 4 or s['id'] in sys.argv[3:]]
        with ThreadPoolExecutor(6) as ex:
            for id, msg in ex.map(make, todo):
                print(id, msg, flush=True)
    else:
        todo = sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded')))
        with ThreadPoolExecutor(3) as ex:
            for id, msg in ex.map(run, todo):
                print(id, msg, flush=True)
