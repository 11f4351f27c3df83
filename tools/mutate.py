"""Development tool: systematic single-change mutants of the library, to find behaviour that no check looks at.

usage: mutate.py list                      number of mutants per file
       mutate.py tests OUT.jsonl           run the repository's tests on every mutant, record the survivors
       mutate.py checks IN.jsonl OUT.txt   run the quick checks on the survivors until one reports a violation
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedtool  # noqa: E402

V = seedtool.V
SRC = '/repo/src/finalfusion/'
PY = ['_util.py', 'embeddings.py', 'io.py', 'metadata.py', 'norms.py', 'compat/fasttext.py', 'compat/text.py', 'compat/word2vec.py', 'scripts/analogy.py', 'scripts/bucket_to_explicit.py', 'scripts/convert.py', 'scripts/select.py',
      'scripts/similar.py', 'scripts/util.py', 'storage/__init__.py', 'storage/ndarray.py', 'storage/quantized.py', 'vocab/__init__.py', 'vocab/simple_vocab.py', 'vocab/subword.py', 'vocab/vocab.py']
PYX = ['subword/explicit_indexer.pyx', 'subword/hash_indexers.pyx', 'subword/ngrams.pyx']

CMP = {'Lt': ['<='], 'LtE': ['<'], 'Gt': ['>='], 'GtE': ['>'], 'Eq': ['!='], 'NotEq': ['=='], 'Is': ['is not'], 'IsNot': ['is'], 'In': ['not in'], 'NotIn': ['in']}
BIN = {'Add': ['-'], 'Sub': ['+'], 'Mult': ['+'], 'Div': ['*'], 'FloorDiv': ['*'], 'Mod': ['+'], 'Pow': ['*']}


def py_mutants(text):
    """(start, end, replacement, description)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = text.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.FunctionDef) and n.name == '__repr__':
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        for f in ('annotation', 'returns'):
            if getattr(n, f, None) is not None:
                skip.update(id(x) for x in ast.walk(getattr(n, f)))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.Assert) and n.msg is not None:
            skip.update(id(x) for x in ast.walk(n.msg))
        if isinstance(n, ast.keyword) and n.arg in ('help', 'metavar', 'prog', 'description'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == '__all__':
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and src(n.func) == 'cast':
            skip.add(id(n.args[0]))
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((a, b, new, what))

    def between(left, right, new, what):
        out.append((span(left)[1], span(right)[0], ' %s ' % new, what))

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for new in CMP.get(type(n.ops[0]).__name__, []):
                between(n.left, n.comparators[0], new, 'compare')
        if isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op).__name__, []):
                if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, '%s %s %s' % (src(n.left), new, src(n.right)), 'operator')
        if isinstance(n, ast.AugAssign):
            add(n, '%s = %s' % (src(n.target), src(n.value)), 'augmented')
            new = BIN.get(type(n.op).__name__)
            if new:
                add(n, '%s %s= %s' % (src(n.target), new[0], src(n.value)), 'augmented')
        if isinstance(n, ast.BoolOp):
            other = 'or' if isinstance(n.op, ast.And) else 'and'
            add(n, (' %s ' % other).join('(%s)' % src(v) for v in n.values), 'boolean')
            for i in range(len(n.values)):
                add(n, src(n.values[i]), 'one operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, src(n.operand), 'unary')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'True', 'condition')
            add(n.test, 'False', 'condition')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), 'constant')
            elif isinstance(n.value, int):
                for d in (1, -1):
                    add(n, str(n.value + d), 'constant')
            elif n.value is None:
                pass
            elif isinstance(n.value, str) and src(n)[:1] in '"\'rb':
                s = n.value
                for a, b in (('I', 'Q'), ('Q', 'I'), ('q', 'i'), ('i', 'q'), ('<', '>'), ('f', 'd'), ('d', 'f')):
                    if re.match(r'^[<>]?[0-9{}a-zA-Z_.,() ]*[IQqixfdb?]$', s) and a in s and len(s) < 12:
                        add(n, repr(s.replace(a, b, 1)), 'format string')
                if s in ('replace', 'strict'):
                    add(n, repr('ignore'), 'errors')
                if s in (' ', '\n', '\t'):
                    add(n, repr(''), 'separator')
                if s in ('rb', 'wb', 'r', 'w'):
                    add(n, repr({'rb': 'r+b', 'wb': 'ab', 'r': 'r+', 'w': 'a'}[s]), 'mode')
                if s in ('utf-8', 'utf8', 'ascii'):
                    add(n, repr('latin-1'), 'encoding')
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
            if isinstance(n, (ast.Expr, ast.Assert, ast.Raise, ast.Continue, ast.Break)) or isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                add(n, 'pass', 'statement removed')
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            add(n, 'return None', 'return')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                rest = [src(a) for a in n.args] + [('%s=%s' % (x.arg, src(x.value)) if x.arg else '**' + src(x.value)) for x in n.keywords if x is not k]
                add(n, '%s(%s)' % (src(n.func), ', '.join(rest)), 'keyword %s removed' % k.arg)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                add(n, '%s(%s, %s)' % (src(n.func), src(n.args[1]), src(n.args[0])), 'arguments swapped')
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                add(n, src(n.args[0]), 'call removed')
            if not n.args and not n.keywords and isinstance(n.func, ast.Attribute):
                add(n, src(n.func.value), 'call removed')
        if isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                add(n, ':', 'slice removed')
    return out


OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' % ', ' + '), (r' & ', ' | '), (r' and ', ' or '), (r' or ', ' and '),
       (r'\bis None', 'is not None'), (r'\bis not None', 'is None'), (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bif bracket:', 'if not bracket:'), (r'\bif with_ngrams:', 'if not with_ngrams:'),
       (r'\b(\d+)\b', lambda m: str(int(m[1]) + 1)), (r'\b([1-9]\d*)\b', lambda m: str(int(m[1]) - 1)), (r'\buint64_t\b', 'uint32_t'), (r'\buint32_t\b', 'uint8_t'), (r'\bint8_t\b', 'uint8_t'), (r'\bPy_ssize_t\b', 'int'), (r'\bhtole32\b', 'htole64'),
       (r'\^=', '+='), (r'\*=', '+='), (r'0x[0-9A-F]+', '0xE0'), (r'"<%s>"', '"<%s"'), (r'f"<\{word\}>"', 'word'), (r'\ball\(', 'any(')]


def pyx_mutants(text):
    out = []
    doc, pos = False, 0
    for line in text.splitlines(keepends=True):
        if line.count('"""') == 1:
            doc = not doc
        elif not doc and '"""' not in line and not line.lstrip().startswith(('#', 'cimport', 'from', 'import', 'def ', 'cdef class', "f'", 'f"', "'", '__all__')):
            for pat, new in OPS:
                for m in re.finditer(pat, line):
                    rep = m.expand(new) if isinstance(new, str) else new(m)
                    out.append((pos + len(line[:m.start()].encode()), pos + len(line[:m.end()].encode()), rep, pat))
            if re.match(r'\s+(ngrams\.append|i \+= 1|h [\^*]=|h = fnv|raise|continue|assert|self\.\w+ =)', line) and not line.rstrip().endswith('\\') and line.count('(') == line.count(')'):
                ind = len(line) - len(line.lstrip())
                out.append((pos + ind, pos + len(line.rstrip().encode()), 'pass', 'statement removed'))
        pos += len(line.encode())
    return out


def all_mutants():
    for f in PY + PYX:
        text = open(SRC + f).read()
        seen = set()
        for a, b, new, what in (py_mutants if f.endswith('.py') else pyx_mutants)(text):
            data = text.encode()
            mut = data[:a] + new.encode() + data[b:]
            if mut in seen or mut == data:
                continue
            seen.add(mut)
            if f.endswith('.py'):
                try:
                    compile(mut, f, 'exec')
                except SyntaxError:
                    continue
            line = data[:a].count(b'\n') + 1
            yield {'id': '%s:%d:%d' % (f, line, len(seen)), 'file': f, 'a': a, 'b': b, 'new': new, 'what': what, 'old': data[a:b].decode(), 'line': line}


def apply(d, m):
    p = d + '/src/finalfusion/' + m['file']
    data = open(SRC + m['file'], 'rb').read()
    open(p, 'wb').write(data[:m['a']] + m['new'].encode() + data[m['b']:])


def restore(d, m):
    shutil.copyfile(SRC + m['file'], d + '/src/finalfusion/' + m['file'])


def copies(n):
    q = Queue()
    for i in range(n):
        q.put(seedtool.copy('mut%d' % i))
    return q


def fails_fast(d):
    env = dict(os.environ, PYTHONPATH=d + '/src', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    try:
        return subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--deselect', 'tests/test_storage.py::test_from_matrix', 'tests'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode != 0
    except subprocess.TimeoutExpired:
        return True


def run_tests(out):
    done = {json.loads(x)['id'] for x in open(out)} if os.path.exists(out) else set()
    q = copies(8)
    f = open(out, 'a')

    def one(m):
        d = q.get()
        try:
            apply(d, m)
            status = None
            if m['file'].endswith('.pyx'):
                r = seedtool.build(d)
                if r.returncode:
                    status = 'build'
            if status is None:
                status = 'killed' if fails_fast(d) or seedtool.tests(d) else 'survived'
            restore(d, m)
            if m['file'].endswith('.pyx'):
                seedtool.build(d)
            f.write(json.dumps(dict(m, status=status)) + '\n')
            f.flush()
        except Exception as exc:  # pylint: disable=broad-except
            print(m['id'], exc)
        finally:
            q.put(d)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [m for m in all_mutants() if m['id'] not in done]))
    while not q.empty():
        shutil.rmtree(q.get())


FIRST = {'io.py': 'C02 C03 C04 C05 C21', 'embeddings.py': 'C09 C10 C19 C12 C04 C01 C21', 'metadata.py': 'C02 C04 C03', 'norms.py': 'C14 C02 C19 C04 C03',
         '_util.py': 'C15 C16', 'compat/fasttext.py': 'C16 C04 C05 C20 C19 C17 C21', 'compat/text.py': 'C15 C04 C05 C20 C17 C21',
         'compat/word2vec.py': 'C15 C04 C05 C20 C17 C21', 'scripts': 'C18 C17 C20 C21', 'storage/__init__.py': 'C03 C21 C04 C01',
         'storage/ndarray.py': 'C14 C02 C04 C21 C03 C19 C01', 'storage/quantized.py': 'C13 C02 C04 C19 C03 C21 C01 C14', 'vocab': 'C08 C19 C02 C12 C04 C01 C09 C11 C03',
         'subword': 'C07 C06 C08 C19 C12 C16 C11'}
ALL = ['C%02d' % i for i in range(1, 22)]


def run_checks(inp, out):
    done = {x.split()[0] for x in open(out)} if os.path.exists(out) else set()
    todo = [m for m in map(json.loads, open(inp)) if m['status'] == 'survived' and m['id'] not in done]
    q = copies(8)
    f = open(out, 'a')
    base = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    base.update(VERIF_BOOTED='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    plain, utf8 = {'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'LC_ALL': 'C', 'LANG': 'C'}, {'PYTHONUTF8': '1', 'LC_ALL': 'C.UTF-8', 'LANG': 'C.UTF-8'}

    def one(m):
        d = q.get()
        ev = tempfile.mkdtemp()
        try:
            apply(d, m)
            first = next(v for k, v in FIRST.items() if m['file'].startswith(k)).split()
            order = first
            got, odd = None, []
            for c in order:
                env = dict(base, VERIF_REPO=d, VERIF_EVIDENCE_DIR=ev)
                env.update(utf8 if c == 'C18' else plain)
                r = seedtool.sh(['timeout', '600', '/opt/venv/bin/python', V + '/tools/fast.py', c, '25'], cwd=V, env=env)
                if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                    got = c
                    break
                if r.returncode:
                    odd.append('%s rc=%d' % (c, r.returncode))
            f.write('%s %s %s | %s | %r -> %r\n' % (m['id'], got or 'MISSED', ','.join(odd), m['what'], m['old'], m['new']))
            f.flush()
        finally:
            restore(d, m)
            shutil.rmtree(ev)
            q.put(d)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    while not q.empty():
        shutil.rmtree(q.get())


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        n = {}
        for m in all_mutants():
            n[m['file']] = n.get(m['file'], 0) + 1
        print(n, sum(n.values()))
    elif sys.argv[1] == 'tests':
        run_tests(sys.argv[2])
    else:
        run_checks(sys.argv[2], sys.argv[3])
