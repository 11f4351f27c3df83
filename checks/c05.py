"""C05: a write that reports success has stored the complete file."""
import os
import resource

import numpy as np

from mc import cli, dom, foreign, ref
from mc.dom import put, read
from mc.engine import CaseTimeout, Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext, write_fasttext, write_text, write_text_dims, write_word2vec
from finalfusion.embeddings import Embeddings

LEVEL = 'fault_enumeration'
RULE = ('the file system refuses every byte beyond a limit (RLIMIT_FSIZE), for every limit from 0 to the size of the file (large files: every '
        'limit around buffer boundaries, and an even grid); a case is distinct by writer, contents and limit')
ASSUMPTIONS = ['the fault model is a file system that stores the first n bytes and refuses the rest; loss after a successful close is outside']

WRITERS = {
    'finalfusion': lambda e, f: e.write(f),
    'vocab': lambda e, f: e.vocab.write(f),
    'storage': lambda e, f: e.storage.write(f),
    'slice': lambda e, f: e.storage[:max(1, len(e.storage) - 1)].write(f),
    'norms': lambda e, f: e.norms.write(f),
    'metadata': lambda e, f: e.metadata.write(f),
    'word2vec': lambda e, f: write_word2vec(f, e),
    'text': lambda e, f: write_text(f, e),
    'textdims': lambda e, f: write_text_dims(f, e),
    'fasttext': lambda e, f: write_fasttext(f, e),
}


def limited(fn, limit):
    """exception raised by fn while files cannot grow beyond limit, or None"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        fn()
        return None
    except CaseTimeout:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return exc
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def limits_for(n, full):
    if full or n <= 1500:
        return range(n + 2)
    out = {0, 1, 2, n - 1, n, n + 1}
    for b in [4096 * k for k in range(1, n // 4096 + 2)] + [n]:
        out |= set(range(b - 9, b + 10))
    out |= set(range(n - 140, n + 2))
    out |= set(range(0, n, max(1, n // 150)))
    return sorted(x for x in out if 0 <= x <= n + 1)


def few_limits(n):
    """large files: around powers of two from 2^13, the ends, the last block, and a grid"""
    out = {0, 1, n - 9, n - 5, n - 4, n - 3, n - 2, n - 1, n, n + 1, n - 4096, n - 8192, n // 2}
    for k in range(13, 26):
        out |= {(1 << k) - 1, 1 << k, (1 << k) + 1, n - (1 << k)}
    return sorted(x for x in out | set(range(0, n, n // 9)) if 0 <= x <= n + 1)


def expected(e, model, writer, data):
    if writer == 'finalfusion':
        dom.same_file(data, dom.expected_file(model, data), 'unlimited output')
    elif writer in ('vocab', 'storage'):
        dom.same_file(data, ref.enc_chunks([(writer, getattr(model, writer))])[0], 'unlimited output')


def faults(desc, rec):
    model, e = dom.build(desc['e'])
    writer = WRITERS[desc['w']]
    path = os.path.join(scratch(), 'out')

    def fresh():
        if os.path.exists(path):
            os.unlink(path)

    fresh()
    writer(e, path)
    want = read(path)
    expected(e, model, desc['w'], want)
    for limit in few_limits(len(want)) if desc.get('few') else limits_for(len(want), desc.get('full')):
        kinds = ['str'] if desc.get('few') else dom.FILE_KINDS if limit % 7 == 0 or limit == len(want) - 1 else ['str']
        for kind in kinds:
            if desc.get('over') and limit % 2:
                put(path, b'\xaa' * (len(want) + 50))  # overwrite something longer
            else:
                fresh()
            arg = dom.file_arg(path, kind, 'w')
            exc = limited(lambda: writer(e, arg), limit)
            if kind == 'fd':
                try:
                    os.close(arg)
                except OSError:
                    pass
            rec.step()
            rec.state(repr((desc, limit)))
            got = read(path) if os.path.exists(path) else b''
            if exc is None:
                if got != want:
                    raise Violation('writing %s succeeded although only %d of %d bytes could be written (%d are in the file, file argument %s)' %
                                    (desc['w'], limit, len(want), len(got), kind))
                need(limit >= len(want), 'writing %s succeeded beyond the limit: harness broken', desc['w'])
                rec.outcome('complete')
            else:
                need(limit < len(want), 'writing %s raised %r although everything could be written', desc['w'], exc)
                rec.outcome('raised:' + type(exc).__name__)


EMB = {
    'simple': {'v': ['simple', ['ab', '€', 'c']], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1},
    'fortran': {'v': ['simple', ['ab', 'c']], 's': ['nd', 4, 'F', 'nice'], 'n': ['rs', 'pos'], 'm': 0},
    'be': {'v': ['simple', ['ab', 'c']], 's': ['nd', 4, 'be', 'nice'], 'n': ['be', 'pos'], 'm': 0},
    'fifu': {'v': ['fifu', ['ab', 'c'], 2, 3, 1], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 3},
    'ft': {'v': ['ft', ['ab', 'ü', 'c'], 2, 3, 3], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 4},
    'explicit': {'v': ['explicit', ['ab', 'c'], 1, 2, [['<a', 0], ['€', 1], ['x', 1]]], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 2},
    'pq': {'v': ['simple', ['a', 'b', 'c']], 's': ['pq', 2, 2, 3, 1, 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1},
    'ftpq': {'v': ['ft', ['ab', 'c'], 2, 3, 2], 's': ['pq', 2, 1, 3, 0, 0, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1},
}
BIG = {
    'rows': {'v': ['simple', {'g': 'seq', 'n': 700}], 's': ['nd', 5, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1},
    'wide': {'v': ['ft', ['ab', 'c'], 2, 3, 3], 's': ['nd', 2500, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 0},
    'word': {'v': ['simple', {'g': 'len', 'n': 9000}], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 6},
    'pq': {'v': ['simple', {'g': 'seq', 'n': 600}], 's': ['pq', 5, 2, 250, 1, 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 0},
    'ngrams': {'v': ['explicit', ['a'], 1, 3, {'g': 'seq', 'n': 800}], 's': ['nd', 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 0},
    'be': {'v': ['simple', {'g': 'seq', 'n': 700}], 's': ['nd', 5, 'be', 'nice'], 'n': ['be', 'pos'], 'm': 1},
}


def fault_cases(tier):
    for name, e in EMB.items():
        for w in WRITERS:
            if w == 'fasttext' and e['v'][0] != 'ft':
                continue
            yield {'e': e, 'w': w, 'over': 1}
    for name, e in BIG.items():
        for w in WRITERS:
            if w == 'fasttext' and e['v'][0] != 'ft':
                continue
            yield {'e': e, 'w': w, 'full': tier != 'quick', 'over': tier != 'quick'}


HUGE = {
    'wide': {'v': ['simple', {'g': 'seq', 'n': 70}], 's': ['nd', 1000, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None},
    'ft': {'v': ['ft', ['ab', 'c'], 2, 3, 298], 's': ['nd', 1000, 'F', 'nice'], 'n': None, 'm': None},
    'words': {'v': ['simple', {'g': 'seq', 'n': 70000}], 's': ['nd', 2, 'be', 'nice'], 'n': ['C', 'pos'], 'm': None},
    'codes': {'v': ['simple', {'g': 'seq', 'n': 70000}], 's': ['pq', 5, 2, 250, 1, 1, 'C', 'nice'], 'n': ['be', 'pos'], 'm': None},
    'ngrams': {'v': ['explicit', ['a'], 1, 3, {'g': 'seq', 'n': 70000}], 's': ['nd', 1, 'C', 'nice'], 'n': None, 'm': None},
    'matrix': {'v': ['fifu', ['a'], 3, 6, 20], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': None},
}


def huge_cases(tier):
    for name, e in HUGE.items():
        for w in WRITERS:
            if w == 'metadata' or (w == 'norms' and not e['n']) or (w == 'fasttext' and e['v'][0] != 'ft') or (w in ('text', 'textdims', 'word2vec') and name in ('codes', 'ngrams', 'matrix')):
                continue
            if w in ('text', 'textdims') and name == 'words' and tier == 'quick':
                continue
            yield {'e': e, 'w': w, 'few': 1}


def refusals(desc, rec):
    """targets that accept nothing: full device, read-only descriptor, closed pipe, missing directory, a directory"""
    _model, e = dom.build(desc['e'])
    writer = WRITERS[desc['w']]
    path = os.path.join(scratch(), 'ro')

    def trial(what, arg, close=()):
        rec.state((repr(desc), what))
        rec.step()
        try:
            writer(e, arg)
        except CaseTimeout:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            rec.outcome('raised:' + type(exc).__name__)
        else:
            raise Violation('writing %s to %s succeeded' % (desc['w'], what))
        finally:
            for fd in close:
                try:
                    os.close(fd)
                except OSError:
                    pass

    trial('/dev/full', '/dev/full')
    trial('a descriptor of /dev/full', fd := os.open('/dev/full', os.O_WRONLY), [fd])
    put(path, b'')
    trial('a read-only descriptor', fd := os.open(path, os.O_RDONLY), [fd])
    r, w = os.pipe()
    os.close(r)
    trial('a pipe without readers', w, [w])
    trial('a missing directory', os.path.join(scratch(), 'missing', 'x'))
    trial('a directory', scratch())
    fd = os.open(path, os.O_RDONLY)
    os.close(fd)
    trial('a closed descriptor', fd)


def refusal_cases(tier):
    for e in list(EMB.values()) + list(BIG.values()):
        for w in WRITERS:
            if w == 'fasttext' and e['v'][0] != 'ft':
                continue
            yield {'e': e, 'w': w}


def tools(desc, rec):
    """the command-line tools end with an error when their output is incomplete"""
    _model, e = dom.build(EMB[desc['e']])
    src, out = os.path.join(scratch(), 'src.fifu'), os.path.join(scratch(), 'tool.out')
    e.write(src)
    words = put(os.path.join(scratch(), 'words'), b'ab\nc\n')
    args = {'select': [src, out, words], 'explicit': [src, out]}.get(desc['tool']) or ['-f', 'finalfusion', '-t', desc['to'], src, out]

    def go(limit):
        if os.path.exists(out):
            os.unlink(out)
        box = []
        exc = limited(lambda: box.append(cli.run(desc['tool'], args)), limit) if limit is not None else None
        if limit is None:
            box.append(cli.run(desc['tool'], args))
        if exc is not None:
            raise exc
        return box[0]

    res = go(None)
    need(res.ok, 'the tool failed: %r', res)
    want = read(out)
    for limit in range(len(want) + 2):
        res = go(limit)
        rec.step()
        rec.state(repr((desc, limit)))
        got = read(out) if os.path.exists(out) else b''
        if res.ok:
            need(len(got) == len(want), 'ffp-%s reported success with %d of %d bytes written', desc['tool'], len(got), len(want))
            if desc['tool'] != 'select':
                dom.same_file(got, want, 'output')
            rec.outcome('complete')
        else:
            need(limit < len(want), 'ffp-%s failed although everything could be written: %r', desc['tool'], res)
            rec.outcome('failed')


def tool_cases(tier):
    for to in ('finalfusion', 'word2vec', 'text', 'textdims', 'fasttext'):
        yield {'tool': 'convert', 'to': to, 'e': 'ft'}
    yield {'tool': 'select', 'e': 'simple'}
    yield {'tool': 'explicit', 'e': 'ft'}


def suites(tier):
    return [
        Suite('faults', lambda: fault_cases(tier), faults, '14 embeddings, 10 writers, every byte limit (files above 1500 bytes in quick: around 4 KiB boundaries, the last 140 bytes and a grid); path, bytes, Path and descriptor arguments', block=1),
        Suite('huge', lambda: huge_cases(tier), faults, '6 embeddings with 70000 to 3 million matrix elements, words, codes, n-grams or norms, their writers, limits around powers of two, the ends and a grid', block=1),
        Suite('refusals', lambda: refusal_cases(tier), refusals, '14 embeddings, 10 writers, 7 targets that cannot be written', block=4),
        Suite('tools', lambda: tool_cases(tier), tools, 'three command-line tools, every byte limit', block=1),
    ]
