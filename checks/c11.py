"""C11: queries are pure: no order or interleaving changes any answer."""
import dataclasses
import itertools
import os
import pickle
import shutil
import threading
import traceback

import numpy as np

from mc import boot, dom, engine, ref, sched
from mc.dom import read
from mc.engine import HarnessError, Suite, Violation, need, scratch
from finalfusion.compat import write_fasttext, write_text, write_text_dims, write_word2vec
from finalfusion.embeddings import Embeddings
from finalfusion.metadata import Metadata
from finalfusion.storage import QuantizedArray
from finalfusion.vocab import Vocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['interleavings switch between lines (thorough: bytecodes) of the Python code; compiled code runs atomically under the interpreter lock',
               'answers are compared with a fresh object up to 1e-6, earlier answers and the embeddings themselves bit for bit',
               'modifying a known word vector of a plain storage through its view is allowed to change the storage and is not part of the histories']

DESCS = {
    'simple': {'v': ['simple', ['a', 'b€', 'cab', 'd']], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 2},
    'fifu': {'v': ['fifu', ['a', 'b€', 'cab', 'd'], 1, 3, 3], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None},
    'ft': {'v': ['ft', ['a', 'b€', 'cab', 'd'], 2, 3, 5], 's': ['nd', 3, 'F', 'nice'], 'n': ['C', 'pos'], 'm': 1},
    'explicit': {'v': ['explicit', ['a', 'b€', 'cab', 'd'], 1, 3, [['<a', 1], ['ab', 0], ['ca', 1], ['b', 2], ['<x', 3]]], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': 1},
    'pq': {'v': ['fifu', ['a', 'b€', 'cab', 'd'], 1, 3, 2], 's': ['pq', 2, 2, 7, 1, 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1},
    'pq2': {'v': ['ft', ['a', 'b€', 'cab', 'd'], 2, 3, 3], 's': ['pq', 3, 1, 7, 0, 0, 'C', 'nice'], 'n': None, 'm': None},
    'mmap': {'v': ['ft', ['a', 'b€', 'cab', 'd'], 2, 3, 5], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1, 'via': 'mmap'},
    'loaded': {'v': ['explicit', ['a', 'b€', 'cab', 'd'], 1, 3, [['<a', 1], ['ab', 0], ['ca', 1], ['b', 2], ['<x', 3]]], 's': ['pq', 2, 2, 7, 1, 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1, 'via': 'eager'},
}

# the same shapes with other contents: other vectors, words in another order, another subword configuration
TWINS = {}
for _n in ('simple', 'fifu', 'ft', 'explicit', 'pq', 'loaded', 'mmap'):
    TWINS[_n + "'"] = dict(DESCS[_n], salt=17)
    _v = list(DESCS[_n]['v'])
    _v[1] = ['d', 'cab', 'b€', 'a']
    TWINS[_n + '"'] = dict(DESCS[_n], v=_v)
    if len(_v) == 5 and _v[0] != 'explicit':
        TWINS[_n + '*'] = dict(DESCS[_n], v=_v[:2] + [2, 2] + _v[4:])


def make(name, tag=''):
    desc = DESCS.get(name) or TWINS[name]
    m, e = dom.build(desc)
    if desc.get('via'):
        path = os.path.join(scratch(), 'src%s.fifu' % tag)
        if os.path.exists(path):
            os.unlink(path)
        e.write(path)
        e = dom.load_finalfusion(path, desc['via'] == 'mmap')
    return m, e


def written(fn):
    path = os.path.join(scratch(), 'o%d' % threading.get_ident())
    fn(path)
    return read(path)


def keyerr(fn):
    try:
        return fn()
    except KeyError:
        return 'KeyError'
    except TypeError:
        return 'TypeError'


def out_of(e, w):
    o = np.full(e.dims, -1, dtype=np.float32)
    r = e.embedding(w, o)
    return ['none' if r is None else r is o, o]


OPS = {
    'known': lambda e: e['cab'],
    'known2': lambda e: e.embedding('a'),
    'oov': lambda e: e.embedding('abca'),
    'oov2': lambda e: e.embedding('xab'),
    'oov-item': lambda e: keyerr(lambda: e['abca']),
    'default': lambda e: e.embedding('zzz', default=np.float32([1, 2, 3])),
    'norm': lambda e: keyerr(lambda: e.embedding_with_norm('b€')),
    'norm-oov': lambda e: keyerr(lambda: e.embedding_with_norm('abca')),
    'out': lambda e: out_of(e, 'd'),
    'out-oov': lambda e: out_of(e, 'abca'),
    'similar': lambda e: e.word_similarity('cab', 3),
    'similar-oov': lambda e: e.word_similarity('abca', 2),
    'similar-vec': lambda e: e.embedding_similarity(dom.floats(e.dims, 'nice', 7), 2, {'a'}),
    'analogy': lambda e: e.analogy('a', 'b€', 'd', 2),
    'analogy-all': lambda e: e.analogy('a', 'abca', 'cab', 4, set()),
    'idx': lambda e: e.vocab.idx('abca'),
    'idx-known': lambda e: [e.vocab.idx('d'), e.vocab['a'], 'q' in e.vocab, ['a', 'd'] in e.vocab],
    'subwords': lambda e: [e.vocab.subwords('cab'), e.vocab.subword_indices('cab', with_ngrams=True)] if hasattr(e.vocab, 'subwords') else None,
    'iterate': lambda e: [tuple(t) for t in e],
    'slice': lambda e: e.storage[1:3],
    'gather': lambda e: e.storage[[2, 0, 2]],
    'row': lambda e: e.storage[1],
    'array': lambda e: np.array(np.asarray(e.storage)),
    'norms': lambda e: None if e.norms is None else [e.norms[1], e.norms[1:3]],
    'explicit': lambda e: keyerr(e.bucket_to_explicit),
    'write': lambda e: written(e.write),
    'write-w2v': lambda e: written(lambda p: write_word2vec(p, e)),
    'write-text': lambda e: written(lambda p: write_text(p, e)),
    'write-dims': lambda e: written(lambda p: write_text_dims(p, e, sep='\t')),
    'write-ft': lambda e: written(lambda p: write_fasttext(p, e)) if type(e.vocab).__name__ == 'FastTextVocab' else None,
    'write-part': lambda e: written(e.storage[1:3].write),
    'misc': lambda e: [bool(repr(e)), e.dims, e.n_words, e.vocab == e.vocab, repr(e.vocab), len(e.storage), [type(c).__name__ for c in e.chunks()]],
}


def _variants():
    """the same queries with different arguments, in groups: what one call computed must not answer another one"""
    g = {}

    def add(group, name, fn):
        assert name not in OPS
        g.setdefault(group, []).append(name)
        OPS[name] = fn

    def sub(fn):
        return lambda e: fn(e.vocab) if hasattr(e.vocab, 'subwords') else None

    for w in ('cab', 'abca', ''):
        for b in (False, True):
            add('subwords', 'subwords(%s,%d)' % (w, b), sub(lambda v, w=w, b=b: v.subwords(w, bracket=b)))
            for n in (False, True):
                add('subwords', 'indices(%s,%d,%d)' % (w, b, n), sub(lambda v, w=w, b=b, n=n: v.subword_indices(w, bracket=b, with_ngrams=n)))
                for off in (0, 3):
                    add('indexer', 'indexer(%s,%d,%d,%d)' % (w, b, n, off), sub(lambda v, w=w, b=b, n=n, off=off: v.subword_indexer.subword_indices(w, offset=off, bracket=b, with_ngrams=n)))
        add('subwords', 'idx(%s)' % w, lambda e, w=w: [e.vocab.idx(w), e.vocab.idx(w, default=-5), keyerr(lambda: e.vocab[w]), w in e.vocab])
    for ng in ('ab', '<a', 'b'):
        add('indexer', 'ngram(%s)' % ng, sub(lambda v, ng=ng: keyerr(lambda: v.subword_indexer(ng))))
    for q in ('cab', 'abca', 'zzz', 'ca'):
        add('lookup', 'emb(%s)' % q, lambda e, q=q: e.embedding(q))
        for dv in (1.5, 2.5):
            add('lookup', 'emb(%s,%s)' % (q, dv), lambda e, q=q, dv=dv: e.embedding(q, default=np.full(e.dims, dv, dtype=np.float32)))
            add('lookup', 'norm(%s,%s)' % (q, dv), lambda e, q=q, dv=dv: keyerr(lambda: e.embedding_with_norm(q, default=(np.full(e.dims, dv, dtype=np.float32), dv))))
        add('lookup', 'norm(%s)' % q, lambda e, q=q: keyerr(lambda: e.embedding_with_norm(q)))
        add('lookup', 'out(%s)' % q, lambda e, q=q: out_of(e, q))
    for q in ('cab', 'abca'):
        for k in (1, 2, 4):
            add('similar', 'sim(%s,%d)' % (q, k), lambda e, q=q, k=k: e.word_similarity(q, k))
    for salt in (7, 8):
        for k in (1, 3):
            for skip in ((), ('a', ), ('cab', 'd')):
                add('similar', 'vec(%d,%d,%s)' % (salt, k, skip), lambda e, salt=salt, k=k, skip=skip: e.embedding_similarity(dom.floats(e.dims, 'nice', salt), k, set(skip)))
    for t in (('a', 'b€', 'd'), ('d', 'b€', 'a'), ('a', 'cab', 'd'), ('a', 'b€', 'abca')):
        for k, skip in ((1, None), (3, None), (3, ()), (3, ('a', ))):
            add('analogy', 'ana(%s,%d,%s)' % (t, k, skip), lambda e, t=t, k=k, skip=skip: e.analogy(*t, k=k, **({} if skip is None else {'skip': set(skip)})))
    for key in ('0', '-1', '2', '[0]', '[1, 0]', '[0, 1]', '[[0, 1]]', 'slice(0, 2)', 'slice(1, 3)', 'slice(None, None, -1)', 'slice(0, 3, 2)'):
        k = eval(key)
        add('storage', 'storage[%s]' % key, lambda e, k=k: e.storage[np.array(k) if isinstance(k, list) and isinstance(k[0], list) else k])
        if key[0] != '[' or key[:2] != '[[':
            add('storage', 'norms[%s]' % key, lambda e, k=k: None if e.norms is None else e.norms[k])
    for sep in (' ', '\t', ';;'):
        add('write', 'text(%r)' % sep, lambda e, sep=sep: written(lambda p: write_text(p, e, sep)))
        add('write', 'dims(%r)' % sep, lambda e, sep=sep: written(lambda p: write_text_dims(p, e, sep)))
    add('write', 'chunks', lambda e: [written(c.write) for c in e.chunks()])
    return g


BASIC = list(OPS)
GROUPS = _variants()
# operations after which the caller writes to what is the caller's own
SCRIBBLES = {
    '!oov': lambda e: scribble(e.embedding('abca')),
    '!oov2': lambda e: scribble(e.embedding('xab')),
    '!oov-item': lambda e: scribble(keyerr(lambda: e['abca'])),
    '!oov-norm': lambda e: scribble((keyerr(lambda: e.embedding_with_norm('abca')) or [None])[0]),
    '!idx': lambda e: scribble(e.vocab.idx('abca')),
    '!subwords': lambda e: [scribble(e.vocab.subwords('cab')), scribble(e.vocab.subword_indices('cab', with_ngrams=True)), scribble(e.vocab.subword_indices('abca'))] if hasattr(e.vocab, 'subwords') else None,
    '!similar': lambda e: [scribble(e.word_similarity('cab', 3)), scribble(e.analogy('a', 'b€', 'd', 2))],
    '!gather': lambda e: scribble(e.storage[[2, 0, 2]]),
    '!default': lambda e: scribble(e.embedding('zzz', default=np.float32([1, 2, 3, 4]))) if not hasattr(e.vocab, 'subwords') else None,
    '!out': lambda e: scribble(out_of(e, 'd')[1]),
    '!out-oov': lambda e: scribble(out_of(e, 'xab')[1]),
}


def scribble(a):
    if isinstance(a, np.ndarray):
        a[...] = 12345.5
    elif isinstance(a, list):
        a.reverse()
        a.append('scribble')
        del a[0]


def norm(x):
    """comparable rendering: floats collected separately from everything else"""
    floats, rest = [], []

    def walk(v):
        if isinstance(v, Embeddings):
            rest.append('Embeddings')
            walk(v.vocab)
            walk(np.asarray(v.storage))
            walk(None if v.norms is None else np.asarray(v.norms))
            rest.append(None if v.metadata is None else dict(v.metadata))
        elif isinstance(v, Vocab):
            rest.append((type(v).__name__, list(v.words), v.upper_bound))
            if hasattr(v, 'subword_indexer'):
                rest.append(repr(v.subword_indexer))
                if hasattr(v.subword_indexer, 'ngrams'):
                    rest.append([(g, v.subword_indexer[g]) for g in v.subword_indexer.ngrams])
        elif isinstance(v, QuantizedArray):
            rest.append('QuantizedArray')
            walk(np.asarray(v))
        elif isinstance(v, np.ndarray):
            rest.append(('array', v.shape, str(v.dtype)))
            floats.append(np.array(v, dtype=np.float64).ravel())
        elif dataclasses.is_dataclass(v):
            rest.append((v.word, ))
            floats.append(np.array([float(v.similarity)]))
        elif isinstance(v, (list, tuple)):
            rest.append((type(v).__name__, len(v)))
            for y in v:
                walk(y)
        elif isinstance(v, (float, np.floating)):
            rest.append('float')
            floats.append(np.array([float(v)]))
        else:
            rest.append(v)

    walk(x)
    return rest, np.concatenate(floats) if floats else np.zeros(0)


def differs(a, b, exact):
    if a[0] != b[0] or a[1].shape != b[1].shape:
        return True
    if exact:
        return a[1].tobytes() != b[1].tobytes()
    if not a[1].size:
        return False
    return not bool(np.all(np.abs(a[1] - b[1]) <= 1e-6 * max(1.0, float(np.max(np.abs(b[1]))))))


_BASE = {}


def baseline(name, op):
    got = _BASE[name, op]
    if isinstance(got, str):
        raise Violation('%s on fresh %s embeddings: %s' % (op, name, got))
    return got


def prepare():
    """answers of every operation on a fresh object in a fresh process (one process per operation, this process runs none of them)"""
    todo = [(n, o) for n in DESCS for o in OPS] + [(n, o) for n in TWINS for o in BASIC]
    base = engine.scratch_base()
    try:
        pids = []
        for w in range(8):
            out = os.path.join(base, 'b%d' % w)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    engine._set_scratch(os.path.join(base, 's%d' % w))
                    res = {}
                    for key in todo[w::8]:
                        part = out + '.part'
                        child = os.fork()
                        if child == 0:
                            try:
                                try:
                                    _m, e = make(key[0], 'base')
                                    val = norm(OPS[key[1]](e))
                                except Exception:  # pylint: disable=broad-except
                                    val = traceback.format_exc()
                                with open(part, 'wb') as f:
                                    pickle.dump(val, f)
                                os._exit(0)
                            finally:
                                os._exit(1)
                        _, status = os.waitpid(child, 0)
                        if status:
                            res[key] = 'the process ended with status %d' % status
                        else:
                            with open(part, 'rb') as f:
                                res[key] = pickle.load(f)
                    with open(out, 'wb') as f:
                        pickle.dump(res, f)
                    code = 0
                finally:
                    os._exit(code)
            pids.append((pid, out))
        for pid, out in pids:
            _, status = os.waitpid(pid, 0)
            if status:
                raise HarnessError('computing baselines failed')
            with open(out, 'rb') as f:
                _BASE.update(pickle.load(f))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def sequence(desc, rec):
    """a history of operations: every answer equals that of a fresh object, nothing handed out earlier changes"""
    m, e = make(desc['e'], 'seq')
    kept = []
    seq = desc['ops']
    state = written(e.write)
    for n, op in enumerate(seq):
        if op in SCRIBBLES:
            SCRIBBLES[op](e)
        else:
            res = OPS[op](e)
            got = norm(res)
            if differs(got, baseline(desc['e'], op), False):
                raise Violation('%s after %s answers %s, a fresh object answers %s' % (op, seq[:n], str(got)[:700], str(baseline(desc['e'], op))[:700]))
            kept.append((op, res, got))
        rec.step()
    for op, res, got in kept:
        if differs(norm(res), got, True):
            raise Violation('the result of %s changed during the history %s: %s, was %s' % (op, seq, str(norm(res))[:500], str(got)[:500]))
    dom.check_embeddings(e, m, 'embeddings after %s' % (seq, ), file_check=False)
    now = written(e.write)
    need(now == state, 'the embeddings changed during the history %s', seq)
    rec.state((desc['e'], tuple(seq)))
    rec.outcome('pure')


def sequence_cases(tier):
    allops = BASIC + list(SCRIBBLES)
    core = ['oov', 'out-oov', 'analogy', 'similar-oov', 'explicit', 'write', 'gather', 'norm-oov', '!oov', '!oov-norm', '!out-oov', 'known', 'write-w2v', 'write-ft', 'slice', 'idx']
    for name in DESCS:
        for op in allops:
            yield {'e': name, 'ops': [op]}
        for t in itertools.product(allops, repeat=2):
            yield {'e': name, 'ops': list(t)}
        for t in itertools.product(core if tier == 'quick' else allops, repeat=3):
            yield {'e': name, 'ops': list(t)}
        if tier != 'quick':
            for t in itertools.product(core[:12], repeat=4):
                yield {'e': name, 'ops': list(t)}


def variant_cases(tier):
    """all pairs and triples of calls that differ in their arguments"""
    for name in DESCS:
        for ops in GROUPS.values():
            for t in itertools.product(ops, repeat=2):
                yield {'e': name, 'ops': list(t)}
            yield {'e': name, 'ops': ops + ops[::-1]}
        every = [o for ops in GROUPS.values() for o in ops]
        yield {'e': name, 'ops': every + every[::-1] + every[::2] + every[1::2]}
        if tier != 'quick':
            for t in itertools.product(every, BASIC + list(SCRIBBLES)):
                yield {'e': name, 'ops': list(t)}
                yield {'e': name, 'ops': list(t[::-1])}
            for g in ('subwords', 'lookup', 'storage'):
                for t in itertools.product(GROUPS[g], repeat=3):
                    if name in ('fifu', 'pq', 'loaded'):
                        yield {'e': name, 'ops': list(t)}


def objects(desc, rec):
    """operations on two embeddings in turn: neither sees the other"""
    (ma, a), (mb, b) = make(desc['a'], 'A'), make(desc['b'], 'B')
    first = desc['op']
    ops = BASIC + list(SCRIBBLES) if desc['all'] else [first] + CORE

    def do(name, e, op, after):
        if op in SCRIBBLES:
            SCRIBBLES[op](e)
            return None
        res = OPS[op](e)
        got = norm(res)
        if differs(got, baseline(name, op), False):
            raise Violation('%s on %s after %s answers %s, a fresh object answers %s' % (op, name, after, str(got)[:700], str(baseline(name, op))[:700]))
        rec.step()
        return res, got

    for op in ops:
        kept = [do(desc['a'], a, first, 'earlier operations'), do(desc['b'], b, op, '%s on %s' % (first, desc['a'])), do(desc['a'], a, first, '%s on %s' % (op, desc['b']))]
        for k in kept:
            need(k is None or not differs(norm(k[0]), k[1], True), '%s on %s, %s on %s: an earlier result changed', first, desc['a'], op, desc['b'])
        rec.state((desc['a'], desc['b'], first, op))
    dom.check_embeddings(a, ma, 'first embeddings', file_check=False)
    dom.check_embeddings(b, mb, 'second embeddings', file_check=False)
    rec.outcome('pair')


CORE = ['oov', 'out-oov', 'analogy', 'similar-oov', 'explicit', 'write', 'gather', 'norm-oov', '!oov', '!oov-norm', '!out-oov', 'known', 'write-w2v', 'write-ft', 'slice', 'idx']


def object_cases(tier):
    for a, b in itertools.product(DESCS, repeat=2):
        for op in BASIC + list(SCRIBBLES) + ([o for ops in GROUPS.values() for o in ops] if tier != 'quick' else []):
            yield {'a': a, 'b': b, 'op': op, 'all': tier != 'quick'}


def lifetimes(desc, rec):
    """embeddings that take the place of others that were dropped, with other contents"""
    for op in BASIC:
        for first in ([op] if op == desc['op'] or desc['all'] else []) + [desc['op']]:
            _m, e = make(desc['a'], 'life')
            got = norm(OPS[first](e))
            need(not differs(got, baseline(desc['a'], first), False), '%s on %s: %s', first, desc['a'], str(got)[:700])
            del e
            m, e = make(desc['b'], 'life')
            got = norm(OPS[op](e))
            if differs(got, baseline(desc['b'], op), False):
                raise Violation('%s on %s after %s on %s, which was dropped: %s, expected %s' % (op, desc['b'], first, desc['a'], str(got)[:700], str(baseline(desc['b'], op))[:700]))
            rec.step(2)
            rec.state((desc['a'], desc['b'], first, op))
            del e
    rec.outcome('replaced')


def lifetime_cases(tier):
    for n in ('simple', 'fifu', 'ft', 'explicit', 'pq', 'loaded', 'mmap'):
        group = [n] + [t for t in TWINS if t[:-1] == n]
        for a, b in itertools.permutations(group, 2):
            for op in BASIC:
                yield {'a': a, 'b': b, 'op': op, 'all': 0}


def many(desc, rec):
    """thousands of distinct queries, twice in different orders: no bounded or keyed memory of earlier queries shows"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    n = desc['queries']
    qs = [''.join('abcdefgh€ü'[(i * 7 + i * i * 3 + j * (i // 5 + 1)) % 10] for j in range(1 + i % 7)) + str(i) for i in range(n)]
    qs += m.vocab.words
    want = {q: ref.lookup64(m, q, rows) for q in qs}
    kept = {}
    for order in (range(len(qs)), range(len(qs) - 1, -1, -1), [(i * 7919) % len(qs) for i in range(len(qs))]):
        for i in order:
            q = qs[i]
            w = want[q]
            got = e.embedding(q)
            rec.step()
            if w is None:
                need(got is None, 'embedding(%r) is %r', q, got)
                continue
            if q not in m.vocab.index and w[1] == 0:
                continue
            dom.close(got, w[0], 'embedding(%r)' % q, 1e-5)
            if m.norms is not None:
                dom.close(e.embedding_with_norm(q)[1], w[1], 'norm of %r' % q, 1e-5)
            need(e.vocab.idx(q) == m.vocab.lookup(q), 'idx(%r) is %r', q, e.vocab.idx(q))
            if m.vocab.kind != 'simple':
                need([tuple(t) for t in e.vocab.subword_indices(q, with_ngrams=True)] == m.vocab.pairs(q), 'subword_indices(%r)', q)
            if q in kept:
                need(kept[q][0].tobytes() == kept[q][1], 'the embedding of %r handed out earlier changed', q)
            kept[q] = (got, got.tobytes())
    for q, (a, b) in kept.items():
        need(a.tobytes() == b, 'the embedding of %r handed out earlier changed', q)
    dom.check_embeddings(e, m, 'embeddings', file_check=False)
    rec.state(repr(desc))
    rec.outcome('many')


def many_cases(tier):
    ws = {'g': 'seq', 'n': 500}
    for q in (1500, 5000) + ((70000, ) if tier != 'quick' else ()):
        for v in (['simple', ws], ['fifu', ws, 3, 6, 10], ['ft', ws, 2, 4, 1000], ['explicit', ws, 1, 2, [[a + b, i % 50] for i, (a, b) in enumerate(itertools.product('abcdefgh0123', repeat=2))]]):
            for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 200, 1, 1, 'C', 'nice']):
                yield {'v': v, 's': s, 'n': ['C', 'pos'], 'm': None, 'queries': q}


ITERATORS = {
    'embeddings': lambda e: e,
    'storage': lambda e: e.storage,
    'storage[1:3]': lambda e: e.storage[1:3],
    'storage[::-1]': lambda e: e.storage[::-1],
    'vocab': lambda e: e.vocab,
    'norms': lambda e: e.norms if e.norms is not None else (),
}


def items_of(name, m):
    rows = m.storage.rows64()
    if name == 'vocab':
        return list(m.vocab.words)
    if name == 'norms':
        return [] if m.norms is None else [float(x) for x in m.norms]
    if name.startswith('storage'):
        return list({'storage': rows, 'storage[1:3]': rows[1:3], 'storage[::-1]': rows[::-1]}[name])
    return [(w, rows[i]) if m.norms is None else (w, rows[i], float(m.norms[i])) for i, w in enumerate(m.vocab.words)]


def same_item(got, want, what):
    if isinstance(want, tuple):
        need(isinstance(got, tuple) and len(got) == len(want), '%s is %r', what, got)
        for g, w in zip(got, want):
            same_item(g, w, what)
    elif isinstance(want, str):
        need(got == want, '%s is %r, expected %r', what, got, want)
    else:
        dom.close(np.asarray(got), np.asarray(want), what, 1e-6)


def iterators(desc, rec):
    """two iterations in every interleaving, with another operation at every point, all yielded items kept"""
    m, e = make(desc['e'], 'it')
    want = [items_of(desc[k], m)[:4] for k in 'ab']
    state = written(e.write)
    na, nb = map(len, want)
    for picks in itertools.combinations(range(na + nb), na):
        for at in range(na + nb) if desc['op'] else [-1]:
            its = [iter(ITERATORS[desc[k]](e)) for k in 'ab']
            kept = [[], []]
            for i in range(na + nb):
                if i == at:
                    (SCRIBBLES.get(desc['op']) or OPS[desc['op']])(e)
                k = 0 if i in picks else 1
                kept[k].append(next(its[k]))
                rec.step()
            for k in (0, 1):
                for i, (g, w) in enumerate(zip(kept[k], want[k])):
                    same_item(g, w, 'iterations over %s and %s, merged as %s, %s at %s: item %d of %s' % (desc['a'], desc['b'], picks, desc['op'], at, i, desc['ab'[k]]))
    for k in 'ab':
        full = items_of(desc[k], m)
        got = list(ITERATORS[desc[k]](e))
        need(len(got) == len(full), '%s yields %d items, expected %d', desc[k], len(got), len(full))
        for i, (g, w) in enumerate(zip(got, full)):
            same_item(g, w, 'item %d of %s' % (i, desc[k]))
    need(written(e.write) == state, 'the embeddings changed')
    rec.state((desc['e'], desc['a'], desc['b'], desc['op']))
    rec.outcome('merged')


def iterator_cases(tier):
    for name in DESCS:
        for a, b in itertools.combinations_with_replacement(ITERATORS, 2):
            yield {'e': name, 'a': a, 'b': b, 'op': None}
        for a in ITERATORS if tier != 'quick' else ('embeddings', 'storage'):
            for op in ['oov', 'out-oov', 'known', 'similar-oov', 'explicit', 'write-ft', 'gather', '!oov', '!gather', '!out'] if tier == 'quick' else BASIC + list(SCRIBBLES):
                if tier != 'quick' or a == 'embeddings' or op in ('oov', 'out-oov', '!gather'):
                    yield {'e': name, 'a': a, 'b': 'norms' if name in ('explicit', 'pq2') else 'storage[1:3]', 'op': op}


# arguments that the caller keeps: kind -> (makers, calls that take one)
def _vec(lay, dt='<f4'):
    return lambda d: dom.layout(dom.floats(d, 'nice', 7).astype(dt), lay)


SHARED = {
    'skip': ({'empty': lambda d: set(), 'one': lambda d: {'a'}, 'two': lambda d: {'cab', 'd'}, 'unknown': lambda d: {'nope', 'cab'}, 'all': lambda d: {'a', 'b€', 'cab', 'd'}, 'frozen': lambda d: frozenset({'d'})}, {
        'vec(k=1)': lambda e, s: e.embedding_similarity(dom.floats(e.dims, 'nice', 7), 1, s),
        'vec(k=3)': lambda e, s: e.embedding_similarity(dom.floats(e.dims, 'nice', 7), k=3, skip=s),
        'analogy(k=1)': lambda e, s: e.analogy('a', 'b€', 'd', 1, s),
        'analogy(k=4)': lambda e, s: e.analogy('a', 'abca', 'cab', k=4, skip=s),
    }),
    'vector': ({'C': _vec('C'), 'rs': _vec('rs'), 'neg': _vec('neg'), 'be': _vec('be'), 'ro': _vec('ro'), 'f8': _vec('C', '<f8')}, {
        'vec(k=1)': lambda e, q: e.embedding_similarity(q, 1),
        'vec(k=3,skip)': lambda e, q: e.embedding_similarity(q, 3, {'cab'}),
        'default(unknown)': lambda e, q: e.embedding('zzz', default=q),
        'default(known)': lambda e, q: e.embedding('cab', default=q),
        'default(oov)': lambda e, q: e.embedding('abca', default=q),
        'default(out)': lambda e, q: [e.embedding(w, out=np.zeros(e.dims, dtype=np.float32), default=q) for w in ('zzz', 'cab', 'abca')],
        'norm(default)': lambda e, q: [keyerr(lambda: e.embedding_with_norm(w, default=(q, 2.0))) for w in ('zzz', 'cab', 'abca')],
        'norm(out, default)': lambda e, q: [keyerr(lambda: e.embedding_with_norm(w, np.zeros(e.dims, dtype=np.float32), (q, 2.0))) for w in ('zzz', 'cab', 'abca')],
    }),
    'index': ({'list': lambda d: [2, 0, 2], 'array': lambda d: np.array([2, 0, 2]), 'neg': lambda d: np.array([-1, 1]), 'u1': lambda d: np.array([3, 0, 1], dtype=np.uint8), 'ro': lambda d: dom.layout(np.array([1, 3]), 'ro')}, {
        'storage': lambda e, k: e.storage[k],
        'norms': lambda e, k: None if e.norms is None else e.norms[k],
        'slice': lambda e, k: [e.storage[0:4][k], e.storage[3::-1][k]],
        'into': lambda e, k: e.storage.embedding(k, np.zeros((len(k), e.dims), dtype=np.float32)) if isinstance(e.storage, QuantizedArray) else None,
    }),
    'words': ({'known': lambda d: ['a', 'cab'], 'some': lambda d: ['d', 'nope', 'a'], 'none': lambda d: []}, {
        'in vocab': lambda e, w: w in e.vocab,
        'in embeddings': lambda e, w: w in e,
        'in set': lambda e, w: [set(w) in e.vocab, tuple(w) in e.vocab],
    }),
}


def kept(x):
    return (type(x), x.dtype, x.strides, x.tobytes()) if isinstance(x, np.ndarray) else (type(x), repr(sorted(x)) if isinstance(x, (set, frozenset)) else repr(x))


def shared(desc, rec):
    """one argument object handed to two calls: neither changes it, the second answers as if it were new"""
    makers, calls = SHARED[desc['kind']]
    for a, b in itertools.product(calls, repeat=2):
        _, e = make(desc['e'], 'sh')
        arg = makers[desc['arg']](e.dims)
        before = kept(arg)
        calls[a](e, arg)
        need(kept(arg) == before, '%s changed its argument to %r', a, arg)
        got = norm(calls[b](e, arg))
        need(kept(arg) == before, '%s changed its argument to %r', b, arg)
        _, e2 = make(desc['e'], 'sh2')
        want = norm(calls[b](e2, makers[desc['arg']](e.dims)))
        need(not differs(got, want, False), '%s after %s with the same argument answers %s, with a new one %s', b, a, str(got)[:300], str(want)[:300])
        rec.step(3)
        rec.state((desc['e'], desc['kind'], desc['arg'], a, b))
    rec.outcome(desc['kind'])


def shared_cases(tier):
    for name in DESCS:
        for kind in SHARED:
            for arg in SHARED[kind][0]:
                yield {'e': name, 'kind': kind, 'arg': arg}


def whole(desc, rec):
    """everything once, repeated, forwards and backwards"""
    ops = BASIC + list(SCRIBBLES)
    for order in (ops, ops[::-1], ops * 3, ops[::2] + ops[1::2]):
        sequence({'e': desc['e'], 'ops': order}, rec)


THREAD_OPS = ['oov', 'oov2', 'known', 'norm-oov', 'out-oov', 'similar', 'similar-oov', 'analogy', 'iterate', 'gather', 'slice', 'write', 'write-w2v', 'write-ft', 'explicit', 'idx', 'subwords', 'array']


def interleave(desc, rec):
    """two threads, every schedule with at most two preemptions"""
    name, a, b = desc['e'], desc['a'], desc['b']
    m, e = make(name, 'thr')
    prefix = os.path.join(boot.REPO, 'src') + os.sep
    want = [baseline(name, a), baseline(name, b)]
    if a == b:
        want = [want[0], want[0]]
    snapshot = written(e.write)

    def go(segments):
        run = sched.Run([lambda: OPS[a](e), lambda: OPS[b](e)], prefix, segments, opcodes=desc['op'])
        points = list(run.run())
        for i in range(2):
            if run.errors[i] is not None:
                raise Violation('schedule %s: %s raised %r' % (segments, (a, b)[i], run.errors[i]))
            got = norm(run.results[i])
            if differs(got, want[i], False):
                raise Violation('schedule %s: %s answers %s, alone %s' % (segments, (a, b)[i], str(got)[:500], str(want[i])[:500]))
        rec.step(sum(points))
        rec.state((name, a, b, tuple(map(tuple, segments))))
        return points, run.trail

    (na, nb), trails = go([])
    if not (na and nb):
        rec.outcome('pair without switch points')
    sa, sb = max(1, -(-na // desc['max'])), max(1, -(-nb // desc['max']))
    for i in sched.switch_points(trails[0], desc['times'], 1):
        go([(0, i)])  # one preemption: B runs to its end, then A
    for i in range(1, na + 1, sa):
        for j in range(1, nb + 1, sb):
            go([(0, i), (1, j), (0, 1 << 30)])  # A i, B j, A to its end, B
            rec.outcome('schedule')
    if sa == sb == 1:
        rec.outcome('pair complete')
    dom.check_embeddings(e, m, 'embeddings after all schedules', file_check=False)
    need(written(e.write) == snapshot, 'the embeddings changed')


def interleave_cases(tier):
    # at most `max` evenly spaced switch points per thread; pairs of lookups have fewer and are covered completely
    names, top = (['fifu', 'pq'], 10) if tier == 'quick' else (list(DESCS), 32)
    for name in names:
        for a, b in itertools.product(THREAD_OPS, repeat=2):
            yield {'e': name, 'a': a, 'b': b, 'op': False, 'max': top, 'times': 2 if tier == 'quick' else 1000}
    for name in ('fifu', 'pq'):
        for a, b in itertools.product(['oov', 'out-oov', 'norm-oov', 'similar-oov', 'analogy', 'gather'], repeat=2):
            yield {'e': name, 'a': a, 'b': b, 'op': True, 'max': 12 if tier == 'quick' else 60, 'times': 1 if tier == 'quick' else 100}


def suites(tier):
    prepare()
    return [
        Suite('histories', lambda: sequence_cases(tier), sequence, 'all sequences of up to 2 of %d operations and of 3 of 16 (thorough: 3 of all, 4 of 12) on 8 embeddings' % (len(BASIC) + len(SCRIBBLES)), block=32),
        Suite('arguments', lambda: variant_cases(tier), sequence, 'all ordered pairs of calls within 7 groups of %d calls that differ in their arguments (thorough: with all other operations, and all triples of three groups) on 8 embeddings' % sum(map(len, GROUPS.values())), block=32),
        Suite('objects', lambda: object_cases(tier), objects, 'every operation on one and every operation of 17 (thorough: all) on another embeddings object, all ordered pairs of 8', block=8),
        Suite('lifetimes', lambda: lifetime_cases(tier), lifetimes, 'embeddings dropped and replaced by others of the same shape with other vectors, word order or subword configuration: all ordered pairs in 7 families, every operation on the first and every one on the second', block=4),
        Suite('many-queries', lambda: many_cases(tier), many, '1500 and 5000 (thorough 70000) distinct queries in three orders on 4 vocabularies and 2 storages, against the reference', block=1),
        Suite('iterators', lambda: iterator_cases(tier), iterators, 'all interleavings of two iterations (embeddings, storage, slices, vocabulary, norms; first 4 items) with another operation (10, thorough all) at every point on 8 embeddings, kept items against the reference', block=4),
        Suite('shared-arguments', lambda: shared_cases(tier), shared, 'skip sets, vectors, index lists and word lists (20 arguments) handed to all ordered pairs of the calls that take them, on 8 embeddings', block=4),
        Suite('whole', lambda: [{'e': n} for n in DESCS], whole, 'all operations in four orders', block=1),
        Suite('interleavings', lambda: interleave_cases(tier), interleave, 'all ordered pairs of 18 operations on 2 (thorough 8) embeddings in two threads, all schedules with one preemption before each line of the code (the first two times and the last time it is reached; thorough: every time) and with two preemptions at up to 10 (thorough 32) evenly spaced points per thread; for 6 operations the same between bytecodes, with up to 12 (60) points', block=1),
    ]
