"""C19: inconsistent embeddings cannot be built and rejected changes have no effect."""
import itertools
import os
import struct

import numpy as np

from mc import dom, foreign, ref
from mc.dom import put
from mc.engine import DEEPER, CaseTimeout, Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.metadata import Metadata
from finalfusion.norms import Norms
from finalfusion.storage import NdArray, QuantizedArray
from finalfusion.storage.quantized import PQ
from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer
from finalfusion.vocab import ExplicitVocab, FastTextVocab, FinalfusionBucketVocab, SimpleVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['any exception counts as rejection', 'assertions are enabled (the library documents AssertionError)', 'element types of quantizers and codes are not validated by the library and not claimed']


def attempt(fn):
    try:
        return fn(), None
    except CaseTimeout:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def decide(fn, valid, what, rec):
    """fn has to succeed exactly if valid"""
    got, exc = attempt(fn)
    rec.step()
    if valid:
        if exc is not None:
            raise Violation('%s was rejected: %r' % (what, exc))
        rec.outcome('accepted')
        return got
    if exc is None:
        raise Violation('%s was accepted: %s' % (what, str(got)[:200]))
    rec.outcome('rejected')
    return None


# --------------------------------------------------------------------------------------------------- embeddings objects
VOCABS = [['simple', 0], ['simple', 1], ['simple', 2], ['simple', 3], ['fifu', 0], ['fifu', 1], ['fifu', 2], ['ft', 0], ['ft', 1], ['ft', 2], ['explicit', 0], ['explicit', 1], ['explicit', 2], ['explicit0', 2]]
WORDS = ['a', 'b', 'c', 'd', 'e', 'f']


def vocab_of(spec):
    kind, n = spec
    if kind == 'simple':
        return ref.Vocab('simple', WORDS[:n])
    if kind == 'fifu':
        return ref.Vocab('fifu', WORDS[:n], 1, 2, 1)
    if kind == 'ft':
        return ref.Vocab('ft', WORDS[:n], 1, 2, 3)
    if kind == 'explicit0':
        return ref.Vocab('explicit', WORDS[:n], 1, 2, None, [])
    return ref.Vocab('explicit', WORDS[:n], 1, 2, None, [('x', 1), ('y', 0), ('z', 1)])


def storages(upper):
    """(name, object, rows or None if it is no storage)"""
    for r in sorted({0, 1, 2, 3, 4, 5, 6, upper, upper + 1, max(0, upper - 1)}):
        yield 'matrix of %d rows' % r, NdArray(dom.floats(2 * r, 'nice').reshape(r, 2)), r
        m = dom.model_storage(['pq', 2, 1, 3, r % 2, r % 3 == 1, 'C', 'nice'], r)
        yield 'quantized matrix of %d rows' % r, dom.impl_storage(m), r
    yield 'matrix slice', NdArray(dom.floats(2 * (upper + 2), 'nice').reshape(-1, 2))[1:-1], upper
    yield 'plain array', dom.floats(2 * upper, 'nice').reshape(-1, 2), None
    yield 'None as storage', None, None
    yield 'list as storage', [[1.0]] * upper, None
    yield 'norms as storage', Norms(dom.floats(upper, 'pos')), None
    yield 'vocabulary as storage', SimpleVocab(WORDS[:min(upper, 6)]), None


def norm_objects(n):
    """(name, object, valid for n words)"""
    yield 'no norms', None, True
    for k in sorted({0, 1, 2, 3, 4, 5, n, n + 1, n + 2, n + 3}):
        yield '%d norms' % k, Norms(dom.floats(k, 'pos', 4)), k == n
    yield 'slice of norms', Norms(dom.floats(n + 2, 'pos'))[1:-1], True
    yield 'array as norms', dom.floats(n, 'pos'), False
    yield 'list as norms', [1.0] * n, False
    yield 'storage as norms', NdArray(dom.floats(n, 'pos').reshape(n, 1)), False
    yield 'empty list as norms', [], False
    yield 'zero as norms', 0, False
    yield 'string as norms', 'a' * n, False


def meta_objects():
    yield 'no metadata', None, True
    yield 'metadata', Metadata({'a': 1}), True
    yield 'empty metadata', Metadata({}), True
    yield 'dict as metadata', {'a': 1}, False
    yield 'empty dict as metadata', {}, False
    yield 'string as metadata', 'a = 1', False
    yield 'zero as metadata', 0, False


def build(desc, rec):
    m = vocab_of(desc)
    n, upper = len(m.words), m.upper()
    for sname, s, rows in storages(upper):
        for nname, norms, nok in norm_objects(n):
            for mname, meta, mok in meta_objects():
                what = '%s vocabulary of %d words and %d indices, %s, %s, %s' % (m.kind, n, upper, sname, nname, mname)
                v = dom.impl_vocab(m)
                valid = rows == upper and nok and mok
                e = decide(lambda: Embeddings(s, v, norms, meta), valid, what, rec)
                rec.state((desc, sname, nname, mname))
                if valid:
                    need(e.storage is s and e.vocab is v and e.norms is norms and e.metadata is meta, '%s: the components differ', what)
                    need(e.n_words == n and e.dims == s.shape[1], '%s: sizes', what)
                    e2 = Embeddings(storage=s, vocab=v, norms=norms, metadata=meta, origin='x')
                    need(e2.norms is norms and e2.metadata is meta and e2.origin == 'x', '%s: keyword arguments', what)
        for bad in (None, list(m.words), dict(m.index), 'ab', m):
            decide(lambda: Embeddings(s, bad), False, '%s as vocabulary' % type(bad).__name__, rec)


def setters(desc, rec):
    """all sequences of assignments; a rejected one changes nothing"""
    base = {'v': desc['v'], 's': desc['s'], 'n': desc['n'], 'm': desc['m']}
    m, e0 = dom.build(base)
    n = len(m.vocab.words)
    ops = [('norms', name, x, ok) for name, x, ok in norm_objects(n)] + [('metadata', name, x, ok) for name, x, ok in meta_objects()]
    ops += [(attr, '%s replaced' % attr, getattr(e0, attr), False) for attr in ('storage', 'vocab', 'n_words', 'dims')]
    path = os.path.join(scratch(), 's.fifu')
    for first in ops:
        for rest in itertools.product(ops, repeat=desc['depth'] - 1):
            e = Embeddings(e0.storage, e0.vocab, e0.norms, e0.metadata)
            cur = {'norms': e0.norms, 'metadata': e0.metadata, 'storage': e0.storage, 'vocab': e0.vocab}
            trail = []
            for attr, name, x, ok in (first, ) + rest:
                trail.append(name)
                decide(lambda: setattr(e, attr, x), ok, ' then '.join(trail), rec)
                if ok:
                    cur[attr] = x
                need(all(getattr(e, k) is o for k, o in cur.items()), '%s: components differ', trail)
                chunks = e.chunks()
                want = [c for c in (cur['metadata'], cur['vocab'], cur['storage'], cur['norms']) if c is not None]
                need(len(chunks) == len(want) and all(a is b for a, b in zip(chunks, want)), '%s: chunks differ', trail)
            rec.state((repr(base), first[1], tuple(r[1] for r in rest)))
        e.write(path)
        got = load_finalfusion(path)
        dom.check_embeddings(got, ref.Emb(m.vocab, m.storage, None if cur['norms'] is None else np.asarray(cur['norms']), None if cur['metadata'] is None else dict(cur['metadata'])), 'reloaded after %s' % trail)
    dom.check_embeddings(e0, m, 'the original')


def setter_cases(tier):
    for v in (['simple', ['a', 'b']], ['simple', []], ['ft', ['a', 'b', 'c'], 1, 2, 2], ['explicit', ['a'], 1, 2, [['<a', 1], ['b', 0]]], ['fifu', [], 1, 2, 1]):
        for s in (['nd', 2, 'C', 'nice'], ['pq', 2, 1, 3, 1, 1, 'C', 'nice']):
            for n, m in ((None, None), (['C', 'pos'], 1)):
                yield {'v': v, 's': s, 'n': n, 'm': m, 'depth': 5 if tier == 'deep' and v == ['simple', ['a', 'b']] and s[0] == 'nd' else 4}


# ----------------------------------------------------------------------------------------------------------- components
def ranges(desc, rec):
    vals = [-2, -1, 0, 1, 2, 3, 6, 7, 100]
    for mn, mx in itertools.product(vals, vals):
        ok = 0 < mn <= mx
        for name, fn in (('FinalfusionHashIndexer', lambda: FinalfusionHashIndexer(4, mn, mx)), ('FastTextIndexer', lambda: FastTextIndexer(5, mn, mx)), ('ExplicitIndexer', lambda: ExplicitIndexer(['a'], mn, mx)),
                         ('ExplicitIndexer with index', lambda: ExplicitIndexer(['a'], mn, mx, {'a': 0}))):
            ix = decide(fn, ok, '%s with range %d-%d' % (name, mn, mx), rec)
            if ok:
                need((ix.min_n, ix.max_n) == (mn, mx), '%s: range %s, expected %s', name, (ix.min_n, ix.max_n), (mn, mx))
            rec.state((name, mn, mx))
    for b in list(range(-2, 70)) + [100, 1 << 32, 1 << 64]:
        ix = decide(lambda: FinalfusionHashIndexer(b, 3, 6), 0 < b < 64, 'FinalfusionHashIndexer with exponent %d' % b, rec)
        if ix is not None:
            need(ix.buckets_exp == b and ix.upper_bound == 1 << b, 'exponent %d: bound %d', b, ix.upper_bound)
        rec.state(('fifu', b))
    for b in [-(1 << 40), -(1 << 32), -2, -1] + list(range(0, 20)) + [255, 256, 65535, 65536, 2000000, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, 1 << 64, (1 << 64) + 1]:
        ix = decide(lambda: FastTextIndexer(b, 3, 6), 0 < b < (1 << 32), 'FastTextIndexer with %d buckets' % b, rec)
        if ix is not None:
            need(ix.n_buckets == b and ix.upper_bound == b, '%d buckets: bound %d', b, ix.upper_bound)
        rec.state(('ft', b))


def explicit_indexers(desc, rec):
    """every n-gram list and every index over small sets"""
    grams = desc['grams']
    ok = len(set(grams)) == len(grams)
    ix = decide(lambda: ExplicitIndexer(list(grams), 1, 3), ok, 'ExplicitIndexer(%s)' % grams, rec)
    if ok:
        need(ix.ngram_index == {g: i for i, g in enumerate(grams)} and ix.upper_bound == len(grams), 'ExplicitIndexer(%s): %s', grams, ix.ngram_index)
    keys = ['a', 'b', 'c', 'd']
    vals = [None, -1, 0, 1, 2, 3]
    for t in itertools.product(vals, repeat=len(keys)):
        index = {k: v for k, v in zip(keys, t) if v is not None}
        used = set(index.values())
        valid = ok and set(index) == set(grams) and used == set(range(len(used)))
        what = 'ExplicitIndexer(%s, index %s)' % (grams, index)
        ix = decide(lambda: ExplicitIndexer(list(grams), 1, 3, dict(index)), valid, what, rec)
        rec.state((tuple(grams), t))
        if valid:
            need(ix.ngram_index == index and ix.upper_bound == len(used) and list(ix.ngrams) == grams, '%s: %s', what, ix.ngram_index)
            v = decide(lambda: ExplicitVocab(['x', 'y'], ix), True, 'vocabulary of ' + what, rec)
            need(v.upper_bound == 2 + len(used), '%s: vocabulary bound %d', what, v.upper_bound)


def explicit_cases(tier):
    for n in range(0, 6 if tier == 'deep' else 5):
        for t in itertools.product(['a', 'b', 'c', 'd'], repeat=n):
            yield {'grams': list(t)}


def vocabs(desc, rec):
    words = desc['words']
    ok = len(set(words)) == len(words)
    fi, ft, ex = FinalfusionHashIndexer(2, 1, 2), FastTextIndexer(3, 1, 2), ExplicitIndexer(['q'], 1, 2)
    for name, fn, valid in (('SimpleVocab', lambda: SimpleVocab(list(words)), ok), ('FinalfusionBucketVocab', lambda: FinalfusionBucketVocab(list(words), fi), ok), ('FastTextVocab', lambda: FastTextVocab(list(words), ft), ok),
                            ('ExplicitVocab', lambda: ExplicitVocab(list(words), ex), ok), ('default FinalfusionBucketVocab', lambda: FinalfusionBucketVocab(list(words)), ok), ('default FastTextVocab', lambda: FastTextVocab(list(words)), ok)):
        v = decide(fn, valid, '%s(%s)' % (name, words), rec)
        if valid:
            need(list(v.words) == words and v.word_index == {w: i for i, w in enumerate(words)} and len(v) == len(words), '%s(%s): %s', name, words, v.word_index)
            need(v.upper_bound == len(words) + (0 if name == 'SimpleVocab' else v.subword_indexer.upper_bound), '%s: bound', name)
    for cls, good in ((FinalfusionBucketVocab, fi), (FastTextVocab, ft), (ExplicitVocab, ex)):
        for bad in (fi, ft, ex, 'x', 5, [], {}):
            if bad is not good:
                decide(lambda: cls(list(words), bad), False, '%s with indexer %s' % (cls.__name__, type(bad).__name__), rec)
    decide(lambda: ExplicitVocab(list(words), None), False, 'ExplicitVocab without indexer', rec)
    rec.state(tuple(words))


def vocab_cases(tier):
    for n in range(0, 9 if tier == 'deep' else 7):
        for t in itertools.product(['', 'a', 'b€'], repeat=n):
            yield {'words': list(t)}
    for n in (100, 1000):
        w = ['w%d' % i for i in range(n)]
        yield {'words': w}
        for i, j in ((0, n - 1), (n - 2, n - 1), (0, 1), (5, n // 2)):
            yield {'words': w[:j] + [w[i]] + w[j + 1:]}


DTYPES = ['<f4', '>f4', '<f2', '<f8', '>f8', '<i4', '<i8', '<u4', '|u1', '|i1', '|b1', '<c8', '<c16', 'O', 'S4', '<U1', 'f4,f4', '<M8[s]']


def arrays(desc, rec):
    """element types and dimensions of storages and norms, projections of every shape"""
    for dt in DTYPES:
        for shape in [(), (0, ), (1, ), (3, ), (0, 0), (0, 2), (1, 1), (2, 0), (2, 3), (1, 1, 1), (2, 2, 2), (0, 0, 0), (1, 2, 1, 2)]:
            a = np.zeros(shape, dtype=np.dtype(dt))
            f4 = dt in ('<f4', '>f4')
            for sub in (a, a.view(NdArray) if f4 and len(shape) == 2 else a):
                s = decide(lambda: NdArray(sub), f4 and len(shape) == 2, 'NdArray of %s %s' % (dt, shape), rec)
                if s is not None:
                    need(type(s) is NdArray and s.shape == shape and (a.size == 0 or np.shares_memory(s, a)), 'NdArray of %s %s: %s', dt, shape, s.shape)
            s = decide(lambda: Norms(a), f4 and len(shape) == 1, 'Norms of %s %s' % (dt, shape), rec)
            if s is not None:
                need(type(s) is Norms and s.shape == shape, 'Norms of %s', shape)
            rec.state((dt, shape))
    for q, c, d in itertools.product((1, 2, 3), (1, 2), (1, 2, 3)):
        quant = dom.floats(q * c * d, 'nice').reshape(q, c, d)
        n = q * d
        decide(lambda: PQ(quant, None), True, 'no projection', rec)
        dims = sorted({0, 1, 2, 3, n - 1, n, n + 1, q, c, d})
        for shape in [()] + [(i, ) for i in dims] + list(itertools.product(dims, repeat=2)) + [(n, n, 1), (n, n, n), (1, n, n), (n, n, 0), (n, 1, n), (n, n, 1, 1)]:
            pq = decide(lambda: PQ(quant, np.ones(shape, dtype=np.float32)), shape == (n, n), 'quantizers %s with projection %s' % (quant.shape, shape), rec)
            if pq is not None:
                need(pq.projection.shape == (n, n) and pq.reconstructed_len == n and pq.n_centroids == c, 'quantizers %s', quant.shape)
            rec.state((q, c, d, shape))


# ---------------------------------------------------------------------------------------------------------------- files
def raw_vocab(kind, words, mn, mx, buckets, grams):
    v = ref.Vocab(kind, words, mn, mx, buckets, grams)
    return v


def load_all(data, part, valid, model, what, rec):
    """data: embeddings file"""
    path = put(os.path.join(scratch(), 'f.fifu'), data)
    for mmap in (False, True):
        e = decide(lambda: load_finalfusion(path, mmap), valid, '%s (mmap=%s)' % (what, mmap), rec)
        if valid and model is not None:
            dom.check_embeddings(e, model, what, file_check=False)


def file_sizes(desc, rec):
    """files whose components do or do not fit together"""
    m = vocab_of(desc)
    n, upper = len(m.words), m.upper()
    for rows in sorted({0, 1, 2, 3, 4, 5, 6, upper, upper + 1}):
        for kind in ('nd', 'pq'):
            s = dom.model_storage(['nd', 2, 'C', 'nice'] if kind == 'nd' else ['pq', 2, 1, 3, 1, 1, 'C', 'nice'], rows)
            for k in (None, 0, 1, 2, 3, 4, 5, 6, n, n + 1):
                norms = None if k is None else dom.floats(k, 'pos')
                model = ref.Emb(m, s, norms)
                data = ref.enc_chunks(ref.parts_of(model, None))[0]
                valid = rows == upper and (k is None or k == n)
                load_all(data, None, valid, model, 'file with %s vocabulary of %d words and %d indices, %s storage of %d rows, %s norms' % (m.kind, n, upper, kind, rows, k), rec)
                rec.state((desc, rows, kind, k))


def file_vocabs(desc, rec):
    """vocabulary chunks with invalid contents, alone and in embeddings files"""
    kind, words, mn, mx, b = desc['kind'], desc['words'], desc['min'], desc['max'], desc['b']
    grams = [tuple(g) for g in desc['grams']] if desc.get('grams') is not None else None
    valid = len(set(words)) == len(words)
    if kind != 'simple':
        valid = valid and 0 < mn <= mx
    if kind == 'fifu':
        valid = valid and 0 < b < 64
    if kind == 'ft':
        valid = valid and b > 0
    if kind == 'explicit':
        used = {i for _, i in grams}
        valid = valid and len({g for g, _ in grams}) == len(grams) and used == set(range(len(used)))
    v = ref.Vocab(kind, words, mn, mx, b, grams)
    data = ref.enc_chunks([('vocab', v)])[0]
    path = put(os.path.join(scratch(), 'v.fifu'), data)
    own = {'simple': dom.load_simple_vocab, 'fifu': dom.load_finalfusion_bucket_vocab, 'ft': dom.load_fasttext_vocab, 'explicit': dom.load_explicit_vocab}[kind]
    for fn in (own, dom.load_vocab):
        got = decide(lambda: fn(path), valid, '%s of %s' % (fn.__name__, desc), rec)
        if valid:
            dom.check_vocab(got, v)
    rec.state(data)
    rows = {'simple': len(words), 'fifu': len(words) + (1 << min(b or 0, 3)), 'ft': len(words) + min(b or 0, 9), 'explicit': len(words) + len({i for _, i in grams or []})}[kind]
    for r in sorted({rows, v.upper() if 0 <= v.upper() < 50 else rows}):
        m = ref.Emb(v, dom.model_storage(['nd', 2, 'C', 'nice'], r))
        load_all(ref.enc_chunks(ref.parts_of(m, None))[0], None, valid and r == v.upper(), None, 'embeddings with %s and %d rows' % (desc, r), rec)


def file_vocab_cases(tier):
    lists = [list(t) for n in range(0, 4) for t in itertools.product(['a', 'b', ''], repeat=n)]
    for w in lists:
        yield {'kind': 'simple', 'words': w, 'min': None, 'max': None, 'b': None}
        yield {'kind': 'fifu', 'words': w, 'min': 1, 'max': 2, 'b': 1}
        yield {'kind': 'ft', 'words': w, 'min': 1, 'max': 2, 'b': 2}
        yield {'kind': 'explicit', 'words': w, 'min': 1, 'max': 2, 'b': None, 'grams': [['x', 0]]}
    for mn, mx in itertools.product([0, 1, 2, 3, 6, 4294967295], repeat=2):
        for kind in ('fifu', 'ft', 'explicit'):
            yield {'kind': kind, 'words': ['a'], 'min': mn, 'max': mx, 'b': 2, 'grams': [['x', 0]] if kind == 'explicit' else None}
    for b in list(range(0, 70)) + [255, 256, 65536, 1 << 31, (1 << 32) - 1]:
        yield {'kind': 'fifu', 'words': ['a'], 'min': 1, 'max': 2, 'b': b}
        yield {'kind': 'ft', 'words': ['a'], 'min': 1, 'max': 2, 'b': b}
    for n in range(0, 4):
        for names in itertools.product(['x', 'y', 'z'], repeat=n):
            for idx in itertools.product([0, 1, 2, 3, 1 << 40, (1 << 64) - 1] if n < 3 else [0, 1, 2, 3], repeat=n):
                yield {'kind': 'explicit', 'words': ['a'], 'min': 1, 'max': 2, 'b': None, 'grams': [[a, i] for a, i in zip(names, idx)]}


def foreign_files(desc, rec):
    """word2vec, text and fastText files with duplicate words or inconsistent sizes"""
    words = desc['words']
    n = len(words)
    ok = len(set(words)) == n
    bw = [w.encode() for w in words]
    mat = dom.floats(n * 2, 'nice').reshape(n, 2)
    path = os.path.join(scratch(), 'x')
    rec.state(tuple(words))
    for lossy in (False, True):
        for name, load, data in (('word2vec', load_word2vec, foreign.w2v(bw, mat)), ('textdims', load_text_dims, foreign.text(bw, mat, True))) + ((('text', load_text, foreign.text(bw, mat, False)), ) if n else ()):
            put(path, data)
            e = decide(lambda: load(path, lossy), ok, '%s file with words %s' % (name, words), rec)
            if ok:
                need(list(e.vocab.words) == words, '%s: words', name)
        for extra in (-2, -1, 0, 1, 3):
            for b in (1, 3):
                rows = n + b + extra
                if rows < 0:
                    continue
                put(path, foreign.fasttext(bw, dom.floats(rows * 2, 'nice').reshape(rows, 2), 1, 2, b)[0])
                decide(lambda: load_fasttext(path, lossy), ok and extra == 0, 'fastText file with words %s, %d buckets and %d rows' % (words, b, rows), rec)
        for mn, mx, b in ((0, 2, 2), (2, 1, 2), (-1, 2, 2), (1, -1, 2), (1, 2, 0), (1, 2, -1), (1, 1, 1)):
            put(path, foreign.fasttext(bw, dom.floats(2 * (n + max(b, 0)), 'nice').reshape(-1, 2), mn, mx, b)[0])
            decide(lambda: load_fasttext(path, lossy), ok and 0 < mn <= mx and b > 0, 'fastText file with range %d-%d and %d buckets' % (mn, mx, b), rec)


def foreign_cases(tier):
    for n in range(0, 5):
        for t in itertools.product(['a', 'b€', 'c'], repeat=n):
            yield {'words': list(t)}


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('build', lambda: VOCABS, build, '14 vocabularies x all storages of 0..upper+1 rows (plain, quantized, sliced, wrong types) x norms of 0..n+3 values and wrong types x metadata of right and wrong types', block=1),
        Suite('assignments', lambda: setter_cases(tier), setters, '20 embeddings; all sequences of 4 (thorough: 5 on two) assignments from 20 to 30 values', block=1),
        Suite('ranges', lambda: [0], ranges, 'all n-gram ranges over 9 values, exponents -2..69, bucket numbers around all limits'),
        Suite('explicit', lambda: explicit_cases(tier), explicit_indexers, 'all n-gram lists up to length 4 (thorough 5) over 4 n-grams x all partial indices with values -1..3', block=2),
        Suite('vocabularies', lambda: vocab_cases(tier), vocabs, 'all word lists up to length 6 (thorough 8) over 3 words; duplicates in long lists; all wrong indexers'),
        Suite('arrays', lambda: [0], arrays, '18 element types x 13 shapes; all projection shapes around the right one'),
        Suite('file-sizes', lambda: VOCABS, file_sizes, '14 vocabularies x 0..upper+1 rows x plain/quantized x 0..6 norms, eager and memory-mapped', block=1),
        Suite('file-vocabularies', lambda: file_vocab_cases(tier), file_vocabs, 'vocabulary chunks: all word lists up to length 3 over 3 words, all ranges over 6 values, exponents 0..69, all lists of 3 n-grams over 3 names and 4-6 indices'),
        Suite('foreign', lambda: foreign_cases(tier), foreign_files, 'all word lists up to length 4 over 3 words in 4 formats; fastText row counts, ranges and bucket numbers'),
    ]
