"""C12: converting bucket to explicit embeddings preserves every embedding."""
import itertools
import os

import numpy as np

from mc import dom, ref
from mc.dom import read
from mc.engine import DEEPER, Suite, Violation, need, scratch
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import ExplicitVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['vectors of plain storages are compared bit for bit, reconstructed ones up to 1e-5', 'strings whose subword vectors sum to zero are left out',
               'indices of n-grams may be assigned in any order that covers 0..upper bound']

STRINGS = [''.join(t) for n in range(0, 5) for t in itertools.product(['a', 'b', '€'], repeat=n)]


def known_ngrams(m):
    out = []
    seen = set()
    for w in m.vocab.words:
        for g in m.vocab.subwords(w):
            if g not in seen:
                seen.add(g)
                out.append(g)
    return out


def check_vocab(x, m, what):
    """explicit vocabulary x is a conversion of the bucket vocabulary model m"""
    need(type(x) is ExplicitVocab, '%s: type %s', what, type(x).__name__)
    need(list(x.words) == m.words and x.word_index == m.index, '%s: words', what)
    ix = x.subword_indexer
    need((x.min_n, x.max_n) == (m.min_n, m.max_n) == (ix.min_n, ix.max_n), '%s: range %s', what, (x.min_n, x.max_n))
    want = []
    seen = set()
    for w in m.words:
        for g in m.subwords(w):
            if g not in seen:
                seen.add(g)
                want.append(g)
    got = list(ix.ngrams)
    if got != want or list(ix) != want or len(ix) != len(want):
        raise Violation('%s: n-grams: %s' % (what, dom.first_diff(got, want)))
    by_bucket, by_index = {}, {}
    for g in want:
        b, i = m.ngram_idx(g), ix(g)
        need(ix.ngram_index[g] == i and ix[g] == i, '%s: index of %r', what, g)
        need(by_bucket.setdefault(b, i) == i, '%s: %r shares its bucket with another n-gram but not its index', what, g)
        need(by_index.setdefault(i, b) == b, '%s: %r shares its index with an n-gram of another bucket', what, g)
    need(sorted(by_index) == list(range(len(by_bucket))), '%s: indices %s', what, sorted(by_index))
    need(ix.upper_bound == len(by_bucket) and x.upper_bound == len(m.words) + len(by_bucket), '%s: upper bound %d/%d', what, ix.upper_bound, x.upper_bound)
    return by_bucket


def convert(desc, rec):
    m, e = dom.build(desc)
    if desc.get('via'):
        src = os.path.join(scratch(), 'src.fifu')
        e.write(src)
        e = dom.load_finalfusion(src, desc['via'] == 'mmap')
    converted(m, e, rec, bool(desc.get('special')))
    rec.state(repr(desc))


def converted(m, e, rec, extra=False):
    path = os.path.join(scratch(), 'x.fifu')
    e.write(path)
    before = read(path)
    vx = e.vocab.to_explicit()
    check_vocab(vx, m.vocab, 'to_explicit()')
    x = e.bucket_to_explicit()
    rec.step(2)
    e.write(path)
    need(read(path) == before, 'the source embeddings changed')
    dom.check_embeddings(e, m, 'source', file_check=False)
    rows = m.storage.rows64()
    for how in ('direct', 'reloaded'):
        if how == 'reloaded':
            x.write(path)
            x = dom.load_finalfusion(path)
        need(isinstance(x, Embeddings) and isinstance(x.storage, NdArray), '%s: type', how)
        by_bucket = check_vocab(x.vocab, m.vocab, how)
        need(x.metadata is None, '%s: metadata %r', how, x.metadata)
        dom.check_norms(x.norms, m.norms, how + ' norms')
        n = len(m.vocab.words)
        need(tuple(x.storage.shape) == (n + len(by_bucket), m.storage.shape[1]), '%s: shape %s', how, x.storage.shape)
        got = np.asarray(x.storage)
        if m.storage.kind == 'nd':
            dom.same_bits(got[:n], m.storage.array[:n], how + ' word vectors')
            for b, i in by_bucket.items():
                dom.same_bits(got[n + i], m.storage.array[n + b], how + ' vector of bucket %d' % b)
        else:
            dom.close(got[:n], rows[:n], how + ' word vectors', 1e-5)
            for b, i in by_bucket.items():
                dom.close(got[n + i], rows[n + b], how + ' vector of bucket %d' % b, 1e-5)
    known = set(known_ngrams(m))
    for q in STRINGS + m.vocab.words + (dom.SPECIAL + [a + b for a, b in zip(dom.SPECIAL, dom.SPECIAL[1:])] if extra else []):
        ng = m.vocab.subwords(q)
        if not all(g in known for g in ng):
            continue
        rec.step()
        want = ref.lookup64(m, q, rows)
        got = x.embedding(q)
        if want is None:
            need(got is None and e.embedding(q) is None, 'embedding of %r is %r', q, got)
            continue
        if want[1] == 0 and q not in m.vocab.index:
            continue
        dom.close(got, want[0], 'embedding of %r' % q, 1e-5)
        dom.close(got, e.embedding(q), 'embedding of %r' % q, 1e-5)
        if m.norms is not None:
            dom.close(x.embedding_with_norm(q)[1], want[1], 'norm of %r' % q, 1e-5)
        rec.outcome('known word' if q in m.vocab.index else 'unknown word')


def word_sets(tier):
    yield []
    for w in STRINGS[:40]:
        yield [w]
    pool = ['', 'a', 'ab', 'ba', 'aa', '€b', 'aba', 'b€a', 'abab']
    for t in itertools.permutations(pool, 2):
        yield list(t)
    for t in itertools.permutations(pool, 3):
        yield list(t)
    if tier == 'deep':
        for t in itertools.permutations(pool, 4):
            yield list(t)
    yield [s for s in STRINGS if len(s) == 3]
    yield [s for s in STRINGS[::-1] if s][:50]


def convert_cases(tier):
    for w in word_sets(tier):
        for mn, mx in ((1, 1), (1, 2), (2, 3), (3, 6)):
            for v in (['fifu', w, mn, mx, 1], ['fifu', w, mn, mx, 3], ['ft', w, mn, mx, 1], ['ft', w, mn, mx, 4], ['ft', w, mn, mx, 97]):
                yield {'v': v, 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1}
    for w in ([], ['a'], ['ab', 'b', 'a€']):
        for v in (['fifu', w, 1, 2, 2], ['ft', w, 2, 3, 5]):
            for s in [['nd', 3, lay, 'bits'] for lay in dom.LAYOUTS_2D] + [['nd', 1, 'C', 'nice']] + [['pq', q, sub, c, p, n, lay, 'nice'] for (q, sub, c) in ((1, 2, 3), (3, 1, 2)) for p in (0, 1) for n in (0, 1) for lay in ('C', 'rs')]:
                for n in (None, ['C', 'pos'], ['neg', 'bits'], ['be', 'pos']):
                    if s[0] == 'nd' and s[3] == 'bits':
                        # arbitrary bit patterns: sums are not comparable, so only word lists whose strings are known
                        continue
                    yield {'v': v, 's': s, 'n': n, 'm': None}
                    if s[-2 if s[0] == 'nd' else 6] == 'C':
                        yield {'v': v, 's': s, 'n': n, 'm': 2, 'via': 'eager'}
                        yield {'v': v, 's': s, 'n': n, 'm': 2, 'via': 'mmap'}
            for lay in dom.LAYOUTS_2D:
                for n in (None, ['be', 'pos']):
                    yield {'v': v, 's': ['nd', 3, lay, 'nice'], 'n': n, 'm': None}
    yield {'v': ['fifu', {'g': 'seq', 'n': 300}, 3, 6, 10], 's': ['nd', 4, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 0}
    yield {'v': ['ft', {'g': 'seq', 'n': 400}, 1, 9, 700], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': 0}
    yield {'v': ['ft', {'g': 'len', 'n': 400}, 2, 5, 300], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': 0}


def large_cases(tier):
    for v in (['fifu', {'g': 'hex', 'n': 6000}, 3, 6, 20], ['fifu', {'g': 'hex', 'n': 6000}, 3, 6, 13], ['ft', {'g': 'hex', 'n': 6000}, 4, 6, 100003], ['ft', {'g': 'seq', 'n': 40000}, 3, 3, 500]):
        yield {'v': v, 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 0}
    yield {'v': ['ft', {'g': 'hex', 'n': 3000}, 3, 6, 70001], 's': ['pq', 2, 1, 250, 1, 1, 'C', 'nice'], 'n': None, 'm': 0}


def special_cases(tier):
    for v in dom.special_vocabs():
        if v[0] in ('fifu', 'ft'):
            for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 7, 1, 1, 'C', 'nice']):
                yield {'v': v, 's': s, 'n': ['C', 'pos'], 'm': 2, 'special': 1}
                yield {'v': v, 's': s, 'n': None, 'm': None, 'special': 1, 'via': 'mmap'}
    for x in dom.SPECIAL:
        for mn, mx in ((1, 2), (2, 4)):
            yield {'v': ['fifu', [x, x + 'b', 'a' + x], mn, mx, 5], 's': ['nd', 2, 'C', 'nice'], 'n': None, 'm': None}
            yield {'v': ['ft', [x, x + x], mn, mx, 13], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}


def others(desc, rec):
    """vocabularies without buckets cannot be converted"""
    m, e = dom.build(desc)
    path = os.path.join(scratch(), 'x.fifu')
    e.write(path)
    before = read(path)
    try:
        x = e.bucket_to_explicit()
    except TypeError:
        rec.outcome('TypeError')
    else:
        raise Violation('conversion of a %s vocabulary returned %r' % (m.vocab.kind, x))
    e.write(path)
    need(read(path) == before, 'the source embeddings changed')
    rec.state(repr(desc))
    rec.step()


def other_cases(tier):
    for v in (['simple', []], ['simple', ['a', 'b']], ['explicit', ['a'], 1, 2, []], ['explicit', ['a', 'b'], 1, 2, [['a', 0], ['b', 1]]]):
        for s in (['nd', 2, 'C', 'nice'], ['pq', 1, 2, 3, 1, 1, 'C', 'nice']):
            for n in (None, ['C', 'pos']):
                yield {'v': v, 's': s, 'n': n, 'm': 1}


def modified(m, e, rec, what):
    try:
        converted(m, e, rec)
    except Violation as exc:
        raise Violation('%s: %s' % (what, exc))


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('convert', lambda: convert_cases(tier), convert, 'all word lists of up to one string of length 3 over 3 characters, all ordered pairs of 9 and triples (thorough: quadruples) of 9 words, 4 ranges, 5 bucket configurations with many collisions; all storages and layouts; every string up to length 4 composed of known n-grams looked up before and after, also after a file round trip', block=4),
        Suite('large', lambda: large_cases(tier), convert, 'up to 40000 words, 80000 n-grams and as many distinct buckets', block=1),
        Suite('special', lambda: special_cases(tier), convert, '102 words that case folding, Unicode normalisation, stripping or parsing confuses with others, together and one by one', block=4),
        Suite('modified', lambda: (d for d in dom.mod_cases(tier) if d['v'][0] in ('fifu', 'ft')), dom.modified(modified), 'every sequence of up to 3 of 14 modifications of norms, metadata and matrix, converted before, between and after', block=8),
        Suite('others', lambda: other_cases(tier), others, 'simple and explicit vocabularies', block=4),
    ]
