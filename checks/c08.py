"""C08: vocabulary lookup maps words and subwords to the right indices."""
import itertools
import os

import numpy as np

from mc import dom, ref
from mc.engine import DEEPER, Suite, Violation, need, scratch
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.subword import ExplicitIndexer
from finalfusion.vocab import ExplicitVocab, FastTextVocab, FinalfusionBucketVocab, SimpleVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['the oracle is a dictionary lookup plus reference n-gram extraction and hashing', 'queries are valid Unicode strings']


class Marker:
    pass


def is_index(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def check_query(v, m, q, rec, embeds=None):
    want = m.lookup(q)
    marker = Marker()
    got = v.idx(q)
    gotd = v.idx(q, marker)
    gotk = v.idx(q, default=-5)
    if want is None:
        need(got is None, 'idx(%r) is %r, expected None', q, got)
        need(gotd is marker, 'idx(%r, default) is %r, expected the default', q, gotd)
        need(gotk == -5, 'idx(%r, default=-5) is %r', q, gotk)
        for d in (0, [], [3, 4]):
            g = v.idx(q, d)
            need(g is d or g == d, 'idx(%r, %r) is %r', q, d, g)
        try:
            g = v[q]
        except KeyError:
            pass
        else:
            raise Violation('vocab[%r] is %r, expected a KeyError' % (q, g))
        rec.outcome('no index')
    else:
        try:
            item = v[q]
        except KeyError:
            raise Violation('vocab[%r] raised KeyError, expected %r' % (q, want))
        for name, g in (('idx(%r)', got), ('idx(%r, default)', gotd), ('idx(%r, default=-5)', gotk), ('vocab[%r]', item)):
            if isinstance(want, int):
                need(is_index(g) and g == want, '%s is %r, expected %r', name % q, g, want)
            else:
                need(isinstance(g, list) and g == want, '%s is %r, expected %r', name % q, g if not isinstance(g, list) else g[:8], want[:8])
                need(all(is_index(i) and len(m.words) <= i < v.upper_bound for i in g), '%s has indices outside the subword range', name % q)
        if isinstance(want, int):
            need(0 <= want < v.upper_bound, 'index bound')
        rec.outcome('known' if isinstance(want, int) else 'subwords')
    known = q in m.index
    need((q in v) is known, '%r in vocab is %r', q, q in v)
    if embeds is not None:
        need((q in embeds) is known, '%r in embeddings is %r', q, q in embeds)
    if m.kind != 'simple':
        for bracket in (True, False):
            pairs = m.pairs(q, bracket)
            need(v.subword_indices(q, bracket) == [i for _, i in pairs], 'subword_indices(%r, bracket=%s)', q, bracket)
            need(v.subword_indices(q, bracket=bracket, with_ngrams=True) == pairs, 'subword_indices(%r, bracket=%s, with_ngrams=True)', q, bracket)
    rec.step(8)
    rec.state((m.key(), q))


def check_static(v, m, rec):
    dom.check_vocab(v, m)
    need(list(iter(v)) == m.words, 'iteration')
    need(len(v) == len(m.words), 'length')
    for i, w in enumerate(m.words):
        need(v.words[i] == w and v.word_index[w] == i and v.idx(w) == i, 'word %d', i)
    # collections
    w = m.words
    need(w in v and tuple(w) in v and set(w) in v and dict.fromkeys(w) in v and v in v and (x for x in w) in v, 'membership of all words')
    need([] in v and () in v and SimpleVocab([]) in v, 'membership of an empty collection')
    strange = next(s for s in ('zzz', 'yyy', 'xxx') if s not in m.index)
    for coll in ([strange], w + [strange], [strange] + w, (strange, ), {strange}, SimpleVocab(w + [strange])):
        need((coll in v) is False, 'membership of %r', coll)
    for i in range(len(w) + 1):
        mixed = w[:i] + [strange] + w[i:]
        need((mixed in v) is False, 'membership of a collection with an unknown word at position %d', i)
    for i in range(len(w)):
        need((w[i:] in v) is True and (w[:i] in v) is True and ([w[i]] in v) is True, 'membership of sublists')
    for other in (None, 0, 1.5, object()):
        need((other in v) is False, 'membership of %r', other)
    if m.kind == 'explicit':
        check_indexer(v.subword_indexer, m)
    rec.step(10 + 3 * len(w))


def check_indexer(ix, m):
    """the n-grams of an explicit indexer as a collection"""
    g = [t for t, _ in m.ngrams]
    for t in g:
        need((t in ix) is True and ix[t] == m.ngram_index[t] and ix(t) == m.ngram_index[t], 'n-gram %r', t)
    strange = next(s for s in ('zzz', 'yyy', 'xxx') if s not in m.ngram_index)
    need((strange in ix) is False and ix(strange) is None, 'unknown n-gram')
    try:
        ix[strange]
    except KeyError:
        pass
    else:
        raise Violation('indexing an unknown n-gram')
    need((g in ix) is True and (set(g) in ix) is True and ([] in ix) is True and (g + g in ix) is True, 'membership of all n-grams')
    for i in range(len(g) + 1):
        need((g[:i] + [strange] + g[i:] in ix) is False and (g[:i] in ix) is True, 'membership of a collection with an unknown n-gram at position %d', i)
        if len(g) > 20 and i > 20:
            break
    for other in (None, 0, object()):
        need((other in ix) is False, 'membership of %r', other)


STRINGS = [''.join(t) for n in range(0, 4) for t in itertools.product(['a', 'b', '€', '<'], repeat=n)]
LONGER = [''.join(t) for n in range(4, 6) for t in itertools.product(['a', 'b', '€'], repeat=n)]


def via(v, how):
    if how == 'file':
        path = os.path.join(scratch(), 'v.fifu')
        v.write(path)
        return dom.load_vocab(path)
    return v


def lookups(desc, rec):
    m = dom.model_vocab(desc['v'])
    v = via(dom.impl_vocab(m), desc['via'])
    check_static(v, m, rec)
    e = Embeddings(NdArray(np.zeros((m.upper(), 1), dtype=np.float32)), v) if m.upper() < 5000 else None
    for q in STRINGS + (LONGER if desc.get('long') else []) + dom.UNI + list(m.words):
        check_query(v, m, q, rec, e)
    check_static(v, m, rec)


def lookup_cases(tier):
    wls = [[], [''], ['a'], ['b', 'a'], ['a', 'ab', '€'], ['<', 'a>', '<a>', 'aa'], ['aba', 'b', '', '<a'], ['€€', 'b', 'bb', 'a', 'aab']]
    for w in wls:
        for how in ('direct', 'file'):
            yield {'v': ['simple', w], 'via': how}
            for mn, mx in ((1, 1), (1, 3), (2, 2), (3, 6), (4, 5), (6, 9)):
                for e in (1, 3, 12):
                    yield {'v': ['fifu', w, mn, mx, e], 'via': how, 'long': tier != 'quick'}
                for b in (1, 3, 1000):
                    yield {'v': ['ft', w, mn, mx, b], 'via': how, 'long': tier != 'quick'}
                for ng in ([], [['a', 0]], [['<a', 0], ['a>', 1], ['ab', 2], ['<>', 3]], [['<a', 1], ['aa', 0], ['€', 1], ['<a>', 0]], [['<€a', 0], ['b€>', 0], ['aaa', 1], ['b', 1], ['<', 2]]):
                    yield {'v': ['explicit', w, mn, mx, ng], 'via': how, 'long': tier != 'quick'}
    for n in (1, 2, 3, 4) + ((5, 6) if tier == 'deep' else ()):
        ngs = ['<a', 'a', 'b>', '€', '<b', 'ab'][:n]
        for assign in dom.surjections(n):
            for mn, mx in ((1, 2), (2, 3)):
                yield {'v': ['explicit', ['b', 'a'], mn, mx, [[g, i] for g, i in zip(ngs, assign)]], 'via': 'direct'}
    yield {'v': ['fifu', ['a'], 3, 6, 40], 'via': 'direct'}
    yield {'v': ['fifu', ['a', 'b'], 2, 3, 63], 'via': 'direct'}
    yield {'v': ['ft', ['a', 'b'], 1, 3, 4294967295], 'via': 'direct'}


def special(desc, rec):
    """words and n-grams that case folding, normalisation or stripping would confuse"""
    m = dom.model_vocab(desc['v'])
    v = via(dom.impl_vocab(m), desc['via'])
    check_static(v, m, rec)
    e = Embeddings(NdArray(np.zeros((m.upper(), 1), dtype=np.float32)), v)
    for q in dom.SPECIAL:
        for x in (q, q + q, 'x' + q, ' ' + q, q + '\n'):
            check_query(v, m, x, rec, e)


def special_cases(tier):
    for v in dom.special_vocabs():
        for how in ('direct', 'file'):
            yield {'v': v, 'via': how}


def defaults(desc, rec):
    """default indexers of the constructors"""
    w = ['ab', 'c', '€']
    for v, m in ((FinalfusionBucketVocab(list(w)), ref.Vocab('fifu', w, 3, 6, 21)), (FastTextVocab(list(w)), ref.Vocab('ft', w, 3, 6, 2000000)),
                 (ExplicitVocab(list(w), ExplicitIndexer(['abc', '<ab', 'b>', '€'])), ref.Vocab('explicit', w, 3, 6, None, [('abc', 0), ('<ab', 1), ('b>', 2), ('€', 3)])),
                 (ExplicitVocab(list(w), ExplicitIndexer(['abc', '<ab', 'b>', '€'], 1, 2)), ref.Vocab('explicit', w, 1, 2, None, [('abc', 0), ('<ab', 1), ('b>', 2), ('€', 3)]))):
        check_static(v, m, rec)
        for q in STRINGS + LONGER + ['abcabc', 'xabcx']:
            check_query(v, m, q, rec)


def large(desc, rec):
    """vocabularies with many words: every word has its own index"""
    m = dom.model_vocab(desc['v'])
    v = via(dom.impl_vocab(m), desc['via'])
    dom.check_vocab(v, m)
    for i, w in enumerate(m.words):
        need(v.idx(w) == i and v[w] == i and w in v, 'word %d', i)
        rec.step(3)
    rec.state(repr(desc))
    for q in ('unknown', 'w', 'wörd', 'zzzzzzz'):
        check_query(v, m, q, rec)
    # collections of words
    ws = list(m.words)
    for c in (ws, ws[::-1], tuple(ws), set(ws), dict.fromkeys(ws), np.array(ws, dtype=object), iter(ws), (w for w in ws), ws + ws):
        need((c in v) is True, 'all words as %s', type(c).__name__)
    for at in sorted({0, 1, len(ws) // 2, len(ws) - 1, len(ws)}):
        other = ws[:at] + ['not a word'] + ws[at:]
        for c in (other, tuple(other), set(other), iter(other)):
            need((c in v) is False, 'an unknown word at %d as %s', at, type(c).__name__)
        rec.step(4)
    # equality with everything that differs in one place
    specs = {'itself': m}
    for at in sorted({0, len(ws) // 2, len(ws) - 1}):
        specs['word %d' % at] = (ws[:at] + ['other'] + ws[at + 1:], m.ngrams)
        specs['without word %d' % at] = (ws[:at] + ws[at + 1:], m.ngrams)
        specs['word added at %d' % at] = (ws[:at + 1] + ['other'] + ws[at + 1:], m.ngrams)
        if at:
            specs['words %d and %d' % (at - 1, at)] = (ws[:at - 1] + [ws[at], ws[at - 1]] + ws[at + 1:], m.ngrams)
    if m.kind == 'explicit':
        ng = list(m.ngrams)
        for at in sorted({0, len(ng) // 2, len(ng) - 1}):
            specs['n-gram %d' % at] = (ws, ng[:at] + [('other', ng[at][1])] + ng[at + 1:])
        specs['n-gram added'] = (ws, ng + [('other', 0)])
    for what, x in specs.items():
        o = m if what == 'itself' else ref.Vocab(m.kind, x[0], m.min_n, m.max_n, m.buckets, x[1])
        b = dom.impl_vocab(o)
        need((v == b) is (what == 'itself') and (b == v) is (what == 'itself'), 'equality with a vocabulary with another %s', what)
        rec.step(2)


def large_cases(tier):
    for n in (255, 256, 257, 1000, 65535, 65536, 70000):
        yield {'v': ['simple', {'g': 'seq', 'n': n}], 'via': 'direct'}
        yield {'v': ['ft', {'g': 'seq', 'n': n}, 3, 6, 100], 'via': 'file'}
        yield {'v': ['fifu', {'g': 'seq', 'n': n}, 2, 4, 9], 'via': 'direct'}
        yield {'v': ['explicit', {'g': 'seq', 'n': n}, 1, 7, {'g': 'share', 'n': 300}], 'via': 'file'}
    yield {'v': ['explicit', ['w'], 1, 7, {'g': 'seq', 'n': 70000}], 'via': 'file'}


def eq_space():
    wls = [[], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'b', 'c']]
    for w in wls:
        yield ['simple', w]
        for mn, mx in ((1, 2), (1, 3), (2, 3)):
            for x in (1, 2):
                yield ['fifu', w, mn, mx, x]
                yield ['ft', w, mn, mx, x]
            for ng in ([], [['x', 0]], [['y', 0]], [['x', 0], ['y', 1]], [['y', 1], ['x', 0]], [['x', 1], ['y', 0]], [['x', 0], ['y', 0]]):
                yield ['explicit', w, mn, mx, ng]


def equality(desc, rec):
    specs = list(eq_space())
    ma = dom.model_vocab(specs[desc['i']])
    a = dom.impl_vocab(ma)
    for spec in specs:
        mb = dom.model_vocab(spec)
        b = dom.impl_vocab(mb)
        want = ma.key() == mb.key()
        need((a == b) is want, '%s == %s is %r', specs[desc['i']], spec, a == b)
        need((a != b) is (not want), '%s != %s is %r', specs[desc['i']], spec, a != b)
        if ma.kind != 'simple' and mb.kind != 'simple':
            same = ma.kind == mb.kind and (ma.min_n, ma.max_n, ma.buckets, ma.ngrams) == (mb.min_n, mb.max_n, mb.buckets, mb.ngrams)
            need((a.subword_indexer == b.subword_indexer) is same, 'indexers of %s and %s', specs[desc['i']], spec)
        rec.step(2)
        rec.outcome('equal' if want else 'different')
    for other in (None, list(ma.words), 0, 'a', dict(ma.index)):
        need((a == other) is False, 'equality with %r', other)
    rec.state(ma.key())


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('lookups', lambda: lookup_cases(tier), lookups, '8 word lists, 4 vocabulary kinds, 6 ranges, several bucket numbers and n-gram tables incl. every index assignment of up to 4 (thorough 6) n-grams; all strings up to length 5 over 4 characters plus 16 special strings; built directly and loaded', block=4),
        Suite('special', lambda: special_cases(tier), special, '12 vocabularies of 51 words and n-grams each that case folding, Unicode normalisation, stripping or parsing confuses with others; 510 queries', block=1),
        Suite('defaults', lambda: [0], defaults, 'default indexers'),
        Suite('large', lambda: large_cases(tier), large, 'up to 70000 words and 70000 n-grams; collections of all of them; equality with those that differ in one place', block=1),
        Suite('equality', lambda: ({'i': i} for i in range(len(list(eq_space())))), equality, 'all ordered pairs of 204 vocabularies', block=4),
    ]
