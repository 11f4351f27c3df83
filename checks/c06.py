"""C06: n-gram extraction is complete, exact and consistent."""
import itertools

from mc import dom, ref
from mc.engine import Suite, Violation, need
from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer, ngrams
from finalfusion.vocab import ExplicitVocab, FastTextVocab, FinalfusionBucketVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['the oracle enumerates substrings directly from the definition', 'strings are valid Unicode (no lone surrogates)']

ALPHABET = ['a', 'ä', '€', '😀', '<', '>']
RANGES = [(a, b) for a in range(1, 8) for b in range(a, 8)]
EXTREME = [(1, 4294967295), (2, 4294967295), (3, 1 << 31), (1, (1 << 31) - 1), (7, 65536), (4294967295, 4294967295), (1 << 31, 1 << 31), (100, 200),
           (1, 255), (1, 256), (3, 257)]
WORDS = ['known', '€', '']


class What:
    def __init__(self, *args):
        self.args = args

    def __mod__(self, name):
        word, mn, mx, bracket = self.args
        return '%s of %r, range %s, bracket=%s' % (name, word[:40], (mn, mx), bracket)


class Paths:
    """all extraction paths for one range"""

    def __init__(self, mn, mx):
        self.mn, self.mx = mn, mx
        self.ff, self.ft = FinalfusionHashIndexer(21, mn, mx), FastTextIndexer(1009, mn, mx)
        self.vff, self.vft = FinalfusionBucketVocab(list(WORDS), self.ff), FastTextVocab(list(WORDS), self.ft)

    def explicit(self, known):
        ix = ExplicitIndexer(list(known), self.mn, self.mx)
        return ix, ExplicitVocab(list(WORDS), ix)


_PATHS = {}


def same(got, want, what):
    if got != want or not isinstance(got, list):
        raise Violation('%s: %s' % (what, dom.first_diff(list(got), want) if isinstance(got, list) else type(got)))


def check(word, mn, mx, bracket, rec, subsets):
    p = _PATHS.get((mn, mx))
    if p is None:
        p = _PATHS[mn, mx] = Paths(mn, mx)
    want = ref.ngrams(word, mn, mx, bracket)
    what = What(word, mn, mx, bracket)
    same(ngrams(word, mn, mx, bracket), want, what % 'ngrams()')
    same(ngrams(word, min_n=mn, max_n=mx, bracket=bracket), want, what % 'ngrams() by keyword')
    if bracket:
        same(ngrams(word, mn, mx), want, what % 'ngrams() without bracket argument')
        if (mn, mx) == (3, 6):
            same(ngrams(word), want, what % 'ngrams() without arguments')
        same(p.vff.subwords(word), want, what % 'subwords() without bracket argument')
        same(p.vft.subwords(word), want, what % 'subwords() without bracket argument')
        same([n for n, _ in p.ff.subword_indices(word, with_ngrams=True)], want, what % 'finalfusion indexer')
        same([n for n, _ in p.ft.subword_indices(word, with_ngrams=True)], want, what % 'fastText indexer')
    for name, v in (('finalfusion', p.vff), ('fastText', p.vft)):
        same(v.subwords(word, bracket), want, what % (name + ' vocabulary subwords'))
        pairs = v.subword_indices(word, bracket=bracket, with_ngrams=True)
        same([n for n, _ in pairs], want, what % (name + ' vocabulary indices'))
        same(v.subword_indices(word, bracket), [i for _, i in pairs], what % (name + ' vocabulary indices without n-grams'))
        ix = v.subword_indexer
        ipairs = ix.subword_indices(word, 5, bracket, True)
        same([n for n, _ in ipairs], want, what % (name + ' indexer'))
        same(ix.subword_indices(word, 5, bracket, False), [i for _, i in ipairs], what % (name + ' indexer without n-grams'))
        if bracket:
            same(ix.subword_indices(word), [i - 5 for _, i in ipairs], what % (name + ' indexer without arguments'))
            same(v.subword_indices(word), [i for _, i in pairs], what % (name + ' vocabulary indices without arguments'))
    distinct = list(dict.fromkeys(want))
    for known in subsets(distinct):
        ix, v = p.explicit(known)
        ks = set(known)
        sub = [n for n in want if n in ks]
        same(v.subwords(word, bracket), want, what % 'explicit vocabulary subwords')
        pairs = v.subword_indices(word, bracket=bracket, with_ngrams=True)
        same([n for n, _ in pairs], sub, what % 'explicit vocabulary indices')
        same(v.subword_indices(word, bracket), [i for _, i in pairs], what % 'explicit vocabulary indices without n-grams')
        ipairs = ix.subword_indices(word, 0, bracket, True)
        same([n for n, _ in ipairs], sub, what % 'explicit indexer')
        if bracket:
            same(ix.subword_indices(word), [i for _, i in ipairs], what % 'explicit indexer without arguments')
            same(ix.subword_indices(word, with_ngrams=True), ipairs, what % 'explicit indexer without bracket argument')
            same(v.subword_indices(word), [i for _, i in pairs], what % 'explicit vocabulary indices without arguments')
            same(v.subwords(word), want, what % 'explicit vocabulary subwords without bracket argument')
        for n, i in ipairs:
            need(i == known.index(n), '%s', what % 'explicit index')
    rec.step(12)
    rec.state((word, mn, mx, bracket))
    rec.outcome('%d n-grams' % len(want) if len(want) < 12 else 'many n-grams')


def few_subsets(d):
    yield d
    if len(d) > 1:
        yield d[::2]
        yield d[1::2][::-1]
    yield []


def all_subsets(d):
    if len(d) > 6:
        yield from few_subsets(d)
        return
    for n in range(len(d) + 1):
        for t in itertools.combinations(d, n):
            yield list(t)


def small(desc, rec):
    for mn, mx in RANGES + EXTREME:
        for bracket in (True, False):
            check(desc['w'], mn, mx, bracket, rec, all_subsets if len(desc['w']) < 3 else few_subsets)


def small_cases(tier):
    for n in range(0, 5 if tier == 'quick' else 7):
        alpha = ALPHABET if n < 6 else ALPHABET[:4]
        for t in itertools.product(alpha, repeat=n):
            yield {'w': ''.join(t)}


KINDS = ['x', 'é', '→', '𝒳', 'mix', '\0', '\u0301']


def long(desc, rec):
    k, n = desc['k'], desc['n']
    word = ''.join('aé→𝒳<>b'[i * i % 7] for i in range(n)) if k == 'mix' else k * n
    for mn, mx in [(1, 1), (3, 6), (1, 3), (max(1, n), n + 1), (max(1, n + 1), n + 1), (max(1, n + 2), n + 2), (n + 3, n + 9), (6, 6), (2, 40),
                   (max(1, n - 1), max(1, n - 1)), (max(1, n - 2), 4294967295)] + ([(1, 4294967295)] if n < 150 else []):
        for bracket in (True, False):
            check(word, mn, mx, bracket, rec, few_subsets if n < 300 else lambda d: [d[::2]])


def huge(desc, rec):
    """words of tens of thousands of characters"""
    k, n = desc['k'], desc['n']
    word = ''.join('aé→𝒳<>b'[(i * i + i // 3) % 7] for i in range(n)) if k == 'mix' else k * n
    for mn, mx in [(1, 1), (3, 6), (n + 1, n + 2), (n - 1, n), (n + 2, n + 2)]:
        check(word, mn, mx, True, rec, lambda d: [d[::3]] if len(d) < 5000 else [])


def huge_cases(tier):
    for n in (4095, 4096, 8192, 16385, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 70000) + ((131072, 1 << 20) if tier != 'quick' else ()):
        for k in ('x', 'é', '𝒳', 'mix'):
            yield {'k': k, 'n': n}


def long_cases(tier):
    lens = list(range(0, 40)) + [63, 64, 65, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 1000]
    if tier != 'quick':
        lens = list(range(0, 300)) + [511, 512, 1000, 4095, 4096, 4097]
    for n in lens:
        for k in KINDS:
            yield {'k': k, 'n': n}


def points(desc, rec):
    """every code point at each position of a short word"""
    for cp in range(desc['from'], desc['to']):
        if 0xd800 <= cp < 0xe000:
            continue
        c = chr(cp)
        for word in (c, 'a' + c + '€') if cp % desc['every'] == 0 else (c, ):
            check(word, 1, 3, True, rec, lambda d: [d])


def point_cases(tier):
    step = 256
    for base in list(range(0, 0x3000, step)) + list(range(0xf900, 0x10800, step)) + list(range(0x1f000, 0x1fb00, step)) + [0x10ff00]:
        yield {'from': base, 'to': base + step, 'every': 1}
    if tier != 'quick':
        for base in range(0x3000, 0x110000, step):
            yield {'from': base, 'to': base + step, 'every': 16}


def suites(tier):
    return [
        Suite('small', lambda: small_cases(tier), small, 'all strings up to length 4 (thorough 6) over 6 characters of 1-4 bytes incl. < and >, 39 ranges incl. extremes, bracketing on and off, explicit indexers knowing every subset of n-grams', block=8),
        Suite('long', lambda: long_cases(tier), long, 'lengths 0..39 and around powers of two up to 1000 (thorough 0..299, 4097), 7 character kinds, 12 ranges', block=2),
        Suite('huge', lambda: huge_cases(tier), huge, 'lengths around powers of two up to 70000 (thorough 2^20), 4 character kinds, 5 ranges', block=1),
        Suite('code-points', lambda: point_cases(tier), points, 'single code points in words (quick: blocks below U+3000, around U+FFFF, emoji, last block; thorough: all)', block=1),
    ]
