"""C07: bucket indices equal the reference hashes."""
import itertools

import numpy as np

from mc import ref
from mc.engine import DEEPER, Suite, Violation, need
from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer
from finalfusion.vocab import FastTextVocab, FinalfusionBucketVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['reference hashes are plain-integer FNV implementations with published constants, self-tested on known answers', 'n-grams are valid Unicode strings']

# published FNV-1a 64 answers
assert ref.fnv1a64(b'') == 0xcbf29ce484222325 and ref.fnv1a64(b'a') == 0xaf63dc4c8601ec8c and ref.fnv1a64(b'foobar') == 0x85944171f73967e8
# FNV-1a 32 on ASCII
assert ref.ft_hash('a') == 0xe40c292c and ref.ft_hash('foobar') == 0xbf9cf968

EXPS = list(range(1, 64))
BUCKETS = sorted(set(list(range(1, 33)) + [1 << k for k in range(5, 32)] + [(1 << k) - 1 for k in range(5, 33)] + [(1 << k) + 1 for k in range(5, 32)] +
                     [1000, 2000000, 1000003, 4294967291, 3000000000]))
OFFSETS = [0, 1, 2, 255, 256, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 40) + 3, 1 << 62]


def fnv64_vec(cps):
    """hash of the one-character n-grams for an array of code points"""
    h = np.full(len(cps), 0xcbf29ce484222325, dtype=np.uint64)
    prime = np.uint64(0x100000001b3)
    for b in (1).to_bytes(8, 'little'):
        h = (h ^ np.uint64(b)) * prime
    for k in range(4):
        h = (h ^ ((cps >> np.uint64(8 * k)) & np.uint64(255))) * prime
    return h


def points(desc, rec):
    """every code point as an n-gram, through calls and through words"""
    cps = [c for c in range(desc['from'], desc['to']) if not 0xd800 <= c < 0xe000]
    if not cps:
        return
    want = fnv64_vec(np.array(cps, dtype=np.uint64))
    for c in (cps[0], cps[-1]):
        assert ref.fifu_hash(chr(c)) == int(want[cps.index(c)])
    full = FinalfusionHashIndexer(63, 1, 1)
    few = FinalfusionHashIndexer(3, 1, 1)
    ftf, ftb = FastTextIndexer((1 << 32) - 1, 1, 1), FastTextIndexer(2000000, 1, 1)
    word = ''.join(map(chr, cps))
    m63 = (1 << 63) - 1
    lists = [full.subword_indices(word, 0, False), few.subword_indices(word, 9, False), ftf.subword_indices(word, 0, False), ftb.subword_indices(word, 4, False)]
    for l in lists:
        need(len(l) == len(cps), 'number of indices %d', len(l))
    for k, cp in enumerate(cps):
        c = chr(cp)
        h, f = int(want[k]), ref.ft_hash(c)
        got = (full(c), lists[0][k], few(c), lists[1][k], ftf(c), lists[2][k], ftb(c), lists[3][k])
        exp = (h & m63, h & m63, h & 7, (h & 7) + 9, f % 0xffffffff, f % 0xffffffff, f % 2000000, f % 2000000 + 4)
        if got != exp:
            raise Violation('indices of U+%04X (finalfusion 63 bits call/word, 3 bits call/word, fastText 2^32-1 call/word, 2000000 call/word): %s, expected %s' % (cp, got, exp))
    rec.step(8 * len(cps))
    rec.state(('points', desc['from']))
    rec.outcome('block of code points')


def point_cases(tier):
    for base in range(0, 0x110000, 0x800):
        yield {'from': base, 'to': base + 0x800}


ALPHABET = ['a', '\x7f', '\x80', 'ÿ', 'Ā', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', '\0']


def strings(desc, rec):
    """every string over boundary characters under every exponent and many bucket numbers"""
    for t in itertools.product(ALPHABET, repeat=desc['n'] - 1):
        s = desc['c'] + ''.join(t)
        h, f = ref.fifu_hash(s), ref.ft_hash(s)
        for e in EXPS if desc['all'] else (1, 2, 21, 31, 32, 33, 63):
            ix = ff(e)
            got = ix(s)
            if got != h & ((1 << e) - 1):
                raise Violation('finalfusion index of %r with 2^%d buckets: %d, expected %d' % (s, e, got, h & ((1 << e) - 1)))
            need(got < ix.upper_bound == 1 << e, 'upper bound')
        for b in BUCKETS if desc['all'] else (1, 7, 1000, 2000000, (1 << 32) - 1):
            ix = ft(b)
            got = ix(s)
            if got != f % b:
                raise Violation('fastText index of %r with %d buckets: %d, expected %d' % (s, b, got, f % b))
            need(got < ix.upper_bound == b, 'upper bound')
        rec.state(s)
        rec.step(len(EXPS) + len(BUCKETS) if desc['all'] else 12)
        rec.outcome('len %d' % desc['n'])


_FF, _FT = {}, {}


def ff(e):
    if e not in _FF:
        _FF[e] = FinalfusionHashIndexer(e, 1, 6)
    return _FF[e]


def ft(b):
    if b not in _FT:
        _FT[b] = FastTextIndexer(b, 1, 6)
    return _FT[b]


def string_cases(tier):
    yield {'n': 1, 'c': '', 'all': 1}
    for n in (1, 2, 3, 4, 5) + ((6, ) if tier == 'deep' else ()):
        for c in ALPHABET:
            yield {'n': n, 'c': c, 'all': n < 5}


def lengths(desc, rec):
    """long n-grams: the length is part of the finalfusion hash"""
    for n in desc['ns']:
        for c in ('x', 'é', '€', '😀'):
            s = c * n
            h, f = ref.fifu_hash(s), ref.ft_hash(s)
            for e in (1, 21, 32, 63):
                need(ff(e)(s) == h & ((1 << e) - 1), 'finalfusion index of %r * %d with 2^%d buckets', c, n, e)
            for b in (7, 2000000, (1 << 32) - 1):
                need(ft(b)(s) == f % b, 'fastText index of %r * %d with %d buckets', c, n, b)
            # the same n-gram inside a word: range n..n leaves one n-gram per start
            if n:
                a = FinalfusionHashIndexer(63, n, n).subword_indices(s, 3, False)
                need(a == [(h & ((1 << 63) - 1)) + 3], 'indices of %r * %d: %s', c, n, a)
                a = FastTextIndexer((1 << 32) - 1, n, n).subword_indices(s, 3, False)
                need(a == [f % 0xffffffff + 3], 'fastText indices of %r * %d: %s', c, n, a)
            rec.step(9)
            rec.state((c, n))
    rec.outcome('lengths')


def length_cases(tier):
    for n in range(0, 320, 8):
        yield {'ns': list(range(n, n + 8))}
    yield {'ns': [1023, 1024, 4096]}
    yield {'ns': [65535, 65536, 65537]}
    if tier == 'deep':
        yield {'ns': [(1 << 20) + 1]}


def long_words(desc, rec):
    """all n-grams of long words"""
    n, k = desc['n'], desc['k']
    w = ''.join('aé→𝒳<>b0'[(i * i + i // 3 + i // 7) % 8] for i in range(n)) if k == 'mix' else k * n
    cache = {}
    for mn, mx in ((3, 4), (1, 1)) if n > 1000 else ((3, 6), (1, 2), (7, 9)):
        for bracket in (True, False):
            ng = ref.ngrams(w, mn, mx, bracket)
            for g in ng:
                if g not in cache:
                    cache[g] = (ref.fifu_hash(g), ref.ft_hash(g))
            for e in (5, 21, 63):
                ix = FinalfusionHashIndexer(e, mn, mx)
                want = [(cache[g][0] & ((1 << e) - 1)) + 11 for g in ng]
                need(ix.subword_indices(w, 11, bracket) == want, 'finalfusion indices of a word of %d characters (%s), range %s, 2^%d buckets', n, k, (mn, mx), e)
                need(ix.subword_indices(w, 11, bracket, True) == list(zip(ng, want)), 'finalfusion pairs of a word of %d characters', n)
            for b in (7, 2000000, (1 << 32) - 1):
                ix = FastTextIndexer(b, mn, mx)
                want = [cache[g][1] % b + 11 for g in ng]
                need(ix.subword_indices(w, 11, bracket) == want, 'fastText indices of a word of %d characters (%s), range %s, %d buckets', n, k, (mn, mx), b)
                need(ix.subword_indices(w, 11, bracket, True) == list(zip(ng, want)), 'fastText pairs of a word of %d characters', n)
            rec.step(12 * len(ng))
    rec.state((n, k))
    rec.outcome('long words')


def long_cases(tier):
    ns = list(range(5, 70)) + [84, 85, 86, 126, 127, 128, 253, 254, 255, 256, 257, 340, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 16383, 16384, 21845, 32768, 65535, 65536, 70000]
    for n in ns + [131072, 262144] + ([1 << 20] if tier == 'deep' else []):
        for k in ('x', 'é', '€', '😀', 'mix'):
            yield {'n': n, 'k': k}


def words(desc, rec):
    """all n-grams of a word against single calls, with every offset, through indexers and vocabularies"""
    for t in itertools.product(['a', 'é', '€', '😀', '<'], repeat=desc['n']):
        w = ''.join(t)
        for mn, mx in ((1, 2), (3, 6), (2, 4)):
            for bracket in (True, False):
                ng = ref.ngrams(w, mn, mx, bracket)
                for e in desc['exps']:
                    ix = FinalfusionHashIndexer(e, mn, mx)
                    want = [ref.fifu_hash(g) & ((1 << e) - 1) for g in ng]
                    need([ix(g) for g in ng] == want, 'finalfusion calls for n-grams of %r', w)
                    for off in OFFSETS:
                        got = ix.subword_indices(w, off, bracket)
                        need(got == [i + off for i in want], 'finalfusion indices of %r with 2^%d buckets and offset %d: %s, expected %s', w, e, off, got[:4], [i + off for i in want][:4])
                    got = ix.subword_indices(w, offset=7, bracket=bracket, with_ngrams=True)
                    need(got == [(g, i + 7) for g, i in zip(ng, want)], 'finalfusion pairs of %r', w)
                    if e < 22:
                        v = FinalfusionBucketVocab(['q', 'r', 's'], ix)
                        need(v.subword_indices(w, bracket) == [i + 3 for i in want], 'finalfusion vocabulary indices of %r', w)
                for b in desc['bs']:
                    ix = FastTextIndexer(b, mn, mx)
                    want = [ref.ft_hash(g) % b for g in ng]
                    need([ix(g) for g in ng] == want, 'fastText calls for n-grams of %r', w)
                    for off in OFFSETS:
                        got = ix.subword_indices(w, off, bracket)
                        need(got == [i + off for i in want], 'fastText indices of %r with %d buckets and offset %d: %s, expected %s', w, b, off, got[:4], [i + off for i in want][:4])
                    got = ix.subword_indices(w, offset=7, bracket=bracket, with_ngrams=True)
                    need(got == [(g, i + 7) for g, i in zip(ng, want)], 'fastText pairs of %r', w)
                    v = FastTextVocab(['q', 'r', 's'], ix)
                    need(v.subword_indices(w, bracket) == [i + 3 for i in want], 'fastText vocabulary indices of %r', w)
                table = {g: k % 3 for k, g in enumerate(dict.fromkeys(ng))}
                ex = ExplicitIndexer(list(table), mn, mx, dict(table))
                for off in OFFSETS:
                    need(ex.subword_indices(w, off, bracket) == [table[g] + off for g in ng], 'explicit indices of %r with offset %d', w, off)
                need([ex(g) for g in ng] == [table[g] for g in ng] and ex('zzz') is None, 'explicit calls for n-grams of %r', w)
                rec.step(2 * len(OFFSETS) + 8)
                rec.state((w, mn, mx, bracket))
        rec.outcome('words of %d' % desc['n'])


def word_cases(tier):
    for n in range(0, 7 if tier == 'deep' else 6):
        for e, b in zip((1, 5, 21, 31, 32, 33, 62, 63), (1, 2, 1000, 1 << 31, 2000000, (1 << 32) - 1, 4294967291, 64)):
            yield {'n': n, 'exps': [e], 'bs': [b]}


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('code-points', lambda: point_cases(tier), points, 'all 1,112,064 code points as one-character n-grams, four configurations, called directly and through a word', block=4),
        Suite('strings', lambda: string_cases(tier), strings, 'all strings up to 5 (thorough 6) characters over 11 encoding-boundary characters; all exponents 1..63 and 150 bucket numbers (reduced for the longest)', block=1),
        Suite('lengths', lambda: length_cases(tier), lengths, 'n-gram lengths 0..319 and up to 65537 (thorough 2^20+1)', block=2),
        Suite('long-words', lambda: long_cases(tier), long_words, 'words of 5..69 characters and around powers of two up to 262144 (thorough 2^20), 5 character kinds, 2-3 ranges, 6 configurations', block=1),
        Suite('words', lambda: word_cases(tier), words, 'all words up to 5 (thorough 6) characters, 3 ranges, 8 configurations, 12 offsets up to 2^62', block=1),
    ]
