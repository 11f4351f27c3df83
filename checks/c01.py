"""C01: a finalfusion file round trip loses nothing."""
import itertools
import os

from mc import dom, ref
from mc.dom import build, check_embeddings, file_arg, read, FILE_KINDS
from mc.engine import Suite, need, scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['little-endian host', 'metadata restricted to dictionaries the toml library itself round-trips']


def roundtrip(desc, rec, kinds=('str', ), reader_kinds=('str', ), generations=2):
    model, impl = build(desc)
    path = os.path.join(scratch(), 'rt.fifu')
    first = None
    rec.state((model.vocab.key(), model.storage.key(), None if model.norms is None else model.norms.tobytes(), repr(model.meta)))
    for wk in kinds:
        if os.path.exists(path):
            os.unlink(path)
        impl.write(file_arg(path, wk, 'w'))
        rec.step()
        data = read(path)
        if first is None:
            first = data
        need(data == first, 'writing through a %s argument gives different bytes', wk)
        for mmap in (False, True):
            for rk in reader_kinds:
                loaded = dom.load_finalfusion(file_arg(path, rk), mmap=mmap)
                rec.step()
                check_embeddings(loaded, model, 'loaded (%s, mmap=%s)' % (rk, mmap))
                cur = loaded
                for gen in range(generations - 1):
                    p2 = os.path.join(scratch(), 'rt%d.fifu' % (gen + 2))
                    cur.write(p2)
                    rec.step(2)
                    need(read(p2) == data, 'writing the loaded embeddings again (mmap=%s, generation %d) changes the file', mmap, gen + 2)
                    cur = dom.load_finalfusion(p2, mmap)
                del cur, loaded
    check_embeddings(impl, model, 'written embeddings', file_check=False)
    rec.outcome('%s/%s/n%d/m%d' % (model.vocab.kind, model.storage.kind, model.norms is not None, model.meta is not None))


def names(desc, rec):
    with dom.named(desc) as path:
        for d in ({'v': ['simple', ['a', 'b']], 's': ['nd', 2, 'C', 'bits'], 'n': ['C', 'bits'], 'm': 1}, {'v': ['ft', ['ab'], 2, 3, 2], 's': ['pq', 2, 1, 3, 0, 1, 'C', 'bits'], 'n': None, 'm': None}):
            model, impl = build(d)
            for kind in FILE_KINDS:
                impl.write(file_arg(path, kind, 'w'))
                dom.same_file(read(path), dom.expected_file(model, read(path)))
                for mmap in (False, True):
                    check_embeddings(dom.load_finalfusion(file_arg(path, kind), mmap=mmap), model, 'loaded (%s, mmap=%s)' % (kind, mmap))
                    rec.step(2)
                os.unlink(path)
    rec.state(repr(desc))
    rec.outcome('named')


def product_cases(tier):
    sts = list(dom.storage_specs(tier))
    if tier == 'quick':
        # every vocabulary with 9 storages in rotation (all storages are met with every vocabulary kind), and all pairs
        # of a small vocabulary set with all storages
        pick = [s for s in sts if s[0] == 'nd'][1:4] + [s for s in sts if s[0] == 'pq' and s[1:4] in ([2, 2, 5], [1, 1, 1])]
    else:
        pick = sts
    for v in dom.vocab_specs(tier):
        for i, s in enumerate(pick):
            for n in (None, ['C', 'bits']):
                yield {'v': v, 's': s, 'n': n, 'm': None if i % 2 else (i // 2) % len(dom.METAS)}


SMALLV = [['simple', []], ['simple', ['a']], ['simple', ['a', 'bc', '€']], ['fifu', ['a'], 1, 2, 1], ['fifu', [], 3, 6, 2],
          ['ft', ['ab', 'c'], 2, 3, 3], ['explicit', ['a'], 1, 2, [['<a', 1], ['a', 0]]], ['explicit', [], 3, 6, []]]


def small_cases(tier):
    for v in SMALLV:
        for s in dom.storage_specs('thorough'):
            for n in (None, ['C', 'bits'], ['C', 'ext']):
                for m in [None] + list(range(dom.MAIN_METAS if tier == 'quick' else len(dom.METAS))):
                    yield {'v': v, 's': s, 'n': n, 'm': m}
    for v in SMALLV:
        for s in (['nd', 2, 'C', 'bits'], ['pq', 2, 1, 3, 1, 1, 'C', 'bits']):
            for n in (None, ['C', 'bits']):
                for m in range(dom.MAIN_METAS, len(dom.METAS)):
                    yield {'v': v, 's': s, 'n': n, 'm': m}


def arg_cases(tier):
    for v in SMALLV:
        for s in (['nd', 2, 'C', 'bits'], ['pq', 2, 1, 3, 1, 1, 'C', 'bits']):
            for n in (None, ['C', 'bits']):
                for m in (None, 1):
                    yield {'v': v, 's': s, 'n': n, 'm': m}


def layout_cases(tier):
    for v in SMALLV:
        for s in dom.storage_specs('quick', dom.LAYOUTS_2D):
            yield {'v': v, 's': s, 'n': None, 'm': None}
        for lay in dom.LAYOUTS_1D:
            yield {'v': v, 's': ['nd', 2, 'C', 'ext'], 'n': [lay, 'bits'], 'm': None}


LADDER = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000,
          1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]


def size_cases(tier):
    big = LADDER + ([] if tier == 'quick' else [131071, 131072, 131073, 262144, 1 << 20])
    for n in big:
        yield {'v': ['simple', {'g': 'seq', 'n': n}], 's': ['nd', 1, 'C', 'bits'], 'n': ['C', 'bits'], 'm': None}
        yield {'v': ['simple', {'g': 'len', 'n': n, 'c': 'x'}] if n > 1 else ['simple', ['q']], 's': ['nd', 2, 'C', 'bits'], 'n': None, 'm': 1}
        yield {'v': ['simple', ['a', 'b']], 's': ['nd', n, 'C', 'bits'], 'n': None, 'm': None}
        yield {'v': ['explicit', ['a'], 1, 6, {'g': 'seq', 'n': n}], 's': ['nd', 1, 'C', 'bits'], 'n': None, 'm': None}
        yield {'v': ['explicit', ['a'], 1, 6, {'g': 'share', 'n': n}], 's': ['pq', 1, 2, 7, 0, 1, 'C', 'bits'], 'n': None, 'm': None}
        if n > 1:
            yield {'v': ['explicit', ['a'], 1, n, {'g': 'len', 'n': n}], 's': ['nd', 1, 'C', 'bits'], 'n': None, 'm': None}
            yield {'v': ['fifu', {'g': 'len', 'n': n, 'c': '€'}, 2, 3, 4], 's': ['nd', 1, 'C', 'bits'], 'n': None, 'm': None}
        if n:
            yield {'v': ['ft', ['a'], 1, n, n], 's': ['nd', 2, 'C', 'bits'], 'n': None, 'm': None}
            yield {'v': ['ft', {'g': 'seq', 'n': n}, n, n + 3, 2], 's': ['pq', 2, 1, 256, 0, 1, 'C', 'bits'], 'n': ['C', 'bits'], 'm': None}
        for c in 'x', '€':
            yield {'v': ['simple', ['a', 'b']], 's': ['nd', 2, 'C', 'bits'], 'n': ['C', 'bits'], 'm': {'len': n, 'c': c}}
        if n < 5000:
            yield {'v': ['fifu', ['a', 'b'], 3, 6, 2], 's': ['nd', 2, 'C', 'bits'], 'n': None, 'm': {'keys': n}}
        if 0 < n <= 257:
            yield {'v': ['simple', ['a', 'b', 'c']], 's': ['pq', n, 1, 3, 0, 0, 'C', 'bits'], 'n': None, 'm': None}
            yield {'v': ['simple', ['a', 'b', 'c']], 's': ['pq', 1, n, 3, 1, 1, 'C', 'bits'], 'n': None, 'm': None}
        if 0 < n <= 256:
            yield {'v': ['simple', {'g': 'seq', 'n': 300}], 's': ['pq', 2, 1, n, 0, 0, 'C', 'bits'], 'n': None, 'm': None}
    for e in range(1, 17 if tier == 'quick' else 20):
        yield {'v': ['fifu', ['a', 'b'], 3, 6, e], 's': ['nd', 1, 'C', 'bits'], 'n': ['C', 'bits'], 'm': None}
        yield {'v': ['fifu', ['a', 'b'], 3, 6, e], 's': ['pq', 1, 1, 200, 0, 1, 'C', 'bits'], 'n': None, 'm': None}


def big_cases(tier, top=1 << 30):
    """arrays of millions of elements: thresholds above which data might be handled in pieces"""
    for n in (1 << 20, (1 << 22) + 1, (1 << 23) + 7) + ((1 << 24, (1 << 25) + 3, (1 << 26) + 1) if tier != 'quick' else ()):
        if n > top:
            continue
        lays = ['C', 'F', 'be', 'rs', 'neg', 'un'] if n < 1 << 23 or tier != 'quick' and n < 1 << 25 else ['C', 'F']
        for lay in lays:
            yield {'v': ['ft', ['a'], 3, 6, n // 4], 's': ['nd', 4, lay, 'bits'], 'n': None, 'm': None}
        for lay in ('C', 'rs'):
            yield {'v': ['ft', ['a', 'b'], 3, 6, n], 's': ['pq', 1, 1, 251, 0, 1, lay, 'bits'], 'n': None, 'm': None}
        yield {'v': ['simple', ['a', 'b']], 's': ['nd', n // 2, 'C', 'bits'], 'n': ['C', 'bits'], 'm': 1}
        yield {'v': ['simple', ['a', 'b']], 's': ['pq', 3, n // 256, 251, 0, 0, 'C', 'bits'], 'n': None, 'm': 1}
        d = int(n**.5) + 1
        yield {'v': ['simple', ['a', 'b']], 's': ['pq', 1, d, 3, 1, 1, 'C', 'bits'], 'n': None, 'm': 1}
    for n in ((1 << 18) + 1, ) + ((1 << 20, (1 << 21) + 1) if tier != 'quick' else ()):
        for lay in ('C', 'be', 'rs'):
            yield {'v': ['simple', {'g': 'seq', 'n': n}], 's': ['nd', 4, lay, 'bits'], 'n': [lay, 'bits'], 'm': None}


def align_cases(tier):
    """every alignment of every chunk: word and metadata lengths modulo 4 and 8"""
    for wl in range(0, 9):
        for s in (['nd', 1, 'C', 'bits'], ['nd', 3, 'C', 'bits'], ['pq', 1, 1, 1, 0, 0, 'C', 'bits'], ['pq', 3, 1, 2, 1, 1, 'C', 'bits']):
            for m in range(dom.MAIN_METAS):
                for k in (1, 2, 3):
                    yield {'v': ['simple', {'g': 'blen', 'n': wl, 'k': k}], 's': s, 'n': ['C', 'bits'], 'm': m}


def char_cases(tier):
    """every code point as a word and as an n-gram"""
    step = 0x400
    for lo in list(range(0, 0x3400, step)) + [0xd400, 0xe000, 0xfc00, 0x10000, 0x1f400, 0xe0000, 0x10fc00] if tier == 'quick' else range(0, 0x110000, step):
        if 0xd800 <= lo < 0xe000:
            continue
        ws = [chr(c) for c in range(lo, lo + step) if not 0xd800 <= c < 0xe000]
        yield {'v': ['simple', ws], 's': ['nd', 1, 'C', 'bits'], 'n': None, 'm': None}
        yield {'v': ['explicit', ['a' + w for w in ws], 1, 2, [[w, (i * 7) % len(ws)] if len(ws) % 7 else [w, i] for i, w in enumerate(ws)]], 's': ['nd', 1, 'C', 'bits'], 'n': ['C', 'bits'], 'm': None}
        yield {'v': ['fifu', [w + w + w for w in ws], 1, 2, 4], 's': ['pq', 1, 1, 3, 0, 0, 'C', 'bits'], 'n': None, 'm': None}
        yield {'v': ['ft', ['€' + w for w in reversed(ws)], 1, 2, 4], 's': ['nd', 1, 'C', 'bits'], 'n': None, 'm': None}
    for v in dom.special_vocabs():
        yield {'v': v, 's': ['nd', 1, 'C', 'bits'], 'n': ['C', 'bits'], 'm': 10}


DEGENERATE = ['zero', 'one', 'minus', 'negzero', 'nan', 'inf', 'int']


def degenerate_cases(tier):
    """contents that look as if they could be left out or abbreviated"""
    for v in SMALLV:
        for vals in DEGENERATE:
            for m in (None, 0):
                for n in [None] + [['C', x] for x in DEGENERATE]:
                    for cols in (1, 3):
                        yield {'v': v, 's': ['nd', cols, 'C', vals], 'n': n, 'm': m}
        for vals in ['nice'] + DEGENERATE:
            for proj in (0, 1, 'eye', 'zero', 'one', 'minus'):
                for norms in (0, 1, 'zero', 'one', 'minus', 'nan'):
                    for n in (None, ['C', 'one']):
                        yield {'v': v, 's': ['pq', 2, 1, 2, proj, norms, 'C', vals], 'n': n, 'm': None}
                        yield {'v': v, 's': ['pq', 1, 1, 1, proj, norms, 'C', vals], 'n': n, 'm': None}


def modified(m, e, rec, what):
    path = os.path.join(scratch(), 'mod-out.fifu')
    e.write(path)
    for mmap in (False, True):
        check_embeddings(dom.load_finalfusion(path, mmap), m, what)
    check_embeddings(e, m, what + ', the object itself', file_check=False)


def suites(tier):
    from checks import c02
    b = dict(block=16)
    return [
        Suite('components', lambda: small_cases(tier), lambda d, r: roundtrip(d, r),
              'all products of 8 small vocabularies, every storage specification, norms and every metadata table', **b),
        Suite('vocabularies', lambda: product_cases(tier), lambda d, r: roundtrip(d, r),
              'all vocabulary specifications (all kinds, word lists up to 3 words over a 16-word alphabet, all n-gram index '
              'assignments up to 3 n-grams) with storages and norms', **b),
        Suite('arguments', lambda: arg_cases(tier), lambda d, r: roundtrip(d, r, FILE_KINDS, FILE_KINDS, 3),
              'all kinds of file arguments for writer and reader, three generations', block=2),
        Suite('layouts', lambda: layout_cases(tier), lambda d, r: roundtrip(d, r),
              'all array memory layouts and byte orders', **b),
        Suite('alignment', lambda: align_cases(tier), lambda d, r: roundtrip(d, r), 'word lengths 0..8 x metadata lengths: all alignments', **b),
        Suite('degenerate', lambda: degenerate_cases(tier), lambda d, r: roundtrip(d, r), 'constant matrices, norms, quantizers, projections (identity, zero, one, minus one) and quantized norms', **b),
        Suite('modified', lambda: dom.mod_cases(tier), dom.modified(modified), 'every sequence of up to 2 (thorough 3) of 14 modifications of norms, metadata and matrix, written and loaded before, between and after', **b),
        Suite('characters', lambda: char_cases(tier), lambda d, r: roundtrip(d, r), 'every code point up to U+33FF and 7 further ranges (thorough: every code point) as word and as n-gram; words that text processing confuses', block=1),
        Suite('sizes', lambda: size_cases(tier), lambda d, r: roundtrip(d, r),
              'size ladder 0..65537 (thorough: 2^20) around powers of two for words, word length, dimensions, n-grams, buckets, quantizers, metadata', block=1),
        Suite('big', lambda: big_cases(tier), lambda d, r: roundtrip(d, r), 'arrays of 2^20 to 2^23 (thorough 2^26) elements in several layouts', block=1, mem_gb=12, timeout=400),
        Suite('names', dom.name_cases, names, '64 file names that shells, tools and libraries treat specially, absolute, relative and in directories, all kinds of file arguments', **b),
        Suite('sparse', lambda: c02.sparse_cases(tier), c02.sparse, 'memory-mapped chunks around 2^31 and 2^32 bytes', block=1, mem_gb=1000),
    ]
