"""C09: embedding lookup returns exactly the right vector and norm."""
import itertools
import os

import numpy as np

from mc import dom, ref
from mc.engine import Suite, Violation, need, scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['stored vectors and norms of plain storages are compared bit for bit, reconstructed and summed vectors up to 1e-5 relative to a float64 reference',
               'an unknown word whose subword vectors sum to zero has no normalised embedding and is left out']

QUERIES = [''.join(t) for n in range(0, 4) for t in itertools.product(['a', 'b', '€'], repeat=n)] + ['zzzz', 'abab', 'aaaaaaaa', 'ab€ab', '<a', '<>', 'b a']
SENT = -777.25


def outs(d):
    """output arrays of various layouts: (name, array, backing array)"""
    a = np.full(d, SENT, dtype=np.float32)
    yield 'contiguous', a, a
    b = np.full((d, 3), SENT, dtype=np.float32)
    yield 'strided', b[:, 1], b
    c = np.full(d, SENT, dtype=np.float32)
    yield 'reversed', c[::-1], c
    e = np.full((4, d), SENT, dtype=np.float32)
    yield 'row', e[2], e
    f = np.full(d, SENT, dtype=np.float64)
    yield 'float64', f, f


def frozen(base, view, msg, *args):
    """everything outside view still has the sentinel"""
    keep = view.copy()
    view[:] = SENT
    ok = bool(np.all(base == SENT))
    view[:] = keep
    need(ok, msg + ': memory outside the output array was changed', *args)


def check_word(e, m, rows, q, rec, exact):
    d = m.storage.shape[1]
    want = ref.lookup64(m, q, rows)
    known = q in m.vocab.index

    def same(got, what):
        need(isinstance(got, np.ndarray) and got.shape == (d, ), '%s: %s of shape %s', what, type(got).__name__, getattr(got, 'shape', None))
        if known and exact:
            dom.same_bits(got.astype(np.float32) if got.dtype.itemsize == 8 else got, m.storage.array[m.vocab.index[q]], what)
        else:
            dom.close(got, want[0], what, 1e-5)

    def same_norm(got, what):
        if known:
            need(np.float32(got).tobytes() == m.norms[m.vocab.index[q]].tobytes(), '%s: norm %r, expected the stored %r', what, got, m.norms[m.vocab.index[q]])
        else:
            dom.close(got, want[1], what, 1e-5)

    rec.state((m.vocab.key(), m.storage.key(), m.norms is None, q))
    need((q in e) is known, '%r in embeddings is %r', q, q in e)
    dflt = np.arange(d, dtype=np.float32) + 0.5
    dcopy = dflt.copy()
    if want is None:
        need(e.embedding(q) is None, 'embedding(%r) is not None', q)
        need(e.embedding(q, default=dflt) is dflt, 'embedding(%r, default) is not the default', q)
        for name, o, base in outs(d):
            got = e.embedding(q, o)
            need(got is None, 'embedding(%r, out) is not None', q)
            need(bool(np.all(base == SENT)), 'embedding(%r, out): the %s output array was changed', q, name)
            got = e.embedding(q, out=o, default=dflt)
            need(got is o and np.array_equal(o, dflt), 'embedding(%r, %s out, default) is %s', q, name, got)
            frozen(base, o, 'embedding(%r, %s out, default)', q, name)
        try:
            e[q]
        except KeyError:
            pass
        else:
            raise Violation('embeddings[%r] did not raise KeyError' % q)
        rec.outcome('no embedding')
    else:
        if not known and want[1] == 0:
            rec.outcome('zero sum: undefined')
            return
        same(e[q], 'embeddings[%r]' % q)
        same(e.embedding(q), 'embedding(%r)' % q)
        got = e.embedding(q, default=dflt)
        same(got, 'embedding(%r, default)' % q)
        need(got is not dflt, 'default returned')
        for name, o, base in outs(d):
            for kw in ({}, {'default': dflt}):
                o[:] = SENT
                got = e.embedding(q, out=o, **kw)
                need(got is o, 'embedding(%r, %s out) did not return the output array', q, name)
                same(o, 'embedding(%r, %s out)' % (q, name))
                frozen(base, o, 'embedding(%r, %s out)', q, name)
        rec.outcome('known' if known else 'subwords')
    # with norm
    calls = [((), {}), ((), {'default': (dflt, 3.5)})]
    for name, o, base in outs(d):
        calls += [((o, ), {'name': name, 'base': base}), ((o, ), {'default': (dflt, 3.5), 'name': name, 'base': base})]
    for args, kw in calls:
        kw = dict(kw)
        name, base = kw.pop('name', None), kw.pop('base', None)
        what = 'embedding_with_norm(%r%s%s)' % (q, ', %s out' % name if args else '', ', default' if kw else '')
        if args:
            args[0][:] = SENT
        if m.norms is None:
            try:
                got = e.embedding_with_norm(q, *args, **kw)
            except TypeError:
                if args:
                    need(bool(np.all(base == SENT)), '%s: the output array was changed', what)
                continue
            raise Violation('%s without norms returned %r' % (what, got))
        got = e.embedding_with_norm(q, *args, **kw)
        if want is None:
            if not kw:
                need(got is None, '%s is %r', what, got)
                if args:
                    need(bool(np.all(base == SENT)), '%s: the output array was changed', what)
            elif args:
                need(isinstance(got, tuple) and len(got) == 2 and got[0] is args[0] and got[1] == 3.5 and np.array_equal(args[0], dflt), '%s is %r', what, got)
                frozen(base, args[0], what)
            else:
                need(isinstance(got, tuple) and len(got) == 2 and got[0] is dflt and got[1] == 3.5, '%s is %r', what, got)
            continue
        need(isinstance(got, tuple) and len(got) == 2, '%s is %r', what, got)
        same(got[0], what)
        same_norm(got[1], what)
        if args:
            need(got[0] is args[0], '%s did not return the output array', what)
            frozen(base, args[0], what)
    need(np.array_equal(dflt, dcopy), 'the default array was changed')
    rec.step(20)


def lookup(desc, rec):
    m, e = dom.build(desc)
    if desc.get('via'):
        path = os.path.join(scratch(), 'e.fifu')
        e.write(path)
        e = dom.load_finalfusion(path, desc['via'] == 'mmap')
    rows = m.storage.rows64()
    exact = m.storage.kind == 'nd'
    for q in QUERIES + m.vocab.words:
        check_word(e, m, rows, q, rec, exact)
    items = list(e)
    need(len(items) == len(m.vocab.words), 'iteration gives %d items', len(items))
    for i, item in enumerate(items):
        need(len(item) == (2 if m.norms is None else 3) and item[0] == m.vocab.words[i], 'item %d of the iteration: %r', i, item)
        if exact:
            dom.same_bits(item[1], m.storage.array[i], 'vector %d of the iteration' % i)
        else:
            dom.close(item[1], rows[i], 'vector %d of the iteration' % i, 1e-5)
        if m.norms is not None:
            need(np.float32(item[2]).tobytes() == m.norms[i].tobytes(), 'norm %d of the iteration', i)


def lookup_cases(tier):
    wls = [['a'], ['b', 'a', '€'], ['ab', '', 'aab', 'b€']]
    vs = []
    for w in wls:
        vs.append(['simple', w])
        for mn, mx in ((1, 2), (3, 4)):
            vs += [['fifu', w, mn, mx, 2], ['ft', w, mn, mx, 5]]
        vs += [['explicit', w, 1, 3, [['<a', 0], ['a', 1], ['b>', 2], ['€', 1]]], ['explicit', w, 3, 3, [['<a>', 0], ['aab', 0]]], ['explicit', w, 2, 2, []]]
    vs += [['fifu', [], 1, 2, 1], ['simple', []]]
    ss = [['nd', 3, lay, 'nice'] for lay in dom.LAYOUTS_2D] + [['nd', 1, 'C', 'nice'], ['nd', 7, 'C', 'nice'], ['nd', 2, 'C', 'nice']]
    ss += [['pq', q, sub, c, p, n, lay, 'nice'] for (q, sub, c) in ((1, 2, 3), (3, 1, 2), (2, 2, 5)) for p in (0, 1) for n in (0, 1) for lay in ('C', 'F')]
    for v in vs:
        for s in ss:
            for n in (None, ['C', 'pos']) + ((['rs', 'pos'], ['be', 'pos']) if tier != 'quick' else ()):
                yield {'v': v, 's': s, 'n': n, 'm': None}
                if s[-2 if s[0] == 'nd' else 6] == 'C':
                    for how in ('eager', 'mmap'):
                        yield {'v': v, 's': s, 'n': n, 'm': None, 'via': how}


def special(desc, rec):
    m, e = dom.build(desc)
    if desc.get('via'):
        path = os.path.join(scratch(), 'e.fifu')
        e.write(path)
        e = dom.load_finalfusion(path, desc['via'] == 'mmap')
    rows = m.storage.rows64()
    for q in dom.SPECIAL + ['x' + w for w in dom.SPECIAL] + [' ' + w for w in dom.SPECIAL]:
        check_word(e, m, rows, q, rec, m.storage.kind == 'nd')
    need([t[0] for t in e] == m.vocab.words, 'words of the iteration')


def special_cases(tier):
    for v in dom.special_vocabs():
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 7, 1, 1, 'C', 'nice']):
            yield {'v': v, 's': s, 'n': ['C', 'pos'], 'm': None}
            yield {'v': v, 's': s, 'n': None, 'm': None, 'via': 'mmap'}


def bits_cases(tier):
    """known words only: vectors of arbitrary bit patterns come back bit for bit"""
    for n in (1, 3, 257):
        for cols in (1, 2, 300):
            for lay in dom.LAYOUTS_2D:
                for norms in (None, ['C', 'bits'], ['be', 'bits'], ['neg', 'bits'], ['C', 'ext'], ['C', 'zero'], ['C', 'negzero'], ['C', 'nan'], ['C', 'minus'], ['C', 'inf']):
                    yield {'v': ['simple', {'g': 'seq', 'n': n}], 's': ['nd', cols, lay, 'bits'], 'n': norms, 'm': None}


def bits(desc, rec):
    m, e = dom.build(desc)
    d = m.storage.shape[1]
    for i, w in enumerate(m.vocab.words):
        dom.same_bits(e[w], m.storage.array[i], 'vector of %r' % w)
        dom.same_bits(e.embedding(w), m.storage.array[i], 'vector of %r' % w)
        if m.norms is not None:
            v, n = e.embedding_with_norm(w)
            dom.same_bits(v, m.storage.array[i], 'vector of %r' % w)
            need(dom.bits(np.asarray(n).reshape(1)) == dom.bits(m.norms[i:i + 1]), 'norm of %r', w)
        o = np.zeros(d, dtype=np.float32)
        need(e.embedding(w, o) is o, 'out')
        dom.same_bits(o, m.storage.array[i], 'out vector of %r' % w)
        rec.step(4)
    rec.state(repr(desc))
    rec.outcome('bits')


def many(desc, rec):
    """long unknown words: hundreds of n-grams, each counted as often as it occurs"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    for n in (5, 17, 64, 255, 256, 300, 1024, 4097, 33000):
        for q in ('a' * n, 'ab' * n, ''.join('ab€'[i * i % 3] for i in range(n))):
            want = ref.lookup64(m, q, rows)
            if want is None or want[1] == 0:
                continue
            v, norm = e.embedding_with_norm(q)
            tol = 3e-5 * max(1, len(m.vocab.subwords(q)) / 300)  # summed in single precision, in any order
            dom.close(v, want[0], 'embedding of %d characters' % len(q), tol)
            dom.close(norm, want[1], 'norm of %d characters' % len(q), tol)
            dom.close(e[q], want[0], 'embedding of %d characters' % len(q), tol)
            rec.step(3)
            rec.state((repr(desc), q))
    rec.outcome('long')


def many_cases(tier):
    for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice']):
        for v in (['fifu', ['x', 'y'], 3, 6, 8], ['ft', ['x'], 1, 9, 91], ['explicit', ['x', 'y'], 1, 2, [['a', 0], ['aa', 1], ['ab', 1], ['€', 2]]]):
            yield {'v': v, 's': s, 'n': ['C', 'pos'], 'm': None}


def large(desc, rec):
    """vocabularies and matrices beyond 2^16 rows: every known word, unknown words all over the subword matrix"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    n, d = len(m.vocab.words), m.storage.shape[1]
    out = np.zeros((n, d), dtype=np.float32)
    for i, w in enumerate(m.vocab.words):
        got = e[w]
        out[i] = got
        if i % 97 == 0:
            o = np.full(d, 7, dtype=np.float32)
            need(e.embedding(w, o) is o and np.array_equal(o, got), 'embedding(%r, out)', w)
            need(w in e and np.array_equal(e.embedding(w), got), 'embedding(%r)', w)
    dom.close(out, rows[:n], 'known words', 1e-5)
    for i, x in enumerate(e):
        need(x[0] == m.vocab.words[i], 'iteration: word %d', i)
        need(np.array_equal(x[1], out[i]), 'iteration: vector %d', i)
        if m.norms is not None:
            need(x[2] == m.norms[i], 'iteration: norm %d', i)
            need(e.embedding_with_norm(x[0])[1] == m.norms[i], 'norm of %r', x[0])
    need(i == n - 1, 'iteration ends after %d of %d words', i + 1, n)
    rec.step(2 * n)
    for q in ['q%x' % (i * 2654435761 % (1 << 32)) for i in range(400)]:
        want = ref.lookup64(m, q, rows)
        if want is None:
            need(e.embedding(q) is None, 'embedding of %r', q)
            continue
        if want[1] < 1e-3:
            continue
        v, norm = e.embedding_with_norm(q)
        dom.close(v, want[0], 'embedding of %r' % q, 3e-5)
        dom.close(norm, want[1], 'norm of %r' % q, 3e-5)
        rec.step()
    rec.state(repr(desc))
    rec.outcome('large')


def large_cases(tier):
    for v in (['simple', {'g': 'seq', 'n': 70000}], ['fifu', {'g': 'seq', 'n': 3000}, 3, 6, 17], ['ft', {'g': 'seq', 'n': 66000}, 3, 6, 100003], ['explicit', {'g': 'seq', 'n': 300}, 1, 3, {'g': 'seq', 'n': 70000}]):
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 1, 250, 0, 1, 'C', 'nice']):
            yield {'v': v, 's': s, 'n': ['C', 'pos'], 'm': None}
    for d in (1023, 1024, 1025, 4097, 65537) + ((1 << 20, ) if tier != 'quick' else ()):
        yield {'v': ['ft', ['ab', 'c', 'ü'], 2, 3, 5], 's': ['nd', d, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}
    for q, sub in ((255, 1), (256, 2), (300, 1), (2, 1025)):
        yield {'v': ['ft', ['ab', 'c', 'ü'], 2, 3, 5], 's': ['pq', q, sub, 9, 0, 1, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}


MAGS = ['nice*1e%d' % k for k in range(-15, 16) if k]


def magnitudes(desc, rec):
    """vectors of every order of magnitude: nothing depends on an absolute threshold"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    for q in QUERIES[:20] + ['zzzz', 'abab'] + m.vocab.words:
        check_word(e, m, rows, q, rec, m.storage.kind == 'nd')


def magnitude_cases(tier):
    w = ['b', 'a', 'ab€']
    vs = [['simple', w], ['fifu', w, 1, 2, 2], ['ft', w, 3, 4, 5], ['explicit', w, 1, 3, [['<a', 0], ['a', 1], ['b>', 2], ['€', 1]]]]
    for mag in MAGS:
        for v in vs:
            for s in (['nd', 3, 'C', mag], ['pq', 2, 2, 5, 0, 0, 'C', mag], ['pq', 2, 2, 5, 0, 1, 'C', mag]):
                for n in (['C', 'pos'], ['C', mag]):
                    yield {'v': v, 's': s, 'n': n, 'm': None}


def modified(m, e, rec, what):
    rows = m.storage.rows64()
    for q in ('a', 'ab€', 'b', 'cab', 'zz', 'abab', 'ca'):
        try:
            check_word(e, m, rows, q, rec, m.storage.kind == 'nd')
        except Violation as exc:
            raise Violation('%s: %s' % (what, exc))


def suites(tier):
    return [
        Suite('lookup', lambda: lookup_cases(tier), lookup, '23 vocabularies of all kinds, 37 storages (10 matrix layouts, 24 quantized), with and without norms, built, loaded and memory-mapped; 47 queries x all combinations of method, 5 output layouts and default', block=4),
        Suite('special', lambda: special_cases(tier), special, '12 vocabularies of 51 words that case folding, Unicode normalisation, stripping or parsing confuses with others, 2 storages, 306 queries', block=1),
        Suite('modified', lambda: dom.mod_cases(tier), dom.modified(modified), 'every sequence of up to 2 (thorough 3) of 14 modifications of norms, metadata and matrix, all lookups before, between and after', block=8),
        Suite('bits', lambda: bits_cases(tier), bits, 'arbitrary bit patterns, 10 layouts, up to 257 words and 300 columns', block=4),
        Suite('long-words', lambda: many_cases(tier), many, 'unknown words up to 66000 characters', block=1),
        Suite('large', lambda: large_cases(tier), large, 'up to 70000 words, 131072 buckets, 70000 n-grams; up to 65537 (thorough 2^20) dimensions, 300 subquantizers', block=1),
        Suite('magnitudes', lambda: magnitude_cases(tier), magnitudes, '4 vocabularies, 3 storages with entries of 30 orders of magnitude from 1e-15 to 1e15, 25 queries', block=4),
    ]
