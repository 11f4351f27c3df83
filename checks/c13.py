"""C13: every access path to a quantized storage gives the same vectors."""
import itertools
import os

import numpy as np

from mc import dom, ref
from mc.engine import DEEPER, Suite, Violation, need, scratch
from finalfusion.storage import QuantizedArray

LEVEL = 'model_checking'
ASSUMPTIONS = ['the oracle concatenates centroids, multiplies with the projection and scales with the norm in float64; vectors are compared up to 1e-5']
TOL = 1e-5
SENT = -321.5


def same(got, want, what):
    need(type(got) is np.ndarray or isinstance(got, np.ndarray), '%s: %s', what, type(got).__name__)
    dom.close(got, want, what, TOL)


def rejects(fn, what, excs=(IndexError, )):
    try:
        got = fn()
    except excs:
        return
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation('%s raised %r, expected %s' % (what, exc, excs[0].__name__))
    raise Violation('%s returned %s, expected %s' % (what, str(got)[:200], excs[0].__name__))


def slices(n, tier='quick'):
    ends = [None] + list(range(-n - 1, n + 2))
    steps = [None, 1, 2, 3, -1, -2]
    for a, b in itertools.product(ends, ends):
        for c in steps:
            yield slice(a, b, c)


def few_slices(n):
    return [slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(None, None, 2), slice(1, 3), slice(-1, None, -2), slice(2, 1), slice(0, 100), slice(-2, None)]


def out_layouts(shape):
    a = np.full(shape, SENT, dtype=np.float32)
    yield 'C', a, a
    if len(shape) > 1:
        b = np.full(shape[::-1], SENT, dtype=np.float32)
        yield 'F', b.T, b
    c = np.full(shape[:-1] + (shape[-1] * 2 + 1, ), SENT, dtype=np.float32)
    yield 'strided', c[..., 1::2][..., :shape[-1]], c
    d = np.full(shape, SENT, dtype=np.float32)
    yield 'reversed', d[..., ::-1], d
    e = np.full(shape, SENT, dtype=np.float64)
    yield 'float64', e, e
    if len(shape) > 1:
        f = np.full((shape[0] * 2, ) + shape[1:], SENT, dtype=np.float32)
        yield 'every second row', f[::2], f


def with_out(s, key, want, what, rec):
    for name, o, base in out_layouts(want.shape):
        got = s.embedding(key, o)
        need(got is o or np.shares_memory(got, o) or want.size == 0, '%s with %s output: the output array was not returned', what, name)
        same(o, want, '%s with %s output' % (what, name))
        same(got, want, '%s with %s output, returned' % (what, name))
        o[...] = SENT
        need(bool(np.all(base == SENT)), '%s with %s output: memory outside the output was changed', what, name)
        rec.step()


def check_view(s, rows, what, rec, deep):
    """s represents exactly rows"""
    n, d = rows.shape
    need(isinstance(s, QuantizedArray), '%s: type %s', what, type(s).__name__)
    need(tuple(s.shape) == (n, d) and len(s) == n, '%s: shape %s, length %d, expected %s', what, s.shape, len(s), rows.shape)
    same(np.asarray(s), rows, what + ' as array')
    it = list(s)
    need(len(it) == n, '%s: iteration gives %d rows', what, len(it))
    for i, r in enumerate(it):
        same(r, rows[i], '%s: row %d of the iteration' % (what, i))
    for i in range(-n, n):
        same(s[i], rows[i], '%s[%d]' % (what, i))
    if n:
        need(all(a.dtype.newbyteorder('=') == np.float32 for a in (np.asarray(s), s[0])), '%s: dtype %s', what, s[0].dtype)
    rejects(lambda: s[n], '%s[%d]' % (what, n))
    rejects(lambda: s[-n - 1], '%s[%d]' % (what, -n - 1))
    rec.step(3 + 3 * n)
    if not deep:
        return
    for i in range(-n, n):
        for key in (np.int64(i), np.int32(i), np.int8(i)) + ((np.uint8(i), np.uint64(i)) if i >= 0 else ()):
            same(s[key], rows[i], '%s[%s(%d)]' % (what, type(key).__name__, i))
        same(s.embedding(i), rows[i], '%s.embedding(%d)' % (what, i))
        with_out(s, i, rows[i], '%s.embedding(%d)' % (what, i), rec)
    for i in (n, n + 1, n + 255, 1 << 40, -n - 1, -n - 2, -(1 << 40)):
        rejects(lambda: s[i], '%s[%d]' % (what, i))
        rejects(lambda: s.embedding(i), '%s.embedding(%d)' % (what, i))
        rejects(lambda: s[[i]], '%s[[%d]]' % (what, i))
        rejects(lambda: s[np.array([0, i]) if n else np.array([i])], '%s[array with %d]' % (what, i))
    for k in range(0, 3):
        for t in itertools.product(range(-n, n), repeat=k):
            key = list(t)
            want = rows[np.array(key, dtype=np.int64)].reshape(k, d)
            same(s[key], want, '%s[%s]' % (what, key))
            arr = np.array(key, dtype=np.int64)
            same(s[arr], want, '%s[array %s]' % (what, key))
            rec.step(2)
            if k == 2 and t[0] <= t[1] or k < 2:
                same(s.embedding(key), want, '%s.embedding(%s)' % (what, key))
                with_out(s, key if sum(t) % 2 else arr, want, '%s.embedding(%s)' % (what, key), rec)
    for shape in ((1, 1), (2, 2), (2, 3), (3, 1), (0, 2), (2, 0), (2, 1, 2)):
        if n == 0 and 0 not in shape:
            continue
        arr = (np.arange(int(np.prod(shape))) * 3 % max(1, n)).reshape(shape)
        for a in (arr, arr - n if n else arr, np.asfortranarray(arr), arr.astype(np.uint8), arr.astype('>i2'), np.repeat(arr, 2, -1)[..., ::2]):
            want = rows[a] if n else np.zeros(shape + (d, ))
            same(s[a], want, '%s[array of shape %s]' % (what, shape))
            with_out(s, a, want, '%s.embedding(array of shape %s)' % (what, shape), rec)
    for mask in itertools.product((False, True), repeat=n):
        arr = np.array(mask, dtype=bool)
        same(s[arr], rows[arr], '%s[mask %s]' % (what, mask))
        rec.step()
        if n:
            same(s[list(mask)], rows[arr], '%s[list of booleans %s]' % (what, mask))
            if sum(mask) % 2:
                with_out(s, arr, rows[arr], '%s.embedding(mask %s)' % (what, mask), rec)
    for dt in (np.float32, np.float64, np.float16, None):
        a = np.asarray(s, dtype=dt) if dt else np.array(s)
        need((a.dtype if dt else a.dtype.newbyteorder('=')) == (dt or np.float32), '%s: conversion to %s gives %s', what, dt, a.dtype)
        if dt is not np.float16:
            same(a, rows, '%s converted to %s' % (what, dt))
    if n:
        same(np.add(s, 1), rows + 1, '%s + 1' % what)
    rejects(lambda: s[None], '%s[None]' % what, (TypeError, ))


def access(desc, rec):
    m = dom.model_storage(desc['s'], desc['rows'])
    s = dom.impl_storage(m, desc['s'][6])
    if desc.get('via'):
        path = os.path.join(scratch(), 'q.fifu')
        s.write(path)
        s = dom.load_quantized_array(path, desc['via'] == 'mmap')
    rows = m.rows64()
    n = desc['rows']
    rec.state(m.key() + (desc['s'][6], desc.get('via')))
    check_view(s, rows, 's', rec, True)
    for sl in slices(n):
        want = rows[sl]
        what = 's[%s:%s:%s]' % (sl.start, sl.stop, sl.step)
        v = s[sl]
        check_view(v, want, what, rec, False)
        same(s.embedding(sl), want, 's.embedding(%s)' % sl)
        if sl.step in (None, 2, -1):
            with_out(s, sl, want, 's.embedding(%s)' % sl, rec)
        rec.state((m.key(), sl.start, sl.stop, sl.step))
        rec.outcome('%d rows' % len(want))
    # chains of slices
    for chain in itertools.product(few_slices(n), repeat=desc['depth']):
        v, want = s, rows
        for sl in chain:
            v, want = v[sl], want[sl]
        check_view(v, want, 's' + ''.join('[%s:%s:%s]' % (x.start, x.stop, x.step) for x in chain), rec, False)
    v, want = s, rows
    for sl in (slice(1, None), slice(None, None, -1)):
        v, want = v[sl], want[sl]
    check_view(v, want, 's[1:][::-1]', rec, True)
    # the views did not change the storage
    check_view(s, rows, 's afterwards', rec, False)


def access_cases(tier):
    shapes = [(1, 1, 2), (1, 3, 3), (2, 1, 2), (2, 2, 5), (3, 1, 3), (2, 1, 256), (4, 2, 1)]
    for q, sub, c in shapes:
        for p, nn in itertools.product((0, 1), (0, 1)):
            for rows in (0, 1, 2, 3, 5) + ((7, ) if tier == 'deep' else ()):
                for lay in ('C', 'F', 'rs', 'cs', 'neg', 'un', 'ro', 'mm', 'be') if rows == 3 or tier == 'deep' and rows else ('C', ):
                    depth = 3 if rows == 3 and (lay == 'C' or tier == 'deep') else 2
                    yield {'s': ['pq', q, sub, c, p, nn, lay, 'nice'], 'rows': rows, 'depth': depth}
                for via in ('eager', 'mmap'):
                    if rows:
                        yield {'s': ['pq', q, sub, c, p, nn, 'C', 'nice'], 'rows': rows, 'depth': 2, 'via': via}


def degenerate_cases(tier):
    for p in (0, 'eye', 'zero', 'one', 'minus', 'nice'):
        for nn in (0, 'zero', 'one', 'minus', 'pos'):
            for vals in ('nice', 'zero', 'one', 'minus', 'int'):
                if vals == 'nice' or (p in (0, 'eye') and nn in (0, 'one')):
                    for via in (None, 'eager', 'mmap'):
                        yield {'s': ['pq', 2, 2, 3, p, nn, 'C', vals], 'rows': 3, 'depth': 1, 'via': via}
                        yield {'s': ['pq', 1, 1, 3, p, nn, 'C', vals], 'rows': 2, 'depth': 1, 'via': via}


def big(desc, rec):
    """all 256 codes and many rows"""
    m = dom.model_storage(desc['s'], desc['rows'])
    codes = (np.arange(m.codes.size) * 37 % desc['s'][3]).astype(np.uint8).reshape(m.codes.shape)
    m = ref.Pq(m.quantizers, codes, m.projection, m.norms)
    s = dom.impl_storage(m)
    rows = m.rows64()
    same(np.asarray(s), rows, 'array')
    for i in range(desc['rows']) if desc['rows'] < 1000 else sorted({0, 1, desc['rows'] - 1, desc['rows'] // 2} | {j + o for k in range(8, 20) for j in (1 << k, ) for o in (-1, 0, 1) if j + o < desc['rows']}):
        same(s[i], rows[i], 's[%d]' % i)
        same(s[i - desc['rows']], rows[i], 's[%d]' % (i - desc['rows']))
    same(s[list(range(desc['rows']))[::-1]], rows[::-1], 'reversed list')
    if desc['rows'] < 1000:
        for i, r in enumerate(s):
            same(r, rows[i], 'row %d of the iteration' % i)
    else:
        same(np.stack(list(s)), rows, 'iteration')
        for k in (1 << 12, 1 << 15, 1 << 16, 1 << 17):
            key = np.arange(k + 1) * 7919 % desc['rows']
            same(s[key], rows[key], 'array of %d indices' % len(key))
            same(s.embedding(key), rows[key], 'embedding of %d indices' % len(key))
            with_out(s, key, rows[key], 'embedding of %d indices' % len(key), rec)
            for sl in (slice(k - 3, k + 3), slice(None, k + 1), slice(None, None, -k), slice(-k, None)):
                same(np.asarray(s[sl]), rows[sl], 'slice %s' % sl)
                same(s.embedding(sl), rows[sl], 'embedding(%s)' % sl)
        rec.step(100)
        rec.state(m.key())
        rec.outcome('huge')
        return
    for sl in (slice(100, 300), slice(None, None, 7), slice(-50, None), slice(None, None, -3)):
        check_view(s[sl], rows[sl], 'slice', rec, False)
        same(s.embedding(sl), rows[sl], 'embedding(slice)')
    rec.step(3 * desc['rows'])
    rec.state(m.key())
    rec.outcome('big')


def big_cases(tier):
    for q, sub in ((1, 1), (3, 2), (5, 4)):
        for p, nn in itertools.product((0, 1), (0, 1)):
            for rows in (256, 600):
                yield {'s': ['pq', q, sub, 256, p, nn, 'C', 'nice'], 'rows': rows}
    for q, sub in ((1, 1), (2, 2)):
        for p, nn in itertools.product((0, 1), (0, 1)):
            for rows in (65535, 70000, 131073, 1 << 18) + (((1 << 20) + 1, ) if tier == 'deep' else ()):
                yield {'s': ['pq', q, sub, 251, p, nn, 'C', 'nice'], 'rows': rows}


def magnitude_cases(tier):
    for k in range(-15, 16):
        for p, nn in itertools.product((0, 1), (0, 1)):
            mag = 'nice*1e%d' % (k // 2 if p else k)
            yield {'s': ['pq', 2, 2, 5, p, nn, 'C', mag], 'rows': 2, 'depth': 1}


def reconstruct(desc, rec):
    """the quantizer itself: batches of codes of any dimension, with and without output"""
    m = dom.model_storage(desc['s'], 4)
    s = dom.impl_storage(m, desc['s'][6])
    pq = s.quantizer
    plain = ref.Pq(m.quantizers, m.codes, m.projection, None)
    q, c = m.quantizers.shape[:2]
    for shape in ((), (1, ), (2, ), (0, ), (2, 3), (1, 2, 2)):
        codes = (np.arange(int(np.prod(shape + (q, )))) * 5 % c).astype(np.uint8).reshape(shape + (q, ))
        want = ref.Pq(m.quantizers, codes.reshape(-1, q), m.projection, None).rows64().reshape(shape + (plain.shape[1], ))
        for a in (codes, np.asfortranarray(codes), codes.astype(np.int64)):
            keep = a.copy()
            same(pq.reconstruct(a), want, 'reconstruct of shape %s' % (shape, ))
            for name, o, base in out_layouts(want.shape):
                got = pq.reconstruct(a, out=o)
                same(o, want, 'reconstruct of shape %s into %s output' % (shape, name))
                same(got, want, 'returned reconstruction')
                o[...] = SENT
                need(bool(np.all(base == SENT)), 'memory outside the output was changed')
                rec.step()
            need(np.array_equal(a, keep), 'the codes were changed')
        for bad in ((1, ), (7, plain.shape[1]), (plain.shape[1] + 1, )):
            shp = shape[:-1] + bad if len(bad) == 2 else shape + bad
            if shp == want.shape:
                continue
            rejects(lambda: pq.reconstruct(codes, out=np.zeros(shp, dtype=np.float32)), 'reconstruct into shape %s instead of %s' % (shp, want.shape), (AssertionError, ValueError, IndexError))
    rec.state(m.key())
    rec.outcome('reconstruct')


def reconstruct_cases(tier):
    for q, sub, c in ((1, 1, 2), (1, 3, 3), (2, 2, 5), (3, 1, 3), (4, 2, 256)):
        for p in (0, 1):
            for lay in ('C', 'F', 'neg', 'be', 'un'):
                yield {'s': ['pq', q, sub, c, p, 0, lay, 'nice']}


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('access', lambda: access_cases(tier), access, '7 quantizer shapes, with/without projection and norms, 0..5 (thorough 7) rows, 9 memory layouts, built/loaded/mapped; every integer of 7 types, all lists up to length 2, arrays up to 3 dimensions, all masks, every slice with bounds -n-1..n+1 and 6 steps, chains of 2-3 of 10 slices, 6 output layouts', block=1),
        Suite('big', lambda: big_cases(tier), big, '256 centroids, 600 rows; up to 2^18 (thorough 2^20+1) rows and index arrays of as many', block=1),
        Suite('degenerate', lambda: degenerate_cases(tier), access, 'as access with constant quantizers, constant and identity projections, constant norms', block=1),
        Suite('magnitudes', lambda: magnitude_cases(tier), access, 'as access, with entries of 31 orders of magnitude', block=1),
        Suite('reconstruct', lambda: reconstruct_cases(tier), reconstruct, 'code batches of 0..3 dimensions', block=1),
    ]
