"""C14: matrix storage and norms behave like the arrays they wrap."""
import itertools
import os

import numpy as np

from checks.c13 import few_slices, rejects, slices
from mc import dom, ref
from mc.dom import read
from mc.engine import DEEPER, Suite, Violation, need, scratch
from finalfusion.embeddings import Embeddings
from finalfusion.io import ChunkIdentifier, find_chunk
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['plain numpy indexing of a copy is the oracle', 'array indices are integer or boolean']


def show(sl):
    return '[%s:%s:%s]' % (sl.start, sl.stop, sl.step)


def plain(got, want, what):
    need(type(got) is np.ndarray, '%s: type %s, expected a plain array', what, type(got).__name__)
    dom.same_bits(got, want, what)


def check_view(s, rows, cls, what, rec, mutable):
    n = len(rows)
    need(isinstance(s, cls), '%s: type %s', what, type(s).__name__)
    need(tuple(s.shape) == rows.shape and len(s) == n, '%s: shape %s, expected %s', what, s.shape, rows.shape)
    dom.same_bits(np.asarray(s), rows, what)
    items = list(s)
    need(len(items) == n, '%s: iteration gives %d items', what, len(items))
    for i in range(-n, n):
        if cls is NdArray:
            plain(s[i], rows[i], '%s[%d]' % (what, i))
            plain(items[i], rows[i], '%s: item %d' % (what, i))
        else:
            for x in (s[i], items[i]):
                need(np.ndim(x) == 0 and dom.bits(np.asarray(x).reshape(1)) == dom.bits(rows[i % n:i % n + 1]), '%s[%d] is %r', what, i, x)
    rejects(lambda: s[n], '%s[%d]' % (what, n))
    rejects(lambda: s[-n - 1], '%s[%d]' % (what, -n - 1))
    rec.step(2 + 2 * n)


def fancy(s, rows, cls, what, rec):
    n = len(rows)

    def cmp(got, want, w):
        if cls is NdArray:
            plain(got, want, w)
        else:
            need(isinstance(got, np.ndarray), '%s: type %s', w, type(got).__name__)
            dom.same_bits(np.asarray(got), want, w)

    for k in range(0, 4 if n < 4 else 3):
        for t in itertools.product(range(-n, n), repeat=k):
            arr = np.array(t, dtype=np.int64)
            cmp(s[list(t)], rows[arr], '%s[%s]' % (what, list(t)))
            cmp(s[arr], rows[arr], '%s[array %s]' % (what, list(t)))
            rec.step(2)
    for shape in ((1, 1), (2, 2), (2, 3), (0, 2), (2, 1, 2)):
        if n == 0 and 0 not in shape:
            continue
        arr = (np.arange(int(np.prod(shape))) * 3 % max(1, n)).reshape(shape)
        cmp(s[arr], rows[arr] if n else np.zeros(shape + rows.shape[1:], dtype=np.float32), '%s[array of shape %s]' % (what, shape))
        cmp(s[np.asfortranarray(arr).astype(np.uint8)], rows[arr] if n else np.zeros(shape + rows.shape[1:], dtype=np.float32), '%s[uint8 array of shape %s]' % (what, shape))
    for t in itertools.product((False, True), repeat=n):
        mask = np.array(t, dtype=bool)
        cmp(s[mask], rows[mask], '%s[mask %s]' % (what, t))
        cmp(s[list(t)], rows[mask], '%s[list of booleans %s]' % (what, t)) if n else None
    if cls is NdArray and 0 < rows.size <= 6:
        for t in itertools.product((False, True), repeat=rows.size):
            mask = np.array(t, dtype=bool).reshape(rows.shape)
            cmp(s[mask], rows[mask], '%s[mask %s]' % (what, mask.tolist()))
    if cls is NdArray and rows.size:
        c = rows.shape[1]
        every = np.arange(c)
        for key in [(slice(None), 0), (slice(None), -1), (slice(None), [c - 1, 0]), (slice(None, None, -1), slice(None, None, -1)), (slice(1, None), slice(1, None)), (np.arange(n)[::-1], every[:1]), (0, slice(None)), (-1, every[::-1]),
                    ([0, n - 1], [0, c - 1]), (np.arange(n)[:, None], every[None]), Ellipsis, (Ellipsis, 0), (0, Ellipsis), (0, ), (slice(0, 1), ), rows > 0, (slice(None), every % 2 == 0), None, (slice(None), None)]:
            cmp(s[key], rows[key], '%s[%r]' % (what, key))
        for i, j in itertools.product(range(-n, n), range(-c, c)):
            x = s[i, j]
            need(np.ndim(x) == 0 and dom.bits(np.asarray(x).reshape(1)) == dom.bits(rows[i:i + 1 or None, j:j + 1 or None].reshape(1)), '%s[%d, %d] is %r', what, i, j, x)
        rec.step(20 + 4 * n * c)
    for i in range(-n, n):
        for key in (np.int64(i), np.int32(i), np.int8(i)):
            x = s[key]
            if cls is NdArray:
                plain(x, rows[i], '%s[%s(%d)]' % (what, type(key).__name__, i))
            else:
                need(dom.bits(np.asarray(x).reshape(1)) == dom.bits(rows[i % n:i % n + 1]), '%s[%s(%d)]', what, type(key).__name__, i)
    for i in (n, n + 1, 1 << 40, -n - 1, -n - 2, -(1 << 40)):
        rejects(lambda: s[i], '%s[%d]' % (what, i))
        if cls is NdArray and not rows.shape[1]:
            continue
        rejects(lambda: s[[i]], '%s[[%d]]' % (what, i))
        rejects(lambda: s[np.array([i])], '%s[array %d]' % (what, i))


def write_back(v, want, cls, what, rec):
    path = os.path.join(scratch(), 'wb.fifu')
    v.write(path)
    data = read(path)
    part = ('storage', ref.Nd(want)) if cls is NdArray else ('norms', want)
    dom.same_file(data, ref.enc_chunks([part])[0], 'file of ' + what)
    if cls is NdArray:
        dom.same_bits(np.asarray(dom.load_ndarray(path)), want, what + ' reloaded')
        if want.size:
            dom.same_bits(np.asarray(dom.load_ndarray(path, mmap=True)), want, what + ' memory-mapped')
        dom.same_bits(np.asarray(dom.load_storage(path)), want, what + ' reloaded')
    else:
        dom.same_bits(np.asarray(dom.load_norms(path)), want, what + ' reloaded')
    rec.step(3)


def refuses(s, rows, what, path):
    """no way to modify a memory-mapped storage"""
    before = read(path)

    def attempt(name, fn):
        try:
            fn()
        except (ValueError, TypeError, RuntimeError):
            pass
        else:
            raise Violation('%s: %s was accepted' % (what, name))

    def iadd():
        t = s
        t += 1

    def fill(a):
        a[...] = 3

    if rows.size:
        attempt('assignment to a row', lambda: s.__setitem__(0, 1))
        attempt('assignment to an element', lambda: s.__setitem__((0, 0), 1))
        attempt('assignment to a slice', lambda: s.__setitem__(slice(None), 1))
        attempt('modification of a slice', lambda: fill(s[0:1]))
        attempt('modification of a row', lambda: fill(s[0]))
        attempt('modification of a row of the iteration', lambda: fill(next(iter(s))))
        attempt('modification through asarray', lambda: fill(np.asarray(s)))
        attempt('in-place addition', iadd)
        attempt('in-place sort', lambda: s.sort())
        attempt('fill', lambda: s.fill(0))
        attempt('modification of a chain of slices', lambda: fill(s[::-1][:1]))
    need(read(path) == before, '%s: the file changed', what)
    dom.same_bits(np.asarray(s), rows, what)


def ways(path, vals, mmap):
    """all ways to load the matrix of a file"""
    yield 'load_ndarray', dom.load_ndarray(path, mmap=True) if mmap else dom.load_ndarray(path)
    yield 'load_storage', dom.load_storage(path, mmap=True) if mmap else dom.load_storage(path)
    yield 'load_storage by position', dom.load_storage(path, mmap)
    for how in ('load', 'load by keyword', 'chunk'):
        with open(path, 'rb') as f:
            find_chunk(f, [ChunkIdentifier.NdArray])
            if how == 'chunk':
                s = NdArray.mmap_chunk(f) if mmap else NdArray.read_chunk(f)
            elif how == 'load':
                s = NdArray.load(f, True) if mmap else NdArray.load(f)
            else:
                s = NdArray.load(f, mmap=mmap)
        yield how, s
    whole = path + '.whole'
    Embeddings(NdArray(vals.copy()), SimpleVocab(['w%d' % i for i in range(len(vals))])).write(whole)
    yield 'load_finalfusion', (dom.load_finalfusion(whole, mmap=True) if mmap else dom.load_finalfusion(whole)).storage
    yield 'load_finalfusion by position', dom.load_finalfusion(whole, mmap).storage
    yield 'load_storage of the whole file', dom.load_storage(whole, mmap)


def access(desc, rec):
    cls = NdArray if desc['kind'] == 'nd' else Norms
    n = desc['rows']
    vals = dom.floats(n * desc['cols'], 'bits', 2).reshape(n, desc['cols']) if cls is NdArray else dom.floats(n, 'bits', 2)
    how = desc['lay']
    path = os.path.join(scratch(), 'a.fifu')
    if how in ('eager', 'mmap'):
        cls(vals.copy()).write(path)
        s = (dom.load_ndarray(path, how == 'mmap') if cls is NdArray else dom.load_norms(path))
    else:
        s = cls(dom.layout(vals.copy(), how))
    mutable = how not in ('mm', 'ro', 'mmap')
    rec.state(repr(desc))
    check_view(s, vals, cls, 's', rec, mutable)
    fancy(s, vals, cls, 's', rec)
    for sl in slices(n):
        v, want = s[sl], vals[sl]
        check_view(v, want, cls, 's' + show(sl), rec, mutable)
        if want.size:
            need(np.shares_memory(v, s), 's%s does not share memory with the original', show(sl))
        write_back(v, want, cls, 's' + show(sl), rec)
        rec.outcome('%d rows' % len(want))
        rec.state((repr(desc), show(sl)))
    for chain in itertools.product(few_slices(n), repeat=desc['depth']):
        v, want = s, vals
        for sl in chain:
            v, want = v[sl], want[sl]
        what = 's' + ''.join(map(show, chain))
        check_view(v, want, cls, what, rec, mutable)
        if want.size:
            need(np.shares_memory(v, s), '%s does not share memory with the original', what)
        write_back(v, want, cls, what, rec)
        rec.outcome('chain')
    fancy(s[::-1][1:], vals[::-1][1:], cls, 's[::-1][1:]', rec)
    if how == 'mmap':
        refuses(s, vals, 'memory-mapped storage', path)
        for name, other in ways(path, vals, True):
            refuses(other, vals, 'memory-mapped storage of %s' % name, path)
            rec.step()
    if how == 'eager' and cls is NdArray and vals.size:
        for name, other in ways(path, vals, False):
            dom.same_bits(np.asarray(other), vals, name)
            other[-1] = np.float32(3.5)
            need(bool(np.all(np.asarray(other)[-1] == np.float32(3.5))) and dom.same_bits(np.asarray(dom.load_ndarray(path)), vals, 'the file') is None, 'modification of the result of %s', name)
            rec.step()
    dom.same_bits(np.asarray(s), vals, 'the original afterwards')
    if mutable and n and vals.size:
        # shared memory in both directions
        twin = vals.copy()
        for k, sl in enumerate([slice(None), slice(0, 1), slice(None, None, -1), slice(-1, None)]):
            s[sl][...] = np.float32(k + 0.5)
            twin[sl] = np.float32(k + 0.5)
            dom.same_bits(np.asarray(s), twin, 'the original after modifying s%s' % show(sl))
            view = s[sl]
            s[0] = np.float32(k + 7.25)
            twin[0] = np.float32(k + 7.25)
            dom.same_bits(np.asarray(view), twin[sl], 's%s after modifying the original' % show(sl))
        rec.outcome('shared')


def access_cases(tier):
    for rows in (0, 1, 2, 3, 4, 6) + ((5, 8) if tier == 'deep' else ()):
        for cols in (1, 2, 3, 0):
            for lay in dom.LAYOUTS_2D + ['eager', 'mmap']:
                if rows * cols == 0 and lay != 'C':
                    continue
                yield {'kind': 'nd', 'rows': rows, 'cols': cols, 'lay': lay, 'depth': 4 if tier == 'deep' and (rows, cols, lay) == (3, 2, 'C') else 3 if (rows, cols) == (3, 2) or tier == 'deep' and rows == 4 else 2}
        for lay in dom.LAYOUTS_1D + ['eager']:
            if rows == 0 and lay != 'C':
                continue
            yield {'kind': 'norms', 'rows': rows, 'cols': 0, 'lay': lay, 'depth': 3 if rows == 3 else 2}


def numeric(desc, rec):
    """numpy functions see the plain values"""
    vals = dom.floats(12, 'nice').reshape(4, 3)
    path = os.path.join(scratch(), 'n.fifu')
    NdArray(vals.copy()).write(path)
    for s in (NdArray(vals.copy()), NdArray(np.asfortranarray(vals)), dom.load_ndarray(path), dom.load_ndarray(path, True)):
        for name, f in (('dot', lambda a: a.dot(np.float32([1, 2, 3]))), ('sum', lambda a: a.sum(0)), ('times', lambda a: a * 2), ('T', lambda a: a.T), ('max', lambda a: a.max(1)),
                        ('astype', lambda a: a.astype(np.float64)), ('tolist', lambda a: a.tolist()), ('copy', lambda a: a.copy()), ('concatenate', lambda a: np.concatenate([a, a])), ('bytes', lambda a: a.tobytes())):
            got, want = f(s), f(vals)
            need(np.array_equal(np.asarray(got), np.asarray(want)) if not isinstance(want, (list, bytes)) else got == want, '%s of the storage differs', name)
            rec.step()
    nv = dom.floats(5, 'pos')
    for name, f in (('sum', lambda a: a.sum()), ('times', lambda a: a * 2), ('max', lambda a: a.max()), ('tolist', lambda a: a.tolist()), ('reshape', lambda a: np.asarray(a)[:, None])):
        got, want = f(Norms(nv.copy())), f(nv)
        need(np.array_equal(np.asarray(got), np.asarray(want)), '%s of the norms differs', name)
        rec.step()
    need(nv[2] in Norms(nv.copy()) and len(Norms(nv.copy())) == 5, 'norms as a collection')
    rec.state('numeric')


def large(desc, rec):
    rows, cols = desc['rows'], desc['cols']
    vals = dom.floats(rows * cols, 'bits').reshape(rows, cols)
    for lay in dom.LAYOUTS_2D:
        s = NdArray(dom.layout(vals, lay))
        for sl in (slice(None), slice(1, None), slice(None, None, -1), slice(3, -3, 2), slice(-7, None), slice(None, None, 97)):
            v, want = s[sl], vals[sl]
            dom.same_bits(np.asarray(v), want, 's%s' % show(sl))
            write_back(v, want, NdArray, 's%s (%s)' % (show(sl), lay), rec)
            rec.state((repr(desc), lay, show(sl)))
    for lay in dom.LAYOUTS_1D:
        s = Norms(dom.layout(vals[:, 0].copy(), lay))
        for sl in (slice(None), slice(1, None), slice(None, None, -1), slice(3, -3, 2), slice(None, None, 97)):
            write_back(s[sl], vals[:, 0][sl], Norms, 'norms%s (%s)' % (show(sl), lay), rec)
    rec.outcome('large')


def large_cases(tier):
    for rows, cols in ((100, 3), (257, 17), (1000, 5), (3, 5000), (2500, 1), (70000, 1), (66000, 3), (2, 65537), (1 << 18, 1)):
        yield {'rows': rows, 'cols': cols}


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('access', lambda: access_cases(tier), access, '0..4 and 6 (thorough 0..6, 8) rows, 0..3 columns, 12 matrix and 8 norm layouts incl. loaded and memory-mapped; all lists up to length 3, all row and element masks, arrays, tuples of 19 forms; every slice with bounds -n-1..n+1 and 6 steps and all chains of 2-3 (thorough 4) of 10 slices, each written and read back', block=1),
        Suite('numeric', lambda: [0], numeric, 'numpy functions'),
        Suite('large', lambda: large_cases(tier), large, 'matrices up to 2^18 rows or 65537 columns in 10 layouts', block=1),
    ]
