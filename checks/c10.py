"""C10: similarity and analogy queries return the exact top k."""
import itertools
import os

import numpy as np

from mc import dom, ref
from mc.engine import Suite, Violation, need, scratch
from finalfusion.embeddings import Embeddings
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['the oracle sorts float64 dot products; similarities within 1e-5 are interchangeable, so ties may be answered in any order',
               'vectors are finite and k >= 0; an analogy whose query vector is zero is undefined and left out']

TOL = 1e-5


def check_answer(res, words, sims, skip, k, what, scale=None):
    """words, sims (float64): the known words and their similarity to the query"""
    need(isinstance(res, list), '%s: %r', what, res)
    elig = [i for i, w in enumerate(words) if w not in skip]
    n = min(k, len(elig))
    need(len(res) == n, '%s: %d answers, expected %d: %s', what, len(res), n, res)
    index = {w: i for i, w in enumerate(words)}
    seen, prev = set(), None
    best = sorted((sims[i] for i in elig), reverse=True)[:n]
    scale = max([1.0] + [abs(s) for s in sims]) if scale is None else scale
    for r, exp in zip(res, best):
        need(r.word in index, '%s: %r is not a known word', what, r.word)
        need(r.word not in skip, '%s: skipped word %r in %s', what, r.word, res)
        need(r.word not in seen, '%s: %r twice in %s', what, r.word, res)
        seen.add(r.word)
        own = sims[index[r.word]]
        s = float(r.similarity)
        need(abs(s - own) <= TOL * scale, '%s: similarity of %r is %r, expected %r', what, r.word, s, own)
        need(abs(s - exp) <= TOL * scale, '%s: answers %s, expected similarities %s', what, res, best)
        need(prev is None or s <= prev, '%s: not in descending order: %s', what, res)
        prev = s


VECS = [(0, 0), (1, 0), (0, 1), (-1, 0), (1, 1), (2, -1)]
WORDS = ['a', 'b', 'c', 'd', 'e', 'f']


def subsets(xs):
    for n in range(len(xs) + 1):
        yield from (set(t) for t in itertools.combinations(xs, n))


def tiny(desc, rec):
    """all assignments of vectors to words, all skip sets, all k"""
    n = desc['n']
    for rest in itertools.product(VECS, repeat=max(0, n - len(desc['first']))):
        mat = np.array(list(desc['first']) + list(rest), dtype=np.float32).reshape(n, 2)
        words = WORDS[:n]
        e = Embeddings(NdArray(mat.copy()), SimpleVocab(list(words)))
        for q in ((1, 0), (0, 0), (-1, 2)):
            query = np.array(q, dtype=np.float32)
            sims = [float(np.dot(mat[i].astype(np.float64), q)) for i in range(n)]
            for skip in subsets(words):
                for k in range(0, n + 3):
                    res = e.embedding_similarity(query, k=k, skip=set(skip))
                    check_answer(res, words, sims, skip, k, 'query %s, skip %s, k=%d, vectors %s' % (q, sorted(skip), k, mat.tolist()))
                    rec.step()
            check_answer(e.embedding_similarity(query), words, sims, set(), 10, 'query %s with defaults' % (q, ))
            check_answer(e.embedding_similarity(query, skip={'zz', '', 'b'}), words, sims, {'zz', '', 'b'}, 10, 'query %s skipping unknown words' % (q, ))
            check_answer(e.embedding_similarity(query, 2, {'zz', 'yy', 'xx'}), words, sims, {'zz'}, 2, 'query %s skipping only unknown words' % (q, ))
        for i, w in enumerate(words):
            sims = [float(np.dot(mat[j].astype(np.float64), mat[i])) for j in range(n)]
            for k in list(range(0, n + 2)):
                check_answer(e.word_similarity(w, k=k), words, sims, {w}, k, 'word_similarity(%r, %d), vectors %s' % (w, k, mat.tolist()))
                rec.step()
            check_answer(e.word_similarity(w), words, sims, {w}, 10, 'word_similarity(%r)' % w)
        need(e.word_similarity('zz') is None, 'word_similarity of an unknown word')
        rec.state(mat.tobytes())
    rec.outcome('n=%d' % n)


def tiny_cases(tier):
    yield {'n': 0, 'first': []}
    yield {'n': 1, 'first': []}
    for n in (2, 3, 4) + ((5, ) if tier != 'quick' else ()):
        for t in itertools.product(VECS, repeat=n // 2):
            yield {'n': n, 'first': [list(x) for x in t]}


def analogy_ok(e, m, rows, a, b, c, k, skip, rec):
    words = m.vocab.words
    vs = [ref.lookup64(m, w, rows) for w in (a, b, c)]
    what = 'analogy(%r, %r, %r, k=%s, skip=%s)' % (a, b, c, k, skip)
    kw = {}
    if k is not None:
        kw['k'] = k
    if skip is not None:
        kw['skip'] = set(skip)
    if any(v is not None and v[1] == 0 for v, w in zip(vs, (a, b, c)) if w not in m.vocab.index):
        return
    res = e.analogy(a, b, c, **kw)
    rec.step()
    if any(v is None for v in vs):
        need(res is None, '%s is %r, expected None', what, res)
        rec.outcome('None')
        return
    d = vs[1][0] - vs[0][0] + vs[2][0]
    n = np.sqrt((d * d).sum())
    if n < 1e-4:
        return
    sims = [float(np.dot(rows[i], d / n)) for i in range(len(words))]
    check_answer(res, words, sims, {a, b, c} if skip is None else skip, 1 if k is None else k, what)
    rec.outcome('%d answers' % len(res))


def queries(desc, rec):
    """all storages and vocabularies, known and unknown queries, subword vectors that would win if they were candidates"""
    m, e = dom.build(desc)
    if desc.get('via'):
        path = os.path.join(scratch(), 'e.fifu')
        e.write(path)
        e = dom.load_finalfusion(path, desc['via'] == 'mmap')
    rows = m.storage.rows64()
    words = m.vocab.words
    n = len(words)
    rec.state(repr(desc))
    for q in words + ['zz', 'ab', 'abcab', 'bca', '€x', '']:
        want = ref.lookup64(m, q, rows)
        if want is not None and want[1] == 0 and q not in m.vocab.index:
            continue
        for k in list(range(0, n + 3)) + [None]:
            res = e.word_similarity(q) if k is None else e.word_similarity(q, k=k)
            rec.step()
            if want is None:
                need(res is None, 'word_similarity(%r) is %r', q, res)
                continue
            sims = [float(np.dot(rows[i], want[0])) for i in range(n)]
            check_answer(res, words, sims, {q}, 10 if k is None else k, 'word_similarity(%r, %s)' % (q, k))
        rec.outcome('None' if want is None else 'known' if q in m.vocab.index else 'subwords')
    d = m.storage.shape[1]
    wide = np.zeros((d, 2))
    for qi in range(3):
        q = dom.floats(d, 'nice', 90 + qi)
        wide[:, 1] = q
        sims = [float(np.dot(rows[i], q.astype(np.float64))) for i in range(n)]
        for k in range(0, n + 3):
            for skip in subsets(words[:3]):
                check_answer(e.embedding_similarity(q, k, set(skip)), words, sims, skip, k, 'embedding_similarity(k=%d, skip=%s)' % (k, sorted(skip)))
                rec.step()
            check_answer(e.embedding_similarity(wide[:, 1], k=k), words, sims, set(), k, 'embedding_similarity of a strided float64 query')
    if desc['analogy']:
        pool = words[:4] + ['zz', 'abcab', 'bca']
        for a, b, c in itertools.product(pool, repeat=3):
            for k, skip in ((None, None), (2, None), (n + 2, None), (n, []), (1, []), (n, [words[0]] if words else []), (n + 1, words), (2, ['unknown', b])):
                analogy_ok(e, m, rows, a, b, c, k, skip, rec)


def query_cases(tier):
    w = ['a', 'b€', 'cab', 'd']
    vs = [['simple', w], ['fifu', w, 1, 2, 3], ['ft', w, 2, 3, 5], ['explicit', w, 2, 3, [['<a', 1], ['ab', 0], ['ca', 1], ['abc', 2]]], ['simple', ['a']], ['ft', [], 1, 2, 4],
          ['fifu', ['abcab', 'bca', 'q', 'r', 's', 't', 'u'], 3, 6, 4], ['simple', []]]
    ss = [['nd', 3, lay, 'nice'] for lay in dom.LAYOUTS_2D] + [['nd', 1, 'C', 'nice'], ['nd', 5, 'C', 'nice']]
    ss += [['pq', q, sub, c, p, n, 'C', 'nice'] for (q, sub, c) in ((1, 2, 3), (3, 1, 2), (2, 2, 7)) for p in (0, 1) for n in (0, 1)]
    for v in vs:
        for i, s in enumerate(ss):
            for norms in (None, ['C', 'pos']):
                yield {'v': v, 's': s, 'n': norms, 'm': None, 'analogy': tier != 'quick' or s[0] == 'pq' or s[2] in ('C', 'F', 'mm')}
            if s[-2 if s[0] == 'nd' else 6] == 'C':
                for how in ('eager', 'mmap'):
                    yield {'v': v, 's': s, 'n': None, 'm': None, 'via': how, 'analogy': 0}


def special(desc, rec):
    """words that case folding, normalisation or stripping would confuse: as queries, answers and skipped words"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    words = m.vocab.words
    n = len(words)
    rec.state(repr(desc))
    qv = dom.floats(rows.shape[1], 'nice', 91)
    sq = [float(np.dot(rows[i], qv.astype(np.float64))) for i in range(n)]
    for i, q in enumerate(dom.SPECIAL):
        want = ref.lookup64(m, q, rows)
        if want is not None and q not in m.vocab.index and want[1] < 1e-4:
            continue
        for k in (1, n):
            res = e.word_similarity(q, k=k)
            rec.step()
            if want is None:
                need(res is None, 'word_similarity(%r) is %r', q, res)
                continue
            sims = [float(np.dot(rows[j], want[0])) for j in range(n)]
            check_answer(res, words, sims, {q}, k, 'word_similarity(%r, %s)' % (q, k))
        check_answer(e.embedding_similarity(qv, n, {q}), words, sq, {q}, n, 'embedding_similarity skipping %r' % q)
        rest = set(dom.SPECIAL) - {q}
        check_answer(e.embedding_similarity(qv, 3, set(rest)), words, sq, rest, 3, 'embedding_similarity skipping all but %r' % q)
        a, b = dom.SPECIAL[(i + 1) % len(dom.SPECIAL)], dom.SPECIAL[(i * 7 + 3) % len(dom.SPECIAL)]
        for t in ((q, a, b), (q, words[i % n], words[(i + 5) % n])):
            for k, skip in ((n, None), (2, []), (n, [q])):
                analogy_ok(e, m, rows, *t, k, skip, rec)


def special_cases(tier):
    for v in dom.special_vocabs():
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 7, 1, 1, 'C', 'nice']):
            yield {'v': v, 's': s, 'n': None, 'm': None}


def large(desc, rec):
    """large vocabularies with few distinct similarities (many ties) or none"""
    n, d = desc['n'], 4
    if desc['ties']:
        mat = np.array([VECS[(i * i + i // 7) % len(VECS)] * 2 for i in range(n)], dtype=np.float32)
    else:
        mat = dom.floats(n * d, 'bits', 3).view(np.uint32).astype(np.float64).reshape(n, d) / 2**32 - 0.5
        mat = mat.astype(np.float32)
    words = ['w%d' % i for i in range(n)]
    if desc.get('ft'):  # with subword rows behind the words which would win
        e = Embeddings(NdArray(np.concatenate([mat, 100 * mat[:desc['ft']]])), dom.FastTextVocab(list(words), dom.FastTextIndexer(desc['ft'])))
    else:
        e = Embeddings(NdArray(mat.copy()), SimpleVocab(list(words)))
    query = np.array([1, -2, 0.5, 3], dtype=np.float32)
    sims = (mat.astype(np.float64) @ query.astype(np.float64)).tolist()
    rank = sorted(range(n), key=lambda i: -sims[i])
    ks = {0, 1, 2, 3, 9, 10, 11, n // 2, n - 2, n - 1, n, n + 1, 2 * n, 2 * n + 5}
    skips = (set(), {words[rank[0]]}, {words[i] for i in rank[:10]}, {words[i] for i in rank[-10:]}, {words[i] for i in rank[::2]}, set(words), {'no', 'such'})
    if n > 5000:
        ks, skips = {1, 10, 1025, n + 1}, skips[:3] + skips[4:5]
    for k in sorted(ks):
        for skip in skips:
            check_answer(e.embedding_similarity(query, k, set(skip)), words, sims, skip, k, 'n=%d, k=%d, %d words skipped' % (n, k, len(skip)))
            rec.step()
            rec.state((n, desc['ties'], k, len(skip)))
    check_answer(e.embedding_similarity(query), words, sims, set(), 10, 'n=%d with defaults' % n)
    check_answer(e.embedding_similarity(query, skip=set(skips[1])), words, sims, skips[1], 10, 'n=%d with default k' % n)
    for i in (0, 1, n // 2, n - 1):
        s = (mat.astype(np.float64) @ mat[i].astype(np.float64)).tolist()
        for k in (1, 10, n - 1, n) if n <= 5000 else (3, n):
            check_answer(e.word_similarity(words[i], k), words, s, {words[i]}, k, 'n=%d, word %d, k=%d' % (n, i, k))
        check_answer(e.word_similarity(words[i]), words, s, {words[i]}, 10, 'n=%d, word %d with defaults' % (n, i))
    rec.outcome('n=%d' % n)


def large_cases(tier):
    for n in [5, 6, 7, 8, 12, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 200, 300, 500] + ([1000, 1025, 5000] if tier != 'quick' else [1000]):
        for ties in (0, 1):
            yield {'n': n, 'ties': ties}
    for n in (10000, 32769, 65537, 70000, 131073) + ((1 << 18, 300001, (1 << 20) + 1) if tier != 'quick' else ()):
        yield {'n': n, 'ties': 0}
        yield {'n': n, 'ties': 1, 'ft': 1000}


def magnitudes(desc, rec):
    """vectors and queries of every order of magnitude"""
    m, e = dom.build(desc)
    rows = m.storage.rows64()
    words, d = m.vocab.words, m.storage.shape[1]
    n = len(words)
    lens = np.sqrt((rows * rows).sum(1))
    top = float(lens[:n].max())
    for mag in desc['q']:
        q = dom.floats(d, mag, 90)
        q64 = q.astype(np.float64)
        sims = [float(np.dot(rows[i], q64)) for i in range(n)]
        scale = top * float(np.sqrt((q64 * q64).sum()))
        for k in (1, 2, n, n + 1):
            for skip in (set(), {words[0]}, {words[1], 'zz'}):
                check_answer(e.embedding_similarity(q, k, set(skip)), words, sims, skip, k, 'query of magnitude %s, k=%d, skip=%s' % (mag, k, skip), scale)
                rec.step()
    for w in words + ['abcab', 'bca']:
        v = ref.lookup64(m, w, rows)
        if v is None:
            continue
        sims = [float(np.dot(rows[i], v[0])) for i in range(n)]
        check_answer(e.word_similarity(w, n), words, sims, {w}, n, 'word_similarity(%r)' % w, top * float(np.sqrt((v[0] * v[0]).sum())))
        rec.step()
    for t in itertools.product(words[:3] + ['abcab'], repeat=3):
        vs = [ref.lookup64(m, w, rows) for w in t]
        if None in vs:
            continue
        a = vs[1][0] - vs[0][0] + vs[2][0]
        unit = max(float(np.sqrt((v[0] * v[0]).sum())) for v in vs)
        ln = float(np.sqrt((a * a).sum()))
        if ln < 0.05 * unit:
            continue
        sims = [float(np.dot(rows[i], a / ln)) for i in range(n)]
        check_answer(e.analogy(*t, k=n), words, sims, set(t), n, 'analogy%s' % (t, ), 20 * top)
        rec.step()
    rec.state(repr(desc))
    rec.outcome('magnitude')


def magnitude_cases(tier):
    w = ['a', 'b€', 'cab', 'd', 'e']
    for k in range(-15, 16):
        for v in (['simple', w], ['fifu', w, 1, 2, 3]):
            for s in (['nd', 3, 'C', 'nice*1e%d' % k], ['pq', 2, 2, 7, 0, 0, 'C', 'nice*1e%d' % k]):
                yield {'v': v, 's': s, 'n': None, 'm': None, 'q': ['nice*1e%d' % j for j in range(-15, 16, 3)]}


def modified(m, e, rec, what):
    rows = m.storage.rows64()
    words = m.vocab.words
    n = len(words)
    for q in words + ['zz', 'abab']:
        want = ref.lookup64(m, q, rows)
        if want is None or (q not in m.vocab.index and want[1] < 1e-4):
            continue
        sims = [float(np.dot(rows[i], want[0])) for i in range(n)]
        check_answer(e.word_similarity(q), words, sims, {q}, 10, '%s: word_similarity(%r)' % (what, q))
        rec.step()
    v = dom.floats(rows.shape[1], 'nice', 90)
    sims = [float(np.dot(rows[i], v.astype(np.float64))) for i in range(n)]
    for k in (1, n):
        check_answer(e.embedding_similarity(v, k), words, sims, set(), k, '%s: embedding_similarity(k=%d)' % (what, k))
    analogy_ok(e, m, rows, 'a', 'b', 'cab', n, None, rec)
    analogy_ok(e, m, rows, 'b', 'ab€', 'a', n, [], rec)


def suites(tier):
    return [
        Suite('tiny', lambda: tiny_cases(tier), tiny, 'every assignment of 6 vectors to up to 4 words (thorough 5), 3 queries, every skip set, every k from 0 to n+2', block=1),
        Suite('queries', lambda: query_cases(tier), queries, '8 vocabularies, 24 storages, with/without norms, built/loaded/mapped, all queries, skip sets and k; analogies over all triples of 7 words with 8 (k, skip) choices', block=1),
        Suite('special', lambda: special_cases(tier), special, '12 vocabularies of 51 words that case folding, Unicode normalisation, stripping or parsing confuses with others; each of 102 words as query, skipped word, only candidate and analogy member', block=1),
        Suite('magnitudes', lambda: magnitude_cases(tier), magnitudes, 'vectors of 31 orders of magnitude x queries of 11, similarity, word similarity and analogies', block=1),
        Suite('modified', lambda: dom.mod_cases(tier), dom.modified(modified), 'every sequence of up to 2 (thorough 3) of 14 modifications of norms, metadata and matrix, queries before, between and after', block=8),
        Suite('large', lambda: large_cases(tier), large, '5..1000 (thorough 5000) words with and without ties, 14 k, 7 skip sets; 10000 to 131073 words (thorough 2^20+1) with 4 k and 4 skip sets', block=1),
    ]
