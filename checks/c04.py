"""C04: damaged or truncated files are never silently accepted."""
import itertools
import os
import struct

import numpy as np
import toml

from checks import c01, c03
from mc import dom, foreign, ref
from mc.dom import put
from mc.engine import DEEPER, CaseTimeout, Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec

LEVEL = 'fault_enumeration'
RULE = ('every truncation point of every listed file, every value of every identifying byte, every chunk order up to length 4, '
        'every combination of row lengths; a case is distinct by the damaged bytes and non-trivial because the file differs from the intact one')
ASSUMPTIONS = ['any exception counts as rejection', 'damage to text files inside a number or exactly between rows without a row count is undetectable and excluded']


def attempt(fn):
    """(result, None) or (None, exception)"""
    try:
        return fn(), None
    except CaseTimeout:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return None, exc


def rejected_or_same(fn, same, what, rec):
    got, exc = attempt(fn)
    rec.step()
    if exc is not None:
        rec.outcome('rejected:' + type(exc).__name__)
        return
    try:
        same(got)
    except Violation as v:
        raise Violation('%s: accepted with different content: %s' % (what, v))
    rec.outcome('same content')


def must_reject(fn, what, rec):
    got, exc = attempt(fn)
    rec.step()
    if exc is None:
        raise Violation('%s: accepted: %s' % (what, str(got)[:300]))
    rec.outcome('rejected:' + type(exc).__name__)


# ------------------------------------------------------------------------------------------------ finalfusion prefixes
def model_file(desc):
    v = dom.model_vocab(desc['v'])
    s = dom.model_storage(desc['s'], v.upper())
    n = None if not desc['n'] else dom.floats(len(v.words), 'bits', 3)
    meta = {'a': 'b', 'c': 1} if desc['m'] else None
    model = ref.Emb(v, s, n, meta)
    data, spans = ref.enc_chunks(ref.parts_of(model, b'a = "b"\nc = 1\n' if meta else None))
    return model, data, spans


def prefixes(desc, rec):
    model, data, _ = model_file(desc)
    path = os.path.join(scratch(), 'p.fifu')
    full = dom.load_finalfusion(put(path, data))
    dom.check_embeddings(full, model, 'intact file')
    for cut in range(len(data) - 1, -1, -1):
        with open(path, 'r+b') as f:
            f.truncate(cut)
        rec.state(data[:cut])
        for mmap in (False, True):
            rejected_or_same(lambda: dom.load_finalfusion(path, mmap), lambda e: dom.check_embeddings(e, model, file_check=False),
                             'first %d of %d bytes (mmap=%s)' % (cut, len(data), mmap), rec)


def prefix_cases(tier):
    vs = [['simple', []], ['simple', ['a']], ['simple', ['ab', '€', 'cdefgh']], ['fifu', ['ab', 'c'], 1, 2, 1], ['fifu', [], 3, 6, 1],
          ['ft', ['ab', 'ü'], 2, 3, 2], ['explicit', ['ab'], 1, 2, [['<a', 1], ['b€', 0]]], ['explicit', ['x', 'y'], 2, 2, [['xx', 0]]],
          ['explicit', ['x'], 2, 2, []], ['simple', ['a\0\0\0', '\0']]]
    ss = [['nd', 1, 'C', 'bits'], ['nd', 3, 'C', 'bits'], ['nd', 2, 'C', 'zero'], ['pq', 2, 1, 3, 0, 0, 'C', 'bits'], ['pq', 1, 2, 2, 1, 1, 'C', 'bits'], ['pq', 2, 1, 1, 0, 1, 'C', 'zero']]
    if tier != 'quick':
        vs = list(dom.vocab_specs('quick'))[::2 if tier == 'deep' else 7] + vs
        ss = ss + [['nd', 0, 'C', 'bits'], ['nd', 5, 'C', 'bits'], ['pq', 3, 1, 5, 1, 0, 'C', 'bits'], ['pq', 3, 2, 2, 0, 1, 'C', 'bits']]
    for v in vs:
        for s in ss:
            for n in (0, 1):
                for m in (0, 1):
                    yield {'v': v, 's': s, 'n': n, 'm': m}


def big_prefix_cases(tier):
    """files larger than read buffers, cut around buffer sizes and at chunk ends"""
    yield {'v': ['simple', {'g': 'seq', 'n': 1200}], 's': ['nd', 2, 'C', 'bits'], 'n': 1, 'm': 0}
    yield {'v': ['simple', {'g': 'len', 'n': 20000}], 's': ['nd', 3, 'C', 'bits'], 'n': 1, 'm': 1}
    yield {'v': ['explicit', ['a'], 1, 3, {'g': 'seq', 'n': 900}], 's': ['nd', 1, 'C', 'bits'], 'n': 1, 'm': 0}
    yield {'v': ['ft', ['a'], 1, 3, 3000], 's': ['pq', 3, 1, 200, 0, 1, 'C', 'bits'], 'n': 1, 'm': 0}
    # arrays beyond 2^18 elements
    yield {'v': ['ft', ['a', 'b'], 1, 3, 5000], 's': ['nd', 60, 'C', 'bits'], 'n': 1, 'm': 0, 'far': 1}
    yield {'v': ['ft', ['a', 'b'], 1, 3, 140000], 's': ['nd', 2, 'C', 'bits'], 'n': 0, 'm': 0, 'far': 1}
    yield {'v': ['ft', ['a', 'b'], 1, 3, 140000], 's': ['pq', 2, 1, 3, 0, 1, 'C', 'bits'], 'n': 0, 'm': 0, 'far': 1}
    yield {'v': ['ft', ['a', 'b'], 1, 3, 5000], 's': ['pq', 60, 1, 3, 1, 0, 'C', 'bits'], 'n': 1, 'm': 0, 'far': 1}
    yield {'v': ['simple', {'g': 'seq', 'n': 20000}], 's': ['nd', 1, 'C', 'bits'], 'n': 1, 'm': 0, 'far': 1}
    yield {'v': ['explicit', ['a'], 1, 3, {'g': 'seq', 'n': 20000}], 's': ['nd', 1, 'C', 'bits'], 'n': 1, 'm': 0, 'far': 1}


def far_cuts(size, marks):
    """around the given places, powers of two and multiples of 256 KiB, the last bytes and a grid"""
    cuts = set()
    for b in list(marks) + [1 << k for k in range(12, 32)] + list(range(1 << 18, size, 1 << 18)):
        cuts |= {b - 8, b - 4, b - 1, b, b + 1, b + 4, b + 8}
    cuts |= set(range(size - 20, size)) | set(range(0, size, max(1, size // 61)))
    return sorted((c for c in cuts if 0 <= c < size), reverse=True)


def big_prefixes(desc, rec):
    model, data, spans = model_file(desc)
    path = put(os.path.join(scratch(), 'pb.fifu'), data)
    dom.check_embeddings(dom.load_finalfusion(path), model, 'intact file')
    cuts = set()
    for b in [x for s in spans for x in s[1:]] + [4096 * k for k in range(1, 20)]:
        cuts |= set(range(b - 24, b + 25))
    if desc.get('far'):
        cuts = set(far_cuts(len(data), [x for s in spans for x in s[1:]]))
    else:
        cuts |= set(range(0, len(data), 61))
    for cut in sorted((c for c in cuts if 0 <= c < len(data)), reverse=True):
        with open(path, 'r+b') as f:
            f.truncate(cut)
        rec.state(repr((desc, cut)))
        for mmap in (False, True):
            rejected_or_same(lambda: dom.load_finalfusion(path, mmap), lambda e: dom.check_embeddings(e, model, file_check=False),
                             'first %d of %d bytes (mmap=%s)' % (cut, len(data), mmap), rec)


def loader_prefixes(desc, rec):
    """single-component loaders on every prefix"""
    types = [t for t, _ in desc['seq']]
    parts = [c03.part(t, i) for t, i in desc['seq']]
    data, spans = ref.enc_chunks(parts)
    path = put(os.path.join(scratch(), 'lp.fifu'), data)
    for cut in range(len(data) - 1, -1, -1):
        with open(path, 'r+b') as f:
            f.truncate(cut)
        rec.state(data[:cut])
        for name, fn, wanted in c03.LOADERS:
            hit = next((i for i, t in enumerate(types) if t in wanted), None)
            what = '%s on the first %d bytes of %s' % (name, cut, '+'.join(types))
            if hit is None:
                must_reject(lambda: fn(path), what, rec)
                continue
            mv = c03.META_VALUE[parts[hit][1]] if parts[hit][0] == 'meta' else None

            def same(got):
                if cut < spans[hit][3] - 1 and parts[hit][0] == 'meta':
                    pass
                if parts[hit][0] == 'storage':
                    dom.check_storage(got, parts[hit][1], what, file_check=False)
                else:
                    c03.check_part(got, *parts[hit], what, mv)

            rejected_or_same(lambda: fn(path), same, what, rec)


def loader_prefix_cases(tier):
    for t in c03.TYPES:
        for i in (0, 1, 2):
            yield {'seq': [[t, i]]}
    two = [(t, 0) for t in c03.TYPES]
    for a, b in itertools.product(two, two):
        yield {'seq': [list(a), list(b)]}
    if tier != 'quick':
        for a, b, c in itertools.product(two, repeat=3):
            yield {'seq': [list(a), list(b), list(c)]}
    if tier == 'deep':
        for a, b in itertools.product([(t, i) for t in c03.TYPES for i in (0, 1, 2)], repeat=2):
            yield {'seq': [list(a), list(b)]}


# ---------------------------------------------------------------------------------------------- identifying fields
CONSISTENT = {
    'simple': ['simple', ['a', 'b', 'c']], 'fifu': ['fifu', ['a'], 1, 2, 1], 'ft': ['ft', ['a', 'b'], 1, 2, 1],
    'explicit': ['explicit', ['a', 'b'], 1, 2, [['x', 0]]],
}


def order(desc, rec):
    """every sequence of chunk types; only [meta] vocab storage [norms] is an embeddings file"""
    seq = desc['seq']
    nwords = 3
    for t in seq:
        if t in CONSISTENT:
            nwords = len(CONSISTENT[t][1])
            break
    parts = []
    for t in seq:
        if t in CONSISTENT:
            parts.append(('vocab', dom.model_vocab(CONSISTENT[t])))
        elif t == 'nd':
            parts.append(('storage', dom.model_storage(['nd', 2, 'C', 'bits'], 3)))
        elif t == 'pq':
            parts.append(('storage', dom.model_storage(['pq', 2, 1, 2, 0, 1, 'C', 'bits'], 3)))
        elif t == 'norms':
            parts.append(('norms', dom.floats(nwords, 'bits', 2)))
        else:
            parts.append(('meta', b'a = 1\n'))
    data, _ = ref.enc_chunks(parts)
    path = put(os.path.join(scratch(), 'o.fifu'), data)
    rec.state(data)
    rest = list(seq)
    meta = rest[:1] == ['meta']
    if meta:
        rest = rest[1:]
    ok = len(rest) >= 2 and rest[0] in CONSISTENT and rest[1] in ('nd', 'pq')
    for mmap in (False, True):
        fn = lambda: dom.load_finalfusion(path, mmap)
        if ok and rest[2:] in ([], ['norms']):
            i = 1 if meta else 0
            model = ref.Emb(parts[i][1], parts[i + 1][1], parts[i + 2][1] if rest[2:] else None, {'a': 1} if meta else None)
            e = fn()
            rec.step()
            dom.check_embeddings(e, model, file_check=False)
            rec.outcome('accepted')
        elif ok and rest[2] == 'norms':
            rec.outcome('chunks after the norms: unspecified')
        else:
            must_reject(fn, 'chunk order %s (mmap=%s)' % ('+'.join(seq), mmap), rec)


def order_cases(tier):
    for n in range(0, 7 if tier == 'deep' else 6):
        for seq in itertools.product(c03.TYPES, repeat=n):
            yield {'seq': list(seq)}


IDVALUES = list(range(0, 70)) + [127, 128, 255, 256, 257, 65535, 65536] + [1 << k for k in range(7, 32)] + [(1 << 32) - 1] + [10 << 8, 1 << 8, 10 << 16, 10 << 24, 0x0a01, 0x010a]


def fields(desc, rec):
    """magic, version, type identifiers and chunk identifiers replaced by other values"""
    model, data, spans = model_file(desc)
    path = os.path.join(scratch(), 'f.fifu')
    loaders = {ref.NDARRAY: [lambda: dom.load_storage(path), lambda: dom.load_storage(path, mmap=True), lambda: dom.load_ndarray(path)],
               ref.QUANTIZED: [lambda: dom.load_storage(path), lambda: dom.load_storage(path, mmap=True), lambda: dom.load_quantized_array(path)],
               ref.NORMS: [lambda: dom.load_norms(path)]}

    def bad(pos, new, what, extra=()):
        put(path, data[:pos] + new + data[pos + len(new):])
        rec.state(repr((pos, new)) + repr(desc))
        for mmap in (False, True):
            must_reject(lambda: dom.load_finalfusion(path, mmap), '%s (mmap=%s)' % (what, mmap), rec)
        for fn in extra:
            must_reject(fn, what, rec)

    for i in range(4):
        for b in range(256):
            if b != data[i]:
                bad(i, bytes([b]), 'byte %d of the magic replaced by %d' % (i, b), [lambda: dom.load_vocab(path)] if b < 3 else [])
            if b != data[4 + i]:
                bad(4 + i, bytes([b]), 'byte %d of the version replaced by %d' % (i, b), [lambda: dom.load_vocab(path)] if b < 3 else [])
    for magic in (b'fifu', b'FIFU', b'FiF\0', b'\0\0\0\0', b'ufiF'):
        bad(0, magic, 'magic %r' % magic)
    for id_, start, body, _end in spans:
        tpos = {ref.NDARRAY: [(body + 12, 10)], ref.QUANTIZED: [(body + 28, 1), (body + 32, 10)], ref.NORMS: [(body + 8, 10)]}.get(id_, [])
        for pos, right in tpos:
            assert struct.unpack_from('<I', data, pos)[0] == right
            for val in IDVALUES:
                if val != right:
                    bad(pos, struct.pack('<I', val), 'type identifier of chunk %d replaced by %d' % (id_, val), loaders[id_])
        vocabs, stores = (ref.SIMPLE, ref.BUCKET, ref.FASTTEXT, ref.EXPLICIT), (ref.NDARRAY, ref.QUANTIZED)
        for val in IDVALUES:
            if val == id_ or (id_ in vocabs and val in vocabs) or (id_ in stores and val in stores):
                continue
            bad(start, struct.pack('<I', val), 'identifier of chunk %d replaced by %d' % (id_, val))


def field_cases(tier):
    for v in CONSISTENT.values():
        for s in (['nd', 2, 'C', 'bits'], ['pq', 2, 1, 3, 1, 1, 'C', 'bits'], ['pq', 1, 2, 2, 0, 0, 'C', 'bits']):
            for n, m in ((0, 0), (1, 1)) if tier == 'quick' else itertools.product((0, 1), (0, 1)):
                yield {'v': v, 's': s, 'n': n, 'm': m}


def utf8(desc, rec):
    """all two-byte words (first byte fixed per case) in every vocabulary kind: loaded exactly or rejected"""
    kind, hi, where = desc['kind'], desc['hi'], desc['where']
    path = os.path.join(scratch(), 'u.fifu')
    if kind == 'metadata':
        return meta_utf8(desc, rec)
    for lo in range(256):
        for raw in ([bytes([hi, lo])] if hi is not None else [bytes([lo])]):
            marker = b'~|' if len(raw) == 2 else b'~'
            m = dom.model_vocab(CONSISTENT[kind])
            if where == 'word':
                m = ref.Vocab(m.kind, ['qqq', marker.decode(), 'rrr'], m.min_n, m.max_n, m.buckets, m.ngrams)
            else:
                m = ref.Vocab(m.kind, m.words, m.min_n, m.max_n, m.buckets, [('qqq', 0), (marker.decode(), 1), ('rrr', 2)])
            data = ref.enc_chunks([('vocab', m)])[0]
            pos = data.index(struct.pack('<I', len(raw)) + marker) + 4
            put(path, data[:pos] + raw + data[pos + len(raw):])
            rec.state((kind, where, raw))
            try:
                word = raw.decode('utf-8', 'strict')
            except UnicodeDecodeError:
                must_reject(lambda: dom.load_vocab(path), '%s with the bytes %r' % (where, raw), rec)
                continue
            v = dom.load_vocab(path)
            rec.step()
            got = list(v.words)[1] if where == 'word' else list(v.subword_indexer.ngrams)[1]
            need(got == word, '%s %r loaded as %r', where, word, got)
            rec.outcome('accepted')


def meta_utf8(desc, rec):
    """two arbitrary bytes in a value, a key or a comment of the metadata"""
    tmpl = {'value': b'first = "x"\nkey = "~~"\nlast = 1\n', 'key': b'first = "x"\n"~~" = "key"\nlast = 1\n', 'comment': b'first = "x"\n# ~~\nlast = 1\n'}[desc['where']]
    path = os.path.join(scratch(), 'm.fifu')
    for lo in range(256):
        raw = bytes([lo]) if desc['hi'] is None else bytes([desc['hi'], lo])
        text = tmpl.replace(b'~~', raw)
        put(path, b'FiFu' + struct.pack('<III', 0, 1, 5) + struct.pack('<IQ', 5, len(text)) + text)
        rec.state(('metadata', desc['where'], raw))
        try:
            word = raw.decode('utf-8', 'strict')
        except UnicodeDecodeError:
            must_reject(lambda: dom.load_metadata(path), 'metadata (%s) with the bytes %r' % (desc['where'], raw), rec)
            continue
        try:
            want = toml.loads(text.decode('utf-8'))
        except (ValueError, IndexError, KeyError):
            continue  # not a document of this TOML implementation
        m = dict(dom.load_metadata(path))
        rec.step()
        need(m == want, 'metadata %r loaded as %r', text, m)
        rec.outcome('accepted')


def utf8_cases(tier):
    for where in ('value', 'key', 'comment'):
        for hi in [None] + list(range(256) if tier != 'quick' else list(range(0x20, 256, 12)) + list(range(0xbc, 256))):
            yield {'kind': 'metadata', 'hi': hi, 'where': where}
    for kind in CONSISTENT:
        for where in ('word', 'ngram') if kind == 'explicit' else ('word', ):
            yield {'kind': kind, 'hi': None, 'where': where}
            for hi in range(256) if tier != 'quick' else list(range(0x78, 0x84)) + list(range(0xbc, 256)):
                yield {'kind': kind, 'hi': hi, 'where': where}


# ------------------------------------------------------------------------------------------------ foreign formats
def same_rows(words, rows):
    def same(e):
        need(list(e.vocab.words) == words, 'words %r', list(e.vocab.words)[:5])
        dom.close(np.asarray(e.storage) * np.asarray(e.norms)[:, None], rows, 'vectors', 1e-5)
    return same


def w2v_prefixes(desc, rec):
    words = dom.gen_words(desc['w'])
    m = dom.floats(len(words) * desc['cols'], 'nice').reshape(len(words), desc['cols'])
    data = foreign.w2v([w.encode() for w in words], m)
    path = put(os.path.join(scratch(), 'p.w2v'), data)
    same_rows(words, m)(load_word2vec(path))
    for cut in far_cuts(len(data), [len(data) - 4 * desc['cols']]) if desc.get('far') else range(len(data) - 1, -1, -1):
        with open(path, 'r+b') as f:
            f.truncate(cut)
        rec.state(repr((desc, cut)))
        rejected_or_same(lambda: load_word2vec(path), same_rows(words, m), 'first %d of %d bytes' % (cut, len(data)), rec)


def w2v_cases(tier):
    for w in (['a'], ['a', 'bc'], ['€', 'b', 'ccc'], ['12', '3', '4']):
        for cols in (1, 2, 3, 5, 11):
            yield {'w': w, 'cols': cols}
    yield {'w': {'g': 'seq', 'n': 12}, 'cols': 10}
    yield {'w': {'g': 'seq', 'n': 3}, 'cols': 700}
    yield {'w': {'g': 'len', 'n': 500}, 'cols': 2}
    for n, cols in ((5000, 60), (20000, 3), (3, 100000), (1, 300000)):
        yield {'w': {'g': 'seq', 'n': n}, 'cols': cols, 'far': 1}


def ft_file(desc, **kw):
    words = dom.gen_words(desc['w'])
    rows = len(words) + desc['b']
    m = dom.floats(rows * desc['cols'], 'nice').reshape(rows, desc['cols'])
    data, offs = foreign.fasttext([w.encode() for w in words], m, desc['mn'], desc['mx'], desc['b'], **kw)
    return words, m, data, offs


def ft_same(words, m, desc):
    rows, norms = foreign.ft_loaded(words, m, desc['mn'], desc['mx'], desc['b'])

    def same(e):
        need(list(e.vocab.words) == words, 'words %r', list(e.vocab.words)[:5])
        need(tuple(e.storage.shape) == m.shape, 'shape')
        dom.close(np.asarray(e.storage), rows, 'vectors', 1e-4)
        dom.close(np.asarray(e.norms), norms, 'norms', 1e-4)
    return same


def ft_prefixes(desc, rec):
    words, m, data, _ = ft_file(desc)
    same = ft_same(words, m, desc)
    path = put(os.path.join(scratch(), 'p.ft'), data)
    same(load_fasttext(path))
    for cut in far_cuts(len(data), [len(data) - 4 * m.size, len(data) - 4 * desc['cols']]) if desc.get('far') else range(len(data) - 1, -1, -1):
        with open(path, 'r+b') as f:
            f.truncate(cut)
        rec.state(repr((desc, cut)))
        rejected_or_same(lambda: load_fasttext(path), same, 'first %d of %d bytes' % (cut, len(data)), rec)


def ft_cases(tier):
    for w in ([], ['a'], ['ab', '€'], ['abc', 'd', 'ef']):
        for b in (1, 3):
            for cols in (1, 2, 5):
                yield {'w': w, 'b': b, 'cols': cols, 'mn': 2, 'mx': 3}
    yield {'w': {'g': 'seq', 'n': 5}, 'b': 7, 'cols': 300 if tier != 'quick' else 60, 'mn': 3, 'mx': 6}
    for n, b, cols in ((5, 5000, 60), (3, 140000, 2), (4000, 3, 3), (2, 1, 100000)):
        yield {'w': {'g': 'seq', 'n': n}, 'b': b, 'cols': cols, 'mn': 3, 'mx': 6, 'far': 1}


def ft_fields(desc, rec):
    words, m, data, offs = ft_file(desc)
    same = ft_same(words, m, desc)
    path = os.path.join(scratch(), 'f.ft')
    same(load_fasttext(put(path, data)))

    def bad(new, what):
        put(path, new)
        rec.state(new)
        must_reject(lambda: load_fasttext(path), what, rec)

    for i in range(8):
        for b in range(256):
            if data[i] != b:
                bad(data[:i] + bytes([b]) + data[i + 1:], 'byte %d of magic/version replaced by %d' % (i, b))
    for n in (1, 2, 3, 127, 255, 256, 65536, 1 << 24, (1 << 31) - 1, -1):
        bad(ft_file(desc, n_labels=n)[2], '%d labels' % n)
    for n in (0, 1, 2, 255, 256, 65536, 1 << 31, 1 << 32, 1 << 40, (1 << 63) - 1):
        bad(ft_file(desc, prune=n)[2], 'prune index of size %d' % n)
    for n in range(1, 256):
        bad(ft_file(desc, quant=n)[2], 'quantized matrix flag %d' % n)
    for i in range(len(words)):
        for t in list(range(-128, 0)) + list(range(1, 128)):
            types = [0] * len(words)
            types[i] = t
            bad(ft_file(desc, entry_types=types)[2], 'entry %d of type %d' % (i, t))


def text_ragged(desc, rec):
    """component counts per row; dims: row count in the header (None: plain text)"""
    counts, dims = desc['counts'], desc['dims']
    lines = []
    if dims is not None:
        lines.append('%d %d' % tuple(dims))
    want = []
    for r, c in enumerate(counts):
        vec = [float(v) for v in dom.floats(c, 'nice', r)]
        want.append(vec)
        lines.append(' '.join(['w%d' % r] + [str(np.float32(v)) for v in vec]))
    data = '\n'.join(lines) + ('\n' if desc['nl'] else '')
    path = put(os.path.join(scratch(), 'r.txt'), data.encode())
    rec.state(data.encode())
    fn = (lambda: load_text(path)) if dims is None else (lambda: load_text_dims(path))
    cols = counts[0] if dims is None and counts else (dims or [0, 0])[1]
    rows = len(counts) if dims is None else dims[0]
    if rows < len(counts):
        rec.outcome('surplus rows: unspecified')
        return
    if rows == len(counts) and all(c == cols for c in counts):
        e = fn()
        rec.step()
        same_rows(['w%d' % r for r in range(rows)], np.array(want))(e)
        rec.outcome('accepted')
        return
    must_reject(fn, 'rows with %s components, header %s' % (counts, dims), rec)


def text_cases(tier):
    for n in (1, 2, 3):
        top = 4 if n < 3 or tier != 'quick' else 3
        for counts in itertools.product(range(0, top + 1), repeat=n):
            for nl in (0, 1):
                if counts[0]:
                    yield {'counts': list(counts), 'dims': None, 'nl': nl}
                for cols in range(1, top):
                    for rows in range(1, 5):
                        yield {'counts': list(counts), 'dims': [rows, cols], 'nl': nl}
    for rows in (1, 2, 5):
        yield {'counts': [], 'dims': [rows, 2], 'nl': 1}
    for n in (9, 300, 9000):
        # a short row far from the beginning
        for at in (0, n // 2, n - 1):
            for c in (1, 2):
                counts = [3] * n
                counts[at] = c
                if at:
                    yield {'counts': counts, 'dims': None, 'nl': 1}
                yield {'counts': counts, 'dims': [n, 3], 'nl': 1}
        yield {'counts': [3] * n, 'dims': [n + 1, 3], 'nl': 1}
        yield {'counts': [3] * n, 'dims': [n, 3], 'nl': 1}
        yield {'counts': [3] * n, 'dims': None, 'nl': 0}


def text_bad_values(desc, rec):
    path = os.path.join(scratch(), 'v.txt')
    for dims in (False, True):
        for bad in ('x', '1.0.0', '--1', '1e', '0x10', 'one', '1,5', '\u00bd'):
            for at in range(4):
                cells = ['1.0', '2.0', '3.0', '4.0']
                cells[at] = bad
                t = ('2 2\n' if dims else '') + 'a %s %s\nb %s %s\n' % tuple(cells)
                put(path, t.encode())
                rec.state(t.encode())
                must_reject(lambda: (load_text_dims if dims else load_text)(path), 'component %r' % bad, rec)
    for header in ('', 'x 2', '2', '2 x', '2 2 2', '-1 2', '2 -2', '1.5 2'):
        put(path, (header + '\na 1.0 2.0\nb 3.0 4.0\n').encode())
        rec.state(header.encode())
        must_reject(lambda: load_text_dims(path), 'text header %r' % header, rec)
        put(path, (header + '\n').encode() + foreign.w2v([b'a', b'b'], np.ones((2, 2), dtype=np.float32))[4:])
        must_reject(lambda: load_word2vec(path), 'word2vec header %r' % header, rec)


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('prefixes', lambda: prefix_cases(tier), prefixes, 'every proper prefix of finalfusion files of every vocabulary and storage kind, eager and mapped', block=1),
        Suite('loader-prefixes', lambda: loader_prefix_cases(tier), loader_prefixes, 'every proper prefix of all chunk sequences up to 3 (thorough: pairs also with three contents each), 13 loaders', block=1),
        Suite('big-prefixes', lambda: big_prefix_cases(tier), big_prefixes, 'files of up to 1.2 MB cut around chunk ends, powers of two and multiples of 256 KiB and on a grid', block=1),
        Suite('order', lambda: order_cases(tier), order, 'every sequence of chunk types up to length 5 (thorough 6)', block=16),
        Suite('fields', lambda: field_cases(tier), fields, 'every byte value of magic and version, type and chunk identifiers from a list of 110 values', block=1),
        Suite('utf8', lambda: utf8_cases(tier), utf8, 'all words of one and two bytes, all vocabulary kinds and n-grams', block=1),
        Suite('word2vec-prefixes', lambda: w2v_cases(tier), w2v_prefixes, 'every proper prefix; of files of about 1 MB around powers of two, row ends and on a grid', block=1),
        Suite('fasttext-prefixes', lambda: ft_cases(tier), ft_prefixes, 'every proper prefix; of files of about 1 MB around powers of two, row ends and on a grid', block=1),
        Suite('fasttext-fields', lambda: [{'w': ['ab', 'c'], 'b': 2, 'cols': 2, 'mn': 2, 'mx': 3}, {'w': ['x'], 'b': 1, 'cols': 1, 'mn': 1, 'mx': 1}], ft_fields, 'magic, version, labels, pruning, quantisation, entry types', block=1),
        Suite('text-rows', lambda: text_cases(tier), text_ragged, 'all component counts 0..4 in up to 3 rows, all headers', block=32),
        Suite('text-values', lambda: [0], text_bad_values, 'malformed numbers and headers at every position', block=1),
    ]
