"""C15: word2vec and text formats preserve words and vectors."""
import itertools
import os

import numpy as np

from mc import dom, foreign, ref
from mc.dom import put, read
from mc.engine import Suite, Violation, need, scratch
from finalfusion.compat import load_text, load_text_dims, load_word2vec, write_text, write_text_dims, write_word2vec
from finalfusion.embeddings import Embeddings
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import SimpleVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['words contain no ASCII whitespace (the formats cannot represent it), at least one component per vector, and loaded components are finite with squares inside the single precision range',
               'products of plain vectors and norms are compared exactly, reconstructed vectors and normalised ones up to 1e-5', 'a text file without any row cannot be loaded (it has no dimensions)']
TOL = 1e-5
FORMATS = ['w2v', 'text', 'textdims']
WRITE = {'w2v': write_word2vec, 'text': write_text, 'textdims': write_text_dims}
LOAD = {'w2v': load_word2vec, 'text': load_text, 'textdims': load_text_dims}

# every kind of character the formats can represent, including non-ASCII white space and control characters
CHARS = ['', 'a', '0', '-1.5', 'nan', 'ä', '€', '😀', '\u00a0', '\u3000', '\u2028', '\u2029', '\x85', '\x1c', '\x1d', '\x1e', '\x1f', '\0', '\x01', '\x7f', '\ufeff', '\u200b', '\u1680', '"', '#', '\\n',
         '\ufffd', '\U0010ffff', 'e\u0301', '<a>', '\u0130', '\x08']


def product64(m):
    """exact rows as they have to be stored (float64), and whether single precision equality can be demanded"""
    n = len(m.vocab.words)
    rows = m.storage.rows64()[:n]
    if m.norms is not None:
        with np.errstate(all='ignore'):
            rows = rows * m.norms.astype(np.float64)[:, None]
    exact = m.storage.kind == 'nd' or (m.storage.projection is None and m.storage.norms is None)
    return rows, exact


def same_rows(got, want, exact, what):
    """got: float32 rows parsed from the file"""
    need(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    with np.errstate(all='ignore'):
        w32 = want.astype(np.float32)
    if exact:
        nan = np.isnan(w32)
        need(bool(np.all(np.isnan(got) == nan)), '%s: not-a-number components differ', what)
        a, b = got.copy(), w32.copy()
        a[nan], b[nan] = 0, 0
        dom.same_bits(a, b, what)
    else:
        dom.close(got, want, what, TOL)


def parse_w2v(data, n, dims, what):
    head = b'%d %d\n' % (n, dims)
    need(data.startswith(head), '%s: header %r, expected %r', what, data[:40], head)
    pos = len(head)
    words, rows = [], np.zeros((n, dims), dtype=np.float32)
    for i in range(n):
        end = data.find(b' ', pos)
        need(end >= 0, '%s: file ends in word %d', what, i)
        words.append(data[pos:end])
        raw = data[end + 1:end + 1 + 4 * dims]
        need(len(raw) == 4 * dims, '%s: file ends in row %d', what, i)
        rows[i] = np.frombuffer(raw, dtype='<f4')
        pos = end + 1 + 4 * dims
        need(data[pos:pos + 1] == b'\n', '%s: no newline after row %d', what, i)
        pos += 1
    need(pos == len(data), '%s: %d surplus bytes', what, len(data) - pos)
    return words, rows


def parse_text(data, n, dims, header, sep, what):
    lines = data.split(b'\n')
    need(lines[-1] == b'', '%s: last line is not terminated', what)
    lines.pop()
    if header:
        need(bool(lines) and lines[0] == b'%d %d' % (n, dims), '%s: header %r, expected %d %d', what, lines[:1], n, dims)
        lines.pop(0)
    need(len(lines) == n, '%s: %d rows, expected %d', what, len(lines), n)
    words, rows = [], np.zeros((n, dims), dtype=np.float32)
    for i, line in enumerate(lines):
        word, s, rest = line.partition(sep)
        need(s == sep, '%s: no separator in line %r', what, line[:80])
        words.append(word)
        comps = rest.split(b' ')
        need(len(comps) == dims, '%s: %d components in line %r, expected %d', what, len(comps), line[:80], dims)
        for j, c in enumerate(comps):
            try:
                with np.errstate(all='ignore'):
                    rows[i, j] = np.float32(c.decode('ascii'))
            except ValueError:
                raise Violation('%s: component %r of line %r is not a number' % (what, c, line[:80]))
    return words, rows


def check_loaded(e, words, stored, what):
    """e was loaded from a file with the given words (str) and rows (float64)"""
    need(type(e) is Embeddings and type(e.vocab) is SimpleVocab and isinstance(e.storage, NdArray) and isinstance(e.norms, Norms), '%s: types', what)
    need(e.metadata is None, '%s: metadata %r', what, e.metadata)
    if list(e.vocab.words) != words:
        raise Violation('%s: words: %s' % (what, dom.first_diff(list(e.vocab.words), words)))
    need(e.vocab.word_index == {w: i for i, w in enumerate(words)}, '%s: word index', what)
    need(e.storage.shape == stored.shape and len(e.norms) == len(words), '%s: shape %s, %d norms, expected %s', what, e.storage.shape, len(e.norms), stored.shape)
    need(e.storage.dtype == np.float32 and e.norms.dtype == np.float32, '%s: dtype', what)
    mat = np.asarray(e.storage).astype(np.float64)
    norms = np.asarray(e.norms).astype(np.float64)
    want = np.sqrt((stored * stored).sum(1))
    for i, w in enumerate(words):
        if not want[i]:
            need(not mat[i].any() and norms[i] == 0, '%s: zero vector of %r became %s with norm %r', what, w, mat[i], norms[i])
            continue
        need(abs(norms[i] - want[i]) <= TOL * want[i], '%s: norm of %r is %r, expected %r', what, w, norms[i], want[i])
        dom.close(mat[i], stored[i] / want[i], '%s: vector of %r' % (what, w), TOL)
        length = np.sqrt((mat[i] * mat[i]).sum())
        need(abs(length - 1) <= TOL, '%s: vector of %r has length %r', what, w, length)
        dom.close(mat[i] * norms[i], stored[i], '%s: vector times norm of %r' % (what, w), TOL)
    return mat, norms


def write_file(e, fmt, path, sep=None, kind='str'):
    if sep is None:
        WRITE[fmt](dom.file_arg(path, kind, 'w'), e)
    else:
        WRITE[fmt](dom.file_arg(path, kind, 'w'), e, sep)


def check_written(m, e, fmt, path, sep, what):
    data = read(path)
    n, dims = len(m.vocab.words), m.storage.shape[1]
    if fmt == 'w2v':
        words, rows = parse_w2v(data, n, dims, what)
    else:
        words, rows = parse_text(data, n, dims, fmt == 'textdims', (sep or ' ').encode(), what)
    want = [w.encode('utf-8') for w in m.vocab.words]
    if words != want:
        raise Violation('%s: words: %s' % (what, dom.first_diff(words, want)))
    prod, exact = product64(m)
    same_rows(rows, prod, exact, what)
    return rows


def loadable(rows):
    with np.errstate(all='ignore'):
        sq = rows.astype(np.float64)**2
    return bool(np.isfinite(rows).all() and (sq.sum(1) < 1e30).all() and np.all((rows == 0) | (np.abs(rows) > 1e-12)))


def write_load(desc, rec):
    m, e = dom.build(desc)
    if desc.get('via'):
        src = os.path.join(scratch(), 'src.fifu')
        e.write(src)
        e = dom.load_finalfusion(src, desc['via'] == 'mmap')
    path = os.path.join(scratch(), 'out')
    for fmt in FORMATS:
        for sep in ((None, ) if fmt == 'w2v' else (None, ' ', '\t', '  ', ' \t')):
            for kind in dom.FILE_KINDS if sep is None else ('str', ):
                what = '%s file%s' % (fmt, '' if sep is None else ' with separator %r' % sep)
                if os.path.exists(path):
                    os.unlink(path)
                write_file(e, fmt, path, sep, kind)
                rows = check_written(m, e, fmt, path, sep, what)
                dom.check_embeddings(e, m, 'source after writing ' + what, file_check=False)
                rec.step(2)
                rec.state((repr(desc), fmt, sep, kind))
                if fmt == 'text' and not m.vocab.words:
                    continue
                if not loadable(rows):
                    rec.outcome('written only')
                    continue
                got = LOAD[fmt](dom.file_arg(path, kind))
                check_loaded(got, m.vocab.words, rows.astype(np.float64), what + ' loaded')
                rec.outcome('loaded')
                rec.step()
    dom.check_embeddings(e, m, 'source afterwards')


def names(desc, rec):
    m, e = dom.build({'v': ['simple', ['b', 'ä', 'c']], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None})
    with dom.named(desc) as path:
        for fmt in FORMATS:
            for kind in dom.FILE_KINDS:
                write_file(e, fmt, path, None, kind)
                what = '%s file (%s)' % (fmt, kind)
                rows = check_written(m, e, fmt, path, None, what)
                check_loaded(LOAD[fmt](dom.file_arg(path, kind)), m.vocab.words, rows.astype(np.float64), what + ' loaded')
                rec.step(2)
                os.unlink(path)
    rec.state(repr(desc))
    rec.outcome('named')


def write_cases(tier):
    vs = [['simple', []]] + [['simple', [c]] for c in CHARS]
    vs += [['simple', ['x' + c + 'y', c + 'z', 'q' + c]] for c in CHARS if c]
    vs += [['simple', CHARS], ['simple', CHARS[::-1]]]
    for v in vs:
        for n in (None, ['C', 'pos']):
            yield {'v': v, 's': ['nd', 2, 'C', 'nice'], 'n': n, 'm': None}
    base = [['simple', ['b', 'a', 'ä€']], ['fifu', ['ab', 'c'], 1, 2, 2], ['ft', ['ab', 'ü'], 2, 3, 3], ['explicit', ['ab', 'x'], 1, 2, [['<a', 1], ['b€', 0]]], ['fifu', [], 3, 6, 1]]
    for v in base:
        for n in (None, ['C', 'pos'], ['C', 'bits'], ['rs', 'pos'], ['C', 'zero'], ['C', 'ext'], ['be', 'pos']):
            for m in (None, 1):
                for vals in ('nice', 'bits', 'ext', 'zero', 'pos'):
                    for cols in (1, 3, 4):
                        yield {'v': v, 's': ['nd', cols, 'C', vals], 'n': n, 'm': m}
        for lay in dom.LAYOUTS_2D:
            for n in (None, ['C', 'pos']):
                yield {'v': v, 's': ['nd', 3, lay, 'nice'], 'n': n, 'm': 1}
        for s in dom.storage_specs(tier, ('C', 'rs', 'F')):
            if s[0] == 'pq':
                for n in (None, ['C', 'pos']):
                    yield {'v': v, 's': s[:-1] + ['nice'], 'n': n, 'm': None}
        for via in ('eager', 'mmap'):
            for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice'], ['pq', 2, 1, 5, 0, 0, 'C', 'nice']):
                for n in (None, ['C', 'pos']):
                    yield {'v': v, 's': s, 'n': n, 'm': 1, 'via': via}
    if tier != 'quick':
        for v in [x for x in dom.vocab_specs('quick') if not any(c in w for w in dom.gen_words(x[1]) for c in ' \n\t\r\f\v')]:
            for s in (['nd', 3, 'rs', 'nice'], ['nd', 2, 'C', 'bits'], ['pq', 2, 1, 5, 0, 1, 'C', 'nice'], ['pq', 1, 3, 5, 1, 0, 'C', 'nice']):
                for n in (None, ['C', 'pos']):
                    yield {'v': v, 's': s, 'n': n, 'm': 1}
        for a, b in itertools.permutations(CHARS, 2):
            yield {'v': ['simple', [a, b + 'q', a + b + 'r']], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}


# ------------------------------------------------------------------------------------------------------------- loading
VALS = [0.0, 1.0, -1.0, 0.5, 3.0, -1234.5, 1e-6, 7e6, 1 / 3]


def load_values(desc, rec):
    """all rows over a set of values, in every format, w2v with and without newlines"""
    dims, first = desc['dims'], desc['first']
    rows = [[x * float(desc.get('mag', '1')) for x in list(first) + list(t)] for t in itertools.product(VALS, repeat=dims - len(first))]
    words = ['w%d' % i if i % 2 else 'ü%d' % i for i in range(len(rows))]
    mat = np.array(rows, dtype=np.float32).reshape(len(rows), dims)
    bw = [w.encode() for w in words]
    path = os.path.join(scratch(), 'in')
    for name, load, data in (('word2vec', load_word2vec, foreign.w2v(bw, mat)),
                             ('word2vec without newlines', load_word2vec, w2v_plain(bw, mat)),
                             ('text', load_text, foreign.text(bw, mat, False)), ('textdims', load_text_dims, foreign.text(bw, mat, True)),
                             ('text with tabs', load_text, foreign.text(bw, mat, False, b'\t'))):
        put(path, data)
        e = load(path)
        check_loaded(e, words, mat.astype(np.float64), name)
        need(read(path) == data, '%s: the file changed', name)
        rec.step(len(rows))
        for fmt in FORMATS:  # and written back
            out = os.path.join(scratch(), 'back')
            write_file(e, fmt, out)
            got = LOAD[fmt](out)
            check_loaded(got, words, np.asarray(e.storage).astype(np.float64) * np.asarray(e.norms).astype(np.float64)[:, None], '%s written as %s' % (name, fmt))
            rec.step()
    for r in rows:
        rec.state((dims, desc.get('mag'), r))
    rec.outcome('dims %d' % dims)


def w2v_plain(words, mat):
    out = bytearray(b'%d %d\n' % (len(words), mat.shape[1]))
    for w, row in zip(words, mat):
        out += w + b' ' + np.asarray(row, dtype='<f4').tobytes()
    return bytes(out)


def value_cases(tier):
    yield {'dims': 1, 'first': []}
    yield {'dims': 2, 'first': []}
    for k in list(range(-9, 0)) + list(range(1, 9)):
        yield {'dims': 2, 'first': [], 'mag': '1e%d' % k}
    for a in VALS:
        yield {'dims': 3, 'first': [a]}
    if tier != 'quick':
        for a, b in itertools.product(VALS, repeat=2):
            yield {'dims': 5, 'first': [a, b]}


NUMS = ['0', '-0', '1', '+1', '-1', '1.', '.5', '-.5', '1e3', '1E3', '1e+3', '1e-3', '001', '1.0000000001', '0.1', '3.4e5', '16777217', '1_0']
NL = [b'\n', b'\r\n']


def grammar(desc, rec):
    """spellings of numbers, separators and line ends in text files"""
    a, b, s1, s2, nl, trail, last = desc['a'], desc['b'], desc['s1'].encode(), desc['s2'].encode(), desc['nl'].encode(), desc['trail'].encode(), desc['last']
    rows = [[float(a), float(b)], [float(b), float(a)]]
    lines = [x.encode() + s1 + n1.encode() + s2 + n2.encode() + trail for x, n1, n2 in (('wörd', a, b), ('v', b, a))]
    body = nl.join(lines) + (nl if last else b'')
    path = os.path.join(scratch(), 'in')
    stored = np.array(rows, dtype=np.float32).astype(np.float64)
    for load, data in ((load_text, body), (load_text_dims, b'2 2' + nl + body), (load_text_dims, b'2\t2 ' + nl + body)):
        put(path, data)
        check_loaded(load(path), ['wörd', 'v'], stored, 'text %r' % data)
        rec.state(data)
        rec.step()


def grammar_cases(tier):
    for a, b in itertools.product(NUMS[:-1], repeat=2):
        yield {'a': a, 'b': b, 's1': ' ', 's2': ' ', 'nl': '\n', 'trail': '', 'last': True}
    for s1, s2, nl, trail, last in itertools.product([' ', '\t', '  ', ' \t '], [' ', '\t', '   '], ['\n', '\r\n'], ['', ' ', '\t'], (True, False)):
        yield {'a': '-1.5', 'b': '2e-3', 's1': s1, 's2': s2, 'nl': nl, 'trail': trail, 'last': last}


def chars(desc, rec):
    """every code point of a range as a word, in every format"""
    lo, hi = desc['range']
    words = [chr(c) for c in range(lo, hi) if not 0xd800 <= c < 0xe000 and chr(c) not in ' \t\n\r\f\v']
    if not words:
        return
    words = words + [w + 'x' + w for w in words]
    mat = dom.floats(2 * len(words), 'nice').reshape(-1, 2)
    e = Embeddings(NdArray(mat.copy()), SimpleVocab(list(words)))
    path = os.path.join(scratch(), 'out')
    for fmt in FORMATS:
        write_file(e, fmt, path)
        data = read(path)
        got, rows = parse_w2v(data, len(words), 2, fmt) if fmt == 'w2v' else parse_text(data, len(words), 2, fmt == 'textdims', b' ', fmt)
        need([g.decode('utf-8') for g in got] == words, '%s: words written differ', fmt)
        dom.same_bits(rows, mat, fmt)
        l = LOAD[fmt](path)
        if list(l.vocab.words) != words:
            raise Violation('%s: words: %s' % (fmt, dom.first_diff(list(l.vocab.words), words)))
        check_loaded(l, words, mat.astype(np.float64), fmt)
        rec.step(2 * len(words))
    for w in words:
        rec.state(w)
    rec.outcome('range')


def alone(desc, rec):
    """every code point as the first and only, the first and the last word of a file"""
    lo, hi = desc['range']
    path = os.path.join(scratch(), 'out')
    mat = dom.floats(4, 'nice').reshape(2, 2)
    for c in range(lo, hi):
        if 0xd800 <= c < 0xe000 or chr(c) in ' \t\n\r\f\v':
            continue
        w = chr(c)
        for words in ([w], [w + w, 'zz9'], ['zz9', w]):
            enc = [x.encode() for x in words]
            m = mat[:len(words)]
            for fmt in FORMATS:
                want = foreign.w2v(enc, m) if fmt == 'w2v' else foreign.text(enc, m, fmt == 'textdims')
                put(path, want)
                e = LOAD[fmt](path)
                if list(e.vocab.words) != words:
                    raise Violation('%s file with the words %r: loaded as %r' % (fmt, words, list(e.vocab.words)))
                check_loaded(e, words, m.astype(np.float64), fmt)
                rec.step()
        rec.state(w)
    rec.outcome('range')


def alone_cases(tier):
    step = 0x80
    blocks = [(0, 0x800), (0x1680, 0x1700), (0x2000, 0x2100), (0x3000, 0x3080), (0xfe80, 0x10080), (0x10ff80, 0x110000)] if tier == 'quick' else [(0, 0x110000)]
    for a, b in blocks:
        for lo in range(a, b, step):
            if tier == 'quick' or lo < 0x3400 or lo >= 0x1f000 or lo % 0x800 == 0 or 0xf800 <= lo < 0x10100:
                yield {'range': [lo, lo + step]}


def char_cases(tier):
    step = 0x400
    for lo in range(0, 0x3400 if tier == 'quick' else 0x110000, step):
        if tier != 'quick' or True:
            yield {'range': [lo, lo + step]}
    if tier == 'quick':
        for lo in (0xd400, 0xe000, 0xfc00, 0x10000, 0x1f400, 0xe0000, 0x10fc00):
            yield {'range': [lo, lo + step]}


def chains(desc, rec):
    """every sequence of formats: loading and writing again keeps the content"""
    m, e = dom.build(desc['e'])
    prod, _ = product64(m)
    words = m.vocab.words
    path = os.path.join(scratch(), 'chain')
    for fmt in desc['chain']:
        write_file(e, fmt, path)
        e = LOAD[fmt](path)
        os.unlink(path)
        check_loaded(e, words, prod, 'chain %s' % desc['chain'])
        rec.step(2)
        rec.state((repr(desc['e']), fmt))


def chain_cases(tier):
    for v in (['simple', ['b', 'a', '\u00a0', 'ä€']], ['ft', ['ab', 'ü'], 2, 3, 3]):
        for s in (['nd', 3, 'C', 'nice'], ['nd', 2, 'F', 'zero'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice']):
            for n in (None, ['C', 'pos']):
                for chain in itertools.product(FORMATS, repeat=4 if tier == 'quick' else 6):
                    yield {'e': {'v': v, 's': s, 'n': n, 'm': 1}, 'chain': list(chain)}


def large(desc, rec):
    words = dom.gen_words(desc['w'])
    n, dims = len(words), desc['dims']
    mat = dom.floats(n * dims, 'nice').reshape(n, dims)
    norms = dom.floats(n, 'pos', 2)
    m = ref.Emb(ref.Vocab('simple', words), ref.Nd(mat), norms)
    e = Embeddings(NdArray(mat.copy()), SimpleVocab(list(words)), Norms(norms.copy()))
    path = os.path.join(scratch(), 'big')
    for fmt in FORMATS:
        write_file(e, fmt, path)
        rows = check_written(m, e, fmt, path, None, fmt)
        check_loaded(LOAD[fmt](path), words, rows.astype(np.float64), fmt + ' loaded')
        rec.step(n)
    rec.state(repr(desc))
    rec.outcome('large')


def large_cases(tier):
    for k in (1, 9, 10, 11, 99, 100, 1000, 4097, 10000, 32769, 65537) + ((131073, 1 << 18) if tier != 'quick' else ()):
        yield {'w': {'g': 'seq', 'n': k}, 'dims': 3}
    for d in (9, 10, 63, 64, 300, 1023, 1024, 2047, 2048, 5000, 16385, 65537) + ((1 << 18, ) if tier != 'quick' else ()):
        yield {'w': {'g': 'seq', 'n': 4}, 'dims': d}
    for ln in (255, 256, 4096, 8190, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 140000):
        for c in ('x', 'ä', '€'):
            yield {'w': {'g': 'len', 'n': ln, 'c': c}, 'dims': 2}


def modified(m, e, rec, what):
    path = os.path.join(scratch(), 'out')
    for fmt in FORMATS:
        write_file(e, fmt, path)
        rows = check_written(m, e, fmt, path, None, '%s: %s file' % (what, fmt))
        check_loaded(LOAD[fmt](path), m.vocab.words, rows.astype(np.float64), '%s: %s loaded' % (what, fmt))
        dom.check_embeddings(e, m, what, file_check=False)
        rec.step(2)


def suites(tier):
    return [
        Suite('write-load', lambda: write_cases(tier), write_load, '32 characters and word lists, 5 vocabulary types, plain storages in 10 layouts and 5 value classes, quantized storages, norms in 7 forms, eager and memory-mapped sources; 3 formats, 5 separators, 4 kinds of file argument; the source is compared after every write'),
        Suite('modified', lambda: dom.mod_cases(tier), dom.modified(modified), 'every sequence of up to 2 (thorough 3) of 14 modifications of norms, metadata and matrix, written and loaded before, between and after', block=8),
        Suite('values', lambda: value_cases(tier), load_values, 'all rows of 1..3 (thorough 5) components over 9 values (rows of 2: at 18 orders of magnitude) in 5 file variants, each written back in 3 formats', block=1),
        Suite('grammar', lambda: grammar_cases(tier), grammar, 'all pairs of 17 number spellings; all combinations of separators, line ends, trailing white space'),
        Suite('characters', lambda: char_cases(tier), chars, 'every code point up to U+33FF and 7 further ranges (thorough: every code point) as a word', block=1),
        Suite('first-and-last', lambda: alone_cases(tier), alone, 'code points (quick: below U+0800, spaces and separators, U+FE80..U+1007F, the last; thorough: most) as only, first and last word of a file', block=1),
        Suite('names', dom.name_cases, names, '64 file names that shells, tools and libraries treat specially, absolute, relative and in directories, all kinds of file arguments'),
        Suite('chains', lambda: chain_cases(tier), chains, 'all sequences of 4 (thorough 6) formats'),
        Suite('large', lambda: large_cases(tier), large, 'up to 65537 rows (thorough 2^18), 65537 components (2^18), words of 140000 characters', block=1),
    ]
