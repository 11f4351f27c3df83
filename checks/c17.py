"""C17: any chain of format conversions keeps the embeddings."""
import itertools
import os
import struct

import numpy as np
import toml

from checks import c15
from mc import cli, dom, foreign, ref
from mc.dom import put, read
from mc.engine import Suite, Violation, need, scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['files are decoded by the reference decoders, not by the library', 'vectors times norms are compared up to 2e-5 of the largest term per step; subword matrices bit for bit unless they were quantized',
               'words can be represented in all formats (no ASCII white space or NUL), at least one word and one component']
FORMATS = ['finalfusion', 'fasttext', 'word2vec', 'textdims', 'text']
TOL = 2e-5


class Content:
    """what a file says: words, vector times norm per word, vocabulary, subword rows"""

    def __init__(self, vocab, prod, sub, scale, meta=None, norms=False, storage=None):
        self.vocab, self.prod, self.sub, self.scale = vocab, prod, sub, scale
        self.meta, self.norms, self.storage = meta, norms, storage


def decode_ft(data, what):
    magic, version = struct.unpack_from('<ii', data)
    need((magic, version) == (foreign.FT_MAGIC, 12), '%s: magic or version', what)
    cfg = dict(zip(foreign.FT_KEYS, struct.unpack_from('<12id', data, 8)))
    pos = 8 + struct.calcsize('<12id')
    n, nw, nl = struct.unpack_from('<iii', data, pos)
    need(nw == n and nl == 0, '%s: counts', what)
    _tok, prune = struct.unpack_from('<qq', data, pos + 12)
    need(prune == -1, '%s: pruned', what)
    pos += 28
    words = []
    for _ in range(n):
        end = data.index(b'\0', pos)
        words.append(data[pos:end].decode('utf-8'))
        need(data[end + 9] == 0, '%s: entry type', what)
        pos = end + 10
    need(data[pos] == 0, '%s: quantized', what)
    rows, cols = struct.unpack_from('<qq', data, pos + 1)
    pos += 17
    need(len(data) - pos >= 4 * rows * cols and rows == n + cfg['buckets'] and cols == cfg['dims'], '%s: matrix of %dx%d', what, rows, cols)
    mat = np.frombuffer(data[pos:pos + 4 * rows * cols], dtype='<f4').reshape(rows, cols)
    v = ref.Vocab('ft', words, cfg['min_n'], cfg['max_n'], cfg['buckets'])
    m64 = mat.astype(np.float64)
    prod = np.zeros((n, cols))
    scale = np.zeros(n)
    for i, w in enumerate(words):
        idx = [i] + [ref.ft_hash(g) % v.buckets + n for g in ref.ngrams(w, v.min_n, v.max_n)]
        prod[i] = sum(m64[j] for j in idx) / len(idx)
        scale[i] = sum(np.abs(m64[j]).max() for j in idx)
    cfg['loss'], cfg['model'] = foreign.FT_LOSS[cfg['loss']], foreign.FT_MODEL[cfg['model']]
    return Content(v, prod, mat[n:], scale, cfg, True)


def decode_fifu(data, what):
    try:
        spans = ref.split_chunks(data)
        parts = {s[0]: ref.dec_chunk(data, s) for s in spans}
    except (ref.FormatError, struct.error, UnicodeDecodeError) as exc:
        raise Violation('%s is not a finalfusion file: %s' % (what, exc))
    v = [parts[i] for i in ref.VOCAB_IDS.values() if i in parts]
    s = [parts[i] for i in (ref.NDARRAY, ref.QUANTIZED) if i in parts]
    need(len(v) == 1 and len(s) == 1, '%s: chunks %s', what, [x[0] for x in spans])
    v, s = v[0], s[0]
    norms = parts.get(ref.NORMS)
    rows = s.rows64()
    n = len(v.words)
    need(len(rows) == v.upper() and (norms is None or len(norms) == n), '%s: inconsistent sizes', what)
    prod = rows[:n] * (1.0 if norms is None else norms.astype(np.float64)[:, None])
    meta = toml.loads(parts[ref.METADATA].decode('utf-8')) if ref.METADATA in parts else None
    sub = (s.array if s.kind == 'nd' else rows)[n:] if v.kind != 'simple' else None
    return Content(v, prod, sub, np.abs(prod).max(1, initial=0), meta, norms is not None, s)


def decode(fmt, data, model, what):
    n, dims = len(model.vocab.words), model.prod.shape[1]
    if fmt == 'finalfusion':
        return decode_fifu(data, what)
    if fmt == 'fasttext':
        return decode_ft(data, what)
    if fmt == 'word2vec':
        words, rows = c15.parse_w2v(data, n, dims, what)
    else:
        words, rows = c15.parse_text(data, n, dims, fmt == 'textdims', b' ', what)
    prod = rows.astype(np.float64)
    return Content(ref.Vocab('simple', [w.decode('utf-8') for w in words]), prod, None, np.abs(prod).max(1, initial=0), None, True)


def compare(got, model, fmt, sub_exact, depth, what):
    if got.vocab.words != model.vocab.words:
        raise Violation('%s: words: %s' % (what, dom.first_diff(got.vocab.words, model.vocab.words)))
    want_vocab = model.vocab if fmt in ('finalfusion', 'fasttext') else ref.Vocab('simple', model.vocab.words)
    need(got.vocab.key() == want_vocab.key(), '%s: vocabulary %s, expected %s', what, got.vocab.key(), want_vocab.key())
    need(got.prod.shape == model.prod.shape, '%s: shape %s', what, got.prod.shape)
    for i, w in enumerate(model.vocab.words):
        bad = np.abs(got.prod[i] - model.prod[i]).max()
        need(bad <= TOL * depth * max(model.scale[i], 1e-30), '%s: vector times norm of %r is %s, expected %s', what, w, got.prod[i], model.prod[i])
    need((got.sub is None) == (want_vocab.kind == 'simple'), '%s: subword matrix presence', what)
    if got.sub is not None:
        if sub_exact:
            dom.same_bits(got.sub, model.sub, what + ': subword matrix')
        else:
            dom.close(got.sub, model.sub, what + ': subword matrix', TOL * depth)


def source(desc):
    """(format, bytes)"""
    f = desc['fmt']
    if f == 'finalfusion':
        m, e = dom.build(desc['e'])
        data = ref.enc_chunks(ref.parts_of(m, toml.dumps(m.meta).encode() if m.meta is not None else None))[0]
        return data
    words = [w.encode() for w in dom.gen_words(desc['w'])]
    d = desc['d']
    if f == 'fasttext':
        return foreign.fasttext(words, dom.floats((len(words) + desc['b']) * d, 'nice').reshape(-1, d), desc['min'], desc['max'], desc['b'], {'epoch': 5, 'loss': 2, 'model': 3, 'sampling_threshold': 0.25}, tail=b'\0' * 17)[0]
    mat = dom.floats(len(words) * d, desc.get('vals', 'nice')).reshape(-1, d)
    if f == 'word2vec':
        return foreign.w2v(words, mat)
    return foreign.text(words, mat, f == 'textdims')


def first_model(desc, data):
    class Shape:
        pass
    if desc['fmt'] in ('finalfusion', 'fasttext'):
        return decode_fifu(data, 'source') if desc['fmt'] == 'finalfusion' else decode_ft(data, 'source')
    s = Shape()
    s.vocab = ref.Vocab('simple', dom.gen_words(desc['w']))
    s.prod = np.zeros((len(s.vocab.words), desc['d']))
    return decode(desc['fmt'], data, s, 'source')


FLAGS = [[], ['--lossy'], ['--mmap'], ['-l', '--mmap']]


def step(fmt, path, data, model, to, depth, trail, rec, full):
    """one conversion in all flag combinations; returns the output or None when it must fail"""
    outs = []
    must_fail = to == 'fasttext' and model.vocab.kind != 'ft'
    what = ' -> '.join(trail + [to])
    for flags in FLAGS if full else FLAGS[:1] + FLAGS[3:]:
        out = os.path.join(scratch(), 'out')
        if len(outs) % 2:
            put(out, b'\xff' * (len(data) * 3 + 5000))  # an existing longer file
        elif os.path.exists(out):
            os.unlink(out)
        r = cli.run('convert', [path, out, '-f', fmt, '-t', to] + flags)
        rec.step()
        need(read(path) == data, '%s: the source file changed', what)
        if must_fail:
            need(not r.ok, '%s: converting a %s vocabulary to fastText succeeded', what, model.vocab.kind)
            rec.outcome('refused')
            continue
        need(r.ok, '%s %s failed: %s', what, flags, r)
        outs.append(read(out))
    if must_fail:
        return None
    for flags, o in zip(FLAGS if full else FLAGS[:1] + FLAGS[3:], outs):
        if o != outs[0]:
            raise Violation('%s: the result differs with %s' % (what, flags))
    return outs[0]


def explore(desc, rec):
    data = source(desc)
    model = first_model(desc, data)
    sub_exact = not (model.storage is not None and model.storage.kind == 'pq')

    def go(fmt, data, model, trail, depth):
        rec.state((fmt, data))
        if depth == desc['depth']:
            return
        path = os.path.join(scratch(), 'in%d' % depth)
        put(path, data)
        for to in FORMATS:
            if depth == 0 and desc['to'] != to:
                continue
            what = ' -> '.join(trail + [to])
            out = step(fmt, path, data, model, to, depth, trail, rec, depth < 2)
            if out is None:
                continue
            got = decode(to, out, model, what)
            compare(got, model, to, sub_exact, depth + 1, what)
            if to == 'finalfusion':
                if fmt == 'finalfusion':
                    need(got.storage.key() == model.storage.key() and got.norms == model.norms and dom.typed(got.meta or {}) == dom.typed(model.meta or {}) and (got.meta is None) == (model.meta is None), '%s: content differs', what)
                    need(out == data or model.meta is not None, '%s: bytes differ', what)
                else:
                    need(got.norms and got.storage.kind == 'nd', '%s: no norms or wrong storage', what)
                    need((got.meta is None) == (fmt != 'fasttext'), '%s: metadata %s', what, got.meta)
                    if fmt == 'fasttext':
                        need(dom.typed(got.meta) == dom.typed(model.meta), '%s: metadata %s, expected %s', what, got.meta, model.meta)
            rec.outcome('%s to %s' % (fmt, to))
            # the errors of the vectors accumulate along the chain: keep comparing with the first file
            nxt = Content(got.vocab, model.prod, got.sub, np.maximum(model.scale, got.scale), got.meta, got.norms, got.storage)
            go(to, out, nxt, trail + [to], depth + 1)

    go(desc['fmt'], data, model, [desc['fmt']], 0)


W = ['b', 'a', '\u00a0x', 'ä€', '😀', 'bab']


def sources():
    for v in (['simple', W], ['fifu', W, 1, 2, 2], ['ft', W, 2, 3, 5], ['explicit', W, 1, 2, [['<a', 1], ['b€', 0], ['ba', 2]]]):
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 1, 4, 1, 1, 'C', 'nice']):
            for n in (None, ['C', 'pos']):
                for m in (None, 4):
                    yield {'fmt': 'finalfusion', 'e': {'v': v, 's': s, 'n': n, 'm': m}}
    yield {'fmt': 'finalfusion', 'e': {'v': ['ft', ['a'], 3, 6, 1], 's': ['nd', 1, 'C', 'nice'], 'n': None, 'm': 0}}
    yield {'fmt': 'finalfusion', 'e': {'v': ['ft', ['ab', ''], 2, 2, 3], 's': ['nd', 2, 'C', 'zero'], 'n': ['C', 'zero'], 'm': None}}
    half = len(dom.SPECIAL) // 2
    for w in (dom.SPECIAL[:half], dom.SPECIAL[half:]):
        yield {'fmt': 'finalfusion', 'e': {'v': ['ft', w, 2, 3, 97], 's': ['nd', 2, 'C', 'nice'], 'n': None, 'm': 5}}
        yield {'fmt': 'finalfusion', 'e': {'v': ['fifu', w, 1, 2, 7], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 5}}
        yield {'fmt': 'finalfusion', 'e': {'v': ['explicit', w[::-1], 1, 4, [[g, i] for i, g in enumerate(dom.SPECIAL)]], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}}
        yield {'fmt': 'fasttext', 'w': w, 'min': 2, 'max': 3, 'b': 97, 'd': 2}
        for f in ('word2vec', 'text', 'textdims'):
            yield {'fmt': f, 'w': w, 'd': 2}
    for d in (1, 3):
        yield {'fmt': 'fasttext', 'w': W, 'min': 2, 'max': 3, 'b': 7, 'd': d}
        yield {'fmt': 'fasttext', 'w': ['abc'], 'min': 3, 'max': 6, 'b': 1, 'd': d}
        for f in ('word2vec', 'text', 'textdims'):
            yield {'fmt': f, 'w': W, 'd': d}
            yield {'fmt': f, 'w': W, 'd': d, 'vals': 'zero'}


    for k in (-12, -6, -3, 3, 6, 12):
        mag = 'nice*1e%d' % k
        yield {'fmt': 'finalfusion', 'e': {'v': ['ft', W, 2, 3, 5], 's': ['nd', 3, 'C', mag], 'n': None, 'm': None}}
        yield {'fmt': 'finalfusion', 'e': {'v': ['simple', W], 's': ['pq', 2, 1, 4, 0, 1, 'C', mag], 'n': ['C', 'pos'], 'm': None}}
        for f in ('word2vec', 'text', 'textdims'):
            yield {'fmt': f, 'w': W, 'd': 3, 'vals': mag}
    # words that look like numbers or like the line of dimensions
    for w in (['2', '1'], ['1', '2', '3'], ['3', '1', '-0.5'], ['1', 'nan', '1e5'], ['3']):
        for d in (1, 2, 3):
            yield {'fmt': 'finalfusion', 'e': {'v': ['ft', w, 2, 3, 2], 's': ['nd', d, 'C', 'int'], 'n': None, 'm': None}}
            for f in ('word2vec', 'text', 'textdims'):
                yield {'fmt': f, 'w': w, 'd': d, 'vals': 'int'}


def explore_cases(tier):
    for s in sources():
        for to in FORMATS:
            yield dict(s, to=to, depth=4 if tier == 'quick' else 6)


def large_cases(tier):
    for n, d in ((5000, 3), (70000, 2), (3, 5000)) + (((1 << 18, 1), (2, 65537)) if tier != 'quick' else ()):
        w = {'g': 'seq', 'n': n}
        srcs = [{'fmt': f, 'w': w, 'd': d} for f in ('word2vec', 'text', 'textdims')]
        srcs.append({'fmt': 'finalfusion', 'e': {'v': ['simple', w], 's': ['nd', d, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 5}})
        if n <= 5000:
            srcs.append({'fmt': 'fasttext', 'w': w, 'min': 3, 'max': 4, 'b': 3000, 'd': d})
            srcs.append({'fmt': 'finalfusion', 'e': {'v': ['ft', w, 3, 4, 3000], 's': ['nd', d, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None}})
            srcs.append({'fmt': 'finalfusion', 'e': {'v': ['fifu', w, 3, 4, 12], 's': ['pq', d, 1, 250, 0, 1, 'C', 'nice'] if d < 256 else ['nd', d, 'C', 'nice'], 'n': None, 'm': None}})
        for s in srcs:
            for to in FORMATS:
                yield dict(s, to=to, depth=1)


def options(desc, rec):
    """defaults, spellings of the options, in-place conversion, unusable invocations"""
    src = {'fmt': desc['fmt'], 'w': W, 'd': 3} if desc['fmt'] in ('word2vec', 'text', 'textdims') else {'fmt': 'fasttext', 'w': W, 'min': 2, 'max': 3, 'b': 7, 'd': 3} if desc['fmt'] == 'fasttext' else \
        {'fmt': 'finalfusion', 'e': {'v': ['ft', W, 2, 3, 5], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 1}}
    data = source(src)
    model = first_model(src, data)
    path, out = os.path.join(scratch(), 'o-in'), os.path.join(scratch(), 'o-out')
    put(path, data)
    to = desc['to']
    r = cli.run('convert', [path, out, '-f', desc['fmt'], '-t', to])
    rec.step()
    need(r.ok or (to == 'fasttext' and model.vocab.kind != 'ft'), 'conversion failed: %s', r)
    if not r.ok:
        rec.outcome('refused')
        return
    want = read(out)
    f = desc['fmt']
    spellings = [['--from', f, '--to', to, path, out], ['--from=' + f, path, '--to=' + to, out], ['-f' + f, '-t' + to, path, out], [path, out, '--lossy', '-f', f, '-t', to], ['-l', path, '--mmap', out, '-f', f, '-t', to]]
    if f == 'word2vec':
        spellings.append(['-t', to, path, out])
    if to == 'finalfusion':
        spellings.append(['-f', f, path, out])
    if (f, to) == ('word2vec', 'finalfusion'):
        spellings.append([path, out])
    for args in spellings:
        put(out, b'x' * 100000)
        r = cli.run('convert', args)
        need(r.ok, '%s failed: %s', args, r)
        if read(out) != want:
            raise Violation('%s: different result' % args)
        rec.step()
        rec.state(repr(args))
    same = os.path.join(scratch(), 'same')
    put(same, data)
    r = cli.run('convert', [same, same, '-f', f, '-t', to])
    need(r.ok and read(same) == want, 'in-place conversion: %s', r)
    for args in ([os.path.join(scratch(), 'missing'), out, '-f', f, '-t', to], [path, out, '-f', 'nope', '-t', to], [path, out, '-f', f, '-t', 'nope'], [path], [], [path, os.path.join(scratch(), 'no', 'such'), '-f', f, '-t', to]):
        r = cli.run('convert', args)
        need(not r.ok, '%s succeeded', args)
        need(read(path) == data, '%s: the source changed', args)
        rec.step()
    rec.outcome('options')


def names(desc, rec):
    """the names of the files do not decide how they are read or written"""
    data = foreign.w2v([w.encode('utf-8') for w in W], dom.floats(len(W) * 2, 'nice').reshape(len(W), 2))
    plain = os.path.join(scratch(), 'plain')
    ref_in, ref_out = os.path.join(scratch(), 'n-in'), os.path.join(scratch(), 'n-out')
    put(ref_in, data)
    with dom.named(desc) as path:
        for to in ('finalfusion', 'word2vec', 'text', 'textdims'):
            r = cli.run('convert', [ref_in, ref_out, '-t', to])
            need(r.ok, 'conversion to %s failed: %s', to, r)
            put(path, data)
            for args, out in (([path, plain], plain), ([ref_in, path], path)):
                r = cli.run('convert', args + ['-t', to])
                need(r.ok and read(out) == read(ref_out), '%s to %s: %s', args, to, r)
                rec.step(2)
            r = cli.run('convert', [path, plain, '-f', to, '-t', 'text'])
            need(r.ok, '%s from %s to text: %s', path, to, r)
            r2 = cli.run('convert', [ref_out, ref_in + '2', '-f', to, '-t', 'text'])
            need(r2.ok and read(plain) == read(ref_in + '2'), '%s from %s to text: differs from an ordinary name', path, to)
            os.unlink(path)
    rec.state(repr(desc))
    rec.outcome('named')


def option_cases(tier):
    for f, t in itertools.product(FORMATS, FORMATS):
        yield {'fmt': f, 'to': t}


def suites(tier):
    return [
        Suite('chains', lambda: explore_cases(tier), explore, 'all conversion sequences up to length 4 (thorough 6) over the 5 formats from 154 sources incl. vectors of 7 orders of magnitude; every step with the lossy and memory-map options in all combinations (from the third step on both or none)', block=1),
        Suite('large', lambda: large_cases(tier), explore, 'all 25 format pairs with 5000 and 70000 (thorough 2^18) words or 5000 (thorough 65537) components', block=1),
        Suite('names', lambda: (d for d in dom.name_cases() if not (d['how'] == 'relative' and d['name'].startswith('-'))), names, '64 file names that shells, tools and libraries treat specially as source and target, absolute, relative and in directories'),
        Suite('options', lambda: option_cases(tier), options, 'all 25 format pairs with every spelling of the options, defaults, in place, and unusable invocations', block=1),
    ]
