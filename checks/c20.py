"""C20: malformed UTF-8 in foreign formats is rejected, or replaced when lossy."""
import itertools
import os

import numpy as np

from checks import c15, c17
from mc import cli, dom, foreign, ref
from mc.dom import put, read
from mc.engine import Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext, load_text, load_text_dims, load_word2vec

LEVEL = 'model_checking'
ASSUMPTIONS = ['one replacement character per maximal malformed subsequence, as the Unicode standard recommends and Python does; decoded by an independent state machine',
               'damaged words contain no delimiter of the format (ASCII white space, NUL) and stay distinct after replacement']
LOADERS = {'w2v': load_word2vec, 'text': load_text, 'textdims': load_text_dims, 'fasttext': load_fasttext}
FORMATS = list(LOADERS)
DELIMS = set(b' \t\n\r\f\v\0')


def decode(data):
    """(text, malformed): UTF-8 with replacement of maximal subparts, as a state machine"""
    out, bad = [], False
    need_, seen, lower, upper, cp = 0, 0, 0x80, 0xbf, 0
    i = 0
    while i < len(data):
        b = data[i]
        if need_ == 0:
            i += 1
            if b < 0x80:
                out.append(chr(b))
            elif 0xc2 <= b <= 0xdf:
                need_, cp = 1, b & 0x1f
            elif 0xe0 <= b <= 0xef:
                lower, upper = (0xa0, 0xbf) if b == 0xe0 else (0x80, 0x9f) if b == 0xed else (0x80, 0xbf)
                need_, cp = 2, b & 0xf
            elif 0xf0 <= b <= 0xf4:
                lower, upper = (0x90, 0xbf) if b == 0xf0 else (0x80, 0x8f) if b == 0xf4 else (0x80, 0xbf)
                need_, cp = 3, b & 7
            else:
                out.append('\ufffd')
                bad = True
            continue
        if not lower <= b <= upper:
            out.append('\ufffd')
            bad = True
            need_, seen, lower, upper, cp = 0, 0, 0x80, 0xbf, 0
            continue
        i += 1
        lower, upper = 0x80, 0xbf
        cp = cp << 6 | b & 0x3f
        seen += 1
        if seen == need_:
            out.append(chr(cp))
            need_, seen, cp = 0, 0, 0
    if need_:
        out.append('\ufffd')
        bad = True
    return ''.join(out), bad


FT = (2, 3, 5)


def encode(fmt, words, mat):
    if fmt == 'w2v':
        return foreign.w2v(words, mat)
    if fmt == 'fasttext':
        full = np.concatenate([mat, dom.floats(FT[2] * mat.shape[1], 'nice', 9).reshape(-1, mat.shape[1])])
        return foreign.fasttext(words, full, *FT)[0]
    return foreign.text(words, mat, fmt == 'textdims')


def check(e, fmt, words, mat, what):
    if list(e.vocab.words) != words:
        raise Violation('%s: words: %s' % (what, dom.first_diff(list(e.vocab.words), words)))
    if fmt == 'fasttext':
        full = np.concatenate([mat, dom.floats(FT[2] * mat.shape[1], 'nice', 9).reshape(-1, mat.shape[1])])
        rows, norms = foreign.ft_loaded(words, full, *FT)
        # a single precision mean of n rows, in whatever order they are added
        tol = 2e-5 + 1.2e-7 * (FT[1] - FT[0] + 1) * max(map(len, words))
        dom.close(np.asarray(e.storage), rows, what + ': vectors', tol)
        dom.close(np.asarray(e.norms), norms, what + ': norms', tol)
    else:
        c15.check_loaded(e, words, mat.astype(np.float64), what)


def strict(fmt, path, words, mat, bad, dec, what, rec):
    """default loading: UnicodeDecodeError exactly if malformed"""
    rec.step()
    for kw in ({}, {'lossy': False}):
        try:
            e = LOADERS[fmt](path, **kw)
        except UnicodeDecodeError:
            need(bad, '%s: well-formed input was rejected', what)
            continue
        except (ValueError, EOFError, AssertionError) as exc:
            raise Violation('%s: %r instead of UnicodeDecodeError' % (what, exc))
        need(not bad, '%s: malformed input was accepted: %r', what, list(e.vocab.words)[:5])
        if kw:
            check(e, fmt, dec, mat, what)


def seqs(desc, rec):
    """all byte strings in a group: strict one by one, lossy all in one file"""
    alpha, n, first = desc['alpha'], desc['n'], desc['first']
    if alpha == 'all':
        alpha = [b for b in range(256) if b not in DELIMS]
    todo = [bytes(list(first) + list(t)) for t in itertools.product(alpha, repeat=n - len(first))]
    path = os.path.join(scratch(), 'f')
    words = [b'%dx' % i + s + (b'y' if desc['suffix'] else b'') for i, s in enumerate(todo)] + [b'good', 'gäöd'.encode()]
    dec = [decode(w) for w in words]
    mat = dom.floats(2 * len(words), 'nice').reshape(-1, 2) + np.float32(10)
    texts = [t for t, _ in dec]
    for fmt in FORMATS:
        put(path, encode(fmt, words, mat))
        check(LOADERS[fmt](path, True), fmt, texts, mat, '%s, lossy, first word %r' % (fmt, words[0]))
        check(LOADERS[fmt](path, lossy=True), fmt, texts, mat, '%s, lossy, first word %r' % (fmt, words[0]))
        rec.step(2 * len(words))
    if desc['strict']:
        for i, s in enumerate(todo):
            ws = [b'ok', words[i], b'end'] if i % 2 else [s, b'end'] if i % 3 else [b'ok', words[i]]
            d = [decode(w) for w in ws]
            bad = any(b for _, b in d)
            m = mat[:len(ws)]
            for fmt in FORMATS:
                put(path, encode(fmt, ws, m))
                strict(fmt, path, ws, m, bad, [t for t, _ in d], '%s, word %r' % (fmt, words[i]), rec)
            rec.outcome('malformed' if bad else 'well-formed')
    for s in todo:
        rec.state(s + (b'y' if desc['suffix'] else b''))


BOUND = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff]
SMALL = [0x41, 0x80, 0x90, 0xa0, 0xbf, 0xc3, 0xe0, 0xe1, 0xed, 0xf0, 0xf1, 0xf4, 0xff]


def seq_cases(tier):
    free = [b for b in range(256) if b not in DELIMS]
    for suffix in (0, 1):
        yield {'alpha': 'all', 'n': 1, 'first': [], 'suffix': suffix, 'strict': 1}
        for b in free:
            yield {'alpha': 'all', 'n': 2, 'first': [b], 'suffix': suffix, 'strict': suffix == 0 or tier != 'quick'}
        for b in itertools.product(BOUND, repeat=1):
            yield {'alpha': BOUND, 'n': 3, 'first': list(b), 'suffix': suffix, 'strict': suffix == 0}
        for b in itertools.product(BOUND if tier != 'quick' else SMALL, repeat=2):
            yield {'alpha': BOUND if tier != 'quick' else SMALL, 'n': 4, 'first': list(b), 'suffix': suffix, 'strict': tier != 'quick' and suffix == 0}
        if tier != 'quick':
            for b in itertools.product(SMALL, repeat=3):
                yield {'alpha': SMALL, 'n': 5, 'first': list(b), 'suffix': suffix, 'strict': 0}


DAMAGE = [b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x28\xa1', 'ä'.encode(), '€'.encode(), '😀'.encode(), b'\xff\xfe', b'\xf0\x9f\xff']


def places(desc, rec):
    """which words are damaged, and where in them: all combinations over four words"""
    base = [b'one', 'zwö'.encode(), b'three', 'f€ur'.encode()]
    mat = dom.floats(12, 'nice').reshape(4, 3)
    path = os.path.join(scratch(), 'f')
    d = DAMAGE[desc['d']]
    clean = {}
    for where in itertools.product((None, 0, 1, 2), repeat=4):
        words = []
        for w, p in zip(base, where):
            cut = 0 if p == 0 else 1 if p == 1 else len(w)
            words.append(w if p is None else w[:cut] + d + w[cut:])
        dec = [decode(w) for w in words]
        bad = any(b for _, b in dec)
        for fmt in FORMATS:
            put(path, encode(fmt, words, mat))
            what = '%s, words %s' % (fmt, words)
            strict(fmt, path, words, mat, bad, [t for t, _ in dec], what, rec)
            e = LOADERS[fmt](path, True)
            check(e, fmt, [t for t, _ in dec], mat, what + ', lossy')
            if fmt not in clean:
                clean[fmt] = e  # nothing damaged
            for i, p in enumerate(where):
                if p is None or fmt != 'fasttext':
                    dom.same_bits(np.asarray(e.storage)[i], np.asarray(clean[fmt].storage)[i], '%s: vector of word %d' % (what, i))
                    dom.same_bits(np.asarray(e.norms)[i:i + 1], np.asarray(clean[fmt].norms)[i:i + 1], '%s: norm of word %d' % (what, i))
            rec.step(2)
        rec.state((desc['d'], where))
        rec.outcome('malformed' if bad else 'well-formed')


def offsets(desc, rec):
    """sequences across read buffer boundaries"""
    d = DAMAGE[desc['d']]
    path = os.path.join(scratch(), 'f')
    mat = dom.floats(6, 'nice').reshape(3, 2)
    for fmt in FORMATS:
        probe = encode(fmt, [b'', b'Q', b'zz'], mat)
        at = probe.index(b'Q', 20 if fmt == 'fasttext' else 0)
        for target in range(desc['at'] - 6, desc['at'] + 3):
            fill = target - at
            if fill < 1:
                continue
            for first, second in ((b'p' * fill, d + b'q'), (b'p' * fill, b'q' + d), ('€'.encode() * (fill // 3) + b'r' * (fill % 3), d + d)):
                words = [first, second, b'zz']
                dec = [decode(w) for w in words]
                bad = any(b for _, b in dec)
                put(path, encode(fmt, words, mat))
                what = '%s, damage %r at offset %d' % (fmt, d, target)
                strict(fmt, path, words, mat, bad, [t for t, _ in dec], what, rec)
                e = LOADERS[fmt](path, True)
                need(list(e.vocab.words) == [t for t, _ in dec], '%s: words %r, expected %r', what, e.vocab.words[1:], [t for t, _ in dec][1:])
                if fmt != 'fasttext':
                    c15.check_loaded(e, [t for t, _ in dec], mat.astype(np.float64), what)
                rec.step(2)
                rec.state((fmt, desc['d'], target, first[:3], second))
    rec.outcome('offset')


def offset_cases(tier):
    for at in (8192, 16384) + ((1024, 4096, 24576, 32768, 65536, 131072) if tier != 'quick' else ()):
        for d in range(len(DAMAGE)):
            yield {'at': at, 'd': d}


def well_formed(desc, rec):
    """well-formed input gives identical embeddings with and without lossy loading"""
    lo, hi = desc['range']
    words = [chr(c) for c in range(lo, hi) if not 0xd800 <= c < 0xe000 and not (c < 128 and c in DELIMS)]
    if not words:
        return
    words = words + [w + 'x' + w for w in words]
    bw = [w.encode() for w in words]
    mat = dom.floats(2 * len(words), 'nice').reshape(-1, 2) + np.float32(10)
    path = os.path.join(scratch(), 'f')
    for fmt in FORMATS:
        put(path, encode(fmt, bw, mat))
        a, b = LOADERS[fmt](path), LOADERS[fmt](path, lossy=True)
        need(list(a.vocab.words) == words == list(b.vocab.words), '%s: words differ', fmt)
        need(a.vocab == b.vocab and a.metadata == b.metadata, '%s: vocabulary or metadata differ', fmt)
        dom.same_bits(np.asarray(a.storage), np.asarray(b.storage), fmt + ': vectors')
        dom.same_bits(np.asarray(a.norms), np.asarray(b.norms), fmt + ': norms')
        rec.step(2 * len(words))
    for w in words:
        rec.state(w)
    rec.outcome('range')


def alone(desc, rec):
    """every code point as the only, the first and the last word of a file: strict and lossy agree with the words in the file"""
    lo, hi = desc['range']
    path = os.path.join(scratch(), 'f')
    mat = dom.floats(4, 'nice').reshape(2, 2) + np.float32(10)
    for c in range(lo, hi):
        if 0xd800 <= c < 0xe000 or c in DELIMS:
            continue
        w = chr(c)
        for words in ([w], [w + w, 'zz9'], ['zz9', w]):
            enc = [x.encode() for x in words]
            m = mat[:len(words)]
            for fmt in FORMATS:
                put(path, encode(fmt, enc, m))
                for lossy in (False, True):
                    check(LOADERS[fmt](path, lossy), fmt, words, m, '%s%s, words %r' % (fmt, ', lossy' if lossy else '', words))
                    rec.step()
        rec.state(w)
    rec.outcome('range')


CLI = {'w2v': 'word2vec', 'text': 'text', 'textdims': 'textdims', 'fasttext': 'fasttext'}


def tools(desc, rec):
    """the command-line tools with and without --lossy"""
    fmt, d = desc['fmt'], DAMAGE[desc['d']]
    words = [b'one', b'tw' + d + b'o', b'three']
    dec = [decode(w) for w in words]
    texts, bad = [t for t, _ in dec], any(b for _, b in dec)
    mat = dom.floats(9, 'nice').reshape(3, 3)
    path, out, q = (os.path.join(scratch(), n) for n in ('t-in', 't-out', 't-q'))
    put(path, encode(fmt, words, mat))
    f = CLI[fmt]
    for tool, args, query in (('convert', ['-f', f, path, out], None), ('similar', ['-f', f, path, q], 'one\n'), ('analogy', ['-f', f, path, q], 'one three one\n'), ('select', ['-f', f, path, out, q], 'one\n'), ('explicit', ['-f', f, path, out], None)):
        if tool == 'explicit' and fmt != 'fasttext':
            continue
        if query:
            put(q, query.encode())
        for opts in ([], ['-l'], ['--lossy']):
            if os.path.exists(out):
                os.unlink(out)
            r = cli.run(tool, opts + args)
            rec.step()
            if bad and not opts:
                need(not r.ok, 'ffp-%s accepted malformed input in %s: %s', tool, f, words)
                rec.outcome('rejected')
                continue
            need(r.ok, 'ffp-%s %s on %s: %s', tool, opts, f, r)
            if tool in ('convert', 'explicit'):
                got = c17.decode_fifu(read(out), 'output')
                need(got.vocab.words == texts, 'ffp-%s %s on %s: words %s, expected %s', tool, opts, f, got.vocab.words, texts)
            elif tool == 'similar':
                need(sorted(l.rsplit(' ', 1)[0] for l in r.out.splitlines()) == sorted(texts[1:]), 'ffp-similar: %r', r.out)
            rec.outcome('processed')
            rec.state((fmt, desc['d'], tool, tuple(opts)))


def tool_cases(tier):
    for fmt in FORMATS:
        for d in range(len(DAMAGE)):
            yield {'fmt': fmt, 'd': d}


def suites(tier):
    return [
        Suite('sequences', lambda: seq_cases(tier), seqs, 'all byte strings up to 2 bytes, all of 3 bytes over 24 boundary bytes, all of 4 bytes over 13 (thorough 24) and of 5 bytes over 13 (thorough), alone or before an ASCII character, in 4 formats', block=2),
        Suite('places', lambda: [{'d': i} for i in range(len(DAMAGE))], places, '14 sequences in every combination of start, middle, end of four words', block=1),
        Suite('offsets', lambda: offset_cases(tier), offsets, '14 sequences at every offset around read buffer boundaries', block=1),
        Suite('well-formed', lambda: c15.char_cases(tier), well_formed, 'every code point up to U+33FF and 7 ranges (thorough: all)', block=1),
        Suite('first-and-last', lambda: c15.alone_cases(tier), alone, 'code points as only, first and last word of a file', block=1),
        Suite('tools', lambda: tool_cases(tier), tools, '14 sequences x 4 formats x 5 tools x lossy options', block=1),
    ]
