"""C16: fastText models are loaded and written faithfully."""
import itertools
import os
import struct

import numpy as np

from mc import dom, foreign, ref
from mc.dom import put, read
from mc.engine import DEEPER, CaseTimeout, Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext, write_fasttext
from finalfusion.embeddings import Embeddings
from finalfusion.metadata import Metadata
from finalfusion.norms import Norms
from finalfusion.storage import NdArray
from finalfusion.vocab import FastTextVocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['subword matrices of plain storages are compared bit for bit, computed vectors up to 1e-5 of the largest term', 'words contain no NUL (the format cannot represent it); vectors are finite']
TOL = 1e-5


def check_loaded(e, words, mat, mn, mx, buckets, cfg, what, rec, sub_exact=True, tol=TOL):
    need(type(e) is Embeddings and type(e.vocab) is FastTextVocab and isinstance(e.storage, NdArray) and isinstance(e.norms, Norms), '%s: types', what)
    dom.check_vocab(e.vocab, ref.Vocab('ft', words, mn, mx, buckets), what)
    n = len(words)
    need(tuple(e.storage.shape) == mat.shape and len(e.norms) == n, '%s: shape %s, %d norms', what, e.storage.shape, len(e.norms))
    got = np.asarray(e.storage)
    if sub_exact:
        dom.same_bits(got[n:], mat[n:], what + ': subword matrix')
    else:
        dom.close(got[n:], mat[n:], what + ': subword matrix', tol)
    m64 = mat.astype(np.float64)
    for i, w in enumerate(words):
        idx = [i] + [ref.ft_hash(g) % buckets + n for g in ref.ngrams(w, mn, mx)]
        avg = np.zeros(mat.shape[1])
        top = 0.0
        for j in idx:
            avg = avg + m64[j]
            top = max(top, float(np.abs(m64[j]).max(initial=0)))
        avg = avg / len(idx)
        top *= max(1.0, len(idx) / 300)  # summed in single precision, in any order
        norm = float(np.sqrt((avg * avg).sum()))
        gn = float(e.norms[i])
        gv = got[i].astype(np.float64)
        need(abs(gn - norm) <= tol * max(top, norm), '%s: norm of %r is %r, expected %r', what, w, gn, norm)
        need(bool(np.all(np.abs(gv * gn - avg) <= tol * max(top, norm))), '%s: vector times norm of %r is %s, expected %s', what, w, gv * gn, avg)
        if not avg.any() and top == 0:
            need(not gv.any() and gn == 0, '%s: zero vector of %r became %s, norm %r', what, w, gv, gn)
        elif norm > 1e-2 * top and len(idx) <= 300:
            dom.close(gv, avg / norm, '%s: vector of %r' % (what, w), tol * 100)
            need(abs(np.sqrt((gv * gv).sum()) - 1) <= TOL, '%s: vector of %r is not normalised: %s', what, w, gv)
            dom.close(np.asarray(e[w], dtype=np.float64), gv, '%s: embedding of %r' % (what, w), TOL)
        rec.step()
    need(isinstance(e.metadata, Metadata), '%s: metadata %r', what, e.metadata)
    need(dom.typed(dict(e.metadata)) == dom.typed(cfg), '%s: metadata %r, expected %r', what, dict(e.metadata), cfg)


def cfg_of(dims, mn, mx, buckets, over):
    vals = dict(dims=dims, window_size=0, epoch=0, min_count=0, ns=0, word_ngrams=1, loss=1, model=1, buckets=buckets, min_n=mn, max_n=mx, lr_update_rate=0, sampling_threshold=0.0)
    vals.update(over)
    out = dict(vals)
    out['loss'] = foreign.FT_LOSS[vals['loss']]
    out['model'] = foreign.FT_MODEL[vals['model']]
    return out


def load(desc, rec):
    words, mn, mx, buckets, dims = dom.gen_words(desc['w']), desc['min'], desc['max'], desc['b'], desc['d']
    over = desc.get('cfg') or {}
    mat = dom.floats((len(words) + buckets) * dims, desc.get('vals', 'nice'), desc.get('salt', 0)).reshape(-1, dims)
    data, _ = foreign.fasttext([w.encode() for w in words], mat, mn, mx, buckets, over, freqs=list(range(5, 5 + len(words))) if desc.get('freq') else None, n_tokens=desc.get('tokens', 0), tail=b'\x01' * desc.get('tail', 0))
    path = put(os.path.join(scratch(), 'in.bin'), data)
    for lossy in (False, True):
        for kind in dom.FILE_KINDS if desc.get('kinds') else ('str', ):
            e = load_fasttext(dom.file_arg(path, kind), lossy) if lossy else load_fasttext(dom.file_arg(path, kind))
            check_loaded(e, words, mat, mn, mx, buckets, cfg_of(dims, mn, mx, buckets, over), 'loaded (lossy=%s)' % lossy, rec)
    need(read(path) == data, 'the file changed')
    rec.state(data)
    rec.outcome('words %d' % min(len(words), 5))
    # the loaded model written again has the original input matrix
    out = os.path.join(scratch(), 'out.bin')
    write_fasttext(out, e)
    check_written(ref.Emb(ref.Vocab('ft', words, mn, mx, buckets), ref.Nd(np.asarray(e.storage)), np.asarray(e.norms)), read(out), 'written again', rec, original=mat)
    back = load_fasttext(out)
    check_loaded(back, words, mat, mn, mx, buckets, cfg_of(dims, mn, mx, buckets, {}), 'loaded again', rec, tol=4 * TOL)


WL = [[], ['a'], [''], ['ab', 'c'], ['ü', '€uro', '😀'], ['b', 'a', 'c', 'bac'], ['a b', 'tab\tx', '\n', ' '], ['</s>', '<a', 'a>'], ['aaaa', 'aaa', 'aa'], ['\u00a0', '\x85', '\ufeff', 'ab' * 20], dom.SPECIAL[::2], dom.SPECIAL[1::2]]


def load_cases(tier):
    for w in WL:
        for mn, mx in [(1, 1), (1, 2), (2, 3), (3, 6), (3, 3), (5, 9)]:
            for b in (1, 2, 3, 5, 7, 64, 100):
                for d in (1, 3):
                    yield {'w': w, 'min': mn, 'max': mx, 'b': b, 'd': d}
    for w in WL:
        for vals in ('nice', 'zero', 'pos'):
            for tail in (0, 1, 100):
                yield {'w': w, 'min': 2, 'max': 4, 'b': 5, 'd': 4, 'vals': vals, 'tail': tail, 'freq': 1, 'tokens': 1 << 40, 'kinds': 1}
    for loss, model in itertools.product((1, 2, 3), (1, 2, 3)):
        yield {'w': ['ab', 'c'], 'min': 2, 'max': 3, 'b': 4, 'd': 2, 'cfg': {'loss': loss, 'model': model}}
    for key in foreign.FT_KEYS:
        if key in ('loss', 'model', 'buckets', 'min_n', 'max_n', 'dims'):
            continue
        for v in ([0.0, 1e-4, -2.5, 1 / 3, 1e300] if key == 'sampling_threshold' else [0, 1, 7, 255, 256, 65536, 2**31 - 1, -1, -2**31]):
            yield {'w': ['ab', 'c'], 'min': 2, 'max': 3, 'b': 4, 'd': 2, 'cfg': {key: v}}
    yield {'w': ['ab', 'c'], 'min': 2, 'max': 3, 'b': 4, 'd': 2, 'cfg': {k: 10 + i for i, k in enumerate(foreign.FT_KEYS) if k not in ('loss', 'model', 'buckets', 'min_n', 'max_n', 'dims', 'sampling_threshold')}}
    for k in range(-12, 13):
        for w in WL[:6]:
            yield {'w': w, 'min': 2, 'max': 3, 'b': 5, 'd': 3, 'vals': 'nice*1e%d' % k}
    for k in (3, 4) if tier == 'deep' else (3, ):
        for w in itertools.permutations(['', 'a', 'ab', 'ü€', 'abab', '😀b', 'x\ty'], k):
            for mn, mx in [(1, 1), (1, 3), (2, 2), (2, 6), (3, 4), (4, 100)]:
                for b in (1, 2, 3, 4, 11, 1000):
                    for d in (1, 2, 5):
                        yield {'w': list(w), 'min': mn, 'max': mx, 'b': b, 'd': d, 'salt': 3}


def check_written(m, data, what, rec, original=None):
    """data is a complete fastText file with the restored input matrix of the model m"""
    v = m.vocab
    words = v.words
    rows, dims = m.storage.shape
    want, offs = foreign.fasttext([w.encode('utf-8') for w in words], np.zeros((rows, dims), dtype=np.float32), v.min_n, v.max_n, v.buckets)
    start = offs['matrix']
    dom.same_file(data[:start], want[:start], what + ': header, configuration, vocabulary')
    need(len(data) == start + 4 * rows * dims, '%s: %d bytes, expected %d', what, len(data), start + 4 * rows * dims)
    mat = np.frombuffer(data[start:], dtype='<f4').reshape(rows, dims)
    n = len(words)
    src = m.storage.rows64()
    if m.storage.kind == 'nd':
        dom.same_bits(mat[n:], m.storage.array[n:], what + ': subword matrix')
    else:
        dom.close(mat[n:], src[n:], what + ': subword matrix', TOL)
    for i, w in enumerate(words):
        idx = [ref.ft_hash(g) % v.buckets + n for g in ref.ngrams(w, v.min_n, v.max_n)]
        own = src[i] * (1.0 if m.norms is None else float(m.norms[i])) * (len(idx) + 1)
        scale = float(np.abs(own).max(initial=0))
        for j in idx:
            own = own - src[j]
            scale += float(np.abs(src[j]).max(initial=0))
        need(bool(np.all(np.abs(mat[i] - own) <= TOL * scale)), '%s: input vector of %r is %s, expected %s', what, w, mat[i], own)
        if original is not None:
            need(bool(np.all(np.abs(mat[i] - original[i]) <= 2 * TOL * scale)), '%s: input vector of %r is %s, originally %s', what, w, mat[i], original[i])
        rec.step()
    return mat


def write(desc, rec):
    m, e = dom.build(desc)
    if desc.get('via'):
        src = os.path.join(scratch(), 'src.fifu')
        e.write(src)
        e = dom.load_finalfusion(src, desc['via'] == 'mmap')
    path = os.path.join(scratch(), 'out.bin')
    v = m.vocab
    if v.kind != 'ft':
        for kind in dom.FILE_KINDS:
            try:
                write_fasttext(dom.file_arg(path, kind, 'w'), e)
            except ValueError:
                rec.outcome('refused')
            else:
                raise Violation('a %s vocabulary was written as fastText' % v.kind)
            rec.step()
        dom.check_embeddings(e, m, 'source after refused write')
        rec.state(repr(desc))
        return
    for kind in dom.FILE_KINDS:
        if os.path.exists(path):
            os.unlink(path)
        write_fasttext(dom.file_arg(path, kind, 'w'), e)
        data = read(path)
        mat = check_written(m, data, 'written (%s)' % kind, rec)
    dom.check_embeddings(e, m, 'source after writing')
    rec.state(repr(desc))
    rec.outcome('written')
    back = load_fasttext(path)
    n = len(v.words)
    need(list(back.vocab.words) == v.words and tuple(back.storage.shape) == m.storage.shape, 'loaded back: words or shape differ')
    dom.same_bits(np.asarray(back.storage)[n:], mat[n:], 'loaded back: subword matrix')
    src = m.storage.rows64()
    for i, w in enumerate(v.words):
        idx = [ref.ft_hash(g) % v.buckets + n for g in ref.ngrams(w, v.min_n, v.max_n)]
        want = src[i] * (1.0 if m.norms is None else float(m.norms[i]))
        scale = float(np.abs(want).max(initial=0)) + sum(float(np.abs(src[j]).max(initial=0)) for j in idx)
        got = np.asarray(back.storage)[i].astype(np.float64) * float(back.norms[i])
        need(bool(np.all(np.abs(got - want) <= 3 * TOL * scale)), 'loaded back: vector times norm of %r is %s, expected %s', w, got, want)
        rec.step()


def names(desc, rec):
    m, e = dom.build({'v': ['ft', ['ab', 'ä'], 2, 3, 4], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': None})
    with dom.named(desc) as path:
        for kind in dom.FILE_KINDS:
            write_fasttext(dom.file_arg(path, kind, 'w'), e)
            mat = check_written(m, read(path), 'written (%s)' % kind, rec)
            check_loaded(load_fasttext(dom.file_arg(path, kind)), m.vocab.words, mat, 2, 3, 4, cfg_of(2, 2, 3, 4, {}), 'loaded (%s)' % kind, rec)
            os.unlink(path)
    rec.state(repr(desc))
    rec.outcome('named')


def write_cases(tier):
    for w in WL:
        for mn, mx in [(1, 1), (1, 2), (2, 3), (3, 6), (4, 4294967)]:
            for b in (1, 2, 5, 8):
                for n in (None, ['C', 'pos'], ['rs', 'pos']):
                    for s in (['nd', 3, 'C', 'nice'], ['nd', 1, 'F', 'nice']):
                        yield {'v': ['ft', w, mn, mx, b], 's': s, 'n': n, 'm': None}
    for w in WL[:6]:
        for n in (None, ['C', 'pos'], ['be', 'pos'], ['C', 'zero']):
            for m in (None, 2) + ((dom.METAS.index(dom.FT_META), ) if n is None else ()):
                for lay in dom.LAYOUTS_2D:
                    yield {'v': ['ft', w, 2, 3, 3], 's': ['nd', 3, lay, 'nice'], 'n': n, 'm': m}
                yield {'v': ['ft', w, 2, 3, 3], 's': ['nd', 2, 'C', 'zero'], 'n': n, 'm': m}
            for s in dom.storage_specs(tier, ('C', 'rs')):
                if s[0] == 'pq':
                    yield {'v': ['ft', w, 2, 3, 3], 's': s[:-1] + ['nice'], 'n': n, 'm': None}
            for via in ('eager', 'mmap'):
                for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice'], ['pq', 2, 1, 5, 0, 0, 'C', 'nice']):
                    yield {'v': ['ft', w, 2, 3, 3], 's': s, 'n': n, 'm': 3, 'via': via}
    for k in range(-12, 13):
        for n in (None, ['C', 'pos'], ['C', 'pos*1e%d' % -k]):
            yield {'v': ['ft', WL[3], 2, 3, 3], 's': ['nd', 3, 'C', 'nice*1e%d' % k], 'n': n, 'm': None}
    for v in (['simple', []], ['simple', ['a', 'b']], ['fifu', ['ab', 'c'], 1, 2, 2], ['fifu', [], 3, 6, 1], ['explicit', ['ab', 'x'], 1, 2, [['<a', 1], ['b€', 0]]], ['explicit', [], 1, 2, []]):
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice']):
            for n in (None, ['C', 'pos']):
                yield {'v': v, 's': s, 'n': n, 'm': None}
    for k in (3, 4) if tier == 'deep' else (3, ):
        for w in itertools.permutations(['', 'a', 'ab', 'ü€', 'abab', '😀b', 'x\ty'], k):
            for mn, mx in [(1, 1), (1, 3), (2, 6), (3, 4)]:
                for b in (1, 2, 3, 11):
                    for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 1, 5, 0, 1, 'C', 'nice']):
                        for n in (None, ['C', 'pos']):
                            yield {'v': ['ft', list(w), mn, mx, b], 's': s, 'n': n, 'm': 1}


def large_cases(tier):
    for ln in (127, 128, 255, 256, 4095, 4096, 8191, 8192, 9000, 65536, 70000):
        for c in ('x', '€'):
            yield {'w': {'g': 'len', 'n': ln, 'c': c}, 'min': 3, 'max': 3, 'b': 50, 'd': 2}
    yield {'w': {'g': 'seq', 'n': 3000}, 'min': 3, 'max': 6, 'b': 1000, 'd': 3, 'freq': 1}
    yield {'w': {'g': 'seq', 'n': 20}, 'min': 2, 'max': 4, 'b': 20000, 'd': 5}
    yield {'w': {'g': 'seq', 'n': 20}, 'min': 2, 'max': 4, 'b': 131073, 'd': 2}
    yield {'w': {'g': 'seq', 'n': 66000}, 'min': 3, 'max': 3, 'b': 1000, 'd': 2}
    for d in (255, 256, 1024, 3000, 65537):
        yield {'w': {'g': 'seq', 'n': 5}, 'min': 2, 'max': 4, 'b': 7, 'd': d}
    if tier == 'deep':
        yield {'w': {'g': 'seq', 'n': 5}, 'min': 2, 'max': 4, 'b': 2000000, 'd': 2}


def modified(m, e, rec, what):
    path = os.path.join(scratch(), 'out.bin')
    write_fasttext(path, e)
    mat = check_written(m, read(path), what, rec)
    v = m.vocab
    check_loaded(load_fasttext(path), v.words, mat, v.min_n, v.max_n, v.buckets, cfg_of(m.storage.shape[1], v.min_n, v.max_n, v.buckets, {}), what + ', loaded', rec)
    dom.check_embeddings(e, m, what, file_check=False)


def modify_loaded(desc, rec):
    """a loaded model that is modified and written"""
    words, mn, mx, buckets, dims = ['ab', 'c', 'ü€'], 2, 3, 5, 3
    mat = dom.floats((len(words) + buckets) * dims, 'nice', 3).reshape(-1, dims)
    src = put(os.path.join(scratch(), 'in.bin'), foreign.fasttext([w.encode() for w in words], mat, mn, mx, buckets, {})[0])
    e = load_fasttext(src)
    m = ref.Emb(ref.Vocab('ft', words, mn, mx, buckets), ref.Nd(np.asarray(e.storage)), np.asarray(e.norms), dict(e.metadata))
    for i, name in enumerate(desc['mods']):
        dom.MODS[name](m, e)
        modified(m, e, rec, 'after ' + ', '.join(desc['mods'][:i + 1]))
    check_loaded(load_fasttext(src), words, mat, mn, mx, buckets, cfg_of(dims, mn, mx, buckets, {}), 'loaded again', rec)
    rec.state(repr(desc))
    rec.outcome('modified')


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('load', lambda: load_cases(tier), load, '12 word lists (102 words that text processing confuses with others) x 6 n-gram ranges x 7 bucket numbers x 2 widths; all permutations of 3 (thorough 4) of 7 words x 6 ranges x 6 bucket numbers x 3 widths; all losses and models, 9 values of every other configuration entry; trailing data; lossy and strict; each model is written and loaded again'),
        Suite('write', lambda: write_cases(tier), write, '12 word lists and all permutations of 3 (thorough 4) of 7 words x 4-5 ranges x 4 bucket numbers x norms; 10 layouts, quantized and memory-mapped storages; 4 kinds of file argument; all other vocabulary types'),
        Suite('modified', lambda: (d for d in dom.mod_cases(tier) if d['v'][0] == 'ft'), dom.modified(modified), 'every sequence of up to 3 of 14 modifications of norms, metadata and matrix, written before, between and after', block=8),
        Suite('modified-loaded', lambda: ({'mods': list(t)} for k in (1, 2, 3) for t in itertools.product(dom.MODS, repeat=k) if k < 3 or tier != 'quick'), modify_loaded, 'a loaded model after every sequence of up to 3 of 14 modifications, written and loaded', block=8),
        Suite('names', dom.name_cases, names, '64 file names that shells, tools and libraries treat specially, absolute, relative and in directories, all kinds of file arguments'),
        Suite('large', lambda: large_cases(tier), load, '66000 words, 131073 (thorough 2000000) buckets, words of 70000 characters, 65537 components', block=1),
    ]
