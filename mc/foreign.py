"""Reference encoders of the word2vec, text and fastText formats."""
import struct

import numpy as np

from mc import ref

FT_MAGIC = 793712314


def w2v(words, matrix):
    """words: list of bytes; matrix float32"""
    out = bytearray(b'%d %d\n' % (len(words), matrix.shape[1]))
    for w, row in zip(words, matrix):
        out += w + b' ' + np.asarray(row, dtype='<f4').tobytes() + b'\n'
    return bytes(out)


def fnum(x):
    return repr(float(np.float32(x)))


def text(words, matrix, dims, sep=b' '):
    out = bytearray()
    if dims:
        out += b'%d %d\n' % (len(words), matrix.shape[1])
    for w, row in zip(words, matrix):
        out += w + sep + b' '.join(str(np.float32(x)).encode() for x in row) + b'\n'
    return bytes(out)


FT_KEYS = ['dims', 'window_size', 'epoch', 'min_count', 'ns', 'word_ngrams', 'loss', 'model', 'buckets', 'min_n', 'max_n',
           'lr_update_rate', 'sampling_threshold']
FT_LOSS = {1: 'HierarchicalSoftmax', 2: 'NegativeSampling', 3: 'Softmax'}
FT_MODEL = {1: 'CBOW', 2: 'SkipGram', 3: 'Supervised'}


def fasttext(words, matrix, min_n, max_n, buckets, cfg=None, magic=FT_MAGIC, version=12, n_labels=0, prune=-1, quant=0,
             entry_types=None, freqs=None, n_tokens=0, tail=b''):
    """words: list of bytes. cfg: overrides of configuration values by name. Returns bytes and a dict of field offsets."""
    vals = dict(dims=matrix.shape[1], window_size=0, epoch=0, min_count=0, ns=0, word_ngrams=1, loss=1, model=1,
                buckets=buckets, min_n=min_n, max_n=max_n, lr_update_rate=0, sampling_threshold=0.0)
    vals.update(cfg or {})
    offs = {'magic': 0, 'version': 4}
    out = bytearray(struct.pack('<ii', magic, version))
    out += struct.pack('<12id', *[vals[k] for k in FT_KEYS])
    out += struct.pack('<iii', len(words), len(words), n_labels)
    out += struct.pack('<q', n_tokens)
    out += struct.pack('<q', prune)
    for i, w in enumerate(words):
        out += w + b'\0' + struct.pack('<q', freqs[i] if freqs else 0)
        offs['entry%d' % i] = len(out)
        out += struct.pack('<b', entry_types[i] if entry_types else 0)
    offs['quant'] = len(out)
    out += struct.pack('<B', quant)
    out += struct.pack('<qq', *matrix.shape)
    offs['matrix'] = len(out)
    out += np.asarray(matrix, dtype='<f4').tobytes()
    offs['end'] = len(out)
    return bytes(out + tail), offs


def ft_loaded(words, matrix, min_n, max_n, buckets):
    """
    What loading gives: (rows float64 with normalised word rows, norms float64).  Words are str.
    """
    m = np.asarray(matrix, dtype=np.float64).copy()
    n = len(words)
    orig = m.copy()
    norms = np.zeros(n)
    for i, w in enumerate(words):
        idx = [i] + [ref.ft_hash(g) % buckets + n for g in ref.ngrams(w, min_n, max_n)]
        v = np.zeros(m.shape[1])
        for j in idx:
            v = v + orig[j]
        v = v / len(idx)
        norms[i] = np.sqrt((v * v).sum())
        m[i] = v / norms[i] if norms[i] else v
    return m, norms
