"""
Reference model of finalfusion, written from the format and hash specifications.  Independent of the code under test:
nothing in here imports finalfusion.
"""
import struct

import numpy as np

SIMPLE, NDARRAY, BUCKET, QUANTIZED, METADATA, NORMS, FASTTEXT, EXPLICIT = range(1, 9)
VOCAB_IDS = {'simple': SIMPLE, 'fifu': BUCKET, 'ft': FASTTEXT, 'explicit': EXPLICIT}


# ---------------------------------------------------------------------------------------------------- n-grams, hashes
def ngrams(word, min_n, max_n, bracket=True):
    if bracket:
        word = '<' + word + '>'
    out = []
    for i in range(len(word)):
        for n in range(min(max_n, len(word) - i), min_n - 1, -1):  # the longest that fits, ..., min_n
            out.append(word[i:i + n])
    return out


M64 = (1 << 64) - 1
M32 = (1 << 32) - 1


def fnv1a64(data):
    h = 0xcbf29ce484222325
    for b in data:
        h = ((h ^ b) * 0x100000001b3) & M64
    return h


def fifu_hash(ngram):
    return fnv1a64(len(ngram).to_bytes(8, 'little') + b''.join(ord(c).to_bytes(4, 'little') for c in ngram))


def ft_hash(ngram):
    h = 2166136261
    for b in ngram.encode('utf-8'):
        if b >= 128:
            b |= 0xffffff00  # the byte is sign extended
        h = ((h ^ b) * 16777619) & M32
    return h


# ------------------------------------------------------------------------------------------------------------- models
class Vocab:
    def __init__(self, kind, words, min_n=None, max_n=None, buckets=None, ngrams_=None):
        """buckets: exponent for 'fifu', number for 'ft'. ngrams_: list of (ngram, index) for 'explicit'."""
        self.kind, self.words = kind, list(words)
        self.min_n, self.max_n, self.buckets = min_n, max_n, buckets
        self.ngrams = list(ngrams_) if ngrams_ is not None else None
        self.index = {w: i for i, w in enumerate(self.words)}
        self.ngram_index = dict(self.ngrams) if ngrams_ is not None else None

    def key(self):
        return (self.kind, tuple(self.words), self.min_n, self.max_n, self.buckets,
                tuple(self.ngrams) if self.ngrams is not None else None)

    def n_sub(self):
        if self.kind == 'simple':
            return 0
        if self.kind == 'fifu':
            return 1 << self.buckets
        if self.kind == 'ft':
            return self.buckets
        return max(self.ngram_index.values(), default=-1) + 1

    def upper(self):
        return len(self.words) + self.n_sub()

    def ngram_idx(self, ngram):
        """index of one n-gram in the subword matrix or None"""
        if self.kind == 'fifu':
            return fifu_hash(ngram) & ((1 << self.buckets) - 1)
        if self.kind == 'ft':
            return ft_hash(ngram) % self.buckets
        if self.kind == 'explicit':
            return self.ngram_index.get(ngram)
        return None

    def subwords(self, word, bracket=True):
        return ngrams(word, self.min_n, self.max_n, bracket)

    def pairs(self, word, bracket=True, offset=None):
        offset = len(self.words) if offset is None else offset
        out = []
        for ng in self.subwords(word, bracket):
            i = self.ngram_idx(ng)
            if i is not None:
                out.append((ng, i + offset))
        return out

    def lookup(self, word):
        """int, list or None"""
        if word in self.index:
            return self.index[word]
        if self.kind == 'simple':
            return None
        idx = [i for _, i in self.pairs(word)]
        return idx or None


class Nd:
    kind = 'nd'

    def __init__(self, array):
        self.array = np.array(array, dtype='<f4', order='C', copy=True)

    @property
    def shape(self):
        return self.array.shape

    def rows(self):
        return self.array

    def rows64(self):
        return self.array.astype(np.float64)

    def key(self):
        return ('nd', self.array.shape, self.array.tobytes())


class Pq:
    kind = 'pq'

    def __init__(self, quantizers, codes, projection=None, norms=None):
        self.quantizers = np.array(quantizers, dtype='<f4', order='C', copy=True)
        self.codes = np.array(codes, dtype=np.uint8, order='C', copy=True)
        self.projection = None if projection is None else np.array(projection, dtype='<f4', order='C', copy=True)
        self.norms = None if norms is None else np.array(norms, dtype='<f4', copy=True)

    @property
    def shape(self):
        return self.codes.shape[0], self.quantizers.shape[0] * self.quantizers.shape[2]

    def rows64(self):
        out = np.zeros(self.shape, dtype=np.float64)
        sub = self.quantizers.shape[2]
        for q in range(self.codes.shape[1]):
            # the q-th part of row r is centroid codes[r, q] of quantizer q
            out[:, q * sub:(q + 1) * sub] = self.quantizers[q].astype(np.float64)[self.codes[:, q]]
        if self.projection is not None:
            # column c of the result is the dot product of row c of the projection with the vector
            p = self.projection.astype(np.float64)
            out = np.stack([np.sum(out * p[c], axis=1) for c in range(out.shape[1])], axis=1) if out.size else out
        if self.norms is not None:
            out = out * self.norms.astype(np.float64)[:, None]
        return out

    def key(self):
        return ('pq', self.quantizers.shape, self.codes.shape, self.quantizers.tobytes(), self.codes.tobytes(),
                None if self.projection is None else self.projection.tobytes(),
                None if self.norms is None else self.norms.tobytes())


class Emb:
    def __init__(self, vocab, storage, norms=None, meta=None):
        self.vocab, self.storage, self.meta = vocab, storage, meta
        self.norms = None if norms is None else np.array(norms, dtype='<f4', copy=True)


# ----------------------------------------------------------------------------------------------------- wire format
def pad(pos):
    return 4 - pos % 4


def enc_items(words):
    return b''.join(struct.pack('<I', len(b)) + b for b in (w.encode('utf-8') for w in words))


def enc_vocab(v):
    """chunk id, body"""
    if v.kind == 'simple':
        body = struct.pack('<Q', len(v.words)) + enc_items(v.words)
    elif v.kind in ('fifu', 'ft'):
        body = struct.pack('<QIII', len(v.words), v.min_n, v.max_n, v.buckets) + enc_items(v.words)
    else:
        body = bytearray(struct.pack('<QQII', len(v.words), len(v.ngrams), v.min_n, v.max_n) + enc_items(v.words))
        for ng, i in v.ngrams:
            b = ng.encode('utf-8')
            body += struct.pack('<I', len(b)) + b + struct.pack('<Q', i)
        body = bytes(body)
    return VOCAB_IDS[v.kind], body


def enc_storage(s, pos, fill=b'\0'):
    """pos: file position of the chunk (of its identifier)."""
    padding = fill * pad(pos + 4)  # the padding is computed right after the chunk identifier (all fields are 4-aligned)
    if s.kind == 'nd':
        return NDARRAY, struct.pack('<QII', s.shape[0], s.shape[1], 10) + padding + s.array.tobytes()
    q, c, d = s.quantizers.shape
    body = struct.pack('<IIIIIQII', s.projection is not None, s.norms is not None, q, q * d, c, s.codes.shape[0], 1, 10)
    body += padding
    if s.projection is not None:
        body += s.projection.tobytes()
    body += s.quantizers.tobytes()
    if s.norms is not None:
        body += s.norms.tobytes()
    return QUANTIZED, body + s.codes.tobytes()


def enc_norms(n, pos, fill=b'\0'):
    n = np.asarray(n, dtype='<f4')
    return NORMS, struct.pack('<QI', len(n), 10) + fill * pad(pos + 4) + n.tobytes()


def preamble(ids):
    return b'FiFu' + struct.pack('<II', 0, len(ids)) + b''.join(struct.pack('<I', i) for i in ids)


def chunk(id_, body):
    return struct.pack('<IQ', id_, len(body)) + body


def enc_chunks(parts, fill=b'\0'):
    """
    parts: list of ('meta', bytes) | ('vocab', Vocab) | ('storage', Nd|Pq) | ('norms', array) | ('raw', (id, bytes)).
    Returns the file and the list of (id, start, body_start, end).
    """
    ids = []
    for kind, x in parts:
        if kind == 'meta':
            ids.append(METADATA)
        elif kind == 'vocab':
            ids.append(VOCAB_IDS[x.kind])
        elif kind == 'storage':
            ids.append(NDARRAY if x.kind == 'nd' else QUANTIZED)
        elif kind == 'norms':
            ids.append(NORMS)
        else:
            ids.append(x[0])
    out = bytearray(preamble(ids))
    spans = []
    for kind, x in parts:
        pos = len(out)
        if kind == 'meta':
            c = (METADATA, x)
        elif kind == 'vocab':
            c = enc_vocab(x)
        elif kind == 'storage':
            c = enc_storage(x, pos, fill)
        elif kind == 'norms':
            c = enc_norms(x, pos, fill)
        else:
            c = x
        out += chunk(*c)
        spans.append((c[0], pos, pos + 12, len(out)))
    return bytes(out), spans


def parts_of(emb, meta_bytes):
    parts = []
    if emb.meta is not None:
        parts.append(('meta', meta_bytes))
    parts.append(('vocab', emb.vocab))
    parts.append(('storage', emb.storage))
    if emb.norms is not None:
        parts.append(('norms', emb.norms))
    return parts


class FormatError(Exception):
    pass


class Cursor:
    def __init__(self, data, pos=0):
        self.data, self.pos = data, pos

    def take(self, n):
        if self.pos + n > len(self.data):
            raise FormatError('truncated at %d' % self.pos)
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def unpack(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))

    def items(self, n):
        return [self.take(self.unpack('<I')[0]).decode('utf-8') for _ in range(n)]


def split_chunks(data):
    """[(id, start, body_start, end)], strict."""
    cur = Cursor(data)
    if cur.take(4) != b'FiFu':
        raise FormatError('magic')
    version, n = cur.unpack('<II')
    if version != 0:
        raise FormatError('version')
    ids = list(cur.unpack('<%dI' % n))
    spans = []
    while cur.pos < len(data):
        start = cur.pos
        id_, size = cur.unpack('<IQ')
        body = cur.pos
        cur.take(size)
        spans.append((id_, start, body, cur.pos))
    if [s[0] for s in spans] != ids:
        raise FormatError('preamble lists %s, file has %s' % (ids, [s[0] for s in spans]))
    return spans


def dec_chunk(data, span):
    """Decodes one chunk, strictly: its body must be consumed completely."""
    id_, _start, body, end = span
    cur = Cursor(data[:end], body)
    if id_ == METADATA:
        x = bytes(cur.take(end - body))
    elif id_ == SIMPLE:
        x = Vocab('simple', cur.items(cur.unpack('<Q')[0]))
    elif id_ in (BUCKET, FASTTEXT):
        n, mn, mx, b = cur.unpack('<QIII')
        x = Vocab('fifu' if id_ == BUCKET else 'ft', cur.items(n), mn, mx, b)
    elif id_ == EXPLICIT:
        n, m, mn, mx = cur.unpack('<QQII')
        words = cur.items(n)
        ng = []
        for _ in range(m):
            t = cur.items(1)[0]
            ng.append((t, cur.unpack('<Q')[0]))
        x = Vocab('explicit', words, mn, mx, None, ng)
    elif id_ == NDARRAY:
        rows, cols, t = cur.unpack('<QII')
        if t != 10:
            raise FormatError('type id')
        cur.take(pad(cur.pos))
        x = Nd(np.frombuffer(cur.take(4 * rows * cols), dtype='<f4').reshape(rows, cols))
    elif id_ == QUANTIZED:
        proj, norms, q, rec, c, n, t1, t2 = cur.unpack('<IIIIIQII')
        if (t1, t2) != (1, 10):
            raise FormatError('type ids')
        cur.take(pad(cur.pos))
        f = lambda *shape: np.frombuffer(cur.take(4 * int(np.prod(shape, dtype=np.int64))), dtype='<f4').reshape(shape)
        p = f(rec, rec) if proj else None
        quant = f(q, c, rec // q)
        nn = f(n) if norms else None
        codes = np.frombuffer(cur.take(n * q), dtype=np.uint8).reshape(n, q)
        x = Pq(quant, codes, p, nn)
    elif id_ == NORMS:
        n, t = cur.unpack('<QI')
        if t != 10:
            raise FormatError('type id')
        cur.take(pad(cur.pos))
        x = np.frombuffer(cur.take(4 * n), dtype='<f4').copy()
    else:
        raise FormatError('chunk id %d' % id_)
    if cur.pos != end:
        raise FormatError('chunk %d is %d bytes too long' % (id_, end - cur.pos))
    return x


# ------------------------------------------------------------------------------------------------------- lookup model
def lookup64(emb, word, rows=None):
    """(vector float64, norm) or None; norm is None if the known word has no stored norm."""
    idx = emb.vocab.lookup(word)
    if idx is None:
        return None
    rows = emb.storage.rows64() if rows is None else rows
    if isinstance(idx, int):
        return rows[idx], (None if emb.norms is None else float(emb.norms[idx]))
    s = np.zeros(rows.shape[1], dtype=np.float64)
    for i in idx:
        s = s + rows[i]
    n = float(np.sqrt(np.sum(s * s)))
    return s / n if n else s, n
