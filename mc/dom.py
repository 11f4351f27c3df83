"""
Domains: JSON-able specifications of embeddings, their reference models and the objects under test built from them.
"""
import contextlib
import datetime
import itertools
import os
import pathlib
import shutil
import struct

import numpy as np
import toml

from mc import ref
from mc.engine import Violation, need, scratch

from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.io import Header
from finalfusion.metadata import Metadata, load_metadata
from finalfusion.norms import Norms, load_norms
from finalfusion.storage import NdArray, QuantizedArray, load_ndarray, load_quantized_array, load_storage
from finalfusion.storage.quantized import PQ
from finalfusion.subword import ExplicitIndexer, FastTextIndexer, FinalfusionHashIndexer
from finalfusion.vocab import (ExplicitVocab, FastTextVocab, FinalfusionBucketVocab, SimpleVocab, Vocab,
                               load_explicit_vocab, load_fasttext_vocab, load_finalfusion_bucket_vocab,
                               load_simple_vocab, load_vocab)

VOCAB_CLS = {'simple': SimpleVocab, 'fifu': FinalfusionBucketVocab, 'ft': FastTextVocab, 'explicit': ExplicitVocab}

METAS = [
    {},
    {'a': 'b'},
    {'key': 1, 'flt': 0.5, 'yes': True, 'no': False, 'neg': -7},
    {'list': [1, 2, 3], 'strs': ['x', 'y'], 'empty': []},
    {'tab': {'nested': {'deep': 'v', 'n': 3}}, 'top': 'x'},
    {'ü€😀': 'ä€😀', 'quo"te': 'new\nline\ttab "q" \\ back'},
    {'long': 'x' * 3000, 'big': 1 << 62, 'small': 1e-300},
    {'aot': [{'a': 1}, {'a': 2}], 'z': ''},
]
MAIN_METAS = len(METAS)
METAS += [
    {'d': datetime.datetime(2020, 1, 2, 3, 4, 5), 'day': datetime.date(1999, 12, 31)},
    {'empty': {}, 'none': [], 'deep': {'er': {}}},
    {'a.b': 1, 'a b': 2, '': 3, '"': 4, 'A': 5, 'a': 6, 'ß': 7, 'SS': 8},
    {'nest': [[1, 2], [3]], 'b': [True, False], 'f': [1.5, -0.5]},
    {'t': {'a': [{'b': 1}, {'c': [1.5]}]}},
    {'k': '\'\'\'"""', 'l': 'a=b\n[c]\n# d', 'm': 'trail  ', 'n': '  lead', 'o': '\ttab', 'p': 'x\n'},
    {'j': 1e22, 'i': float('inf'), 'h': float('-inf'), 'g': 100000.0, 'f': 3.0, 'e': 1e-7, 'd': 0.1, 'c': 1 << 63, 'b': -(1 << 63), 'a': 0},
    {'x': ['a\\', 'b"c', "d'", ''], 'y': '\\', 'w': '\u2028\ufeff\u200b\u3000'},
    {'finalfusion': {'k%d' % i: 'v%d' % i for i in range(200)}},
    {'common': {'date': '2020', 'loss': 'skipgram'}, 'toml': '[table]\nkey = "value"'},
    # keys that the library itself uses in loaded fastText models, or that look like parts of embeddings, with other values
    {'dims': 99, 'window_size': 7, 'epoch': 3, 'min_count': 2, 'ns': 4, 'word_ngrams': 5, 'loss': 'Hinge', 'model': 'Other', 'buckets': 77, 'min_n': 9, 'max_n': 1, 'lr_update_rate': 8, 'sampling_threshold': 0.25},
    {'words': ['x'], 'vocab': {'type': 'SimpleVocab', 'min_n': 4}, 'storage': 'QuantizedArray', 'norms': [1.5], 'metadata': {}, 'n_words': 0, 'shape': [0, 0], 'normalized': True, 'mmap': True},
    {'w%d' % i: w for i, w in enumerate(['A', 'a', 'Ä', 'ß', 'e\u0301', 'é', '\ufb01', '日本語', '\U0010ffff', '%s', '{}', 'nan', 'true', '1979-05-27T07:32:00Z', 'inf', '0x10', '1_000'])},
]
FT_META = next(m for m in METAS if 'sampling_threshold' in m)
for _m in METAS:
    assert toml.loads(toml.dumps(_m)) == _m, _m


# ---------------------------------------------------------------------------------------------------------- generators
def gen_words(w):
    if isinstance(w, list):
        return list(w)
    g = w['g']
    if g == 'seq':  # n words of varying length
        return ['w%d' % i if i % 3 else 'wörd%d' % i for i in range(w['n'])]
    if g == 'hex':  # n words with hardly an n-gram in common
        return ['%08x' % (i * 2654435761 % (1 << 32)) for i in range(w['n'])]
    if g == 'len':  # one word of n characters between ordinary ones
        return ['a', w.get('c', 'x') * w['n'], 'b']
    if g == 'blen':  # k words of n characters
        return [w.get('c', 'x') * w['n'] + str(i) for i in range(w['k'])]
    raise AssertionError(g)


def gen_ngrams(ng):
    if isinstance(ng, list):
        return [(t, i) for t, i in ng]
    g = ng['g']
    if g == 'seq':
        return [('n%d' % i, i) for i in range(ng['n'])]
    if g == 'share':  # two n-grams per index, indices not in order of appearance
        n = ng['n']
        return [('n%d' % i, (n - 1 - i) // 2) for i in range(n)]
    if g == 'len':
        return [('y' * ng['n'], 0), ('z', 1)]
    raise AssertionError(g)


CONST = {'zero': 0.0, 'one': 1.0, 'minus': -1.0, 'negzero': -0.0, 'nan': np.nan, 'inf': np.inf}


def floats(n, vals, salt=0):
    i = np.arange(n, dtype=np.uint64) + np.uint64(salt * 1009)
    if vals == 'bits':
        v = ((i * np.uint64(2654435761)) & np.uint64(0xffffffff)).astype(np.uint32)
        # not-a-number values are quiet ones: arithmetic on the way (e.g. through a Python float) may turn signalling ones into these
        return np.where((v & 0x7fffffff) > 0x7f800000, v | 0x00400000, v).astype(np.uint32).view('<f4')
    if vals == 'nice':
        v = ((i * np.uint64(37) + np.uint64(11)) % np.uint64(101)).astype(np.float64) - 50.25
        return (v / 16).astype('<f4')
    if vals == 'pos':
        return (((i * np.uint64(29) + np.uint64(3)) % np.uint64(61)).astype(np.float64) / 8 + 0.25).astype('<f4')
    if vals == 'ext':  # extreme but ordinary values: subnormals, huge, negative zero, infinities, nan
        t = np.array([0.0, -0.0, 1e-45, -1e-45, 1e-38, 3.4028235e38, -3.4028235e38, np.inf, -np.inf, np.nan, 1 / 3, 1.0],
                     dtype='<f4')
        return t[(i % np.uint64(len(t))).astype(np.int64)].copy()
    if vals in CONST:  # degenerate: every value the same
        return np.full(n, CONST[vals], dtype='<f4')
    if vals == 'int':  # small integers, all of them exact in half precision and as text without a fraction
        return ((i * np.uint64(5) + np.uint64(2)) % np.uint64(7)).astype('<f4') - np.float32(3)
    if vals.startswith('nice*'):  # ordinary values of another magnitude
        return (floats(n, 'nice', salt).astype(np.float64) * float(vals[5:])).astype('<f4')
    if vals.startswith('pos*'):
        return (floats(n, 'pos', salt).astype(np.float64) * float(vals[4:])).astype('<f4')
    raise AssertionError(vals)


_MM = itertools.count()


def layout(a, how):
    """The values of `a` (C-contiguous, native) in a different memory layout."""
    if how == 'C':
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'rs':
        big = np.full((2 * a.shape[0] + 1, ) + a.shape[1:], 77, dtype=a.dtype)
        big[1::2] = a
        return big[1::2]
    if how == 'cs':
        big = np.full(a.shape[:-1] + (3 * a.shape[-1] + 2, ), 77, dtype=a.dtype)
        big[..., 2::3] = a
        return big[..., 2::3]
    if how == 'neg':
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[rev])[rev]
    if how == 'be':
        return a.byteswap().view(a.dtype.newbyteorder('>'))
    if how == 'beF':
        return np.asfortranarray(a.byteswap().view(a.dtype.newbyteorder('>')))
    if how == 'un':
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        raw[1:] = np.frombuffer(a.tobytes(), dtype=np.uint8)
        return raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a
    if how == 'ro':
        a = a.copy()
        a.flags.writeable = False
        return a
    if how == 'mm':
        path = os.path.join(scratch(), 'mm%d' % (next(_MM) % 4))
        if os.path.exists(path):
            os.unlink(path)
        with open(path, 'wb') as f:
            f.write(b'\0' * 4 + a.tobytes())
        return np.memmap(path, dtype=a.dtype, mode='r', offset=4, shape=a.shape) if a.nbytes else a
    raise AssertionError(how)


LAYOUTS_2D = ['C', 'F', 'rs', 'cs', 'neg', 'be', 'beF', 'un', 'ro', 'mm']
LAYOUTS_1D = ['C', 'rs', 'neg', 'be', 'un', 'ro', 'mm']


# ---------------------------------------------------------------------------------------------------------- builders
def model_vocab(spec):
    kind = spec[0]
    if kind == 'simple':
        return ref.Vocab('simple', gen_words(spec[1]))
    if kind == 'explicit':
        return ref.Vocab('explicit', gen_words(spec[1]), spec[2], spec[3], None, gen_ngrams(spec[4]))
    return ref.Vocab(kind, gen_words(spec[1]), spec[2], spec[3], spec[4])


def impl_vocab(m):
    words = list(m.words)
    if m.kind == 'simple':
        return SimpleVocab(words)
    if m.kind == 'fifu':
        return FinalfusionBucketVocab(words, FinalfusionHashIndexer(m.buckets, m.min_n, m.max_n))
    if m.kind == 'ft':
        return FastTextVocab(words, FastTextIndexer(m.buckets, m.min_n, m.max_n))
    # the order in which the index dictionary was filled carries no meaning
    return ExplicitVocab(words, ExplicitIndexer([t for t, _ in m.ngrams], m.min_n, m.max_n, dict(reversed(m.ngrams))))


def model_storage(spec, rows, salt=0):
    if spec[0] == 'nd':
        _, cols, _lay, vals = spec
        return ref.Nd(floats(rows * cols, vals, salt).reshape(rows, cols))
    _, q, sub, cent, proj, norms, _lay, vals = spec
    quant = floats(q * cent * sub, vals, salt + 1).reshape(q, cent, sub)
    codes = ((np.arange(rows * q) * 7 + 3 * (np.arange(rows * q) // max(q, 1)) + salt) % cent).astype(np.uint8).reshape(rows, q)
    d = q * sub
    # proj, norms: 0 for none, 1 for values like the rest, 'eye' or a name of values
    if proj == 'eye':
        p = np.eye(d, dtype='<f4')
    else:
        p = floats(d * d, proj if isinstance(proj, str) else vals, salt + 2).reshape(d, d) if proj else None
    nn = floats(rows, norms if isinstance(norms, str) else 'bits' if vals == 'bits' else 'pos', salt + 3) if norms else None
    return ref.Pq(quant, codes, p, nn)


def impl_storage(m, lay='C'):
    if m.kind == 'nd':
        return NdArray(layout(m.array, lay))
    lay2 = lay if lay not in ('be', 'beF') else 'C'
    lay1 = {'F': 'rs', 'cs': 'rs', 'beF': 'be'}.get(lay, lay)
    lay3 = lay
    return QuantizedArray(PQ(layout(m.quantizers, lay3), None if m.projection is None else layout(m.projection, lay)),
                          layout(m.codes, lay2), None if m.norms is None else layout(m.norms, lay1))


def storage_layout(spec):
    return spec[2] if spec[0] == 'nd' else spec[6]


def gen_meta(m):
    if isinstance(m, dict):  # tables of a given size
        return {'k': m['c'] * m['len']} if 'len' in m else {'k%d' % i: i for i in range(m['keys'])}
    return None if m is None else METAS[m]


def build(desc):
    """desc: {'v': vocab spec, 's': storage spec, 'n': None | [layout, vals], 'm': None | index into METAS | spec of gen_meta}."""
    v = model_vocab(desc['v'])
    s = model_storage(desc['s'], v.upper(), desc.get('salt', 0))
    n = None
    if desc.get('n') is not None:
        n = floats(len(v.words), desc['n'][1], 5)
    meta = gen_meta(desc.get('m'))
    model = ref.Emb(v, s, n, meta)
    impl = Embeddings(storage=impl_storage(s, storage_layout(desc['s'])), vocab=impl_vocab(v),
                      norms=None if n is None else Norms(layout(n, desc['n'][0])),
                      metadata=None if meta is None else Metadata(meta))
    return model, impl


# ---------------------------------------------------------------------------------------------------------- comparison
def bits(a):
    """little-endian bit pattern of a float array"""
    a = np.asarray(a)
    need(a.dtype.kind == 'f' and a.dtype.itemsize == 4, 'expected float32 data, got %s', a.dtype)
    b = np.ascontiguousarray(a)
    if b.dtype.byteorder == '>':
        b = b.byteswap()
    return b.tobytes()


def same_bits(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    if bits(got) != bits(want):
        bad = [i for i in range(got.size) if bits(got.ravel()[i:i + 1]) != bits(want.ravel()[i:i + 1])]
        raise Violation('%s: values differ at flat position %d: %r, expected %r' %
                        (what, bad[0], got.ravel()[bad[0]], want.ravel()[bad[0]]))


def close(got, want, what, tol=2e-5):
    got = np.asarray(got, dtype=np.float64)
    want = np.asarray(want, dtype=np.float64)
    need(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    if got.size == 0:
        return
    scale = max(1e-30, float(np.max(np.abs(want))) if want.ndim < 2 else 0)
    if want.ndim >= 2:
        scale = np.maximum(1e-30, np.max(np.abs(want), axis=-1, keepdims=True))
    bad = ~(np.abs(got - want) <= tol * scale)
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
        raise Violation('%s: value at %s is %r, expected %r' % (what, i, float(got[i]), float(want[i])))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'item %d is %r, expected %r' % (i, x, y)
    return 'length %d, expected %d' % (len(a), len(b))


def check_vocab(v, m, what='vocabulary'):
    """implementation vocabulary v equals model m (static view)"""
    need(type(v) is VOCAB_CLS[m.kind], '%s: type %s, expected %s', what, type(v).__name__, VOCAB_CLS[m.kind].__name__)
    words = list(v.words)
    if words != m.words:
        raise Violation('%s: words: %s' % (what, first_diff(words, m.words)))
    need(v.word_index == m.index, '%s: word index differs', what)
    need(len(v) == len(m.words), '%s: length %s', what, len(v))
    need(v.upper_bound == m.upper(), '%s: upper bound %s, expected %s', what, v.upper_bound, m.upper())
    if m.kind != 'simple':
        need((v.min_n, v.max_n) == (m.min_n, m.max_n), '%s: n-gram range %s', what, (v.min_n, v.max_n))
        ix = v.subword_indexer
        need((ix.min_n, ix.max_n) == (m.min_n, m.max_n), '%s: indexer range', what)
        need(ix.upper_bound == m.n_sub(), '%s: indexer bound %s, expected %s', what, ix.upper_bound, m.n_sub())
        if m.kind == 'fifu':
            need(ix.buckets_exp == m.buckets, '%s: bucket exponent %s', what, ix.buckets_exp)
        elif m.kind == 'ft':
            need(ix.n_buckets == m.buckets, '%s: buckets %s', what, ix.n_buckets)
        else:
            got = list(ix.ngrams)
            want = [t for t, _ in m.ngrams]
            if got != want:
                raise Violation('%s: n-grams: %s' % (what, first_diff(got, want)))
            need(dict(ix.ngram_index) == m.ngram_index, '%s: n-gram index %s', what, str(ix.ngram_index)[:300])
            need(list(ix) == want and len(ix) == len(want), '%s: n-gram iteration', what)


def check_storage(s, m, what='storage', file_check=True):
    """bit-exact static view of a storage"""
    if m.kind == 'nd':
        need(isinstance(s, NdArray), '%s: type %s', what, type(s).__name__)
        same_bits(np.asarray(s), m.array, what)
        need(tuple(s.shape) == m.shape, '%s: shape %s', what, s.shape)
        return
    need(isinstance(s, QuantizedArray), '%s: type %s', what, type(s).__name__)
    need(tuple(s.shape) == m.shape, '%s: shape %s, expected %s', what, s.shape, m.shape)
    need(len(s) == m.shape[0], '%s: length', what)
    pq = s.quantizer
    need(pq.n_centroids == m.quantizers.shape[1] and pq.reconstructed_len == m.shape[1], '%s: quantizer shape', what)
    need(s.quantized_len == m.codes.shape[1], '%s: quantized length', what)
    same_bits(pq.subquantizers, m.quantizers, what + ' quantizers')
    need((pq.projection is None) == (m.projection is None), '%s: projection presence', what)
    if m.projection is not None:
        same_bits(pq.projection, m.projection, what + ' projection')
    if file_check:
        # codes and norms have no accessor: read them off a freshly written chunk
        path = os.path.join(scratch(), 'codes.fifu')
        s.write(path)
        with open(path, 'rb') as f:
            data = f.read()
        want, _ = ref.enc_chunks([('storage', m)])
        if data != want:
            got = ref.dec_chunk(data, ref.split_chunks(data)[0])
            need(got.codes.tobytes() == m.codes.tobytes(), '%s: codes differ', what)
            need(got.key() == m.key(), '%s: quantized contents differ', what)
            raise Violation('%s: re-serialised bytes differ' % what)


def check_norms(n, want, what='norms'):
    need((n is None) == (want is None), '%s: presence differs', what)
    if want is not None:
        need(isinstance(n, Norms), '%s: type %s', what, type(n).__name__)
        same_bits(np.asarray(n), want, what)


def check_meta(m, want, what='metadata'):
    need((m is None) == (want is None), '%s: presence differs: %r', what, m)
    if want is not None:
        need(isinstance(m, Metadata), '%s: type %s', what, type(m).__name__)
        need(typed(m) == typed(want), '%s: %r, expected %r', what, dict(m), want)


def typed(x):
    """structure with types, so that 1, 1.0 and True differ"""
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def check_embeddings(e, m, what='embeddings', file_check=True):
    need(isinstance(e, Embeddings), '%s: type %s', what, type(e).__name__)
    check_vocab(e.vocab, m.vocab, what + ' vocabulary')
    check_storage(e.storage, m.storage, what + ' storage', file_check)
    check_norms(e.norms, m.norms, what + ' norms')
    check_meta(e.metadata, m.meta, what + ' metadata')
    need(e.n_words == len(m.vocab.words) and e.dims == m.storage.shape[1], '%s: n_words/dims', what)


# ---------------------------------------------------------------------------------------------------------- files
def read(path):
    with open(path, 'rb') as f:
        return f.read()


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


class Like:
    """a path that is neither a string nor a pathlib object"""
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


# file names that shells, command lines, compression tools or URL handlers treat specially; a name never decides how a file is read
NAMES = ['a.gz', 'a.bz2', 'a.xz', 'a.zip', 'a.txt', 'a.txt.gz', 'a.vec', 'a.bin', 'a.w2v', 'a.fifu', 'a.FIFU', 'a.npy', 'a.toml', 'A', '~', '~root', '$HOME', '${HOME}', '%s', '%41', '{}', 'a b', ' a', 'a ', 'a\t', 'a\nb',
         '-', '--', '-k', '--mmap', '0', '1', '3', '007', '.a', 'a.', '...', 'a..b', '*', '?', '[a]', '#', ';', "'", '"', '\\', 'a\\b', 'a:b', 'file:a', 'ä', 'a\u0308', '€😀', '\u2028', '\udcff', 'x' * 250, 'None', 'True', 'stdin', 'a=b', '@a', '&', '|a', '>a', '<memory>']


def name_cases(skip=()):
    for name in NAMES:
        if name in skip:
            continue
        for how in ('absolute', 'relative', 'dotted', 'directory'):
            yield {'name': name, 'how': how}


@contextlib.contextmanager
def named(desc):
    """the path of a file with the given name in a directory of its own, which is the current directory meanwhile"""
    top = os.path.join(scratch(), 'names')
    old = os.getcwd()
    name = os.fsdecode(desc['name'].encode('utf-8', 'surrogateescape'))
    os.makedirs(os.path.join(top, 'other', name))
    os.makedirs(os.path.join(top, 'here'))
    os.chdir(os.path.join(top, 'here'))
    try:
        yield {'absolute': os.path.join(top, 'here', name), 'relative': name, 'dotted': os.path.join('.', '..', 'here', name),
               'directory': os.path.join('..', 'other', name, name)}[desc['how']]
        left = sorted(set(os.listdir('.')) - {name})
        need(not left, 'files %s were left behind', left)
    finally:
        os.chdir(old)
        shutil.rmtree(top)


def file_arg(path, kind, mode='r'):
    """A file argument of the given kind for path."""
    if kind == 'str':
        return path
    if kind == 'bytes':
        return os.fsencode(path)
    if kind == 'path':
        return pathlib.Path(path)
    if kind == 'like':
        return Like(path)
    if kind == 'fd':
        return os.open(path, os.O_RDONLY if mode == 'r' else os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    raise AssertionError(kind)


FILE_KINDS = ['str', 'bytes', 'path', 'like', 'fd']


def expected_file(m, data):
    """The reference encoding of model m; the metadata text is taken from `data` after checking that it parses to m.meta."""
    meta_bytes = None
    if m.meta is not None:
        n = 3 if m.norms is None else 4
        off = 12 + 4 * n
        need(len(data) >= off + 12, 'file too short for a metadata chunk')
        id_, size = struct.unpack_from('<IQ', data, off)
        need(id_ == ref.METADATA, 'first chunk has identifier %d, expected metadata', id_)
        meta_bytes = data[off + 12:off + 12 + size]
        need(len(meta_bytes) == size, 'metadata chunk length %d exceeds the file', size)
        try:
            parsed = toml.loads(meta_bytes.decode('utf-8'))
        except Exception as exc:
            raise Violation('metadata chunk is not TOML: %s' % exc)
        need(typed(parsed) == typed(m.meta), 'metadata chunk holds %r, expected %r', parsed, m.meta)
    return ref.enc_chunks(ref.parts_of(m, meta_bytes))[0]


def same_file(data, want, what='file'):
    if data == want:
        return
    n = min(len(data), len(want))
    i = next((i for i in range(n) if data[i] != want[i]), n)
    raise Violation('%s: %d bytes, expected %d; first difference at byte %d: %r, expected %r' %
                    (what, len(data), len(want), i, data[i:i + 16], want[i:i + 16]))


# ---------------------------------------------------------------------------------------------------------- spec spaces
UNI = ['', 'a', 'ab', 'ä', '€', '😀', ' ', 'a b', '\n', '\0', '<', '>', '\u00a0', '\ufeff', 'e\u0301', 'ß9']


# words that text-processing shortcuts (case folding, Unicode normalisation, stripping, number parsing, formatting) confuse;
# none contains ASCII white space or NUL, so every format can hold them, and the first half differs from the second only in
# ways such shortcuts erase
_TWINS = [('A', 'a'), ('Ä', 'ä'), ('SS', 'ß'), ('İ', 'i\u0307'), ('I', 'ı'), ('Σ', 'σ'), ('ς', 'Ϲ'), ('Ǆ', 'ǆ'), ('Éa', 'éa'), ('é', 'e\u0301'), ('\u212b', '\u00c5'),
          ('\ufb01', 'fi'), ('\uff11', '1'), ('\u00b2', '2'), ('\uac00', '\u1100\u1161'), ('\u2126', '\u03a9'), ('a\u00a0b', 'a\u2003b'), ('\u3000', '\u1680'),
          ('\u00a0x', 'x\u00a0'), ('\ufeffa', 'a\ufeff'), ('a\u2028b', 'a\u2029b'), ('a\x85b', 'a\x1cb'), ('a\u200bb', 'a\u200db'), ('\x7f', '\x01'),
          ('\x1b[0m', '\x1f'), ('<', '>'), ('<A', 'A>'), ('<A>', '<>'), ('<<', '>>'), ('</s>', '__label__x'), ('#', '='), ('"q"', "'"), ('\\', '\\n'),
          ('%s', '%d'), ('{}', '{0}'), ('$x', '~'), ('-k', '--include'), ('nan', 'NaN'), ('inf', '-inf'), ('1.5', '1.50'), ('-1', '0'), ('1e5', '100000'),
          ('None', 'True'), ('a/b', 'http://x.y/?q=1&r=2'), ('a,b', 'a;b'), ('😀', '👨\u200d👩'), ('\U0010ffff', '\uffff'), ('\ue000', '\U000e0001'), ('日本語', 'ไทย'),
          ('עברית', '\u200fאב'), ('q\u0307\u0323', 'q\u0323\u0307')]
SPECIAL = [a for a, _ in _TWINS] + [b for _, b in _TWINS]
assert len(set(SPECIAL)) == len(SPECIAL)


def special_vocabs():
    """each half of SPECIAL as the words of vocabularies of every kind; the other half makes the twins that must stay unknown"""
    half = len(SPECIAL) // 2
    for ws, other in ((SPECIAL[:half], SPECIAL[half:]), (SPECIAL[half:], SPECIAL[:half])):
        yield ['simple', ws]
        for mn, mx in ((1, 2), (3, 6)):
            yield ['fifu', ws, mn, mx, 9]
            yield ['ft', ws, mn, mx, 211]
        yield ['explicit', ws, 1, 4, [[g, i] for i, g in enumerate(other)]]
        yield ['explicit', ws, 1, 4, [[g, i // 2] for i, g in enumerate(ws[::-1])]]


def surjections(n):
    """all index assignments of n n-grams covering 0..max"""
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            yield list(t)


def word_lists(tier):
    out = [[]]
    out += [[w] for w in UNI]
    base = ['', 'a', 'ab', '€', '😀'] if tier == 'quick' else UNI
    out += [list(t) for t in itertools.permutations(base, 2)]
    out += [list(t) for t in itertools.permutations(['', 'a', 'b€', 'abc'], 3)]
    out.append(list(UNI))
    return out


def vocab_specs(tier):
    wl = word_lists(tier)
    few = [[], [''], ['a'], ['ab', '€'], ['b', 'a', 'c'], ['😀😀', 'x\0y', '', 'ß']]
    for w in wl:
        yield ['simple', w]
    ranges = [(1, 1), (1, 2), (2, 3), (3, 6), (3, 3)]
    for w in few:
        for mn, mx in ranges:
            for e in (1, 2, 3):
                yield ['fifu', w, mn, mx, e]
            for b in (1, 2, 3, 5, 7):
                yield ['ft', w, mn, mx, b]
    yield ['fifu', ['a'], 1, 4294967295, 1]
    yield ['ft', ['a'], 7, 4294967295, 2]
    ngs = ['<a', 'a>', '€', '😀x', '']
    for w in few:
        for mn, mx in [(1, 1), (2, 5), (3, 6)]:
            for n in (0, 1, 2, 3):
                if n == 0:
                    yield ['explicit', w, mn, mx, []]
                    continue
                for assign in surjections(n):
                    yield ['explicit', w, mn, mx, [[ngs[i], assign[i]] for i in range(n)]]
    yield ['explicit', ['a', 'b'], 1, 5, [[t, i % 3] for i, t in enumerate(ngs)]]


def storage_specs(tier, layouts=('C', )):
    for lay in layouts:
        for cols in (0, 1, 2, 3, 5):
            yield ['nd', cols, lay, 'bits']
        for q, sub in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1)):
            for cent in (1, 2, 5):
                for proj in (0, 1):
                    for norms in (0, 1):
                        if tier == 'quick' and cent == 2 and (q, sub) in ((1, 3), (3, 1)):
                            continue
                        yield ['pq', q, sub, cent, proj, norms, lay, 'bits']


# ---------------------------------------------------------------------------------------------------------- modifications
def _set_norms(vals):
    def go(m, e):
        v = None if vals is None else floats(len(m.vocab.words), vals, 41)
        e.norms = None if v is None else Norms(v.copy())
        m.norms = v
    return go


def _edit_norms(m, e):
    if m.norms is not None and len(m.norms):
        e.norms[len(m.norms) - 1] = 6.25
        m.norms[len(m.norms) - 1] = 6.25


def _scale_norms(m, e):
    if m.norms is not None:
        n = e.norms
        n *= 2
        m.norms = m.norms * np.float32(2)


def _storage_edit(fn):
    def go(m, e):
        if m.storage.kind != 'nd' or not m.storage.array.size:
            return
        fn(e.storage)
        fn(m.storage.array)
    return go


def _put_row(a):
    a[0] = np.arange(a.shape[1], dtype=np.float32) - 1.5


def _put_last(a):
    a[-1] = np.float32(2.25)


def _put_column(a):
    a[:, 0] = np.arange(a.shape[0], dtype=np.float32) * 3 - 4


def _negate(a):
    a *= -1


def _through_slice(a):
    a[1:][...] = a[1:] * 2 + 1


def _reverse(a):
    a[...] = np.array(a[::-1])


def _meta(value):
    def go(m, e):
        e.metadata = None if value is None else Metadata(dict(value))
        m.meta = value
    return go


def _meta_edit(m, e):
    if m.meta is not None:
        e.metadata['added'] = 17
        m.meta = dict(m.meta, added=17)


# ways to change embeddings; each changes the object and its model
MODS = {
    'norms': _set_norms('pos'),
    'norms-one': _set_norms('one'),
    'no-norms': _set_norms(None),
    'edit-norms': _edit_norms,
    'scale-norms': _scale_norms,
    'row': _storage_edit(_put_row),
    'last-row': _storage_edit(_put_last),
    'column': _storage_edit(_put_column),
    'negate': _storage_edit(_negate),
    'slice': _storage_edit(_through_slice),
    'reverse': _storage_edit(_reverse),
    'metadata': _meta({'new': 'v', 't': {'x': 1}}),
    'no-metadata': _meta(None),
    'edit-metadata': _meta_edit,
}


def mod_cases(tier, loaded=True):
    """embeddings and sequences of modifications"""
    w = ['b', 'a', 'ab€', 'cab']
    vs = [['simple', w], ['fifu', w, 1, 2, 2], ['ft', w, 3, 4, 5], ['explicit', w, 1, 3, [['<a', 0], ['a', 1], ['b>', 2], ['€', 1]]]]
    for v in vs:
        for s in (['nd', 3, 'C', 'nice'], ['nd', 3, 'F', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice']):
            for via in (None, 'eager') if loaded and s[2] == 'C' else (None, ):
                mods = [x for x in MODS if s[0] == 'nd' or x in ('norms', 'norms-one', 'no-norms', 'edit-norms', 'scale-norms', 'metadata', 'no-metadata', 'edit-metadata')]
                for n in (None, ['C', 'pos']):
                    for k in (1, 2) if tier == 'quick' else (1, 2, 3):
                        for t in itertools.product(mods, repeat=k):
                            if k == 2 and tier == 'quick' and (via or s[2] == 'F') and t[0] == t[1]:
                                continue
                            yield {'v': v, 's': s, 'n': n, 'm': 1, 'via': via, 'mods': list(t)}


def modified(check):
    """run `check(model, embeddings, what)` on the embeddings and again after each modification"""
    def go(desc, rec):
        m, e = build(desc)
        if desc.get('via'):
            path = os.path.join(scratch(), 'mod.fifu')
            e.write(path)
            e = load_finalfusion(path)
        what = 'unmodified'
        check(m, e, rec, what)
        for i, name in enumerate(desc['mods']):
            MODS[name](m, e)
            what = 'after ' + ', '.join(desc['mods'][:i + 1])
            check(m, e, rec, what)
            rec.step()
        rec.state(repr(desc))
        rec.outcome(desc['mods'][-1])
    return go
