"""C02: finalfusion files follow the published chunk format byte for byte."""
import errno
import os
import struct

import numpy as np
import toml

from checks import c01
from mc import dom, ref
from mc.dom import build, check_embeddings, file_arg, put, read, same_file
from mc.engine import Suite, Violation, need, scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['little-endian host', 'the reference encoder in mc/ref.py states the format correctly',
               'the TOML text of metadata is judged by parsing it']


def written(desc, rec):
    """the file written for desc is the reference encoding; so is each single-component file"""
    model, impl = build(desc)
    path = os.path.join(scratch(), 'w.fifu')
    impl.write(path)
    rec.step()
    data = read(path)
    same_file(data, dom.expected_file(model, data))
    rec.state(data)
    for part, comp in (('vocab', impl.vocab), ('storage', impl.storage), ('norms', impl.norms)):
        if comp is None:
            continue
        comp.write(path)
        rec.step()
        m = getattr(model, part)
        same_file(read(path), ref.enc_chunks([(part, m)])[0], part + ' file')
    if model.meta is not None:
        impl.metadata.write(path)
        rec.step()
        data = read(path)
        need(data[:16] == ref.preamble([ref.METADATA]), 'metadata file: preamble %r', data[:16])
        id_, size = struct.unpack_from('<IQ', data, 16)
        need(id_ == ref.METADATA and size == len(data) - 28, 'metadata file: chunk header (%d, %d) in %d bytes', id_, size, len(data))
        need(dom.typed(toml.loads(data[28:].decode('utf-8'))) == dom.typed(model.meta), 'metadata file: content')
    rec.outcome('%s/%s' % (model.vocab.kind, model.storage.kind))


FOREIGN_TOML = [
    ('', {}),
    ('a = 1', {'a': 1}),
    ('# comment\n\n[t]\nx = "\\u00e4"\ny = [1,\n 2]\n', {'t': {'x': 'ä', 'y': [1, 2]}}),
    ("s = 'literal'\r\nf = 1.5\r\n", {'s': 'literal', 'f': 1.5}),
    ('k = """multi\nline"""\n"q k" = true\n', {'k': 'multi\nline', 'q k': True}),
    ('x = "😀€"\n', {'x': '😀€'}),
]


def foreign_model(desc):
    v = dom.model_vocab(desc['v'])
    s = dom.model_storage(desc['s'], v.upper(), desc.get('salt', 0))
    n = None if desc['n'] is None else dom.floats(len(v.words), desc['n'], 9)
    m = desc['m']
    if isinstance(m, dict):
        meta = dom.gen_meta(m)
        meta_text = ''.join('%s = %s\n' % (k, '"%s"' % x if isinstance(x, str) else x) for k, x in meta.items())
    else:
        meta_text, meta = (None, None) if m is None else FOREIGN_TOML[m]
    return ref.Emb(v, s, n, meta), None if meta_text is None else meta_text.encode('utf-8')


def foreign(desc, rec):
    model, meta_bytes = foreign_model(desc)
    data, _ = ref.enc_chunks(ref.parts_of(model, meta_bytes), bytes([desc['fill']]))
    path = put(os.path.join(scratch(), 'f.fifu'), data)
    rec.state(data)
    for mmap in (False, True):
        e = dom.load_finalfusion(path, mmap)
        rec.step()
        check_embeddings(e, model, 'foreign file (mmap=%s)' % mmap)
        # the components used through the public interface are those of the file
        rows = model.storage.rows64()
        if desc['vals'] == 'nice':
            for w, i in model.vocab.index.items():
                dom.close(e[w], rows[i], 'vector of %r' % w)
                rec.step()
        del e
    need(read(path) == data, 'loading modified the file')
    rec.outcome('%s/%s/f%d' % (model.vocab.kind, model.storage.kind, desc['fill'] != 0))


def foreign_cases(tier):
    for v in dom.vocab_specs(tier):
        for s in (['nd', 2, 'C', 'bits'], ['pq', 2, 1, 3, 1, 1, 'C', 'bits']):
            for n in (None, 'bits'):
                yield {'v': v, 's': s, 'n': n, 'm': None, 'fill': 0, 'vals': 'bits'}
    for v in c01.SMALLV:
        for vals in ('bits', 'nice'):
            for s in dom.storage_specs('thorough'):
                s = s[:-1] + [vals]
                for m in [None] + list(range(len(FOREIGN_TOML))):
                    for fill in (0, 0xAA):
                        yield {'v': v, 's': s, 'n': 'bits' if fill else None, 'm': m, 'fill': fill, 'vals': vals}


def foreign_chars(tier):
    for d in c01.char_cases(tier):
        yield {'v': d['v'], 's': d['s'], 'n': d['n'] and d['n'][1], 'm': None, 'fill': 0, 'vals': 'bits'}


def foreign_degenerate(tier):
    for d in c01.degenerate_cases(tier):
        yield {'v': d['v'], 's': d['s'], 'n': d['n'] and d['n'][1], 'm': d['m'], 'fill': 0, 'vals': 'bits'}


def foreign_sizes(tier):
    for d in c01.size_cases(tier):
        yield {'v': d['v'], 's': d['s'], 'n': d['n'] and d['n'][1], 'm': d['m'] if isinstance(d['m'], dict) else None, 'fill': 0, 'vals': 'bits'}


def vocab_file(desc, rec):
    """vocabulary-only files with extreme parameters: write and load"""
    m = dom.model_vocab(desc['v'])
    want = ref.enc_chunks([('vocab', m)])[0]
    path = put(os.path.join(scratch(), 'v.fifu'), want)
    v = dom.load_vocab(path)
    rec.step(2)
    dom.check_vocab(v, m)
    out = os.path.join(scratch(), 'v2.fifu')
    dom.impl_vocab(m).write(out)
    same_file(read(out), want, 'written vocabulary')
    v.write(out)
    same_file(read(out), want, 'rewritten vocabulary')
    rec.state(want)
    rec.outcome(m.kind)


def vocab_params(tier):
    U = (1 << 32) - 1
    for e in range(1, 64):
        yield {'v': ['fifu', ['a', 'ä'], 3, 6, e]}
    for b in sorted({x for k in range(0, 33) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)} | {2000000, 10, 100}):
        if 0 < b <= U:
            yield {'v': ['ft', ['a', 'ä'], 3, 6, b]}
    ladder = [1, 2, 3, 6, 7, 255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 31, U]
    for mn in ladder:
        for mx in ladder:
            if mn <= mx:
                yield {'v': ['fifu', ['a'], mn, mx, 21]}
                yield {'v': ['ft', ['a'], mn, mx, 2000000]}
                yield {'v': ['explicit', ['a'], mn, mx, [['abc', 0]]]}


def sparse(desc, rec):
    """files with chunks beyond 2^31 and 2^32 bytes (sparse), memory-mapped"""
    try:
        sparse_(desc, rec)
    except OSError as exc:
        if exc.errno not in (errno.ENOMEM, errno.ENOSPC, errno.EFBIG):
            raise
        rec.skip('sandbox cannot hold the sparse file: %s' % exc)


def sparse_(desc, rec):
    rows, cols, kind = desc['rows'], desc['cols'], desc['kind']
    path = os.path.join(scratch(), 'sparse.fifu')
    if os.path.exists(path):
        os.unlink(path)
    v = dom.model_vocab(desc['v'])
    assert v.upper() == rows
    head = ref.preamble([ref.VOCAB_IDS[v.kind], ref.NDARRAY if kind == 'nd' else ref.QUANTIZED, ref.NORMS]) + ref.chunk(*ref.enc_vocab(v))
    pos = len(head)
    p = ref.pad(pos + 4)
    quant = dom.floats(cols * 3, 'nice').reshape(cols if kind == 'pq' else 1, 3, -1) if kind == 'pq' else None
    if kind == 'nd':
        size = rows * cols * 4
        head += struct.pack('<IQ', ref.NDARRAY, 16 + p + size) + struct.pack('<QII', rows, cols, 10) + b'\0' * p
    else:
        size = rows * cols
        head += struct.pack('<IQ', ref.QUANTIZED, 36 + p + quant.nbytes + size)
        head += struct.pack('<IIIIIQII', 0, 0, cols, cols, 3, rows, 1, 10) + b'\0' * p + quant.tobytes()
    item = 4 if kind == 'nd' else 1
    marks = [(0, 0), (rows - 1, cols - 1), (rows // 2, cols // 2), (rows - 1, 0)]
    norms = dom.floats(len(v.words), 'nice', 3)
    with open(path, 'wb') as f:
        f.write(head)
        base = f.tell()
        for k, (r, c) in enumerate(marks):
            f.seek(base + (r * cols + c) * item)
            f.write(struct.pack('<f', k + 1.5) if kind == 'nd' else bytes([1 + k % 2]))
        f.seek(base + size)
        end = base + size
        f.truncate(end)
        f.seek(end)
        f.write(ref.chunk(*ref.enc_norms(norms, end)))
    try:
        vals = {}
        for k, (r, c) in enumerate(marks):
            vals[(r, c)] = k + 1.5 if kind == 'nd' else 1 + k % 2
        for how in ('all', 'storage', 'norms'):
            rec.step()
            if how == 'norms':
                dom.check_norms(dom.load_norms(path), norms)
                continue
            s = e = None
            if how == 'all':
                e = dom.load_finalfusion(path, mmap=True)
                dom.check_norms(e.norms, norms)
                dom.check_vocab(e.vocab, v)
                s = e.storage
            else:
                s = dom.load_storage(path, mmap=True)
            need(tuple(s.shape) == (rows, cols), 'shape %s', s.shape)
            for (r, c), x in vals.items():
                if kind == 'nd':
                    need(float(s[r, c]) == x, 'value at %s is %r, expected %r', (r, c), float(s[r, c]), x)
                else:
                    need(float(s[r][c]) == float(quant[c, x, 0]), 'value at %s is %r', (r, c), float(s[r][c]))
                rec.step()
            del s
    finally:
        os.unlink(path)
    rec.state(repr(desc))
    rec.outcome(kind)


def sparse_cases(tier):
    for cols in ((1 << 28) - 1, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 29) + 1, (1 << 30) + 3):
        yield {'v': ['simple', ['a', 'b']], 'rows': 2, 'cols': cols, 'kind': 'nd'}
    for e in (20, 24, 28, 29, 30):
        yield {'v': ['fifu', ['a'], 3, 6, e], 'rows': 1 + (1 << e), 'cols': 1, 'kind': 'nd'}
        yield {'v': ['fifu', ['a'], 3, 6, e], 'rows': 1 + (1 << e), 'cols': 4, 'kind': 'nd'}
        yield {'v': ['fifu', ['a'], 3, 6, e], 'rows': 1 + (1 << e), 'cols': 4, 'kind': 'pq'}
    for b in ((1 << 31) - 1, 1 << 31, (1 << 32) - 1):
        yield {'v': ['ft', ['a', 'b'], 3, 6, b], 'rows': 2 + b, 'cols': 1, 'kind': 'pq'}
        yield {'v': ['ft', ['a', 'b'], 3, 6, b], 'rows': 2 + b, 'cols': 2, 'kind': 'nd'}


def written_chunks(desc, rec):
    """chunks written one after the other to an open file, in any order"""
    from checks import c03
    parts, impl = [], []
    for t, i in desc['seq']:
        p = c03.part(t, i) if t != 'meta' else ('meta', [b'a = "b"\n', b''][i])
        parts.append(p)
        kind, x = p
        impl.append(dom.impl_vocab(x) if kind == 'vocab' else dom.impl_storage(x) if kind == 'storage' else dom.Norms(x.copy()) if kind == 'norms' else dom.Metadata(toml.loads(x.decode())))
    data, spans = ref.enc_chunks(parts)
    path = os.path.join(scratch(), 'c.fifu')
    with open(path, 'wb') as f:
        dom.Header([c.chunk_identifier() for c in impl]).write_chunk(f)
        for c, s in zip(impl, spans):
            need(f.tell() == s[1], 'chunk %d is written at %d, not %d', s[0], f.tell(), s[1])
            c.write_chunk(f)
            rec.step()
    same_file(read(path), data)
    rec.state(data)
    rec.outcome('same')


def suites(tier):
    return [
        Suite('written', lambda: c01.small_cases(tier), written, 'as C01 components: bytes equal the reference encoding', block=16),
        Suite('written-vocabularies', lambda: c01.product_cases(tier), written, 'as C01 vocabularies', block=16),
        Suite('written-layouts', lambda: c01.layout_cases(tier), written, 'all array layouts and byte orders', block=16),
        Suite('written-alignment', lambda: c01.align_cases(tier), written, 'all alignments', block=16),
        Suite('foreign', lambda: foreign_cases(tier), foreign, 'reference-encoded files of every vocabulary and storage specification, foreign TOML texts, non-zero padding', block=16),
        Suite('written-chunks', lambda: __import__('checks.c03').c03.search_cases(tier), written_chunks, 'all sequences of up to 3 (thorough 4) chunk types written chunk by chunk to an open file', block=16),
        Suite('vocab-parameters', lambda: vocab_params(tier), vocab_file, 'all bucket exponents, bucket numbers and n-gram ranges around powers of two', block=4),
        Suite('written-degenerate', lambda: c01.degenerate_cases(tier), written, 'constant matrices, norms, quantizers, projections and quantized norms', block=16),
        Suite('foreign-degenerate', lambda: foreign_degenerate(tier), foreign, 'the same in reference-encoded files', block=16),
        Suite('written-characters', lambda: c01.char_cases(tier), written, 'every code point up to U+33FF and 7 further ranges (thorough: every code point) as word and as n-gram', block=1),
        Suite('foreign-characters', lambda: foreign_chars(tier), foreign, 'the same in reference-encoded files', block=1),
        Suite('written-sizes', lambda: c01.size_cases(tier), written, 'size ladder', block=1),
        Suite('foreign-sizes', lambda: foreign_sizes(tier), foreign, 'size ladder', block=1),
        Suite('written-big', lambda: c01.big_cases(tier), written, 'arrays of 2^20 to 2^23 (thorough 2^26) elements in several layouts', block=1, mem_gb=12, timeout=400),
        Suite('sparse', lambda: sparse_cases(tier), sparse, 'memory-mapped chunks around 2^31 and 2^32 bytes', block=1, mem_gb=1000),
    ]
