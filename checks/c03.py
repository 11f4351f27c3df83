"""C03: loading one component agrees with the file, whatever surrounds it."""
import itertools
import os

from checks import c01, c02
from mc import dom, ref
from mc.dom import build, file_arg, put, read, FILE_KINDS
from finalfusion.io import ChunkIdentifier, Header, find_chunk
from mc.engine import Suite, Violation, need, scratch

LEVEL = 'model_checking'
ASSUMPTIONS = ['only known chunk identifiers occur', 'the reference encoder states the format correctly']

# two contents (different sizes and alignments) per chunk type
VOCABS = {
    'simple': [['simple', ['a', 'b']], ['simple', ['€uro', '', 'xyz', 'q']], ['simple', []]],
    'fifu': [['fifu', ['a'], 1, 2, 1], ['fifu', ['ab', '😀'], 3, 6, 30], ['fifu', [], 1, 1, 3]],
    'ft': [['ft', ['c'], 1, 2, 3], ['ft', ['abcde', 'ü'], 3, 6, 2000000], ['ft', [], 2, 2, 1]],
    'explicit': [['explicit', ['d'], 1, 2, [['x', 0], ['yz', 0]]], ['explicit', ['d', 'ö'], 3, 6, [['€', 1], ['abc', 0], ['qq', 2]]], ['explicit', [], 1, 1, []]],
}
STORAGES = {
    'nd': [(['nd', 2, 'C', 'bits'], 3), (['nd', 3, 'C', 'bits'], 1), (['nd', 1, 'C', 'bits'], 0)],
    'pq': [(['pq', 2, 1, 3, 0, 1, 'C', 'bits'], 3), (['pq', 1, 3, 2, 1, 0, 'C', 'bits'], 2), (['pq', 1, 1, 1, 0, 0, 'C', 'bits'], 0)],
}
NORMS = [3, 1, 0]
METAS = [1, 5, 0]
TYPES = ['simple', 'fifu', 'ft', 'explicit', 'nd', 'pq', 'norms', 'meta']


def part(t, i):
    if t in VOCABS:
        return ('vocab', dom.model_vocab(VOCABS[t][i]))
    if t in STORAGES:
        spec, rows = STORAGES[t][i]
        return ('storage', dom.model_storage(spec, rows, i))
    if t == 'norms':
        return ('norms', dom.floats(NORMS[i], 'bits', 7 + i))
    text = {1: 'a = "b"\n', 5: c02.FOREIGN_TOML[2][0], 0: ''}[METAS[i]]
    return ('meta', text.encode('utf-8'))


META_VALUE = {b'a = "b"\n': {'a': 'b'}, c02.FOREIGN_TOML[2][0].encode(): c02.FOREIGN_TOML[2][1], b'': {}}

LOADERS = [
    ('load_vocab', lambda f: dom.load_vocab(f), ('simple', 'fifu', 'ft', 'explicit')),
    ('load_simple_vocab', lambda f: dom.load_simple_vocab(f), ('simple', )),
    ('load_finalfusion_bucket_vocab', lambda f: dom.load_finalfusion_bucket_vocab(f), ('fifu', )),
    ('load_fasttext_vocab', lambda f: dom.load_fasttext_vocab(f), ('ft', )),
    ('load_explicit_vocab', lambda f: dom.load_explicit_vocab(f), ('explicit', )),
    ('load_storage', lambda f: dom.load_storage(f), ('nd', 'pq')),
    ('load_storage(mmap)', lambda f: dom.load_storage(f, mmap=True), ('nd', 'pq')),
    ('load_ndarray', lambda f: dom.load_ndarray(f), ('nd', )),
    ('load_ndarray(mmap)', lambda f: dom.load_ndarray(f, mmap=True), ('nd', )),
    ('load_quantized_array', lambda f: dom.load_quantized_array(f), ('pq', )),
    ('load_quantized_array(mmap)', lambda f: dom.load_quantized_array(f, mmap=True), ('pq', )),
    ('load_norms', lambda f: dom.load_norms(f), ('norms', )),
    ('load_metadata', lambda f: dom.load_metadata(f), ('meta', )),
]


def check_part(got, kind, x, what, meta_value=None):
    if kind == 'vocab':
        dom.check_vocab(got, x, what)
    elif kind == 'storage':
        dom.check_storage(got, x, what)
    elif kind == 'norms':
        dom.check_norms(got, x, what)
    else:
        dom.check_meta(got, meta_value, what)


def run_loaders(path, types, parts, rec, meta_values, kinds=('str', )):
    for name, fn, wanted in LOADERS:
        hit = next((i for i, t in enumerate(types) if t in wanted), None)
        for fk in kinds:
            rec.step()
            what = '%s(%s) on %s' % (name, fk, '+'.join(types))
            if hit is None:
                try:
                    fn(file_arg(path, fk))
                except ValueError:
                    rec.outcome(name + ':absent')
                    continue
                raise Violation('%s: no such chunk but no ValueError' % what)
            got = fn(file_arg(path, fk))
            check_part(got, *parts[hit], what, meta_values.get(hit))
            rec.outcome(name + ':' + types[hit])
            del got


def sequence(desc, rec):
    types = [t for t, _ in desc['seq']]
    parts = [part(t, i) for t, i in desc['seq']]
    data, _ = ref.enc_chunks(parts, bytes([desc.get('fill', 0)]))
    path = put(os.path.join(scratch(), 's.fifu'), data)
    rec.state(data)
    run_loaders(path, types, parts, rec, {i: META_VALUE[x] for i, (k, x) in enumerate(parts) if k == 'meta'},
                FILE_KINDS if desc.get('kinds') else ('str', ))
    need(read(path) == data, 'loading modified the file')


def search(desc, rec):
    """the public search for a chunk: identifier found and position of the file, for every set of up to 2 wanted identifiers"""
    types = [t for t, _ in desc['seq']]
    data, spans = ref.enc_chunks([part(t, i) for t, i in desc['seq']])
    path = put(os.path.join(scratch(), 'f.fifu'), data)
    rec.state(data)
    ids = [x for x in ChunkIdentifier if x != ChunkIdentifier.Header]
    wanted = [[x] for x in ids] + [list(t) for t in itertools.permutations(ids, 2)] + [ids, []]
    with open(path, 'rb') as f:
        for w in wanted:
            hit = next((s for s in spans if s[0] in [int(x) for x in w]), None)
            for start in (0, len(data), None):
                # wherever the file is positioned before
                if start is not None:
                    f.seek(start)
                got = find_chunk(f, w)
                rec.step()
                need((got is None) if hit is None else got == hit[0], 'searching %s in %s gives %r', w, types, got)
                if hit is not None:
                    need(f.tell() == hit[2], 'searching %s in %s leaves the file at %d, not %d', w, types, f.tell(), hit[2])
                    rec.outcome('found')
                else:
                    rec.outcome('absent')


CLASSES = {'simple': dom.SimpleVocab, 'fifu': dom.FinalfusionBucketVocab, 'ft': dom.FastTextVocab, 'explicit': dom.ExplicitVocab,
           'nd': dom.NdArray, 'pq': dom.QuantizedArray, 'norms': dom.Norms, 'meta': dom.Metadata}


def walk(desc, rec):
    """chunks read one after the other from an open file: contents and position behind each"""
    types = [t for t, _ in desc['seq']]
    parts = [part(t, i) for t, i in desc['seq']]
    data, spans = ref.enc_chunks(parts, b'\xaa')
    path = put(os.path.join(scratch(), 'c.fifu'), data)
    rec.state(data)
    for mode in ('read', 'mmap', 'load', 'load(mmap)'):
        kept = []
        with open(path, 'rb') as f:
            ids = Header.read_chunk(f).chunk_ids
            need([int(x) for x in ids] == [s[0] for s in spans], 'chunk identifiers %s', ids)
            need(f.tell() == spans[0][1], 'position behind the header')
            for t, p, (_, _, body, end) in zip(types, parts, spans):
                f.seek(body)
                cls = CLASSES[t]
                if t not in STORAGES or mode == 'read':
                    got = cls.read_chunk(f)
                elif mode == 'mmap':
                    got = cls.mmap_chunk(f)
                else:
                    got = cls.load(f, mode != 'load')
                need(f.tell() == end, '%s of %s (%s) leaves the file at %d, not %d', mode, t, '+'.join(types), f.tell(), end)
                kept.append((got, p))
                rec.step()
        for got, p in kept:
            # whatever was read later from the same file
            check_part(got, *p, mode, META_VALUE.get(p[1]) if p[0] == 'meta' else None)
        rec.outcome(mode)


def search_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for t in itertools.product(TYPES, repeat=n):
            yield {'seq': [[x, i % 2] for i, x in enumerate(t)]}


def seq_cases(tier):
    one = [(t, i) for t in TYPES for i in (0, 1, 2)]
    two = [(t, i) for t in TYPES for i in (0, 1)]
    for a in one:
        yield {'seq': [list(a)], 'kinds': 1}
    for a, b in itertools.product(one, one):
        yield {'seq': [list(a), list(b)], 'kinds': 1}
    for t in itertools.product(two, repeat=3):
        yield {'seq': [list(x) for x in t], 'fill': 0xAA}
    for t in itertools.product(TYPES, repeat=4):
        yield {'seq': [[x, 1] for x in t]}
    # longer files over the four kinds of chunks, the type and content varying with the position
    kinds = [['simple', 'ft', 'fifu', 'explicit'], ['nd', 'pq'], ['norms'], ['meta']]
    for n in (5, 6) if tier == 'quick' else (5, 6, 7):
        for t in itertools.product(range(4), repeat=n):
            yield {'seq': [[kinds[k][(i + n) % len(kinds[k])], i % 2] for i, k in enumerate(t)]}
    if tier != 'quick':
        for t in itertools.product(one, repeat=3):
            yield {'seq': [list(x) for x in t]}
        for t in itertools.product(TYPES, repeat=5):
            yield {'seq': [[x, (i + len(x)) % 3] for i, x in enumerate(t)]}


def whole(desc, rec):
    """component loaders on files written by the library, against the specification and the fully loaded embeddings"""
    model, impl = build(desc)
    path = os.path.join(scratch(), 'w.fifu')
    impl.write(path)
    types, parts, meta_values = [], [], {}
    if model.meta is not None:
        meta_values[0] = model.meta
        types.append('meta')
        parts.append(('meta', None))
    types += [model.vocab.kind, model.storage.kind]
    parts += [('vocab', model.vocab), ('storage', model.storage)]
    if model.norms is not None:
        types.append('norms')
        parts.append(('norms', model.norms))
    rec.state(read(path))
    run_loaders(path, types, parts, rec, meta_values)
    e = dom.load_finalfusion(path)
    need(dom.load_vocab(path) == e.vocab, 'the vocabulary alone differs from that of the embeddings')
    # standalone chunk files
    for c, t, p, mv in zip(impl.chunks(), types, parts, [meta_values.get(i) for i in range(len(types))]):
        c.write(path)
        rec.step()
        run_loaders(path, [t], [p], rec, {0: mv})


def names(desc, rec):
    with dom.named(desc) as path:
        for seq in ([('meta', 0), ('simple', 0), ('nd', 0), ('norms', 0)], [('ft', 0), ('pq', 0)]):
            parts = [part(t, i) for t, i in seq]
            put(path, ref.enc_chunks(parts)[0])
            run_loaders(path, [t for t, _ in seq], parts, rec, {i: META_VALUE[x] for i, (k, x) in enumerate(parts) if k == 'meta'}, FILE_KINDS)
            rec.state((repr(desc), repr(seq)))
            os.unlink(path)


def suites(tier):
    return [
        Suite('sequences', lambda: seq_cases(tier), sequence,
              'all chunk sequences up to length 2 over 24 chunks, length 3 over 16 chunks, length 4 over 8 chunk types, length 5 and 6 over the 4 kinds '
              '(thorough: 3 over 24, 5 over 8, 7 over 4), all 13 loaders', block=16),
        Suite('search', lambda: search_cases(tier), search, 'find_chunk: all sequences of up to 3 (thorough 4) chunk types x all sets of up to 2 wanted identifiers, none and all x earlier positions', block=16),
        Suite('chunks', lambda: search_cases(tier), walk, 'the same sequences read chunk by chunk from an open file (read_chunk, mmap_chunk, load): contents and position', block=16),
        Suite('written', lambda: c01.small_cases(tier) if tier != 'quick' else itertools.islice(c01.small_cases(tier), 0, None, 3), whole,
              'files and standalone chunks written by the library (quick: every third of the C01 component products)', block=16),
        Suite('vocabularies', lambda: (dict(d, m=None) for d in c01.product_cases(tier) if d['s'][0] == 'nd' and d['s'][1] == 1 or tier != 'quick'), whole,
              'every vocabulary specification', block=16),
        Suite('sizes', lambda: c01.size_cases(tier), whole, 'size ladder of skipped and loaded chunks', block=1),
        Suite('big', lambda: c01.big_cases(tier, 1 << 23 if tier == 'quick' else 1 << 30), whole, 'arrays of 2^20 to 2^22 (thorough 2^26) elements', block=1, mem_gb=12, timeout=400),
        Suite('names', dom.name_cases, names, '64 file names that shells, tools and libraries treat specially, absolute, relative and in directories, all loaders and kinds of file arguments', block=16),
        Suite('sparse', lambda: c02.sparse_cases(tier), c02.sparse, 'skipped chunks around 2^31 and 2^32 bytes', block=1, mem_gb=1000),
    ]
