"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S = 'src/finalfusion/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S + f if not f.startswith('src') else f for f in files],
         "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p('C01', 'A finalfusion file round trip loses nothing',
  'Writing any embeddings to a finalfusion file and loading that file, eagerly or memory-mapped and through any supported kind of file argument, '
  'gives embeddings of the same component types with the same words in the same order, the same subword configuration and n-gram indices, '
  'bit-identical vectors, quantizer contents and norms, and equal metadata. Writing the loaded embeddings again produces the identical bytes.',
  ['inputs', 'configurations', 'histories'],
  'for every vocabulary kind, word list, n-gram table, storage kind, shape, memory layout, norms, metadata, file-argument kind and load mode, and every number of write/load generations',
  'The tests round-trip a handful of fixture files with ordinary words; alignment, word bytes, empty components, layouts and sizes combine without bound.',
  ['embeddings.py', 'io.py', 'vocab/simple_vocab.py', 'vocab/subword.py', 'vocab/vocab.py', 'storage/ndarray.py', 'storage/quantized.py', 'norms.py', 'metadata.py'],
  [('whole-file write', 'embeddings.py:Embeddings.write'), ('whole-file load', 'embeddings.py:load_finalfusion'), ('array (de)serialisation', 'io.py:_serialize_array_as_le'), ('memory mapping', 'storage/ndarray.py:NdArray.mmap_chunk')])

p('C02', 'Finalfusion files follow the published chunk format byte for byte',
  'Every finalfusion file written, with all components or a single one, is exactly the little-endian chunked encoding of its contents: preamble, chunk identifiers, exact chunk lengths, alignment padding, and word, n-gram, matrix, quantizer, norm and metadata encodings, '
  'whatever the memory layout, strides or byte order of the arrays. Every well-formed file that another implementation of the format wrote loads to exactly the contents encoded in it.',
  ['inputs', 'configurations'],
  'for every component kind and content, every array layout and byte order, and every well-formed foreign file',
  'Round-trip tests cannot see an error that writer and reader share, and the binary fixtures cover one layout per chunk type.',
  ['io.py', 'embeddings.py', 'vocab/simple_vocab.py', 'vocab/subword.py', 'vocab/vocab.py', 'storage/ndarray.py', 'storage/quantized.py', 'norms.py', 'metadata.py'],
  [('preamble', 'io.py:Header'), ('padding', 'io.py:_pad_float32'), ('bucket vocabulary chunk', 'vocab/subword.py:_write_bucket_vocab'), ('explicit vocabulary chunk', 'vocab/subword.py:ExplicitVocab.write_chunk'), ('matrix chunk', 'storage/ndarray.py:NdArray.write_chunk'), ('quantized chunk', 'storage/quantized.py:QuantizedArray.write_chunk'), ('norms chunk', 'norms.py:Norms.write_chunk')])

p('C03', 'Loading one component agrees with the file, whatever surrounds it',
  'Loading only the vocabulary, storage, norms or metadata of a finalfusion file, generically or by specific type, eagerly or memory-mapped, returns exactly the first chunk of the requested kind, equal to the component of the fully loaded embeddings, no matter which chunks of which sizes precede or follow it. '
  'If the file has no such chunk a ValueError is raised.',
  ['inputs', 'configurations'],
  'for every sequence of chunks in a file, every size and content of the skipped chunks, and every loader',
  'The tests use files whose requested chunk is first or only preceded by one well-sized chunk; a wrong skip distance needs a particular predecessor.',
  ['io.py', 'vocab/__init__.py', 'storage/__init__.py', 'norms.py', 'metadata.py', 'vocab/simple_vocab.py', 'vocab/subword.py', 'storage/ndarray.py', 'storage/quantized.py'],
  [('chunk search', 'io.py:find_chunk'), ('generic vocabulary loader', 'vocab/__init__.py:load_vocab'), ('generic storage loader', 'storage/__init__.py:load_storage'), ('norms loader', 'norms.py:load_norms'), ('metadata loader', 'metadata.py:load_metadata')])

p('C04', 'Damaged or truncated files are never silently accepted',
  'Loading a file cut off at any byte (finalfusion, word2vec or fastText binary) either raises an exception or returns exactly what the intact file contains; it never returns different embeddings, crashes or hangs. '
  'Finalfusion files with wrong magic, version, value-type identifiers, chunk order or invalid UTF-8, fastText files with wrong magic, version or unsupported model kinds, and text files whose rows have the wrong number of components or are missing are rejected with an exception.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'for every truncation point of every file, every corruption of the identifying fields, every chunk order, and every combination of row lengths',
  'The tests try no truncated finalfusion, word2vec or fastText file; each byte position is its own case.',
  ['io.py', 'embeddings.py', 'norms.py', 'vocab/vocab.py', 'storage/ndarray.py', 'storage/quantized.py', 'compat/word2vec.py', 'compat/text.py', 'compat/fasttext.py'],
  [('short-read detection', 'io.py:_read_required_binary'), ('array short reads', 'io.py:_read_array_as_native'), ('chunk order', 'embeddings.py:load_finalfusion'), ('word2vec rows', 'compat/word2vec.py:load_word2vec'), ('fastText header', 'compat/fasttext.py:_read_ft_header'), ('text rows', 'compat/text.py:_load_text')])

p('C05', 'A write that reports success has stored the complete file',
  'If writing embeddings or a single component in any supported format returns without an exception, the file holds every byte of the intended output. '
  'If the file system stops accepting data at any byte, the call raises an exception instead of returning.',
  ['fault_sequences', 'crash_points'],
  'for every writer, every output and every byte at which the device refuses further data',
  'The tests never make a write fail.',
  ['io.py', 'embeddings.py', 'compat/word2vec.py', 'compat/text.py', 'compat/fasttext.py', 'storage/quantized.py', 'storage/ndarray.py'],
  [('array output', 'io.py:_serialize_array_as_le'), ('whole-file write', 'embeddings.py:Embeddings.write'), ('single-chunk write', 'io.py:Chunk.write'), ('word2vec write', 'compat/word2vec.py:write_word2vec'), ('fastText write', 'compat/fasttext.py:write_fasttext'), ('text write', 'compat/text.py:_write_text')])

p('C06', 'N-gram extraction is complete, exact and consistent',
  'For every string and every valid length range, extraction yields each substring (in characters) whose length lies in the range exactly once per position, ordered by start position and from longest to shortest, with the string bracketed by < and > exactly when asked. '
  'Extraction through the function, through a vocabulary and through every kind of subword indexer yields the same n-grams with the same order, the explicit indexer leaving out only n-grams it does not know.',
  ['inputs', 'configurations'],
  'for every Unicode string, length range and bracketing choice',
  'The tests extract n-grams of one or two words with the default range.',
  ['subword/ngrams.pyx', 'subword/hash_indexers.pyx', 'subword/explicit_indexer.pyx', 'vocab/subword.py'],
  [('extraction', 'subword/ngrams.pyx:ngrams'), ('bucket indexers', 'subword/hash_indexers.pyx:subword_indices'), ('explicit indexer', 'subword/explicit_indexer.pyx:subword_indices'), ('UTF-8 boundaries', 'subword/hash_indexers.pyx:find_utf8_boundaries')])

p('C07', 'Bucket indices equal the finalfusion and fastText reference hashes',
  'For every n-gram and every bucket configuration, the finalfusion indexer returns the 64-bit FNV-1a hash of the n-gram length and code points reduced to the configured power of two, and the fastText indexer returns the signed-byte 32-bit FNV hash of its UTF-8 bytes modulo the number of buckets. '
  'Indexing a single n-gram and indexing all n-grams of a word agree, any offset is added exactly, and every index lies below the reported upper bound.',
  ['inputs', 'configurations'],
  'for every code point, n-gram, bucket exponent or bucket count, and offset',
  'The tests compare a few ASCII words against recorded indices for the default bucket numbers.',
  ['subword/hash_indexers.pyx', 'src/fnv/hash_64a.c', 'src/fnv/fnv.h'],
  [('finalfusion hash', 'subword/hash_indexers.pyx:fifu_hash_ngram'), ('fastText hash', 'subword/hash_indexers.pyx:ft_hash_ngram'), ('masking and offset', 'subword/hash_indexers.pyx:FinalfusionHashIndexer')])

p('C08', 'Vocabulary lookup maps words and subwords to the right indices',
  'In every vocabulary the n-th word has index n, a known word always resolves to that single index, an unknown word resolves to its subword indices shifted behind the words (or, without any, to the given default or a KeyError), and every index lies below the upper bound. '
  'Length, iteration, membership of words (and of n-grams in an explicit indexer) and of collections of them, and equality agree with the word list and the subword configuration.',
  ['inputs', 'configurations'],
  'for every vocabulary kind, word list (including empty, one-character and non-ASCII words), n-gram table and query string',
  'The tests look up a few words in one fixture vocabulary per kind.',
  ['vocab/vocab.py', 'vocab/simple_vocab.py', 'vocab/subword.py', 'subword/explicit_indexer.pyx'],
  [('simple lookup', 'vocab/simple_vocab.py:SimpleVocab.idx'), ('subword lookup', 'vocab/subword.py:SubwordVocab.idx'), ('membership, equality', 'vocab/vocab.py:Vocab')])

p('C09', 'Embedding lookup returns exactly the right vector and norm',
  'Looking up a known word returns its stored vector and stored norm, and looking up an unknown word returns the l2-normalised sum of its subword vectors and the length of that sum, through every lookup method and for every storage kind; membership and iteration give exactly the known words, their vectors and norms. '
  'A given output array receives the result and is the array returned; without an embedding the default is returned (written to the output array if one is given), the output array is untouched when there is no default, indexing raises KeyError, and asking for a norm without stored norms raises TypeError.',
  ['inputs', 'configurations'],
  'for every vocabulary, storage, query word, output array layout, default and presence of norms',
  'The tests look up some fixture words with contiguous output buffers only.',
  ['embeddings.py', 'storage/ndarray.py', 'storage/quantized.py', 'vocab/subword.py'],
  [('lookup', 'embeddings.py:Embeddings.embedding'), ('lookup with norm', 'embeddings.py:Embeddings.embedding_with_norm'), ('subword composition', 'embeddings.py:Embeddings._embedding')])

p('C10', 'Similarity and analogy queries return the exact top k',
  'A similarity query returns, in descending order, the k (by default 10) known words (or all eligible ones if fewer) whose vectors have the largest dot product with the query vector, each once with its own similarity, never a skipped word and never a subword vector. '
  'An analogy query does the same (with k = 1 by default) for the normalised vector b - a + c, skipping the three query words unless told otherwise, and a query without an embedding yields None.',
  ['inputs', 'configurations'],
  'for every embedding matrix, storage kind, vocabulary, k, skip set and query',
  'The tests check recorded neighbours of a few words of one fixture with k well below the vocabulary size.',
  ['embeddings.py', 'storage/quantized.py'],
  [('top-k selection', 'embeddings.py:Embeddings._similarity'), ('analogy', 'embeddings.py:Embeddings.analogy')])

p('C11', 'Queries are pure: no order or interleaving changes any answer',
  'Lookups, similarity and analogy queries, subword extraction, iteration, slicing, conversion and writing never change the embeddings or the arguments they are given, and their answers depend only on their own arguments, not on which queries ran before or run concurrently in other threads. '
  'Arrays and lists handed out earlier keep their values, and writing to an output array, a returned out-of-vocabulary vector or a returned list never alters the embeddings or other results.',
  ['histories', 'schedules'],
  'for every sequence of queries on one embeddings object and every interleaving of concurrent queries',
  'Each test issues its queries once, in one order, in one thread.',
  ['embeddings.py', 'storage/quantized.py', 'storage/ndarray.py', 'vocab/subword.py', 'subword/hash_indexers.pyx'],
  [('lookup', 'embeddings.py:Embeddings._embedding'), ('similarity', 'embeddings.py:Embeddings._similarity'), ('reconstruction', 'storage/quantized.py:PQ.reconstruct')])

p('C12', 'Converting bucket to explicit embeddings preserves every embedding',
  'Converting embeddings with hashed subwords to explicit n-grams keeps all words, their vectors and norms, drops the metadata, and lists exactly the distinct n-grams of the known words in order of first appearance, two n-grams sharing an index exactly when they share a bucket, with indices covering 0 up to the upper bound. '
  'Every string composed of those n-grams gets the same embedding as before, the source embeddings are unchanged, and converting other vocabularies raises TypeError.',
  ['inputs', 'configurations'],
  'for every word list, n-gram range, bucket number (with and without collisions), storage kind and query string',
  'The test converts one fixture and compares a few words.',
  ['embeddings.py', 'vocab/subword.py', 'subword/explicit_indexer.pyx', 'scripts/bucket_to_explicit.py'],
  [('vocabulary conversion', 'vocab/subword.py:_bucket_to_explicit'), ('matrix conversion', 'embeddings.py:Embeddings.bucket_to_explicit')])

p('C13', 'Every access path to a quantized storage gives the same vectors',
  'Row i of a quantized storage is the concatenation of the centroids selected by its codes, rotated by the projection and scaled by its norm when these are present. '
  'Integer, list, array and slice indexing, chains of slices, output buffers of any layout, iteration and conversion to an array all return exactly these rows with matching shapes, and out-of-range integers raise IndexError.',
  ['inputs', 'configurations', 'histories'],
  'for every quantizer shape, projection, norms, code matrix, index expression, output layout and chain of slices',
  'The tests index one fixture without projection whose norms are all close to one.',
  ['storage/quantized.py'],
  [('reconstruction', 'storage/quantized.py:PQ.reconstruct'), ('indexing', 'storage/quantized.py:QuantizedArray.__getitem__'), ('array conversion', 'storage/quantized.py:QuantizedArray.__array__')])

p('C14', 'Matrix storage and norms behave like the arrays they wrap',
  'Indexing a matrix storage or norms with integers, lists, arrays or slices, and iterating over them, gives the values plain array indexing gives; slices are storages (or norms) again that share memory with the original, all other accesses to a storage give plain arrays. '
  'Any chain of slices can be written to a file and read back as exactly the sliced values, and memory-mapped storages behave the same but refuse modification.',
  ['inputs', 'configurations', 'histories'],
  'for every shape, memory layout, index expression and chain of slices',
  'The tests slice one fixture matrix a few times.',
  ['storage/ndarray.py', 'norms.py', 'storage/storage.py'],
  [('matrix indexing', 'storage/ndarray.py:NdArray.__getitem__'), ('norm indexing', 'norms.py:Norms.__getitem__')])

p('C15', 'word2vec and text formats preserve words and vectors',
  'Writing embeddings as word2vec, text or text-with-dimensions stores exactly the known words in order, each with its vector multiplied by its norm if norms are present, in the documented layout and at full single precision, and leaves the embeddings unchanged. '
  'Loading such a file gives the same words in the same order, unit-length vectors (zero vectors stay zero) and norms whose product is the stored vector.',
  ['inputs', 'configurations'],
  'for every word free of ASCII whitespace (and other than that any Unicode), every matrix of ordinary float values, every separator, storage kind and vocabulary kind',
  'The tests convert one small fixture with ordinary words and values.',
  ['compat/word2vec.py', 'compat/text.py', '_util.py'],
  [('word2vec load', 'compat/word2vec.py:load_word2vec'), ('word2vec write', 'compat/word2vec.py:write_word2vec'), ('text load', 'compat/text.py:_load_text'), ('text write', 'compat/text.py:_write_text'), ('normalisation', '_util.py:_normalize_matrix')])

p('C16', 'fastText models are loaded and written faithfully',
  'Loading a fastText model gives its words in order, its subword matrix unchanged, for each word the normalised average of its own vector and its subword vectors with the length of that average as norm, and metadata with all configuration values. '
  'Writing embeddings with a fastText vocabulary produces a complete fastText file with exactly the restored input matrix such that loading it gives back the same words, vectors and norms, leaving the embeddings unchanged, and writing any other vocabulary raises ValueError.',
  ['inputs', 'configurations'],
  'for every word list, n-gram range, bucket number, matrix, configuration, storage kind and presence of norms',
  'The tests load one fixture model and round-trip it.',
  ['compat/fasttext.py', '_util.py', 'subword/hash_indexers.pyx'],
  [('load', 'compat/fasttext.py:load_fasttext'), ('precomputation', 'compat/fasttext.py:_precompute_word_vecs'), ('configuration', 'compat/fasttext.py:_read_ft_cfg'), ('restoring the matrix', 'compat/fasttext.py:_write_ft_storage_subwords')])

p('C17', 'Any chain of format conversions keeps the embeddings',
  'Converting embeddings on the command line through any sequence of the supported formats keeps the words in order and each word vector times its norm up to float rounding, and keeps the subword matrix for as long as the formats on the way can represent it. '
  'A conversion into a format that cannot represent the vocabulary fails with an error, and the lossy and memory-map options do not change the result for well-formed input.',
  ['histories', 'configurations'],
  'for every chain of conversions between finalfusion, word2vec, text, textdims and fastText from every initial kind of embeddings',
  'The tests run single conversions of one fixture.',
  ['scripts/convert.py', 'scripts/util.py', 'compat/word2vec.py', 'compat/text.py', 'compat/fasttext.py', 'embeddings.py'],
  [('command', 'scripts/convert.py:main'), ('format dispatch', 'scripts/util.py:Format')])

p('C18', 'Command-line tools answer exactly like the library',
  'The similarity and analogy commands print, for each input line in order, the exact top-k answers as word and similarity, honouring k, input format, input file or standard input, and for analogies excluding exactly the query words not re-included, and they report uncomputable queries on standard error without stopping. '
  'The selection command writes embeddings of exactly the distinct requested words with their looked-up vectors and the source recorded in the metadata, failing on or skipping unrepresentable words as requested, and the explicit conversion command writes exactly the converted embeddings.',
  ['inputs', 'configurations'],
  'for every combination of options, input formats, query lists and word lists',
  'The integration tests run each command once or twice on a fixture and compare recorded output.',
  ['scripts/similar.py', 'scripts/analogy.py', 'scripts/select.py', 'scripts/bucket_to_explicit.py', 'scripts/util.py'],
  [('similarity', 'scripts/similar.py:main'), ('analogy exclusions', 'scripts/analogy.py:get_skips'), ('selection', 'scripts/select.py:main'), ('explicit conversion', 'scripts/bucket_to_explicit.py:main')])

p('C19', 'Inconsistent embeddings cannot be built and rejected changes have no effect',
  'Embeddings can be created, loaded or modified exactly when the storage has one row per vocabulary index, norms (if any) one value per word, and all components have the right types; every other combination raises an exception and leaves existing embeddings unchanged. '
  'The same holds for components: duplicate words or n-grams, n-gram indices that do not cover 0 to their maximum, invalid n-gram ranges or bucket numbers, matrix storages and norms of the wrong element type or dimension and projections of the wrong shape are rejected.',
  ['inputs', 'histories', 'configurations'],
  'for every combination of component sizes and kinds, constructor arguments, setter sequences and files with mismatching chunks',
  'The tests try a few mismatches, each on fresh embeddings.',
  ['embeddings.py', 'vocab/vocab.py', 'vocab/subword.py', 'subword/explicit_indexer.pyx', 'subword/hash_indexers.pyx', 'storage/ndarray.py', 'storage/quantized.py', 'norms.py'],
  [('constructor checks', 'embeddings.py:Embeddings._check_requirements'), ('norms checks', 'embeddings.py:Embeddings._norms_compat'), ('duplicate words', 'vocab/vocab.py:_validate_items_and_create_index'), ('n-gram index checks', 'subword/explicit_indexer.pyx:ExplicitIndexer.__init__'), ('array checks', 'storage/ndarray.py:NdArray.__new__')])

p('C20', 'Malformed UTF-8 in foreign formats is rejected, or replaced when lossy',
  'Loading word2vec, text, text-with-dimensions or fastText files whose words contain malformed UTF-8 raises UnicodeDecodeError by default; with lossy loading every malformed sequence becomes U+FFFD and all other words, vectors and norms are as without the damage. '
  'Well-formed input gives identical embeddings with and without lossy loading.',
  ['inputs'],
  'for every byte sequence in a word, at every position in the file, in every format',
  'The tests use one incomplete sequence per format.',
  ['compat/word2vec.py', 'compat/text.py', 'compat/fasttext.py', 'scripts/util.py'],
  [('word2vec words', 'compat/word2vec.py:_read_binary_word'), ('text words', 'compat/text.py:load_text'), ('fastText words', 'compat/fasttext.py:_read_binary_word')])

p('C21', 'Loading is read-only, self-contained and leaves no files open',
  'Loading never modifies the file and needs no more than permission to read it, and the loaded embeddings name the given path as their origin; eagerly loaded embeddings are independent of it (the file may be replaced or removed, the embeddings modified and written to the same path), and memory-mapped embeddings are read-only. '
  'Every load and write, successful or failing, closes the files it opened (a memory map may keep its mapping), and repeated and concurrent loads are independent of each other.',
  ['histories', 'fault_sequences'],
  'for every loader and writer, every format, every outcome, and every sequence of loading, modifying, writing and replacing',
  'The tests load each file once and never look at it again.',
  ['embeddings.py', 'io.py', 'storage/ndarray.py', 'storage/quantized.py', 'compat/word2vec.py', 'compat/text.py', 'compat/fasttext.py'],
  [('whole-file load', 'embeddings.py:load_finalfusion'), ('mapping', 'storage/ndarray.py:NdArray.mmap_chunk'), ('mapping codes', 'storage/quantized.py:QuantizedArray.mmap_chunk')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
