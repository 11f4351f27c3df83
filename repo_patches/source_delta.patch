From 92614446d34504ed2ba9c032700bff5a502ae13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 01/21] fix: count n-gram indices in the ExplicitVocab chunk
 length

The chunk length omitted the 8 byte index following each n-gram, so chunks
following an ExplicitVocab could not be found by load_storage and load_norms.
---
 src/finalfusion/vocab/subword.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..d27607b 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,8 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        # each n-gram is followed by its index
+        chunk_length += len(self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From b57ba96a5470c5db0cfb652fbc0363e8cbb8168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 02/21] fix: similarity queries for more neighbours than known
 words

argpartition raised a ValueError if k and the number of skipped words exceeded
the size of the vocabulary.
---
 src/finalfusion/embeddings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..6b58f73 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,9 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        # at most all known words are candidates
+        n_candidates = min(k + len(skip_indices), len(sims))
+        partition = sims.argpartition(-n_candidates)[-n_candidates:]
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From 73df84407e69f7c56b752bcbc41a854a2084e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 03/21] fix: similarity and analogy queries on quantized
 embeddings

QuantizedArray has no dot method, queries raised an AttributeError.
---
 src/finalfusion/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index 6b58f73..d915249 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -604,7 +604,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
 
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
-        words = self.storage[:len(self.vocab)]  # type: np.ndarray
+        words = np.asarray(self.storage[:len(self.vocab)])
         sims = words.dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
-- 
2.43.0


From 26c413f24c5ada2f9baccdc20764046f0fcc5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 04/21] fix: scale embeddings by their norm when iterating over
 a QuantizedArray

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From d299c77664c54e5f4fc7ac71857296607d6b3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 05/21] fix: support conversion of QuantizedArrays to a
 specific dtype

numpy passes the dtype to __array__, e.g. in np.asarray(storage, dtype).
---
 src/finalfusion/storage/quantized.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..ac8eb3c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,11 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        return array if dtype is None else array.astype(dtype)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From 9a6493f3d319e87b381dd2fa35957e9b508968fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 06/21] fix: reconstruct projected embeddings into arbitrary
 output arrays

ndarray.dot requires its output to be C-contiguous and raised a ValueError for
other output arrays.
---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index ac8eb3c..17d42b6 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -149,7 +149,7 @@ class PQ:
             out[:] = self._quantizers[quantizers_range, quantized].reshape(
                 out.shape)
         if self.projection is not None:
-            out.dot(self.projection.T, out=out)
+            out[...] = out.dot(self.projection.T)
         return out
 
 
-- 
2.43.0


From 0054f7b1ab968f34bb6ac6615c40658886e1223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 07/21] fix: reject norms that are not float32

The dtype check was always satisfied and e.g. float64 norms were written to
files as float32.
---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From 32ef0fcfbffe96225fe511d10f77183b29e1d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:58 +0000
Subject: [PATCH 08/21] fix: handle empty n-gram indices and reject negative
 ones in ExplicitIndexer

Converting a bucket vocabulary without n-grams and reading an ExplicitVocab
without n-grams raised a ValueError; negative indices were accepted.
---
 src/finalfusion/subword/explicit_indexer.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..1728452 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,9 +51,9 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
+            max_idx = max(ngram_index.values(), default=-1)
             n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            assert max_idx + 1 == n_unique_vals and min(ngram_index.values(), default=0) >= 0, \
                 f"Indices need to cover 0, max(ngram_index.values())"
             self._bound = max_idx + 1
         self._ngram_index = ngram_index
-- 
2.43.0


From 55035ca291630a8b23a82b9a6b76829254f035c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:22 +0000
Subject: [PATCH 09/21] fix: reject truncated vocabulary and norms chunks

Short reads of words, n-grams and norms went unnoticed and resulted in truncated
words or too few norms.
---
 src/finalfusion/io.py          | 10 ++++++++++
 src/finalfusion/norms.py       |  9 +++------
 src/finalfusion/vocab/vocab.py |  6 +++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..bfe6a7e 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -275,6 +275,13 @@ def _read_required_binary(file: BinaryIO, struct_fmt: str) -> Tuple[Any, ...]:
     return val
 
 
+def _read_required_bytes(file: BinaryIO, size: int) -> bytes:
+    buf = file.read(size)
+    if len(buf) != size:
+        raise FinalfusionFormatError(f'Could not read {size} bytes from file')
+    return buf
+
+
 def _read_chunk_header(file: BinaryIO
                        ) -> Optional[Tuple['ChunkIdentifier', int]]:
     """
@@ -329,6 +336,9 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
                           count: int) -> np.array:
     array = np.fromfile(file=file, count=count, dtype=dtype)
+    if array.size != count:
+        raise FinalfusionFormatError(
+            f'Could not read {count} array items from file')
     if sys.byteorder == "big":
         array.byteswap(inplace=True)
     return array
diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..3ae6d89 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -4,13 +4,13 @@ Norms module.
 
 import struct
 from os import PathLike
-import sys
 from typing import BinaryIO, Union, List, Collection
 
 import numpy as np
 
 from finalfusion.io import Chunk, ChunkIdentifier, find_chunk, TypeId, FinalfusionFormatError, \
-    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le
+    _pad_float32, _write_binary, _read_required_binary, _serialize_array_as_le, \
+    _read_array_as_native
 
 
 class Norms(np.ndarray, Chunk, Collection[float]):
@@ -57,10 +57,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
                 f"Invalid Type, expected {TypeId.f32}, got {str(type_id)}")
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
-        array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
-        if sys.byteorder == "big":
-            array.byteswap(inplace=True)
-        return Norms(array)
+        return Norms(_read_array_as_native(file, np.float32, n_norms))
 
     def write_chunk(self, file: BinaryIO):
         _write_binary(file, "<I", int(self.chunk_identifier()))
diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..35edcad 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,7 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, _read_required_binary, _read_required_bytes, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -130,7 +130,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     items = []
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
+        word = _read_required_bytes(file, item_length).decode("utf-8")
         items.append(word)
     return items
 
@@ -156,7 +156,7 @@ def _read_items_with_indices(file: BinaryIO,
     index = dict()
     for _ in range(length):
         item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_required_bytes(file, item_length).decode("utf-8")
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From 37a2a0f8c5dd549898971949d360ef43335dec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:22 +0000
Subject: [PATCH 10/21] fix: reject embeddings with a single component in
 word2vec and text files

A vector cut off after its first component was broadcast to all dimensions
instead of raising an error.
---
 src/finalfusion/compat/text.py     | 3 +++
 src/finalfusion/compat/word2vec.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..ed59451 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -145,6 +145,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     matrix = np.zeros((rows, cols), dtype=np.float32)
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
+        if len(parts) != cols + 1:
+            raise ValueError(
+                f"Expected {cols} components, got {len(parts) - 1}")
         words.append(parts[0])
         row[:] = parts[1:]
     storage = NdArray(matrix)
diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..c9aad8d 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -47,6 +47,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if array.size != cols:
+                raise EOFError
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From 9175b1b3ec2cf1dc38d048c07f2b7784bf55fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:22 +0000
Subject: [PATCH 11/21] fix: only strip ASCII whitespace from word2vec words

Words starting or ending in non-ASCII whitespace, e.g. a no-break space, did not
survive a round trip.
---
 src/finalfusion/compat/word2vec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index c9aad8d..94bc852 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,9 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            # words may contain non-ASCII whitespace
+            word = _read_binary_word(inf, b' ', lossy)
+            words.append(word.strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if array.size != cols:
                 raise EOFError
-- 
2.43.0


From 539f988b1a144c9e687d578987d2f4b0142de839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 12/21] fix: report errors when writing arrays

ndarray.tofile writes to a duplicate of the file and ignores errors when closing
it. If e.g. the disk was full, write returned successfully with the tail of the
array missing.
---
 src/finalfusion/io.py                | 8 +++++---
 src/finalfusion/storage/quantized.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index bfe6a7e..d527ffc 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -323,14 +323,16 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
     native_is_le = sys.byteorder == "little"
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
+    # don't use array.tofile, it writes to a copy of the file and ignores errors
+    # upon flushing it.
     if array_is_le:
-        array.tofile(file)
+        file.write(np.ascontiguousarray(array).data)
     else:
         if array.ndim == 2:
             for row in array:
-                row.byteswap(inplace=False).tofile(file)
+                file.write(np.ascontiguousarray(row.byteswap()).data)
         else:
-            array.byteswap(inplace=False).tofile(file)
+            file.write(np.ascontiguousarray(array.byteswap()).data)
 
 
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 17d42b6..c1e13f9 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -336,7 +336,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        self._quantized_embeddings.tofile(file)
+        _serialize_array_as_le(file, self._quantized_embeddings)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From 9126192f68f8d71fbf304161215e23a05f6c9d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 13/21] fix: don't turn zero vectors into NaNs when normalizing

Loading word2vec, text or fastText embeddings with zero vectors divided them by
their norm 0.
---
 src/finalfusion/_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..c7ce517 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,8 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    # leave zero vectors as they are
+    np.divide(storage, norms[:, None], out=storage, where=norms[:, None] != 0)
     return Norms(norms)
 
 
-- 
2.43.0


From 9c9a50a56948bcb2460945353b1ee73cca3f22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 14/21] fix: support memory mapping of files opened by
 descriptor

The name of such files is the descriptor itself, mapping them by name raised a
TypeError.
---
 src/finalfusion/storage/ndarray.py   | 5 +++--
 src/finalfusion/storage/quantized.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/storage/ndarray.py b/src/finalfusion/storage/ndarray.py
index 12834e9..6372d24 100644
--- a/src/finalfusion/storage/ndarray.py
+++ b/src/finalfusion/storage/ndarray.py
@@ -84,12 +84,13 @@ class NdArray(np.ndarray, Storage):
                 "Memmapping arrays is not supported on big endian platforms")
         rows, cols = NdArray._read_array_header(file)
         offset = file.tell()
-        file.seek(rows * cols * struct.calcsize('f'), 1)
-        array = np.memmap(file.name,
+        # np.memmap moves the file position
+        array = np.memmap(file,
                           dtype='<f4',
                           mode='r',
                           offset=offset,
                           shape=(rows, cols))
+        file.seek(offset + rows * cols * struct.calcsize('f'))
         return NdArray(array)
 
     @staticmethod
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index c1e13f9..72e9775 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -305,12 +305,13 @@ class QuantizedArray(Storage):
             file)
         n_embeddings, quantized_len = embeds_shape
         offset = file.tell()
-        file.seek(n_embeddings * quantized_len, 1)
-        quantized_embeddings = np.memmap(file.name,
+        # np.memmap moves the file position
+        quantized_embeddings = np.memmap(file,
                                          dtype=np.uint8,
                                          mode='r',
                                          offset=offset,
                                          shape=embeds_shape)
+        file.seek(offset + n_embeddings * quantized_len)
         return QuantizedArray(quantizer, quantized_embeddings, norms)
 
     def write_chunk(self, file: BinaryIO):
-- 
2.43.0


From c56a2606c3dcd09ef432514f4c965ac4a6990eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 15/21] fix: don't write the storage twice to fastText files

The raw embedding matrix was appended after the restored input matrix.
---
 src/finalfusion/compat/fasttext.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..eff00b7 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,6 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
 
 
 def _read_ft_header(file: BinaryIO):
-- 
2.43.0


From 4e9deafd7b9066204f56d7f37ba088b595fecc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 16/21] fix: write quantized embeddings in fastText format

QuantizedArray has no dtype, serializing the subword matrix raised an
AttributeError.
---
 src/finalfusion/compat/fasttext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index eff00b7..914227b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -294,7 +294,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From 8b7487f7f32136858652dfc167f46182d5fa454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 17/21] fix: exclude the third query word from ffp-analogy
 answers

If --include was given without 'c', the third query word was not skipped, and
the second one was skipped even if it was to be included.
---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 7f0c17c0e11d856fdc221fb80bde70834d1feebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 18/21] fix: skip unrepresentable words in ffp-select
 --ignore_unk

Words without embeddings were added to the output with a zero vector.
---
 src/finalfusion/scripts/select.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..758c802 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -45,15 +45,19 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = set(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
                 if not args.ignore_unk:
                     sys.exit(1)
+                continue
+            words.append(word)
+        vocab = SimpleVocab(words)
+        matrix = matrix[:len(words)]
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-- 
2.43.0


From afc6f1e40a69d576f771fcd1d41533b0c1ce0dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:36 +0000
Subject: [PATCH 19/21] fix: reject finalfusion files cut off before the norms
 chunk

The header lists the norms chunk but the embeddings were loaded without norms.
---
 src/finalfusion/embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index d915249..dbe5ba7 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -681,7 +681,7 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
         The embeddings from the input file.
     """
     with open(file, 'rb') as inf:
-        _ = Header.read_chunk(inf)
+        header = Header.read_chunk(inf)
         chunk_id, _ = _read_required_chunk_header(inf)
         norms = None
         metadata = None
@@ -717,6 +717,8 @@ def load_finalfusion(file: Union[str, bytes, int, PathLike],
             else:
                 raise FinalfusionFormatError(
                     f'Expected norms chunk, not {str(chunk_id)}')
+        elif ChunkIdentifier.NdNorms in header.chunk_ids:
+            raise FinalfusionFormatError('File is missing its norms chunk')
 
         return Embeddings(storage, vocab, norms, metadata, inf.name)
 
-- 
2.43.0


From 85e34fb2e7152881d18fd4954aa0580cb55aea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:15 +0000
Subject: [PATCH 20/21] fix: reject projections that are not square matrices

---
 src/finalfusion/storage/quantized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 72e9775..15eaaf4 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -52,8 +52,8 @@ class PQ:
         self._reconstructed_len = cast(
             int, quantizers.shape[0] * quantizers.shape[2])
         if projection is not None:
-            assert projection.shape[
-                0] == self._reconstructed_len == projection.shape[1]
+            assert projection.shape == (self._reconstructed_len,
+                                        self._reconstructed_len)
         self._projection = projection
 
     @property
-- 
2.43.0


From 6217c3aea8489987f009f186455efe66ba8d8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:28 +0000
Subject: [PATCH 21/21] fix: write words with many n-grams to fastText files in
 single precision

---
 src/finalfusion/compat/fasttext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 914227b..3fa5259 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -287,7 +287,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
     for i, word in enumerate(vocab):
         indices = vocab.subword_indices(word)
         embed = storage[i]  # type: np.ndarray
-        embed = embed * (len(indices) + 1)
+        embed = embed * np.float32(len(indices) + 1)
         if norms is not None:
             embed *= norms[i]
         sw_embeds = storage[indices]  # type: np.ndarray
-- 
2.43.0

