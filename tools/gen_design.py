"""Development tool: writes DESIGN.md from the texts below, the suites of the checks (evidence/*.json of the last quick run) and
tools/seed_results.txt (output of seedtool.py run)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Design

## Approach

Everything is decided by **explicit-state model checking of the implementation**: every check enumerates a stated, finite space
of executions completely (no sampling, no random numbers, no solver), runs the **real code of /repo** on each of them, and compares
what is observable after every step with a small independent **reference model** (`mc/ref.py`, `mc/foreign.py`: encoders and
decoders of all file formats, n-grams, both hash functions, vocabularies, matrix and product-quantized storages, lookup, top-k,
conversion, in plain Python and float64; no code is shared with the library). Since the implementation itself is executed, every
trace of the model is validated against it; the evidence counts them (`traces_validated_against_impl`).

What is enumerated depends on the kind of behaviour:

* *inputs and configurations* (C01-C03, C06-C10, C12-C16, C19, C20): the product of component kinds, sizes, memory layouts, byte
  orders, contents and arguments, up to stated sizes, with additional families for size thresholds (2^7, 2^8, 2^16, ... and beyond
  buffer sizes), magnitudes, special floats and words that text processing confuses with others;
* *crash points and damage* (C04, C20, C21): every proper prefix of each file, every value of identifying bytes, every byte
  inverted, every chunk order, every malformed byte sequence up to a length, at every offset around buffer boundaries;
* *faults* (C05, C21): the process' file-size limit (RLIMIT_FSIZE) at **every byte** of every output, /dev/full, unusable targets;
* *histories* (C09-C17, C19, C21): all sequences of operations up to a depth on one object or one path (queries, slicing, iteration
  in every interleaving, assignments, in-place modification, conversion chains, load/modify/replace/write histories);
* *schedules* (C11, C21): a controlled scheduler (`mc/sched.py`) runs two real threads and switches between them at chosen lines or
  bytecodes of the library: all schedules with one preemption, before any executed line of the library, and all schedules with two
  preemptions at the stated (spaced) points.

Why this reaches what the tests cannot: the tests sample one fixture per feature in one order with one layout; most realistic defects
here need a particular size, layout, position, predecessor, byte, history or schedule. Enumerating *all* of them up to a bound decides
the property inside the bound, and the bounds were chosen so that every branch and every boundary of the code lies inside them.

### Machinery

* `check.py ID quick|thorough` re-executes itself with a fixed environment (hash seed, one BLAS thread, C locale except for C18).
* `mc/boot.py` builds the three Cython extensions from /repo's **current working tree** out of tree into `.cache/build/<hash of the native
  sources>` (gitignored, about 8 s on the first run) and imports the Python code directly from `/repo/src`, verifying where every module
  came from. Nothing is written to /repo. No hooks in /repo were needed (`hooks` in the manifest is empty).
* `mc/engine.py` distributes the cases of a suite over forked workers, each with its own scratch directory; a case that crashes the
  interpreter, exceeds its time or its memory limit is a violation, not a lost case. Failures of the harness itself exit with 2.
* Every violation is written to `replays/` with suite, case and message and can be repeated with `check.py ID --replay FILE`.
* `VERIF_SEED` only rotates the order in which cases are executed; the set of cases is the same for every seed.
* Numbers: stored values are compared bit for bit; computed ones (reconstructions, sums, normalisation) with a float64 reference and a
  tolerance relative to the largest term (1e-5 or 2e-5), so that reassociated or vectorised arithmetic raises no alarm.
* Checks judge observable behaviour only: returned values, types documented in the API, raised exceptions (the class where it is
  documented, otherwise any exception), bytes of files, output of the tools. Nothing looks at source text, private names or messages.

## Properties
'''

DECIDE = {
'C01': ('Specified: writing embeddings and loading them (eagerly, memory-mapped, by path, bytes path, Path object or descriptor) is the identity on words, subword configuration, matrix bits, quantizer, norms and metadata; writing again gives the same bytes.',
        'reference model of the contents, bit-exact'),
'C02': ('Specified: the written bytes equal those of the reference encoder for every content and memory layout, and files composed by the reference encoder (also with choices the library never makes: other chunk padding, TOML spellings) load to their contents.',
        'independent encoder and decoder of the chunk format'),
'C03': ('Specified: each of the 13 component loaders returns the first chunk of its kind of any chunk sequence, or raises ValueError.',
        'the chunk list from which the reference encoder composed the file'),
'C04': ('Monitored: loading each damaged file raises or returns the intact contents; files that are wrong in an identifying field, order, encoding or row length must raise.',
        'contents of the intact file'),
'C05': ('Every write is repeated with the file size limited to every number of bytes below the full length; the call must raise. Without a limit the file must equal the reference bytes.',
        'reference encoders; the kernel enforces the limit'),
'C06': ('Specified: n-grams of every string over small alphabets (1- to 4-byte characters, brackets) and every code point, for all ranges and bracketing, through all six extraction paths.',
        'substring enumeration in Python'),
'C07': ('Specified: both hashes for every code point, all short n-grams, all bucket exponents and numbers around every limit, offsets.',
        'Python integers implementing FNV-1a/FNV as published'),
'C08': ('Specified: index, membership, equality, iteration and bounds for all vocabulary kinds and all short words as queries.',
        'reference vocabulary'),
'C09': ('Specified: all lookup methods with every output layout and default, for known, unknown and unrepresentable words, before, between and after modifications.',
        'reference lookup in float64; stored vectors bit for bit'),
'C10': ('Specified: exact top-k for all k, skip sets and queries incl. ties (any order among equal similarities is accepted), all storages, analogies with unit vectors.',
        'full sort in float64 with a tie tolerance'),
'C11': ('All histories of operations up to a depth, all pairs of argument variants, objects, lifetimes, iterators and threads; after each the answer, all earlier answers, the arguments and the embeddings are compared.',
        'answers of a fresh object in a fresh process (each operation in its own process), the reference model for iterations and many queries'),
'C12': ('Specified: the n-gram list, index partition and matrix of the conversion, and equal embeddings for all strings over the n-grams, with and without bucket collisions.',
        'reference conversion'),
'C13': ('All index expressions, chains of slices, output layouts and conversions of all quantizer shapes.',
        'centroids, projection and norms in float64'),
'C14': ('All index expressions and slice chains of all layouts, compared with plain numpy on a copy; sharing of memory; writing of slices.',
        'numpy indexing of a plain array'),
'C15': ('Written bytes of every storage and vocabulary; loaded contents of files composed by the reference; every code point in words; every magnitude.',
        'independent encoders and decoders, round-trip of shortest floats'),
'C16': ('Loading of reference-composed models with every configuration value; written files byte by byte except for the restored rows, whose values are compared with the restored input matrix.',
        'independent fastText encoder and float64 averages'),
'C17': ('Explicit-state search: a state is the decoded content of a file and its format, a transition one run of ffp-convert; all chains up to a length.',
        'reference decoders and a model of what each format keeps'),
'C18': ('All tools with all option combinations and all short query sequences, output compared line by line.',
        'reference top-k; the reference decoders for written files'),
'C19': ('All combinations of component sizes and types in constructors, assignments (all sequences) and files: accepted exactly when consistent; after a rejection the object is unchanged.',
        'the consistency predicate of the statement'),
'C20': ('All byte strings up to a length as words, alone and at every position, strict and lossy, in all foreign formats and tools.',
        'Python UTF-8 decoder with strict and replace'),
'C21': ('Open descriptors, file contents and independence are monitored for every loader, writer, outcome, history and two-thread schedule.',
        '/proc/self/fd, file bytes, reference contents'),
}

TAIL = '''
## Genuine defects

All defects found by the checks on the original tree were small and are repaired in /repo ("fix:" commits, listed in
`KNOWN_FINDINGS.txt`); no open finding remains. Loading the unrepaired code makes the checks named there report them.

## False alarms that were corrected

| check | alarm | correction |
|---|---|---|
| C03 | a file without any chunk was expected to raise ValueError in each component loader | such a file is not a finalfusion file; left out of the enumeration |
| C04 | a word replaced by bytes that happened to be the marker of the search | the marker is searched with its length prefix |
| C04 | metadata keys with dots or quotes were expected literally | the TOML library is the reference for what a document means |
| C06 | a quadratic oracle exceeded the time limit of a case for huge words | larger limit, linear oracle for these |
| C10 | embeddings without norms in the suite of special words | harness mistake, corrected |
| C11 | `repr` and `origin` were compared | they are not part of the property |
| C13 | a big-endian code matrix was demanded to come back with its byte order | values are compared, not the element order |
| C14 | slices of norms were demanded to be arrays; fancy indexing with zero columns | statement and oracle follow numpy and the documented types |
| C18 | messages of ffp-select on standard error were matched too literally | only the presence of a report and the exit are judged |
| C19 | constructor arguments the statement does not mention (e.g. integer types of `min_n`) | statement narrowed to what is documented |
| C20 | first-and-last words: the word of the case coincided with the fixed word | such words get another companion |
| C21 | objects kept alive by the harness' own references were reported as leaked | explicit collection before descriptors are counted |
| C21 | write_fasttext refusing a vocabulary before opening the target was taken for a lost write | what is left behind by a refused write is not judged |
| C21 | the sequential baseline of a concurrent case kept its results (and their mapped files) alive | results are reduced to plain values before counting |
| C05 | under heavy load a case exceeded its wall-clock limit | the limit of a case counts processor time |
| C20 | tolerance of means of rows at an offset of 131072 | rounding of the float32 mean is relative to the offset |
| C09, C16 | words with thousands of n-grams: summation order in float32 | tolerance grows with the number of summed vectors |
| C18 | analogies whose terms cancel at small magnitudes | the query is computed from the terms; ties within the resulting error are accepted in any order |
| C01-C04 | arbitrary float bit patterns included signalling NaNs, which a rewrite with `struct.pack` per element turns into quiet ones | only quiet NaNs are stored |
| C03 | element-wise rewrites of the readers exceeded the time limit of a case with 2^23 elements | larger limits; the largest arrays only in thorough |

## Not claimed

Outside the statements, because neither documentation nor code commits to a behaviour: the normalised embedding of an unknown word
whose subword vectors sum to zero (NaN); negative k; surplus rows after the announced number in textdims and word2vec files; chunks after
the norms chunk; unknown chunk identifiers; text embeddings with zero components; words containing ASCII whitespace in
text and word2vec files, or NUL in fastText files (the formats cannot represent them); fastText models without subwords or with loss/model
identifiers the format does not define; lone surrogates; values that the toml package itself does not round-trip; writing memory-mapped
embeddings to the very file that is mapped; blank lines in the input of ffp-select and ffp-analogy; the content left behind when a writer
raises (e.g. write_fasttext truncates its target before it refuses the vocabulary); text in the wording of messages.
The tools read their queries in the encoding of the locale, so C18 runs in C.UTF-8; everything else runs in the C locale, which none of the
formats may depend on.

Limits of the technique here: C11 and C21 schedules switch between lines or bytecodes of Python code (compiled extensions run atomically
under the interpreter lock); baselines of C11's histories come from the library itself in fresh processes, so an error that is consistent
from the first call on is left to C06-C16, which compare with the reference. Nothing is claimed beyond the bounds in the tables.
No property had to be listed as not applicable.

## Tiers

The quick tier covers what had been the thorough bounds of C04, C07, C08, C12-C14, C16, C18 and C19 during development, since they
turned out to be affordable on every change; thorough goes one step deeper (longer words, deeper histories, more positions, all schedules).

## Mutation and refactoring studies

*Mutants.* `tools/mutate.py` generates all single mutations of /repo/src/finalfusion (constants, comparisons, arithmetic, conditions,
removed statements and keywords, swapped arguments, encodings): 2525 mutants, of which 728 pass the repository's tests. `mutate.py checks`
runs thinned versions of all checks (`tools/fast.py`) against these. Of the mutants checked so far, every one that was not
reported was reviewed by hand: equivalent, dead code (`_write_ft_storage_simple`, big-endian branches), unspecified (help texts), or inside the
bounds of the full check but not of the thinned one; the gaps found this way were closed.

*Refactorings.* Two scratch trees with about 25 behaviour-preserving rewrites over all modules (helpers extracted, loops vectorised or
unrolled, `einsum` and float64 averaging instead of float32 sums, full argsort instead of argpartition, `read` + `frombuffer` instead of
`readinto`/`fromfile`, `%.9g` instead of shortest floats, other exception texts, reordered writes): all checks stayed quiet, except C04 on a
rewrite which in fact accepted a word2vec header `-1 2`, a genuine change of behaviour. A third, deliberately slow tree (every array read and
written element by element, similarities and reconstructions in Python loops) stayed quiet with all checks below 300 s, after the two
corrections named above.

*Names and arguments.* 64 file names that shells, tools and libraries treat specially (suffixes such as .gz and .npy, `~`, `$HOME`, `%`,
globs, leading dashes, non-ASCII) and all kinds of path arguments are enumerated in C01, C03, C15-C18 and C21; default arguments and
the chunk-level interface (`find_chunk`, `read_chunk`, `mmap_chunk`, `write_chunk`) are covered in C02, C03, C06 and C08.

*Sizes.* A ladder of sizes in C05, C09, C12, C14-C18 (up to sizes beyond every buffer, 2^16 rows or characters, words with thousands
of n-grams) found the last genuine defect (fastText rows of words with many n-grams written in double precision).

## Planted bugs

Each bug in `seeded/` passes the repository's tests and is confirmed by its demonstration. `tools/seedtool.py run` applies them to scratch
copies and runs the quick checks. Outcome for the property's own check, and other checks found to report it:

'''


def main():
    props = [json.loads(line) for line in open(V + '/properties.jsonl')]
    out = [HEAD]
    for p in props:
        pid = p['id']
        ev = json.load(open(V + '/evidence/%s.json' % pid))
        out.append('### %s %s\n' % (pid, p['title']))
        text, oracle = DECIDE[pid]
        out.append(text + ' Oracle: ' + oracle + '.\n')
        out.append('| suite | bound | cases | transitions |\n|---|---|---|---|')
        for s in ev['coverage']['suites']:
            out.append('| %s | %s | %d | %d |' % (s['suite'], s['bound'].replace('|', '\\|'), s['cases'], s['transitions']))
        out.append('\nCost (quick): about %d s on 8 cores. Assumptions: %s.\n' % (max(1, round(ev['wall_s'])), '; '.join(ev['assumptions']) or 'none'))
    out.append(TAIL)
    caught, other = {}, {}
    for line in open(V + '/tools/seed_results.txt'):
        m = re.match(r'(\S+) (.*)', line)
        if not m:
            continue
        for c, r in re.findall(r'(C\d\d):(CAUGHT|missed)', m[2]):
            caught[m[1], c] = r == 'CAUGHT'
    out.append('| planted bug | needs | own check | also reported by |\n|---|---|---|---|')
    for sid in sorted(os.listdir(V + '/seeded')):
        meta = json.load(open(V + '/seeded/%s/meta.json' % sid))
        own = meta['property']
        also = sorted(c for (s, c), r in caught.items() if s == sid and r and c != own)
        state = caught.get((sid, own))
        out.append('| %s | %s | %s %s | %s |' % (sid, str(meta['needs']).replace('|', '\\|'), own, {True: 'caught', False: 'missed', None: 'not run'}[state], ', '.join(also)))
    open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')


main()
