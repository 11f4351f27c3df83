"""C18: command-line tools answer exactly like the library."""
import itertools
import os

import numpy as np
import toml

from checks import c12, c17
from checks.c10 import check_answer
from mc import cli, dom, foreign, ref
from mc.dom import put, read
from mc.engine import DEEPER, Suite, Violation, need, scratch
from finalfusion.compat import load_fasttext
from finalfusion.embeddings import load_finalfusion

LEVEL = 'model_checking'
ASSUMPTIONS = ['input is UTF-8 with one word (similarity, selection; no surrounding white space) or three words (analogy) per line', 'similarities within 1e-5 are interchangeable, so ties may be answered in any order',
               'the order of selected words is not specified', 'queries whose vector is zero are left out']
W = ['a', 'b€', 'cab', 'd', 'dab', 'new york']
SIMPLE_W = ['a', 'b€', 'cab', 'd', 'dab', 'ny']


class Src:
    """a source file, its format and the model of what loading it gives"""

    def __init__(self, desc):
        self.fmt = desc['fmt']
        self.scale = None
        self.path = os.path.join(scratch(), 'src-' + desc['fmt'])
        if self.fmt == 'finalfusion':
            m, _ = dom.build(desc['e'])
            data = ref.enc_chunks(ref.parts_of(m, toml.dumps(m.meta).encode() if m.meta is not None else None))[0]
            self.m, self.rows = m, m.storage.rows64()
            if 'e' in str(desc['e']['s'][-1]).partition('*')[2]:  # vectors of an unusual magnitude: nothing is interchangeable absolutely
                self.scale = float(np.abs(self.rows).max()) * self.rows.shape[1]
        else:
            words, d = desc['w'], desc['d']
            bw = [w.encode() for w in words]
            if self.fmt == 'fasttext':
                mn, mx, b = 2, 3, 7
                mat = dom.floats((len(words) + b) * d, 'nice').reshape(-1, d)
                data = foreign.fasttext(bw, mat, mn, mx, b)[0]
                self.rows, norms = foreign.ft_loaded(words, mat, mn, mx, b)
                v = ref.Vocab('ft', words, mn, mx, b)
                cfg = dict(zip(foreign.FT_KEYS, [d, 0, 0, 0, 0, 1, foreign.FT_LOSS[1], foreign.FT_MODEL[1], b, mn, mx, 0, 0.0]))
                self.m = ref.Emb(v, ref.Nd(self.rows), norms, cfg)
            else:
                mat = dom.floats(len(words) * d, 'nice').reshape(-1, d)
                data = foreign.w2v(bw, mat) if self.fmt == 'word2vec' else foreign.text(bw, mat, self.fmt == 'textdims')
                m64 = mat.astype(np.float64)
                norms = np.sqrt((m64 * m64).sum(1))
                self.rows = m64 / norms[:, None]
                self.m = ref.Emb(ref.Vocab('simple', words), ref.Nd(self.rows), norms)
        self.data = data
        put(self.path, data)
        self.words = self.m.vocab.words

    def vec(self, w):
        """None, or the looked up vector; False when it is undefined"""
        r = ref.lookup64(self.m, w, self.rows)
        if r is None:
            return None
        if w not in self.m.vocab.index and r[1] < 1e-6:
            return False
        return r[0]

    def sims(self, q):
        return [float(np.dot(self.rows[i], q)) for i in range(len(self.words))]

    def scale_of(self, q):
        return None if self.scale is None else self.scale * float(np.abs(q).max())

    def flags(self):
        return [] if self.fmt == 'finalfusion' else ['-f', self.fmt]


class Ans:
    def __init__(self, word, similarity):
        self.word, self.similarity = word, similarity

    def __repr__(self):
        return '%s %s' % (self.word, self.similarity)


def parse_answers(out, what):
    res = []
    for line in out.split('\n'):
        if not line:
            continue
        word, sep, sim = line.rpartition(' ')
        need(bool(sep), '%s: output line %r', what, line)
        try:
            res.append(Ans(word, float(sim)))
        except ValueError:
            raise Violation('%s: output line %r has no similarity' % (what, line))
    return res


def run_tool(tool, src, args, lines, how, what, rec):
    """lines: list of query lines. how: 'file' or 'stdin', with or without a final newline"""
    text = '\n'.join(lines).encode('utf-8') + (b'' if how.endswith('-nonl') else b'\n')
    if not lines:
        text = b''
    rec.step()
    if how.startswith('file'):
        q = put(os.path.join(scratch(), 'queries'), text)
        # the options come first: --include takes any number of values
        r = cli.run(tool, args + src.flags() + [src.path, q], stdin=b'never read\nnever read\n')
    else:
        r = cli.run(tool, args + src.flags() + [src.path], stdin=text)
    need(r.ok, '%s: %s', what, r)
    need(read(src.path) == src.data, '%s: the embeddings file changed', what)
    return r


def check_stream(r, expected, words, what):
    """expected: list of ('answers', sims, skip, k) | ('report', tokens) in order"""
    answers = parse_answers(r.out, what)
    errs = [l for l in r.err.split('\n') if l.strip()]
    pos = 0
    for exp in expected:
        if exp[0] == 'report':
            need(bool(errs), '%s: no report on standard error for %s', what, exp[1])
            line = errs.pop(0)
            for t in exp[1]:
                need(t in line or repr(t)[1:-1] in line, '%s: report %r does not name %r', what, line, t)
            continue
        _, sims, skip, k, name, scale = exp
        n = min(k, len([w for w in words if w not in skip]))
        check_answer(answers[pos:pos + n], words, sims, skip, k, '%s: answers to %s' % (what, name), scale)
        pos += n
    need(pos == len(answers), '%s: surplus answers %s', what, answers[pos:])
    need(not errs, '%s: unexpected messages %s', what, errs)


HOWS = ['file', 'stdin', 'file-nonl', 'stdin-nonl']


def similar(desc, rec):
    src = Src(desc['src'])
    pool = desc['pool']
    pool = [w for w in pool if src.vec(w) is not False]
    seqs = [list(t) for n in range(0, desc['len'] + 1) for t in itertools.product(pool + [''], repeat=n)]
    seqs.append(pool + ['', ' '] + pool[::-1] + pool)
    for i, seq in enumerate(seqs):
        for k in desc['ks'] if len(seq) != 2 else desc['ks'][:2]:
            how = HOWS[(i + (k or 0)) % 4] if len(seq) < 3 else HOWS[i % 2]
            opt = desc.get('opt', [])
            args = list(opt) + ([] if k is None else ['-k', str(k)])
            lines = seq
            if i % 3 == 1:
                lines = [' ' + l + '\t' for l in seq]
            what = 'ffp-similar %s %s on %s (%s)' % (args, lines, src.fmt, how)
            r = run_tool('similar', src, args, lines, how, what, rec)
            exp = []
            for q in seq:
                if not q.strip():
                    continue
                v = src.vec(q)
                exp.append(('report', [q]) if v is None else ('answers', src.sims(v), {q}, 10 if k is None else k, repr(q), src.scale_of(v)))
            check_stream(r, exp, src.words, what)
            rec.state((repr(desc['src']), tuple(seq), k, how))
            rec.outcome('%d answers, %d reports' % (min(3, sum(x[0] != 'report' for x in exp)), min(3, sum(x[0] == 'report' for x in exp))))


def sources(tier):
    for v in (['simple', W], ['fifu', W, 1, 2, 3], ['ft', W, 2, 3, 5], ['explicit', W, 2, 3, [['<a', 1], ['ab', 0], ['ca', 1], ['abc', 2]]]):
        yield {'fmt': 'finalfusion', 'e': {'v': v, 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 4}}
        yield {'fmt': 'finalfusion', 'e': {'v': v, 's': ['pq', 2, 1, 7, 1, 1, 'C', 'nice'], 'n': None, 'm': None}}
    yield {'fmt': 'finalfusion', 'e': {'v': ['simple', ['w%d' % i for i in range(15)]], 's': ['nd', 2, 'C', 'nice'], 'n': None, 'm': 1}}
    yield {'fmt': 'finalfusion', 'e': {'v': ['simple', ['a']], 's': ['nd', 2, 'C', 'nice'], 'n': None, 'm': None}}
    for f in ('fasttext', 'word2vec', 'text', 'textdims'):
        yield {'fmt': f, 'w': SIMPLE_W, 'd': 3}


def magnitude_sources(tier):
    for k in (-9, -6, -4, -3, -2, 2, 3, 5, 8) if tier == 'quick' else range(-12, 13):
        for v in (['simple', W], ['fifu', W, 1, 2, 3]):
            yield {'fmt': 'finalfusion', 'e': {'v': v, 's': ['nd', 3, 'C', 'nice*1e%d' % k], 'n': None, 'm': None}}


POOL = ['a', 'b€', 'abc', 'zzz']
# one word per line, without surrounding white space
LINES = [w for w in dom.SPECIAL if w == w.strip()]


def special_sources(tier):
    half = len(LINES) // 2
    for w in (LINES[:half], LINES[half:]):
        for v in (['simple', w], ['fifu', w, 1, 2, 8], ['explicit', w, 1, 4, [[g, i] for i, g in enumerate(LINES)]]):
            yield {'fmt': 'finalfusion', 'e': {'v': v, 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 5}}
        for f in ('fasttext', 'word2vec', 'text', 'textdims'):
            yield {'fmt': f, 'w': w, 'd': 3}


def similar_cases(tier):
    for s in sources(tier):
        pool = POOL + (['w3', 'w14'] if 'e' in s and s['e']['v'][1][0] == 'w0' else ['new york', 'x y'] if s['fmt'] == 'finalfusion' else [])
        yield {'src': s, 'pool': pool, 'len': 4 if tier == 'deep' else 3, 'ks': [None, 2, 0, 1, 3, 5, 6, 7, 20]}
        for opt in (['--mmap'], ['-l'], ['--lossy', '--mmap']):
            yield {'src': s, 'pool': pool, 'len': 1, 'ks': [None, 2], 'opt': opt}
    for s in special_sources(tier):
        yield {'src': s, 'pool': LINES, 'len': 1, 'ks': [3, 1000]}
    for s in magnitude_sources(tier):
        yield {'src': s, 'pool': POOL, 'len': 1, 'ks': [None, 3]}


def analogy(desc, rec):
    src = Src(desc['src'])
    pool = [w for w in desc['pool'] if src.vec(w) is not False]
    triples = list(itertools.product(pool, repeat=3))
    seps = [' ', '\t', '  ']

    def expect(t, inc, k):
        vs = [src.vec(w) for w in t]
        if any(v is None for v in vs):
            return ('report', list(t))
        d = vs[1] - vs[0] + vs[2]
        n = np.sqrt((d * d).sum())
        if n < 1e-3 * max([src.scale or 1.0] + [float(np.abs(v).max()) for v in vs]):  # cancelled out
            return None
        skip = {w for w, l in zip(t, 'abc') if l not in inc}
        return ('answers', src.sims(d / n), skip, 10 if k is None else k, repr(t), src.scale_of(d / n))

    for i, inc in enumerate(desc['incs']):
        for k in desc['ks']:
            args = list(desc.get('opt', []))
            if inc:
                args += ['-i' if i % 2 else '--include'] + list(inc)
                args += ['-k', str(10 if k is None else k)] if src.fmt == 'finalfusion' else ([] if k is None else ['-k', str(k)])
                if src.fmt == 'finalfusion' and i % 3 == 0:
                    args += ['-f', 'finalfusion']
            elif k is not None:
                args += ['-k', str(k)]
            sel = [t for t in triples if expect(t, inc, k) is not None]
            if desc['one']:
                groups = [[t] for t in sel]
            else:
                groups = [sel, sel[::-1]]
            for g, ts in enumerate(groups):
                how = HOWS[(g + i) % 4]
                lines = [seps[(j + g) % 3].join(t) for j, t in enumerate(ts)]
                what = 'ffp-analogy %s on %s (%s), first line %r' % (args, src.fmt, how, lines[:1])
                r = run_tool('analogy', src, args, lines, how, what, rec)
                check_stream(r, [expect(t, inc, k) for t in ts], src.words, what)
                for t in ts:
                    rec.state((repr(desc['src']), inc, t, k))
                rec.step(len(ts))
            rec.outcome('include ' + ''.join(sorted(set(inc))))


INCS = ['', 'a', 'b', 'c', 'ab', 'ac', 'bc', 'abc', 'ba', 'cb', 'ca', 'cba', 'bca', 'aa', 'bbc']


def analogy_cases(tier):
    for s in sources(tier):
        pool = POOL + (['w3', 'w14'] if 'e' in s and s['e']['v'][1][0] == 'w0' else ['d', 'cab'])
        yield {'src': s, 'pool': pool, 'incs': INCS, 'ks': [None, 1, 2, 0, 3, 7], 'one': 0}
        yield {'src': s, 'pool': pool[:4], 'incs': INCS if tier == 'deep' else INCS[:8], 'ks': [None, 2], 'one': 1}
        for opt in (['--mmap'], ['-l'], ['--lossy', '--mmap']):
            yield {'src': s, 'pool': pool, 'incs': ['', 'b'], 'ks': [3], 'one': 0, 'opt': opt}


def special_analogy_cases(tier):
    for s in magnitude_sources(tier):
        yield {'src': s, 'pool': POOL[:3] + ['d', 'cab'], 'incs': ['', 'abc'], 'ks': [None, 3], 'one': 0}
    pool = [w for w in LINES if w.split() == [w]]
    for s in special_sources(tier):
        for i in range(0, len(pool), 16):
            sub = pool[i:i + 16:4] + [pool[(i * 5 + 7) % len(pool)]]
            yield {'src': s, 'pool': list(dict.fromkeys(sub)), 'incs': ['', 'c', 'ab'], 'ks': [3, 1000], 'one': 0}


def select(desc, rec):
    src = Src(desc['src'])
    pool = [w for w in desc['pool'] if src.vec(w) is not False]
    m = src.m
    out = os.path.join(scratch(), 'selected.fifu')
    seqs = [list(t) for n in range(0, desc['len'] + 1) for t in itertools.product(pool, repeat=n)]
    seqs += [pool + pool[::-1], [p for p in pool if src.vec(p) is not None] * 3]
    for i, seq in enumerate(seqs):
        distinct = set(seq)
        unknown = {w for w in distinct if src.vec(w) is None}
        for j, opts in enumerate((['-i'], [], ['--ignore_unk', '-v'], ['--verbose'], ['-i', '--verbose', '--mmap'], ['-l', '-i'])):
            how = HOWS[(i + j) % 4]
            lines = [l if (i + j) % 2 else ' ' + l + ' ' for l in seq]
            text = '\n'.join(lines).encode() + (b'' if how.endswith('nonl') or not seq else b'\n')
            if os.path.exists(out):
                os.unlink(out)
            args = opts + src.flags() + [src.path, out]
            what = 'ffp-select %s of %s from %s (%s)' % (opts, seq, src.fmt, how)
            if how.startswith('file'):
                r = cli.run('select', args + [put(os.path.join(scratch(), 'words'), text)], stdin=b'a\n')
            else:
                r = cli.run('select', args, stdin=text)
            rec.step()
            need(read(src.path) == src.data, '%s: the embeddings file changed', what)
            rec.state((repr(desc['src']), tuple(seq), tuple(opts)))
            ignore = '-i' in opts or '--ignore_unk' in opts
            verbose = '-v' in opts or '--verbose' in opts
            if unknown and not ignore:
                need(not r.ok, '%s succeeded although %s cannot be represented', what, unknown)
                need(any(w in r.err for w in unknown), '%s: standard error %r names none of %s', what, r.err, unknown)
                rec.outcome('failed')
                continue
            need(r.ok, '%s: %s', what, r)
            if verbose:
                for w in unknown:
                    need(any(w in l for l in r.err.split('\n')), '%s: skipped %r not reported: %r', what, w, r.err)
                need(len([l for l in r.err.split('\n') if l.strip()]) == len(unknown), '%s: standard error %r', what, r.err)
            else:
                need(not r.err.strip(), '%s: standard error %r', what, r.err)
            got = c17.decode_fifu(read(out), what)
            need(got.vocab.kind == 'simple' and got.storage.kind == 'nd' and not got.norms, '%s: components', what)
            need(len(got.vocab.words) == len(set(got.vocab.words)) and set(got.vocab.words) == distinct - unknown, '%s: words %s, expected %s', what, got.vocab.words, distinct - unknown)
            need(got.storage.shape == (len(distinct - unknown), src.rows.shape[1]), '%s: shape %s', what, got.storage.shape)
            for w, row in zip(got.vocab.words, got.storage.array):
                dom.close(row, src.vec(w), '%s: vector of %r' % (what, w), 1e-5)
            meta = {'source_embeddings': src.path}
            if m.meta is not None:
                meta['source_metadata'] = m.meta
            need(dom.typed(got.meta) == dom.typed(meta), '%s: metadata %s, expected %s', what, got.meta, meta)
            e = load_finalfusion(out)
            need(set(e.vocab.words) == distinct - unknown, '%s: cannot be loaded back', what)
            rec.outcome('%d selected, %d skipped' % (min(3, len(distinct - unknown)), min(3, len(unknown))))


def select_cases(tier):
    for s in sources(tier):
        pool = POOL + (['w3', 'w14'] if 'e' in s and s['e']['v'][1][0] == 'w0' else ['new york', 'x y'] if s['fmt'] == 'finalfusion' else ['dab'])
        yield {'src': s, 'pool': pool, 'len': 5 if tier == 'deep' else 4}
    for s in special_sources(tier):
        yield {'src': s, 'pool': LINES, 'len': 1}


def explicit(desc, rec):
    src = Src(desc['src'])
    out = os.path.join(scratch(), 'explicit.fifu')
    kind = src.m.vocab.kind
    f = [] if src.fmt == 'finalfusion' else ['-f', 'fasttext']
    results = []
    for opts in ([], ['--mmap'], ['-l'], ['--lossy', '--mmap'], ['-f' + src.fmt], ['--from', src.fmt]):
        put(out, b'\xff' * 100000) if len(results) % 2 else (os.path.exists(out) and os.unlink(out))
        r = cli.run('explicit', [src.path, out] + (f if not opts or 'f' not in opts[0] else []) + opts)
        rec.step()
        need(read(src.path) == src.data, 'the source changed')
        if kind not in ('fifu', 'ft'):
            need(not r.ok, 'converting a %s vocabulary succeeded', kind)
            rec.outcome('refused')
            continue
        need(r.ok, '%s: %s', opts, r)
        results.append(read(out))
        need(results[-1] == results[0], 'the result differs with %s', opts)
    rec.state(repr(desc))
    if not results:
        return
    lib = load_finalfusion(src.path) if src.fmt == 'finalfusion' else load_fasttext(src.path)
    want = os.path.join(scratch(), 'want.fifu')
    x = lib.bucket_to_explicit()
    x.write(want)
    got, exp = c17.decode_fifu(results[0], 'output'), c17.decode_fifu(read(want), 'library')
    need(got.vocab.key() == exp.vocab.key() and got.storage.key() == exp.storage.key() and got.norms == exp.norms and got.meta == exp.meta, 'the output differs from the converted embeddings')
    c12.check_vocab(load_finalfusion(out).vocab, src.m.vocab, 'output')
    dom.close(got.storage.array[:len(src.words)], src.rows[:len(src.words)], 'word vectors', 1e-5)
    rec.outcome('converted')


def explicit_cases(tier):
    ws = [W, ['a'], [], ['aaa', 'aa', 'ab'], ['ü€', '😀']]
    for w in ws:
        for v in (['simple', w], ['fifu', w, 1, 2, 3], ['fifu', w, 3, 6, 1], ['ft', w, 2, 3, 5], ['ft', w, 1, 1, 2], ['explicit', w, 2, 3, [['<a', 1], ['ab', 0]]]):
            for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 1, 7, 1, 1, 'C', 'nice'], ['pq', 1, 2, 3, 0, 0, 'C', 'nice']):
                for n in (None, ['C', 'pos']):
                    for m in (None, 4):
                        yield {'src': {'fmt': 'finalfusion', 'e': {'v': v, 's': s, 'n': n, 'm': m}}}
        if w:
            yield {'src': {'fmt': 'fasttext', 'w': [x for x in w if ' ' not in x], 'd': 3}}


def many(desc, rec):
    """inputs far longer than any buffer: every line is answered"""
    src = Src(desc['src'])
    n = desc['n']
    if desc['tool'] == 'select':
        known = src.words
        ask = ['%s%d' % ('w' if i % 3 else 'wörd', i) for i in range(n)]
        out = os.path.join(scratch(), 'selected.fifu')
        text = '\n'.join(ask + ask[::-1]).encode() + b'\n'
        args = ['-i', '-v'] + src.flags() + [src.path, out]
        r = cli.run('select', args + [put(os.path.join(scratch(), 'words'), text)]) if desc['how'] == 'file' else cli.run('select', args, stdin=text)
        need(r.ok, 'ffp-select of %d words: %s', n, r)
        got = c17.decode_fifu(read(out), 'ffp-select of %d words' % n)
        index = src.m.vocab.index
        unknown = [w for w in ask if w not in index]
        need(len(got.vocab.words) == len(set(got.vocab.words)) and set(got.vocab.words) == set(ask) - set(unknown), 'ffp-select of %d words selected %d, expected %d', n, len(got.vocab.words), n - len(unknown))
        need(len([l for l in r.err.split('\n') if l.strip()]) == len(unknown), 'ffp-select of %d words: %d messages, expected %d', n, len(r.err.split('\n')), len(unknown))
        dom.close(got.storage.array, src.rows[[index[w] for w in got.vocab.words]], 'vectors', 1e-5)
        rec.step(n)
        rec.state(repr(desc))
        rec.outcome('%d known of %d' % (min(len(known), n), n))
        return
    pool = [w for w in desc['pool'] if src.vec(w) is not False]
    vecs = {w: src.vec(w) for w in pool}
    exp, lines = [], []
    for i in range(n):
        t = [pool[(i * i * (j + 3) + i + j) % len(pool)] for j in range(3)]
        if desc['tool'] == 'similar':
            q = t[0]
            lines.append(q)
            exp.append(('report', [q]) if vecs[q] is None else ('answers', src.sims(vecs[q]), {q}, desc['k'], 'line %d: %r' % (i, q), None))
            continue
        if any(vecs[w] is None for w in t):
            lines.append(' '.join(t))
            exp.append(('report', t))
            continue
        d = vecs[t[1]] - vecs[t[0]] + vecs[t[2]]
        l = np.sqrt((d * d).sum())
        if l < 1e-3:
            continue
        lines.append(' '.join(t))
        exp.append(('answers', src.sims(d / l), set(t), desc['k'], 'line %d: %r' % (i, t), None))
    what = 'ffp-%s with %d lines (%s)' % (desc['tool'], len(lines), desc['how'])
    r = run_tool(desc['tool'], src, ['-k', str(desc['k'])], lines, desc['how'], what, rec)
    check_stream(r, exp, src.words, what)
    rec.step(len(lines))
    rec.state(repr(desc))
    rec.outcome(desc['tool'])


def many_cases(tier):
    small = {'fmt': 'finalfusion', 'e': {'v': ['ft', ['a', 'b€', 'cab', 'd', 'dab'], 2, 3, 5], 's': ['nd', 3, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 4}}
    ny = {'fmt': 'finalfusion', 'e': {'v': ['simple', ['a', 'b€', 'cab', 'd', 'dab']], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': 4}}
    for s in (small, ny, {'fmt': 'word2vec', 'w': SIMPLE_W, 'd': 3}):
        for how in ('file', 'stdin', 'file-nonl'):
            for tool in ('similar', 'analogy'):
                yield {'src': s, 'tool': tool, 'n': 9000 if tier != 'deep' else 70000, 'how': how, 'k': 2, 'pool': ['a', 'b€', 'cab', 'abc', 'zzz', 'd', 'dab']}
    for n in (12, 1100, 5000):
        for s in ({'fmt': 'finalfusion', 'e': {'v': ['simple', {'g': 'seq', 'n': n}], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': None}}, {'fmt': 'text', 'w': dom.gen_words({'g': 'seq', 'n': n}), 'd': 3}):
            for k in (1, 10, 11, 1000, n - 1, n, 6000):
                for tool in ('similar', 'analogy'):
                    yield {'src': s, 'tool': tool, 'n': 6, 'how': 'file', 'k': k, 'pool': ['w1', 'w2', 'wörd3', 'w%d' % (n - 1 if (n - 1) % 3 else n - 2), 'nope']}
    for n, ask in ((1100, 1000), (9000, 9000), (9000, 12000), (70000, 66000)):
        for how in ('file', 'stdin'):
            yield {'src': {'fmt': 'finalfusion', 'e': {'v': ['simple', {'g': 'seq', 'n': n}], 's': ['nd', 2, 'C', 'nice'], 'n': ['C', 'pos'], 'm': 4}}, 'tool': 'select', 'n': ask, 'how': how}


def names(desc, rec):
    """the names of the files do not decide how they are read or written: same answers as for ordinary names"""
    src = Src({'fmt': 'finalfusion', 'e': {'v': ['ft', W, 2, 3, 5], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': 1}})
    words = [w for w in W if w.strip()][:3]
    q = put(os.path.join(scratch(), 'q'), '\n'.join(words).encode() + b'\n')
    q3 = put(os.path.join(scratch(), 'q3'), ' '.join(words).encode() + b'\n')
    out, out2 = os.path.join(scratch(), 'out'), os.path.join(scratch(), 'out2')
    with dom.named(desc) as path:
        for tool, query in (('similar', q), ('analogy', q3)):
            want = cli.run(tool, [src.path, query])
            need(want.ok and want.out, 'ffp-%s: %s', tool, want)
            put(path, src.data)
            r = cli.run(tool, [path, query])
            need(r.ok and r.out == want.out, 'ffp-%s with embeddings named %r: %s, otherwise %s', tool, path, r, want)
            put(path, read(query))
            r = cli.run(tool, [src.path, path])
            need(r.ok and r.out == want.out, 'ffp-%s with queries named %r: %s, otherwise %s', tool, path, r, want)
            rec.step(3)
        need(cli.run('select', [src.path, out, q]).ok, 'ffp-select failed')
        want = c17.decode_fifu(read(out), 'ffp-select')
        r = cli.run('select', [src.path, out2, put(path, read(q))])
        need(r.ok and read(out2) == read(out), 'ffp-select with words named %r: %s', path, r)
        put(path, b'old')
        r = cli.run('select', [src.path, path, q])
        need(r.ok and read(path) == read(out), 'ffp-select to %r: %s', path, r)
        if desc['name'] != '\udcff' and toml.loads(toml.dumps({'x': path, 'y': {}})) == {'x': path, 'y': {}}:  # representable in the metadata
            put(path, src.data)
            r = cli.run('select', [path, out2, q])
            need(r.ok, 'ffp-select from %r: %s', path, r)
            got = c17.decode_fifu(read(out2), 'ffp-select')
            need(got.vocab.words == want.vocab.words and got.meta == dict(want.meta, source_embeddings=path), 'ffp-select from %r: words %s, metadata %r', path, got.vocab.words, got.meta)
            dom.same_bits(got.storage.array, want.storage.array, 'ffp-select from %r' % path)
        need(cli.run('explicit', [src.path, out]).ok, 'ffp-bucket-to-explicit failed')
        put(path, src.data)
        r = cli.run('explicit', [path, out2])
        need(r.ok and read(out2) == read(out), 'ffp-bucket-to-explicit from %r: %s', path, r)
        r = cli.run('explicit', [src.path, path])
        need(r.ok and read(path) == read(out), 'ffp-bucket-to-explicit to %r: %s', path, r)
        rec.step(7)
    rec.state(repr(desc))
    rec.outcome('named')


def bad_args(desc, rec):
    """unusable invocations fail and change nothing"""
    src = Src({'fmt': 'finalfusion', 'e': {'v': ['ft', W, 2, 3, 5], 's': ['nd', 3, 'C', 'nice'], 'n': None, 'm': None}})
    out = os.path.join(scratch(), 'bad-out')
    missing = os.path.join(scratch(), 'no-such-file')
    q = put(os.path.join(scratch(), 'q'), b'a\n')
    put(os.path.join(scratch(), 'garbage'), b'garbage')
    garbage = os.path.join(scratch(), 'garbage')
    for tool, args in (('similar', [missing]), ('similar', []), ('similar', [src.path, missing]), ('similar', [garbage, q]), ('similar', ['-k', 'x', src.path, q]), ('similar', ['-f', 'nope', src.path, q]), ('analogy', [missing, q]),
                       ('analogy', ['-i', 'd', '-k', '1', src.path, q]), ('analogy', ['-f', 'nope', src.path, q]), ('select', [src.path]), ('select', [missing, out, q]), ('select', [src.path, out, missing]), ('select', ['-f', 'word2vec', src.path, out, q]),
                       ('explicit', [missing, out]), ('explicit', [src.path]), ('explicit', ['-f', 'word2vec', src.path, out]), ('explicit', ['-f', 'fasttext', src.path, out])):
        r = cli.run(tool, args, stdin=b'a\n')
        need(not r.ok, 'ffp-%s %s succeeded: %s', tool, args, r)
        need(read(src.path) == src.data, 'ffp-%s %s changed the embeddings', tool, args)
        rec.step()
        rec.state((tool, repr(args)))


def suites(tier):
    tier = DEEPER[tier]
    return [
        Suite('similar', lambda: similar_cases(tier), similar, '14 sources in 5 formats; all query sequences of length 0..3 (thorough 4) over 5-7 queries incl. unknown words and blank lines; 9 values of k; file and standard input with and without final newline; option combinations', block=1),
        Suite('analogy', lambda: analogy_cases(tier), analogy, '14 sources; all triples of 6 words, together and alone, 15 include lists, 6 values of k, file and standard input', block=1),
        Suite('analogy-special', lambda: special_analogy_cases(tier), analogy, '14 sources with half of 90 words that text processing confuses with others, analogies among them; vectors of 25 orders of magnitude', block=1),
        Suite('select', lambda: select_cases(tier), select, '14 sources; all request sequences of length 0..4 (thorough 5) over 5-6 words, duplicates and unknown words, 6 option combinations', block=1),
        Suite('explicit', lambda: explicit_cases(tier), explicit, '5 word lists x 6 vocabularies x 3 storages x norms x metadata, fastText sources, 6 option combinations'),
        Suite('many', lambda: many_cases(tier), many, '9000 (thorough 70000) input lines; sources of up to 5000 words with up to 6000 answers per line; selections of up to 66000 words', block=1),
        Suite('names', lambda: (d for d in dom.name_cases() if not (d['how'] == 'relative' and d['name'].startswith('-'))), names, '64 file names that shells, tools and libraries treat specially for embeddings, queries and outputs, absolute, relative and in directories'),
        Suite('unusable', lambda: [0], bad_args, '17 unusable invocations'),
    ]
