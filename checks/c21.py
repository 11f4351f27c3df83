"""C21: loading is read-only, self-contained and leaves no files open."""
import gc
import itertools
import os
import shutil

import numpy as np
import toml

from checks import c15
from mc import boot, dom, foreign, ref, sched
from mc.dom import put, read
from mc.engine import CaseTimeout, Suite, Violation, need, scratch
from finalfusion.compat import (load_fasttext, load_text, load_text_dims, load_word2vec, write_fasttext, write_text, write_text_dims, write_word2vec)
from finalfusion.embeddings import Embeddings, load_finalfusion
from finalfusion.metadata import Metadata
from finalfusion.norms import Norms
from finalfusion.storage import QuantizedArray, load_ndarray, load_quantized_array, load_storage
from finalfusion.vocab import Vocab

LEVEL = 'model_checking'
ASSUMPTIONS = ['a file that is memory-mapped is replaced by renaming or removed, not overwritten in place (the operating system would change or invalidate the mapping)', 'descriptors are counted in /proc/self/fd',
               'a descriptor passed by the caller belongs to the load or write unless that fails']


def fds():
    out = {}
    for f in os.listdir('/proc/self/fd'):
        try:
            out[int(f)] = os.readlink('/proc/self/fd/' + f)
        except OSError:
            pass  # the descriptor of the listing itself
    return out


def leaked(before, what, own=None):
    """own: a descriptor of the caller that a failed call need not have touched"""
    if own is not None and own in fds():
        os.close(own)
    extra = {k: v for k, v in fds().items() if k not in before}
    need(not extra, '%s left descriptors open: %s', what, extra)


def sources():
    """name -> (bytes, loaders)"""
    out = {}
    for name, v, s, n, m in (('simple', ['simple', ['a', 'b€', 'c']], ['nd', 3, 'C', 'nice'], 1, 1), ('fifu', ['fifu', ['ab', 'c'], 1, 2, 2], ['nd', 2, 'C', 'nice'], 1, 4), ('ft', ['ft', ['ab', 'ü'], 2, 3, 3], ['nd', 2, 'C', 'nice'], 1, None),
                             ('explicit', ['explicit', ['ab', 'x'], 1, 2, [['<a', 1], ['b€', 0]]], ['nd', 2, 'C', 'nice'], 1, 1), ('pq', ['simple', ['a', 'b', 'c']], ['pq', 2, 2, 5, 1, 1, 'C', 'nice'], 1, 1), ('pqft', ['ft', ['ab', 'ü'], 2, 3, 3], ['pq', 2, 1, 5, 0, 0, 'C', 'nice'], 0, 1),
                             ('plain', ['simple', ['a', 'b']], ['nd', 1, 'C', 'bits'], 0, None), ('empty', ['simple', []], ['nd', 2, 'C', 'nice'], 1, 0)):
        vm = dom.model_vocab(v)
        model = ref.Emb(vm, dom.model_storage(s, vm.upper()), dom.floats(len(vm.words), 'pos', 3) if n else None, None if m is None else dom.METAS[m])
        data = ref.enc_chunks(ref.parts_of(model, toml.dumps(model.meta).encode() if m is not None else None))[0]
        out[name] = (data, model)
    return out


SRC = None


def src(name):
    global SRC
    if SRC is None:
        SRC = sources()
    return SRC[name]


FIFU = ['simple', 'fifu', 'ft', 'explicit', 'pq', 'pqft', 'plain', 'empty']
WORDS = [b'one', 'zwö'.encode(), b'three']


def foreign_data(fmt):
    mat = dom.floats(9, 'nice').reshape(3, 3)
    if fmt == 'fasttext':
        return foreign.fasttext(WORDS, dom.floats(24, 'nice').reshape(8, 3), 2, 3, 5)[0]
    return foreign.w2v(WORDS, mat) if fmt == 'w2v' else foreign.text(WORDS, mat, fmt == 'textdims')


FOREIGN = {'w2v': load_word2vec, 'text': load_text, 'textdims': load_text_dims, 'fasttext': load_fasttext}


def loaders(name):
    """(name, function of a file argument, memory maps)"""
    if name in FOREIGN:
        fn = FOREIGN[name]
        return [('%s' % name, fn, False), ('%s lossy' % name, lambda f: fn(f, True), False)]
    kind = src(name)[1].vocab.kind
    own = {'simple': dom.load_simple_vocab, 'fifu': dom.load_finalfusion_bucket_vocab, 'ft': dom.load_fasttext_vocab, 'explicit': dom.load_explicit_vocab}[kind]
    out = [('load_finalfusion', load_finalfusion, False), ('load_finalfusion mmap', lambda f: load_finalfusion(f, True), True), ('load_vocab', dom.load_vocab, False), ('own vocabulary', own, False),
           ('load_storage', load_storage, False), ('load_storage mmap', lambda f: load_storage(f, True), True), ('load_norms', dom.load_norms, False), ('load_metadata', dom.load_metadata, False),
           ('load_ndarray', load_ndarray, False), ('load_ndarray mmap', lambda f: load_ndarray(f, True), True), ('load_quantized_array', load_quantized_array, False), ('load_quantized_array mmap', lambda f: load_quantized_array(f, True), True),
           ('other vocabulary', dom.load_explicit_vocab if kind != 'explicit' else dom.load_simple_vocab, False)]
    return out


def stamp(path):
    st = os.stat(path)
    return st.st_ino, st.st_size, st.st_mtime_ns, st.st_mode


def data_of(name):
    return foreign_data(name) if name in FOREIGN else src(name)[0]


def damage(name, data, what):
    """the intact file, every prefix, every single byte inverted"""
    yield 'intact', data
    if 'prefix' in what:
        for i in range(len(data)):
            yield 'first %d bytes' % i, data[:i]
    if 'flip' in what:
        for i in range(len(data)):
            yield 'byte %d inverted' % i, data[:i] + bytes([data[i] ^ 0xff]) + data[i + 1:]


def open_files(desc, rec):
    """every loader on intact and damaged files: the file is unchanged and nothing stays open, also while a raised exception is still referenced"""
    name = desc['src']
    path = os.path.join(scratch(), 'f-' + name)
    data = data_of(name)
    arg_kinds = dom.FILE_KINDS
    for dname, d in damage(name, data, desc['damage']):
        put(path, d)
        os.utime(path, ns=(10**18, 10**18))
        for i, (lname, fn, mm) in enumerate(loaders(name)):
            before_stat = stamp(path)
            for kind in arg_kinds if dname == 'intact' else ('str', 'fd')[:1 + (i + len(dname)) % 2]:
                what = '%s (%s) of %s, %s' % (lname, kind, name, dname)
                before = fds()
                arg = dom.file_arg(path, kind)
                try:
                    got, exc = fn(arg), None
                except CaseTimeout:
                    raise
                except Exception as e:  # pylint: disable=broad-except
                    got, exc = None, e
                rec.step()
                own = arg if kind == 'fd' and exc is not None else None
                if not mm:
                    leaked(before, what, own)  # exc is still referenced
                need(stamp(path) == before_stat and read(path) == d, '%s changed the file', what)
                if kind == 'str' and isinstance(got, Embeddings):
                    need(got.origin == path, '%s: the origin is %r', what, got.origin)
                rec.outcome('failed' if exc is not None else 'loaded')
                got = exc = None
                if mm:
                    if len(fds()) != len(before):
                        gc.collect()
                    leaked(before, what + ' (after dropping the result)', own)
        rec.state((name, d))


def open_cases(tier):
    for name in FIFU + list(FOREIGN):
        yield {'src': name, 'damage': 'prefix'}
        if tier != 'quick' or name in FOREIGN or name in ('simple', 'explicit', 'pqft'):
            yield {'src': name, 'damage': 'flip'}


def read_only(desc, rec):
    """files that the user may only read, in directories where nothing can be created, load as well"""
    name = desc['src']
    place = os.path.join(scratch(), 'read-only-' + name)
    path = os.path.join(place, 'f')
    os.makedirs(place)
    put(path, data_of(name))
    os.chmod(path, 0o444)
    os.chmod(place, 0o555)
    root = os.geteuid() == 0
    if root:
        for d in (os.path.dirname(scratch()), scratch()):
            os.chmod(d, 0o755)
    if root:
        try:
            os.seteuid(65534)
            try:
                read(path)
            finally:
                os.seteuid(0)
        except OSError:
            root = False
            rec.skip('the sandbox cannot drop privileges')
    try:
        for lname, fn, _ in loaders(name):
            for kind in dom.FILE_KINDS:
                what = '%s (%s) of %s' % (lname, kind, name)
                want = outcome(fn, dom.file_arg(path, kind))
                if root:
                    os.seteuid(65534)
                try:
                    got = outcome(fn, dom.file_arg(path, kind))
                    seen = os.listdir(place)
                finally:
                    if root:
                        os.seteuid(0)
                need(want == got, '%s: %s from a file that may only be read, otherwise %s', what, got, want)
                need(seen == ['f'], '%s: the directory holds %s', what, seen)
                rec.step(2)
                rec.state(what)
        rec.outcome('unprivileged' if root else 'as is')
    finally:
        os.chmod(place, 0o755)
        shutil.rmtree(place)


def named_files(desc, rec):
    """every loader, every kind of argument: the origin is the given path, nothing else appears in the directory"""
    for name in FIFU[:5] + list(FOREIGN):
        with dom.named(desc) as path:
            put(path, data_of(name))
            for lname, fn, _ in loaders(name):
                for kind in dom.FILE_KINDS:
                    arg = dom.file_arg(path, kind)
                    try:
                        got = fn(arg)
                    except ValueError:
                        continue  # no such component
                    if isinstance(got, Embeddings) and kind in ('str', 'bytes', 'path', 'like'):
                        try:
                            given = os.fsencode(got.origin)
                        except TypeError:
                            given = None
                        need(given == os.fsencode(arg), '%s (%s) of %r: the origin is %r', lname, kind, path, got.origin)
                    rec.step()
                    del got
            need(read(path) == data_of(name), 'the file %r changed', path)
            os.unlink(path)
    rec.state(repr(desc))
    rec.outcome('named')


def outcome(fn, arg):
    try:
        fn(arg)
        return 'loaded'
    except CaseTimeout:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if isinstance(arg, int):
            try:
                os.close(arg)
            except OSError:
                pass
        return type(exc).__name__


def write_files(desc, rec):
    """writers: nothing stays open whether they succeed or fail, and they do not modify the embeddings"""
    m, e = dom.build(desc)
    base = scratch()
    good = os.path.join(base, 'w-out')
    adir = os.path.join(base, 'w-dir')
    os.makedirs(adir, exist_ok=True)
    writers = [('write', lambda f: e.write(f)), ('storage.write', lambda f: e.storage.write(f)), ('vocab.write', lambda f: e.vocab.write(f)), ('word2vec', lambda f: write_word2vec(f, e)), ('text', lambda f: write_text(f, e)),
               ('textdims', lambda f: write_text_dims(f, e)), ('fasttext', lambda f: write_fasttext(f, e))]
    if e.norms is not None:
        writers.append(('norms.write', lambda f: e.norms.write(f)))
    if e.metadata is not None:
        writers.append(('metadata.write', lambda f: e.metadata.write(f)))
    for name, fn in writers:
        for target, kinds in ((good, dom.FILE_KINDS), (adir, ('str', 'path')), (os.path.join(base, 'no', 'dir'), ('str', 'bytes', 'path')), ('/dev/full', ('str', 'fd'))):
            for kind in kinds:
                before = fds()
                fd = None
                try:
                    if kind == 'fd':
                        fd = os.open(target, os.O_WRONLY | (os.O_CREAT | os.O_TRUNC if target == good else 0))
                        arg = fd
                    else:
                        arg = dom.file_arg(target, kind, 'w')
                    fn(arg)
                    exc = None
                except CaseTimeout:
                    raise
                except Exception as x:  # pylint: disable=broad-except
                    exc = x
                rec.step()
                what = '%s to %s (%s)' % (name, target if target != good else 'a file', kind)
                leaked(before, what, fd if exc is not None else None)
                if target == good:
                    need(exc is None or (name == 'fasttext' and m.vocab.kind != 'ft'), '%s failed: %r', what, exc)
                else:
                    need(exc is not None, '%s succeeded', what)
                rec.outcome('written' if exc is None else 'failed')
                exc = None
        rec.state((repr(desc), name))
    dom.check_embeddings(e, m, 'the embeddings afterwards', file_check=False)


def write_cases(tier):
    for v in (['simple', ['a', 'b€', 'c']], ['ft', ['ab', 'ü'], 2, 3, 3], ['explicit', ['ab', 'x'], 1, 2, [['<a', 1], ['b€', 0]]], ['fifu', ['ab', 'c'], 1, 2, 2]):
        for s in (['nd', 3, 'C', 'nice'], ['pq', 2, 2, 5, 1, 1, 'C', 'nice'], ['nd', 3000, 'F', 'nice']):
            for n, mt in ((None, None), (['C', 'pos'], 4)):
                yield {'v': v, 's': s, 'n': n, 'm': mt}


# ------------------------------------------------------------------------------------------------------------ histories
# One path, contents A and B of equal size, up to two loaded objects.  The model says what each object and the file hold.
def pair(name):
    """two models of the same shape with different content, and their files"""
    out = []
    for salt in (0, 7):
        v = {'simple': ['simple', ['a', 'b', 'c'] if not salt else ['x', 'y', 'z']], 'ft': ['ft', ['ab', 'c'] if not salt else ['cd', 'e'], 1, 2, 2], 'pq': ['simple', ['a', 'b', 'c'] if not salt else ['x', 'y', 'z']],
             'explicit': ['explicit', ['ab'] if not salt else ['cd'], 1, 2, [['<a', 1], ['b>', 0]]]}[name]
        s = ['pq', 2, 1, 4, 1, 1, 'C', 'nice'] if name == 'pq' else ['nd', 2, 'C', 'nice']
        vm = dom.model_vocab(v)
        meta = {'a': 'x%d' % salt}
        m = ref.Emb(vm, dom.model_storage(s, vm.upper(), salt), dom.floats(len(vm.words), 'pos', 3 + salt), meta)
        data = ref.enc_chunks(ref.parts_of(m, toml.dumps(meta).encode()))[0]
        out.append((m, data))
    need(len(out[0][1]) == len(out[1][1]), 'harness: sizes differ')
    return out


class Obj:
    def __init__(self, emb, model, mm):
        self.emb, self.model, self.mm = emb, model, mm


def modify(o):
    """change everything an eagerly loaded object lets one change"""
    e, m = o.emb, o.model
    storage = m.storage
    if storage.kind == 'nd':
        e.storage[...] = np.asarray(e.storage) + np.float32(1)
        storage = ref.Nd(storage.array + np.float32(1))
    norms = m.norms
    if norms is not None:
        e.norms[0] = 77
        norms = norms.copy()
        norms[0] = 77
    meta = m.meta
    if meta is not None:
        e.metadata['new'] = len(meta)
        meta = dict(meta, new=len(meta))
    o.model = ref.Emb(m.vocab, storage, norms, meta)


def refuse(o, what):
    """memory-mapped storages cannot be modified"""
    e = o.emb
    if o.model.storage.kind != 'nd':
        return
    for name, fn in (('assignment', lambda: e.storage.__setitem__(0, 5)), ('slice assignment', lambda: e.storage.__setitem__(slice(None), 5)), ('modifying a row', lambda: e.storage[0].__setitem__(0, 5)),
                     ('modifying a looked up vector', lambda: e[o.model.vocab.words[0]].__setitem__(0, 5)), ('fill', lambda: e.storage.fill(1)), ('modification through asarray', lambda: np.asarray(e.storage).__setitem__(0, 5))):
        try:
            fn()
        except (ValueError, TypeError, RuntimeError):
            continue
        # a copy may have been modified, the storage must not
        dom.same_bits(np.asarray(e.storage), o.model.storage.array, '%s: memory-mapped storage after %s' % (what, name))
        need(name.startswith('modifying a looked'), '%s: %s of a memory-mapped storage was accepted', what, name)


OPS = ['load', 'mmap', 'fd', 'replace', 'overwrite', 'truncate', 'remove', 'modify0', 'modify1', 'write0', 'write1', 'drop0', 'export0']


def enabled(op, content, objs):
    if op in ('load', 'mmap', 'fd'):
        return content is not None and len(objs) < 2
    mapped = any(o.mm for o in objs)
    if op in ('overwrite', 'truncate'):
        return content is not None and not mapped
    if op == 'replace':
        return True
    if op == 'remove':
        return content is not None
    i = int(op[-1])
    if i >= len(objs):
        return False
    if op.startswith('write') or op.startswith('export'):
        return not mapped
    return True


def history(desc, rec):
    """all sequences of operations of a given depth after the first ones"""
    pairs = pair(desc['name'])
    path = os.path.join(scratch(), 'h.fifu')
    depth = desc['depth']
    size = len(pairs[0][1])

    def play(ops):
        """runs the history from scratch and checks everything after every step that is new; returns the state or None if an operation is not enabled"""
        put(path, pairs[0][1])
        os.utime(path, ns=(10**18, 10**18))
        content = (pairs[0][0], pairs[0][1])
        objs = []
        turn = 0
        for n, op in enumerate(ops):
            if not enabled(op, content, objs):
                return None
            what = ', '.join(ops[:n + 1])
            before = fds()
            if op in ('load', 'mmap', 'fd'):
                raw = read(path)
                st = stamp(path)
                if op == 'fd':
                    e = load_finalfusion(os.open(path, os.O_RDONLY))
                else:
                    e = load_finalfusion(path, op == 'mmap')
                need(read(path) == raw and stamp(path) == st, '%s: loading changed the file', what)
                objs.append(Obj(e, content[0], op == 'mmap'))
            elif op in ('replace', 'overwrite'):
                turn ^= 1
                m, d = pairs[turn]
                if op == 'replace':
                    put(path + '.new', d)
                    os.utime(path + '.new', ns=(10**18, 10**18))
                    os.rename(path + '.new', path)
                else:
                    put(path, d)
                    os.utime(path, ns=(10**18, 10**18))
                content = (m, d)
            elif op == 'truncate':
                os.truncate(path, 10)
                content = None
            elif op == 'remove':
                os.unlink(path)
                content = None
            elif op.startswith('modify'):
                o = objs[int(op[-1])]
                if o.mm:
                    refuse(o, what)
                else:
                    modify(o)
            elif op.startswith('write'):
                o = objs[int(op[-1])]
                o.emb.write(path)
                data = read(path)
                dom.same_file(data, dom.expected_file(o.model, data), what + ': written file')
                content = (o.model, data)
            elif op.startswith('export'):
                o = objs[int(op[-1])]
                write_text(path, o.emb)
                rows = c15.check_written(o.model, o.emb, 'text', path, None, what)
                c15.check_loaded(load_text(path), o.model.vocab.words, rows.astype(np.float64), what)
                content = None
            elif op.startswith('drop'):
                o = e = None
                del objs[int(op[-1])]
                gc.collect()
            if not any(o.mm for o in objs):
                leaked(before if op != 'drop0' else fds(), what)
            if n == len(ops) - 1:
                for i, o in enumerate(objs):
                    dom.check_embeddings(o.emb, o.model, '%s: object %d' % (what, i), file_check=o.model.storage.kind == 'pq')
                if content is not None:
                    need(read(path) == content[1], '%s: the file changed', what)
        rec.step()
        rec.state((desc['name'], content and content[1], tuple((o.mm, o.model.storage.key(), o.model.norms.tobytes(), repr(o.model.meta), tuple(o.model.vocab.words)) for o in objs)))
        return True

    def go(ops):
        if ops and play(ops) is None:
            return
        if len(ops) == depth:
            rec.outcome('history')
            return
        for op in OPS:
            if len(ops) < len(desc['first']) and op != desc['first'][len(ops)]:
                continue
            go(ops + [op])

    go([])
    gc.collect()


def history_cases(tier):
    for name in ('simple', 'pq', 'ft', 'explicit'):
        for first in itertools.product(OPS, repeat=2):
            yield {'name': name, 'first': list(first), 'depth': 5 if tier != 'quick' else 4}


def ruin(x):
    """change every mutable part of a loaded object in place, at any depth"""
    if isinstance(x, Embeddings):
        for part in (x.vocab, x.storage, x.norms, x.metadata):
            ruin(part)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 5
    elif isinstance(x, QuantizedArray):
        for a in (x.quantizer.subquantizers, x.quantizer.projection, getattr(x, '_quantized_embeddings', None), getattr(x, '_norms', None)):
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                a[...] = 1 if a.dtype == np.uint8 else -3
    elif isinstance(x, dict):
        for v in x.values():
            ruin(v)
        x['changed'] = 1
    elif isinstance(x, list):
        for v in x:
            ruin(v)
        x.append(x[0] if x else 1)
    elif isinstance(x, Vocab):
        try:
            x.words.append('appended')
            x.word_index['appended'] = 99
        except (AttributeError, TypeError):
            pass  # they may be immutable
        ix = getattr(x, 'subword_indexer', None)
        if hasattr(ix, 'ngrams'):
            try:
                ix.ngrams.append('zz')
                ix.ngram_index['zz'] = 0
            except (AttributeError, TypeError):
                pass


def components(desc, rec):
    """components loaded repeatedly, alone or as part of embeddings, share nothing"""
    name = desc['src']
    path, snap = os.path.join(scratch(), 'i-' + name), os.path.join(scratch(), 'snap')
    data = data_of(name)
    put(path, data)

    def image(x):
        x.write(snap)
        return read(snap)

    fns = []
    for lname, fn, mm in loaders(name):
        try:
            fns.append((lname, fn, image(fn(path))))
        except ValueError:
            rec.outcome('no such component')
    for (n1, f1, _), (n2, f2, want) in itertools.product(fns, fns):
        before = f2(path)
        ruin(f1(path))
        need(image(before) == want, '%s: modifying the result of %s changed the earlier result of %s', name, n1, n2)
        need(image(f2(path)) == want, '%s: modifying the result of %s changed a later result of %s', name, n1, n2)
        need(read(path) == data, '%s: modifying the result of %s changed the file', name, n1)
        rec.step(3)
        rec.state((name, n1, n2))
    rec.outcome('independent')


def independent(desc, rec):
    """objects loaded repeatedly share nothing"""
    name = desc['src']
    path = os.path.join(scratch(), 'i-' + name)
    data = data_of(name)
    put(path, data)
    fns = [(l, f) for l, f, mm in loaders(name) if not mm and l in ('load_finalfusion', 'w2v', 'text', 'textdims', 'fasttext', 'w2v lossy', 'text lossy', 'textdims lossy', 'fasttext lossy')]
    for (n1, f1), (n2, f2) in itertools.product(fns, fns):
        a, b = f1(path), f2(path)
        snap = os.path.join(scratch(), 'snap')
        b.write(snap)
        want = read(snap)
        need(a is not b and a.vocab is not b.vocab and a.storage is not b.storage and (a.norms is None or a.norms is not b.norms) and (a.metadata is None or a.metadata is not b.metadata), '%s and %s of %s share components', n1, n2, name)
        if isinstance(a.storage, np.ndarray) and a.storage.size:
            need(not np.shares_memory(a.storage, b.storage), '%s and %s of %s share memory', n1, n2, name)
            a.storage[...] = 5
        ruin(a)
        b.write(snap)
        need(read(snap) == want, 'modifying the result of %s changed the result of %s of %s', n1, n2, name)
        need(read(path) == data, 'modifying the result of %s changed the file of %s', n1, name)
        c = f1(path)
        c.write(snap)
        need(read(snap) == want, 'loading %s again gives a different result', name)
        need('appended' not in c.vocab, 'a modification survived loading %s again', name)
        os.unlink(path)
        b.write(snap)
        need(read(snap) == want, '%s of %s depends on the removed file', n2, name)
        b.write(path)
        need(read(path) == want, '%s of %s written to its own path differs', n2, name)
        os.unlink(path)
        put(path, data)
        rec.step(6)
        rec.state((name, n1, n2))
    if name in FOREIGN:
        e = FOREIGN[name](path)
        wr = {'w2v': write_word2vec, 'text': write_text, 'textdims': write_text_dims, 'fasttext': write_fasttext}[name]
        wr(path, e)
        f = FOREIGN[name](path)
        dom.close(np.asarray(f.storage), np.asarray(e.storage), name + ' written to its own path', 1e-4)
        need(list(f.vocab.words) == list(e.vocab.words), '%s written to its own path: words', name)
    rec.outcome('independent')


def big(desc, rec):
    """files with large arrays: what was loaded eagerly does not depend on the file any more, whatever happens to it"""
    n, fmt = desc['n'], desc['fmt']
    path = os.path.join(scratch(), 'big-in')
    if fmt in FOREIGN:
        mat = dom.floats(n, 'nice').reshape(2, -1) + np.float32(10)
        if fmt == 'fasttext':
            data = foreign.fasttext(WORDS, dom.floats(4 * n, 'nice').reshape(-1, 4)[:n // 4 + 3], 2, 3, n // 4)[0]
        else:
            data = foreign.w2v(WORDS[:2], mat) if fmt == 'w2v' else foreign.text(WORDS[:2], mat, fmt == 'textdims')
        fns = [FOREIGN[fmt]]
    else:
        v = {'nd': ['ft', ['a', 'b'], 3, 6, n // 4], 'wide': ['simple', ['a', 'b']], 'codes': ['ft', ['a', 'b'], 3, 6, n], 'projection': ['simple', ['a', 'b']], 'quantizers': ['simple', ['a', 'b']], 'norms': ['simple', {'g': 'seq', 'n': n // 8}]}[fmt]
        s = {'nd': ['nd', 4, 'C', 'bits'], 'wide': ['nd', n // 2, 'C', 'bits'], 'codes': ['pq', 1, 1, 251, 0, 1, 'C', 'bits'], 'projection': ['pq', 1, int(n**.5) + 1, 3, 1, 1, 'C', 'bits'], 'quantizers': ['pq', 3, n // 256, 251, 0, 0, 'C', 'bits'], 'norms': ['nd', 1, 'C', 'bits']}[fmt]
        vm = dom.model_vocab(v)
        m = ref.Emb(vm, dom.model_storage(s, vm.upper()), dom.floats(len(vm.words), 'pos', 3) if fmt == 'norms' else None, None)
        data = ref.enc_chunks(ref.parts_of(m, None))[0]
        fns = [load_finalfusion, load_storage, load_ndarray if s[0] == 'nd' else load_quantized_array, lambda f: load_finalfusion(os.open(f, os.O_RDONLY)), lambda f: load_storage(file=f, mmap=False)] + ([dom.load_norms] if fmt == 'norms' else [])
    for fn in fns:
        put(path, data)
        before = fds()
        x = fn(path)
        leaked(before, 'loading %d elements (%s)' % (n, fmt))
        need(read(path) == data, 'loading changed the file')

        def image():
            out = os.path.join(scratch(), 'big-out')
            x.write(out)
            return read(out)

        want = image()
        for what in ('overwritten', 'cut off', 'emptied', 'removed'):
            if what == 'overwritten':
                with open(path, 'r+b') as f:
                    f.write(b'\xa5' * len(data))
            elif what == 'cut off':
                os.truncate(path, 100)
            elif what == 'emptied':
                os.truncate(path, 0)
            else:
                os.unlink(path)
            need(image() == want, 'the embeddings loaded from a file with %d elements (%s) changed when it was %s', n, fmt, what)
            rec.step()
        st = x.storage if isinstance(x, Embeddings) else x
        if isinstance(st, np.ndarray):
            st[...] = 1
        rec.outcome('independent')
    rec.state((fmt, n))


def big_cases(tier):
    for n in (1 << 16, (1 << 20) + 8, 1 << 22) + ((1 << 24, 1 << 26) if tier != 'quick' else ()):
        for fmt in ('nd', 'wide', 'codes', 'projection', 'quantizers', 'norms', 'w2v', 'text', 'textdims', 'fasttext'):
            if fmt in ('text', 'textdims') and n > 1 << 21:
                continue
            yield {'fmt': fmt, 'n': n}


def many(desc, rec):
    """hundreds of loads in a row, results dropped or kept, successful or failing"""
    name = desc['src']
    path = os.path.join(scratch(), 'm-' + name)
    data = data_of(name)
    keep = []
    put(path, data)
    put(path + '.bad', data[:len(data) * 2 // 3])
    for lname, fn, mm in loaders(name):
        before = fds()
        for i in range(40):
            for p in (path, path + '.bad', path + '.missing'):
                try:
                    x = fn(p)
                    if not mm:
                        keep.append(x)
                    del x
                except CaseTimeout:
                    raise
                except Exception as exc:  # pylint: disable=broad-except
                    keep.append(exc if not mm else None)
                rec.step()
        if mm:
            gc.collect()
        leaked(before, '120 calls of %s on %s' % (lname, name))
        rec.state((name, lname))


def concurrent(desc, rec):
    """two loads in two threads, every schedule with at most two preemptions at evenly spaced points"""
    prefix = os.path.join(boot.REPO, 'src') + os.sep
    snap = os.path.join(scratch(), 'snap')

    def image(x):
        x.write(snap)
        return read(snap)

    fns, want = [], []
    for k, (name, lname) in enumerate(desc['loads']):
        path = os.path.join(scratch(), 'con-%d' % (0 if desc['same'] else k))
        put(path, data_of(name))
        fn = dict((l, f) for l, f, _ in loaders(name))[lname]
        fns.append(lambda fn=fn, path=path: fn(path))
        want.append(image(fn(path)))
    before = fds()

    def go(segments):
        run = sched.Run(fns, prefix, segments)
        points = list(run.run())
        for i in range(2):
            need(run.errors[i] is None, 'schedule %s: %s raised %r', segments, desc['loads'][i], run.errors[i])
            need(image(run.results[i]) == want[i], 'schedule %s: %s differs from a load that runs alone', segments, desc['loads'][i])
        rec.step(sum(points))
        rec.state((tuple(map(tuple, desc['loads'])), desc['same'], tuple(map(tuple, segments))))
        return points, run.trail

    (na, nb), trails = go([])
    sa, sb = max(1, -(-na // desc['max'])), max(1, -(-nb // desc['max']))
    for i in sched.switch_points(trails[0], desc['times'], 1):
        go([(0, i)])
    for i in range(1, na + 1, sa):
        for j in range(1, nb + 1, sb):
            go([(0, i), (1, j), (0, 1 << 30)])
    gc.collect()  # the schedules hold the loaded objects in reference cycles; mappings end with them
    leaked(before, 'concurrent loads')
    rec.outcome('complete' if sa == sb == 1 else 'spaced')


def concurrent_cases(tier):
    ops = [(n, 'load_finalfusion') for n in FIFU] + [(n, 'load_finalfusion mmap') for n in ('fifu', 'pq')] + [(n, n) for n in FOREIGN]
    top, times = (9, 2) if tier == 'quick' else (40, 1000)
    for a in ops:
        for b in ops:
            yield {'loads': [list(a), list(b)], 'same': 0, 'max': top, 'times': times}
        yield {'loads': [list(a), list(a)], 'same': 1, 'max': top, 'times': times}


def suites(tier):
    names = FIFU + list(FOREIGN)
    return [
        Suite('open-files', lambda: open_cases(tier), open_files, '12 files x all their loaders (eager, memory-mapped, by path and descriptor): intact, every prefix, every byte inverted', block=1, mem_gb=2),
        Suite('read-only', lambda: [{'src': n} for n in names], read_only, '12 files x all their loaders x 5 kinds of file argument, as a user who may only read the file and create nothing next to it', block=1),
        Suite('names', dom.name_cases, named_files, '64 file names that shells, tools and libraries treat specially, absolute, relative and in directories, all loaders and kinds of file arguments'),
        Suite('writers', lambda: write_cases(tier), write_files, '24 embeddings x 9 writers x 11 targets incl. directories, missing directories and a full device', block=1),
        Suite('histories', lambda: history_cases(tier), history, 'all histories of 4 (thorough 5) of 13 operations on one path: loads, replacing, overwriting, truncating and removing the file with preserved size and times, modifying, dropping and writing loaded objects', block=1),
        Suite('independent', lambda: [{'src': n} for n in names], independent, 'all pairs of loads of 12 files', block=1),
        Suite('components', lambda: [{'src': n} for n in names], components, 'all ordered pairs of the 13 loaders of 12 files: every mutable part of one result is modified at any depth, earlier and later results of the other are unaffected', block=1),
        Suite('concurrent', lambda: concurrent_cases(tier), concurrent, 'all ordered pairs of 14 loads in two threads on two files and on one, all schedules with one preemption before each line of the code (the first two times and the last time it is reached; thorough: every time) and with two preemptions at up to 9 (thorough 40) evenly spaced points per thread', block=1),
        Suite('big', lambda: big_cases(tier), big, 'arrays of 2^16 to 2^22 (thorough 2^26) elements in every array of every format; the file is overwritten, cut off, emptied and removed after an eager load', block=1, mem_gb=12),
        Suite('many', lambda: [{'src': n} for n in names], many, '120 calls of each of 13 loaders', block=1),
    ]
