"""
Exhaustive explorer.

A check consists of suites.  A suite enumerates a finite space of JSON-able case descriptions in a fixed order and
runs each against the real code.  Forked workers claim blocks of the enumeration; the violation with the smallest
position is the one reported, so results are deterministic.  Crashes (signals) and hangs of the code under test are
violations of the case that was running.
"""
import errno
import hashlib
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself (or the sandbox) failed."""


class CaseTimeout(BaseException):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Recorder:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.cases = 0
        self.outcomes = {}
        self.skipped = {}

    def state(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode('utf-8', 'surrogatepass')
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def step(self, n=1):
        self.steps += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1


class Suite:
    """
    name: unique in the check.  cases: callable returning an iterator of JSON-able case descriptions.
    run: run(desc, rec), raises Violation.  bound: text describing the enumerated space.
    block: how many consecutive cases a worker claims at a time.
    """

    def __init__(self, name, cases, run, bound, block=8, timeout=150, mem_gb=6):
        self.name, self.cases, self.run, self.bound = name, cases, run, bound
        self.block, self.timeout, self.mem_gb = block, timeout, mem_gb

    def limit(self):
        """processor seconds per case"""
        return self.timeout * FACTOR


_SCRATCH = None
FACTOR = 1  # 10 in the thorough tier
# checks whose thorough bounds are cheap use them in the quick tier and deeper ones in the thorough tier
DEEPER = {'quick': 'thorough', 'thorough': 'deep'}


def scratch():
    """Per-process scratch directory, removed by the explorer."""
    return _SCRATCH


def _set_scratch(path):
    global _SCRATCH
    _SCRATCH = path
    os.makedirs(path, exist_ok=True)


def scratch_base():
    for cand in ('/dev/shm', tempfile.gettempdir()):
        try:
            st = os.statvfs(cand)
            if st.f_bavail * st.f_frsize < 2 << 30:
                continue
            return tempfile.mkdtemp(prefix='verif-ff-', dir=cand)
        except OSError:
            continue
    return tempfile.mkdtemp(prefix='verif-ff-')


WALL = 3  # seconds of wall clock per second of processor time before a case counts as blocked
PROFILE = os.environ.get('VERIF_PROFILE')  # development: file that receives the duration of every case


def _alarm(_sig, _frame):
    raise CaseTimeout()


ENV_ERRNOS = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT)


def run_case(suite, desc, rec):
    """Runs one case, returns None or a violation message."""
    # the limit is on processor time, so that a busy machine raises no alarm; blocking is limited less tightly
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    limit = suite.limit()
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(WALL * limit)
    started = time.monotonic()
    try:
        suite.run(desc, rec)
        return None
    except Violation as exc:
        return str(exc)
    except CaseTimeout:
        return 'the case did not finish within %d s' % limit
    except HarnessError:
        raise
    except OSError as exc:
        if exc.errno in ENV_ERRNOS:
            raise HarnessError('sandbox out of resources: %r' % exc)
        return 'unexpected %s\n%s' % (exc.__class__.__name__, traceback.format_exc())
    except BaseException as exc:  # pylint: disable=broad-except
        return 'unexpected %s: %s\n%s' % (type(exc).__name__, exc, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        if PROFILE:
            with open(PROFILE, 'a') as f:
                f.write('%8.2f %s %s\n' % (time.monotonic() - started, suite.name, json.dumps(desc)[:200]))


class Explorer:
    def __init__(self, suites, workers):
        self.suites, self.n = suites, workers
        self.ctx = get_context('fork')
        # shared: per suite next index (q), per suite smallest violating index (q); guarded by one lock
        self.lock = self.ctx.Lock()
        self.shm = mmap.mmap(-1, 16 * len(suites) + 32 * workers + 64)
        for s in range(len(suites)):
            struct.pack_into('qq', self.shm, 16 * s, 0, 1 << 62)
        self.woff = 16 * len(suites)

    # -- shared state -----------------------------------------------------
    def claim(self, s):
        with self.lock:
            nxt, bad = struct.unpack_from('qq', self.shm, 16 * s)
            # a violation in an earlier suite ends the run
            for e in range(s):
                if struct.unpack_from('qq', self.shm, 16 * e)[1] != 1 << 62:
                    return None
            if nxt > bad:
                return None
            struct.pack_into('q', self.shm, 16 * s, nxt + self.suites[s].block)
            return nxt

    def report(self, s, idx):
        with self.lock:
            bad = struct.unpack_from('q', self.shm, 16 * s + 8)[0]
            if idx < bad:
                struct.pack_into('q', self.shm, 16 * s + 8, idx)

    def mark(self, w, s, idx):
        struct.pack_into('qqd', self.shm, self.woff + 32 * w, s, idx, time.monotonic())

    def marked(self, w):
        return struct.unpack_from('qqd', self.shm, self.woff + 32 * w)

    # -- worker -----------------------------------------------------------
    def worker(self, w, base, outpath):
        _set_scratch(os.path.join(base, 'w%d' % w))
        result = {'suites': [], 'violations': [], 'error': None}
        history = []
        try:
            for s, suite in enumerate(self.suites):
                rec = Recorder()
                limit = int(suite.mem_gb * (1 << 30))
                resource.setrlimit(resource.RLIMIT_AS, (limit, resource.RLIM_INFINITY))
                samples = []
                it, pos = None, 0
                done = False
                while not done:
                    start = self.claim(s)
                    if start is None:
                        break
                    if it is None:
                        it = iter(suite.cases())
                    history.append((s, start))
                    while pos < start + suite.block:
                        try:
                            desc = next(it)
                        except StopIteration:
                            done = True
                            break
                        idx, pos = pos, pos + 1
                        if idx < start:
                            continue
                        self.mark(w, s, idx)
                        msg = run_case(suite, desc, rec)
                        rec.cases += 1
                        if idx < 2 or (idx < 200 and idx % 97 == 0):
                            samples.append((idx, desc))
                        if msg is not None:
                            self.report(s, idx)
                            result['violations'].append((s, idx, desc, msg, list(history)))
                            done = True
                            break
                result['suites'].append((rec.cases, rec.steps, rec.states, rec.outcomes, rec.skipped, samples))
            self.mark(w, -1, -1)
        except BaseException:  # pylint: disable=broad-except
            result['error'] = traceback.format_exc()
        with open(outpath + '.tmp', 'wb') as f:
            pickle.dump(result, f)
        os.rename(outpath + '.tmp', outpath)

    # -- parent -----------------------------------------------------------
    def explore(self):
        base = scratch_base()
        results, crashes = [], []
        try:
            pids = {}
            for w in range(self.n):
                out = os.path.join(base, 'r%d' % w)
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        self.worker(w, base, out)
                        code = 0
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                pids[pid] = (w, out)
            while pids:
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    now = time.monotonic()
                    for p, (w, _out) in pids.items():
                        s, _idx, t = self.marked(w)
                        if s >= 0 and t and now - t > WALL * self.suites[s].limit() + 20:
                            os.kill(p, signal.SIGKILL)
                    time.sleep(0.01)
                    continue
                w, out = pids.pop(pid)
                if os.path.exists(out):
                    with open(out, 'rb') as f:
                        results.append(pickle.load(f))
                else:
                    s, idx, t = self.marked(w)
                    if t == 0.0:
                        raise HarnessError('a worker died before its first case')
                    crashes.append((s, idx, status))
                    if s >= 0:
                        self.report(s, idx)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return results, crashes


def nth(suite, n):
    for i, desc in enumerate(suite.cases()):
        if i == n:
            return desc
    raise HarnessError('case %d of suite %s does not exist' % (n, suite.name))


def jsonable(x):
    return json.loads(json.dumps(x, ensure_ascii=True))
