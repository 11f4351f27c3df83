"""
Controlled scheduler for threads running the real Python code.

Every line (or bytecode) executed in the traced files is a scheduling point.  Exactly one thread runs at a time; a
schedule is a list of (thread, number of points to run) segments, after which the remaining threads run to completion
in order.  If a thread waits for one that is stopped (a lock in the code under test), the schedule is not possible; all
threads then run freely, and only their not finishing is a deadlock.
"""
import sys
import threading


class Deadlock(Exception):
    pass


class Run:
    def __init__(self, funcs, prefix, segments, opcodes=False, patience=5):
        self.funcs, self.prefix, self.opcodes = funcs, prefix, opcodes
        self.segments = list(segments)
        self.patience = patience
        n = len(funcs)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.results = [None] * n
        self.errors = [None] * n
        self.done = [False] * n
        self.points = [0] * n
        self.trail = [[] for _ in range(n)] if not segments else None
        self.budget = [0] * n
        self.free = False

    def _pause(self, i):
        self.points[i] += 1
        if self.free or self.budget[i] is None:
            return
        self.budget[i] -= 1
        if self.budget[i] <= 0:
            self.back.release()
            self.go[i].acquire()

    def _tracer(self, i):
        def local(frame, event, _arg):
            if event == ('opcode' if self.opcodes else 'line'):
                if self.trail is not None:
                    self.trail[i].append((frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno))
                self._pause(i)
            return local

        def glob(frame, event, _arg):
            if event == 'call' and frame.f_code.co_filename.startswith(self.prefix):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    sys.settrace(glob)  # Python 3.12 only looks at f_trace_opcodes when tracing is switched on
                return local
            return None
        return glob

    def _thread(self, i):
        self.go[i].acquire()
        try:
            sys.settrace(self._tracer(i))
            try:
                self.results[i] = self.funcs[i]()
            finally:
                sys.settrace(None)
        except BaseException as exc:  # pylint: disable=broad-except
            self.errors[i] = exc
        self.done[i] = True
        self.back.release()

    def _resume(self, i, budget):
        if self.done[i] or self.free:
            return
        self.budget[i] = budget
        self.go[i].release()
        if not self.back.acquire(timeout=self.patience):
            self.free = True
            for g in self.go:
                g.release()

    def run(self):
        """Runs the schedule.  Returns the number of points per thread."""
        threads = [threading.Thread(target=self._thread, args=(i, ), daemon=True) for i in range(len(self.funcs))]
        for t in threads:
            t.start()
        for i, n in self.segments:
            self._resume(i, n)
        for i in range(len(self.funcs)):
            if not self.done[i]:
                self._resume(i, None)
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise Deadlock('the threads do not finish')
        return self.points


def switch_points(trail, times, top):
    """
    Points to stop a thread at (1 = before its first line): each place in the code when it is reached for the first few
    times and for the last time, and `top` evenly spaced points.
    """
    seen, last, out = {}, {}, set()
    for i, place in enumerate(trail):
        seen[place] = seen.get(place, 0) + 1
        if seen[place] <= times:
            out.add(i + 1)
        last[place] = i + 1
    out |= set(last.values())
    out |= set(range(1, len(trail) + 1, max(1, -(-len(trail) // top))))
    return sorted(out)
