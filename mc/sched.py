"""A controlled scheduler for real threads.

Threads run the real code; a trace function stops them at every line (or
opcode, or only at calls and returns) of the library, and exactly one thread
runs at a time: which one is decided by the schedule being explored.  A
schedule is a first thread and a list of preemptions (k, t): after k stops in
its current slice the running thread is preempted in favour of t.  A thread
that ends or blocks hands over to the next one.
"""
import copy
import gc
import os
import pickle
import signal
import sys
import threading
import time
import traceback
import types

from mc.core import REPO, HarnessError

_ROOT = os.path.realpath(os.path.join(REPO, 'webauthn_rp')) + os.sep
_COPY = os.path.realpath(copy.__file__)
BLOCKED = 0.4  # seconds without progress before a thread counts as blocked
DEADLOCK = 15.0
CHILD_SECONDS = 60.0  # a child that takes longer is ended: 'died'


class Scheduler:
    def __init__(self, fns, first, preemptions, mode, with_copy=False):
        self.fns = fns
        self.first = first
        self.plan = list(preemptions)
        self.mode = mode
        self.with_copy = with_copy
        self.locks = [threading.Lock() for _ in fns]
        for x in self.locks:
            x.acquire()
        self.finished = [False] * len(fns)
        self.blocked = [False] * len(fns)
        self.current = None
        self.slice = 0  # stops in the current slice
        self.points = [0] * len(fns)  # stops per thread
        self.progress = 0
        self.mutex = threading.Lock()
        self.done = threading.Event()
        self.switches = 0
        self.results = [None] * len(fns)
        self.local = threading.local()
        self.scope = {}

    # -- called by the threads

    def in_scope(self, code):
        f = code.co_filename
        r = self.scope.get(f)
        if r is None:
            p = os.path.realpath(f)
            r = p.startswith(_ROOT) or (self.with_copy and p == _COPY)
            self.scope[f] = r
        return r

    def trace(self, frame, event, arg):
        if not self.in_scope(frame.f_code):
            return None
        self.point()
        return self.trace_local

    def trace_local(self, frame, event, arg):
        if event == 'return' or event == self.mode:
            self.point()
        return self.trace_local

    def point(self):
        me = getattr(self.local, 'me', None)
        if me is None:
            return
        with self.mutex:
            self.progress += 1
            self.points[me] += 1
            if self.current == me:
                self.slice += 1
                if not (self.plan and self.slice > self.plan[0][0]):
                    return
                _, target = self.plan.pop(0)
                if self.finished[target] or target == me:
                    return
                self.hand_over(target)
            else:
                self.blocked[me] = False  # was blocked outside, waits now
        self.locks[me].acquire()

    def hand_over(self, target):
        """With the mutex held."""
        self.current = target
        self.slice = 0
        self.switches += 1
        self.progress += 1
        self.locks[target].release()

    def monitor(self):
        """Stops at every opcode.  Everything is instrumented before the
        threads start: CPython 3.12 crashes when a thread starts to trace
        opcodes of a function another one is in."""
        mon = sys.monitoring
        tool = mon.PROFILER_ID
        mon.use_tool_id(tool, 'mc')

        def stop(code, *_):
            self.point()

        events = (mon.events.PY_START, mon.events.INSTRUCTION,
                  mon.events.PY_RETURN)
        for e in events:
            mon.register_callback(tool, e, stop)
        todo = [f.__code__ for f in gc.get_objects()
                if isinstance(f, types.FunctionType)]
        seen = set()
        while todo:
            code = todo.pop()
            if id(code) in seen or not self.in_scope(code):
                continue
            seen.add(id(code))
            mon.set_local_events(tool, code, sum(events))
            todo += [x for x in code.co_consts
                     if isinstance(x, types.CodeType)]

    def body(self, me):
        self.locks[me].acquire()
        self.local.me = me
        if self.mode != 'opcode':
            sys.settrace(self.trace)
        try:
            self.results[me] = self.fns[me]()
        except BaseException:
            self.results[me] = ('harness', traceback.format_exc())
        finally:
            sys.settrace(None)
        with self.mutex:
            self.finished[me] = True
            self.progress += 1
            if all(self.finished):
                self.done.set()
            elif self.current == me:
                self.next_one()

    def next_one(self):
        n = len(self.fns)
        for d in range(1, n + 1):
            t = (self.current + d) % n
            if not self.finished[t] and not self.blocked[t]:
                self.hand_over(t)
                return True
        # only blocked ones are left: the one that wakes first goes on
        for d in range(1, n + 1):
            t = (self.current + d) % n
            if not self.finished[t]:
                self.hand_over(t)
                return True
        return False

    # -- called by the explorer

    def run(self):
        if self.mode == 'opcode':
            self.monitor()
        ts = [threading.Thread(target=self.body, args=(i, ), daemon=True)
              for i in range(len(self.fns))]
        for t in ts:
            t.start()
        with self.mutex:
            self.hand_over(self.first)
        self.switches = 0
        last, since = -1, time.monotonic()
        start_wait = since
        while not self.done.wait(BLOCKED / 4):
            now = time.monotonic()
            with self.mutex:
                if self.progress != last:
                    last, since = self.progress, now
                    start_wait = now
                    continue
                if now - start_wait > DEADLOCK:
                    return 'deadlock'
                if now - since > BLOCKED:
                    since = now
                    if not self.finished[self.current]:
                        me = self.current
                        self.blocked[me] = True
                        others = [t for t in range(len(self.fns))
                                  if not self.finished[t]
                                  and not self.blocked[t]]
                        if others:
                            self.hand_over(others[0])
                            last = self.progress
        return None


def in_child(fn):
    """fn() in a forked process, so that it starts from the freshly imported
    library; returns its (pickled) result."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, CHILD_SECONDS)
            try:
                data = ('ok', fn())
            except HarnessError:
                data = ('harness', traceback.format_exc())
            except BaseException:
                data = ('error', traceback.format_exc())
            with os.fdopen(wr, 'wb') as f:
                f.write(pickle.dumps(data))
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = bytearray()
    try:
        with os.fdopen(r, 'rb') as f:
            buf += f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not buf:
        return ('died', None)
    return pickle.loads(bytes(buf))
