"""A controlled scheduler: runs two thunks in two real threads, switching between them
only where the schedule says (before a given line event of modepy code)."""
import os
import sys
import threading
import time

import modepy

PREFIX = os.path.dirname(os.path.realpath(modepy.__file__)) + os.sep
BLOCKED_AFTER = 0.4     # seconds without progress: the running thread waits for a lock


def trace_lines(fn):
    """The (file, line) events of one undisturbed run of fn."""
    events = []

    def local(frame, event, arg):
        if event == "line":
            events.append((frame.f_code.co_filename, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        return local if _ours(frame) else None

    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return events


def _ours(frame):
    return frame.f_code.co_filename.startswith(PREFIX)


class Schedule:
    """preempt[t] = set of line-event counts of thread t before which it hands over."""

    def __init__(self, thunks, preempt):
        self.thunks = thunks
        self.preempt = preempt
        self.cond = threading.Condition()
        self.owner = 0
        self.done = [False, False]
        self.count = [0, 0]
        self.out = [None, None]
        self.switches = 0

    def _await(self, me):
        with self.cond:
            while self.owner != me:
                other = 1 - me
                seen = self.count[other]
                if self.done[other]:
                    self.owner = me
                    break
                if not self.cond.wait(BLOCKED_AFTER) and self.owner != me \
                        and self.count[other] == seen:
                    # the other thread is blocked (a lock this thread holds): go on
                    self.owner = me

    def _run(self, me):
        def local(frame, event, arg):
            if event == "line":
                k = self.count[me]
                self.count[me] = k + 1
                if k in self.preempt[me] and not self.done[1 - me]:
                    with self.cond:
                        if self.owner == me:
                            self.owner = 1 - me
                            self.switches += 1
                            self.cond.notify_all()
                if self.owner != me:
                    self._await(me)
            return local

        def glob(frame, event, arg):
            return local if _ours(frame) else None

        self._await(me)
        sys.settrace(glob)
        try:
            self.out[me] = ("ok", self.thunks[me]())
        except BaseException as e:
            sys.settrace(None)
            self.out[me] = ("err", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[me] = True
                self.owner = 1 - me
                self.cond.notify_all()

    def run(self, timeout=60):
        ts = [threading.Thread(target=self._run, args=(k,), daemon=True)
              for k in (0, 1)]
        end = time.monotonic() + timeout
        for t in ts:
            t.start()
        for t in ts:
            t.join(max(end - time.monotonic(), 0.1))
            if t.is_alive():
                raise RuntimeError(f"deadlock: the threads did not finish in {timeout} s")
        return self.out
