"""Runs two calls in two threads under a controlled scheduler.

The scheduler owns one baton.  A thread runs only while it holds it, and hands
it over at the yield points (function entries, lines or instructions of the
code under test) the schedule names, so one schedule is one interleaving.  A schedule is
(first thread, (n1, n2, ...)): the first thread runs for n1 yield points, the
other for n2, and so on; after the last number the running thread goes on to
its end and the other one follows.
"""

import os
import sys
import threading


class Stuck(RuntimeError):
    pass


class Race:
    def __init__(self, root, calls, schedule, grain="line"):
        self.root = os.path.join(os.path.realpath(root), "")
        self.calls = calls
        self.first, self.runs = schedule
        self.runs = list(self.runs)
        self.grain = grain
        self.left = self.runs.pop(0) if self.runs else -1
        self.turn = self.first
        self.cond = threading.Condition()
        self.done = [False] * len(calls)
        self.results = [None] * len(calls)
        self.points = [0] * len(calls)
        self.switches = 0
        self.blocked = 0
        self.beat = 0

    def _wait(self, me):
        """Waits for the baton; takes it over from a thread that waits for a lock of ours."""
        with self.cond:
            while self.turn != me:
                beat = self.beat
                if not self.cond.wait(0.5) and self.turn != me and self.beat == beat:
                    self.blocked += 1
                    self.turn = me
                    if self.blocked > 200:
                        raise Stuck("the calls block each other")

    def _point(self, me):
        if self.turn != me:
            self._wait(me)
        self.beat += 1
        self.points[me] += 1
        if self.left < 0:
            return
        if self.left == 0:
            self.left = self.runs.pop(0) if self.runs else -1
            other = 1 - me
            if not self.done[other]:
                self.switches += 1
                with self.cond:
                    self.turn = other
                    self.cond.notify_all()
                self._wait(me)
            return
        self.left -= 1

    def _thread(self, me):
        root = self.root

        def local(frame, event, arg):
            if event == self.grain:
                self._point(me)
            return local

        def trace(frame, event, arg):
            if event != "call" or not frame.f_code.co_filename.startswith(root):
                return None
            if self.grain == "call":
                self._point(me)
                return None
            if self.grain == "opcode":
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        self._wait(me)
        sys.settrace(trace)
        try:
            try:
                self.results[me] = self.calls[me]()
            finally:
                sys.settrace(None)
        except BaseException as error:  # noqa: B902 - the outcome is what counts
            self.results[me] = error
        with self.cond:
            self.done[me] = True
            self.turn = 1 - me
            self.cond.notify_all()

    def run(self):
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.calls))]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(120)
            if thread.is_alive():
                raise Stuck("a call did not come back")
        return self.results
