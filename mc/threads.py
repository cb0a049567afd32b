"""Line-level interleavings of real threads under the explorer's control.

Exactly one thread runs at a time; at every traced line the explorer decides
whether it goes on (outcome 0) or which other live thread runs next.
"""
import sys
import threading

from . import env


class Interleaver:
    def __init__(self, ch, files=(), opcodes=False):
        self.ch, self.files, self.opcodes = ch, tuple(files), opcodes
        self.prefix = env.REPO.rstrip("/") + "/eckity"
        self.live = []          # thread indices not finished
        self.go = []            # per thread: event that lets it run
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.errors = []
        self.all_done = threading.Event()
        self.mutex = threading.Lock()

    def traced(self, frame):
        f = frame.f_code.co_filename
        return f.startswith(self.prefix) or f in self.files

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                self.point(me)
            return local

        def glob(frame, event, arg):
            if event == "call" and self.traced(frame):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def point(self, me):
        self.steps += 1
        if self.cur != me:      # woken by the watchdog: wait for our turn
            self.go[me].wait()
            self.go[me].clear()
            self.cur = me
        others = [t for t in self.live if t != me]
        if not others:
            return
        try:
            c = self.ch.choose(1 + len(others), "switch")
        except BaseException as e:
            self.errors.append(e)
            return
        if c:
            self.switches += 1
            self._to(others[c - 1])
            self.go[me].wait()
            self.go[me].clear()
            self.cur = me

    def _to(self, t):
        self.cur = t
        self.go[t].set()

    def run(self, tasks):
        """tasks: callables; returns when all have finished"""
        self.go = [threading.Event() for _ in tasks]
        self.live = list(range(len(tasks)))

        def main(i):
            self.go[i].wait()
            self.go[i].clear()
            self.cur = i
            sys.settrace(self._tracer(i))
            try:
                tasks[i]()
            finally:
                sys.settrace(None)
                self.live.remove(i)
                if self.live:
                    c = 0
                    if len(self.live) > 1:
                        try:
                            c = self.ch.choose(len(self.live), "next thread")
                        except BaseException as e:
                            self.errors.append(e)
                    self._to(self.live[c])
                else:
                    self.all_done.set()
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(tasks))]
        for t in ths:
            t.start()
        first = 0
        if len(tasks) > 1:
            first = self.ch.choose(len(tasks), "first thread")
        self._to(first)
        idle, last = 0, -1
        while not self.all_done.wait(0.5):
            if self.steps == last:
                idle += 1
                # the running thread is blocked (a lock held by a parked thread): let another go
                for t in list(self.live):
                    if t != self.cur:
                        self._to(t)
                        break
                if idle > 20:
                    raise RuntimeError("deadlock between evaluations")
            else:
                idle, last = 0, self.steps
        for t in ths:
            t.join(5)
        if self.errors:
            raise self.errors[0]
