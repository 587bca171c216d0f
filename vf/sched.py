"""Threads under a controlled scheduler.

One thread runs at a time; at lines of the package (seen through
sys.monitoring) the baton may be handed to another thread.  The choices come
from a seeded generator, so an interleaving can be repeated."""
import importlib
import random
import sys
import threading

TOOL = 4
MODULES = ['field', 'keyword', 'topic', 'topic.filter', 'text', 'nbest',
           'text.cosineindex', 'text.htmlsplitter', 'text.okapiindex',
           'text.queryparser', 'text.parsetree', 'text.textindex']


class Scheduler:
    def __init__(self, fns, seed, p, pkg):
        self.fns, self.p, self.pkg = fns, p, pkg
        self.rng = random.Random(seed)
        self.runnable = list(range(len(fns)))
        self.gates = [threading.Semaphore(0) for _ in fns]
        self.finished = threading.Event()
        self.errors = [None] * len(fns)
        self.local = threading.local()
        self.hold = 0
        self.free = False
        self.lines = 0
        self.switches = 0
        self.trail = []

    def line(self, code, no):
        if not code.co_filename.startswith(self.pkg):
            return sys.monitoring.DISABLE
        self.lines += 1
        me = getattr(self.local, 'me', None)
        if me is None or self.hold or self.free or len(self.runnable) < 2 \
                or self.rng.random() >= self.p:
            return
        self.switch(me, (code.co_name, no))

    def switch(self, me, where=None):
        other = self.rng.choice([k for k in self.runnable if k != me])
        self.switches += 1
        self.trail.append((me, other, where))
        self.gates[other].release()
        self.gates[me].acquire()

    def pause(self):
        """Called by a thread between its steps."""
        self.lines += 1
        if len(self.runnable) > 1 and not self.free and self.rng.random() < .5:
            self.switch(self.local.me)

    def work(self, k):
        self.gates[k].acquire()
        self.local.me = k
        try:
            self.fns[k]()
        except BaseException as e:
            self.errors[k] = e
        finally:
            self.local.me = None
            self.runnable.remove(k)
            if self.free:
                pass
            elif self.runnable:
                self.gates[self.rng.choice(self.runnable)].release()
            if not self.runnable:
                self.finished.set()

    def run(self):
        for name in MODULES:    # no switch while an import lock is held
            importlib.import_module('zope.index.' + name)
        m, seen = sys.monitoring, None
        m.use_tool_id(TOOL, 'vf-sched')
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        threads = [threading.Thread(target=self.work, args=(k,), daemon=True)
                   for k in range(len(self.fns))]
        try:
            for t in threads:
                t.start()
            self.gates[self.rng.choice(self.runnable)].release()
            while not self.finished.wait(2):
                if self.lines == seen and not self.free:
                    # The running thread waits for something that another one
                    # holds: let all of them run.
                    self.free = True
                    for g in self.gates:
                        g.release()
                seen = self.lines
            for t in threads:
                t.join()
        finally:
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.free_tool_id(TOOL)
        for e in self.errors:
            if e is not None:
                raise e
