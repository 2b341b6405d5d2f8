"""Controlled scheduler for two Python threads.

Exactly one thread runs at a time.  A switch can be forced before any line (or
any byte-code instruction) of the code under test; library code in between is
executed atomically.  A thread that cannot take a lock of the library (mc.locks)
hands the baton over; one that blocks on anything else held by the other thread
is detected by lack of progress, and the baton is handed back (after three such
stalls both threads run freely to their end).
"""
import gc
import os
import sys
import threading
import time
import types

from mc import env, locks

PREFIX = os.path.join(os.path.realpath(env.SRC), "tatc") + os.sep
STALL_S = 0.5
DEAD_S = 30.0


MON = sys.monitoring
TOOL = 4


_CODES = []


def codes():
    """As found by find_codes, once per process tree."""
    if not _CODES:
        _CODES.extend(find_codes())
    return _CODES


def find_codes():
    """Every code object of the library (functions, methods, nested functions, lambdas, comprehensions)."""
    seen, todo = set(), []
    for f in gc.get_objects():
        if type(f) is types.FunctionType and f.__code__.co_filename.startswith(PREFIX):
            todo.append(f.__code__)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += [x for x in c.co_consts if type(x) is types.CodeType]
    return seen


class Deadlock(Exception):
    pass


class Run(object):
    def __init__(self, ops, plan, opcodes=False):
        """plan: list of (thread, step): the running thread `thread` is preempted
        when it is about to execute its step number `step` (1-based)."""
        self.ops = ops
        self.plan = list(plan[1])
        self.turn = plan[0]
        self.opcodes = opcodes
        self.steps = [0, 0]
        self.done = [False, False]
        self.result = [None, None]
        self.error = [None, None]
        self.ids = {}
        self.cv = threading.Condition()
        self.progress = time.monotonic()
        self.switches = 0
        self.where = []
        self.log = ([], [])  # location of every step
        self.free = False
        self.stuck = 0  # consecutive failures to take a lock

    # -- called by the traced threads ------------------------------------
    def _event(self, code, where):
        me = self.ids.get(threading.get_ident())
        if me is not None:
            self._step(me, code, where)

    def _step(self, me, code, where):
        if self.free:
            self.progress = time.monotonic()
            return
        with self.cv:
            self.steps[me] += 1
            self.stuck = 0
            self.log[me].append((code.co_filename, code.co_firstlineno, where))
            if self.plan and self.plan[0] == (me, self.steps[me]) and not self.done[1 - me]:
                self.plan.pop(0)
                self.switches += 1
                self.where.append("%s:%s:%d" % (os.path.basename(code.co_filename), code.co_name, where))
                self.turn = 1 - me
                self.cv.notify_all()
            while self.turn != me and not self.free:
                self.cv.wait()
            self.progress = time.monotonic()

    def blocked(self, me):
        """The running thread cannot take a lock: let the other one run (False: wait for real)."""
        with self.cv:
            if self.done[1 - me] or self.free:
                return False
            self.stuck += 1
            if self.stuck > 100:
                raise Deadlock("each thread waits for a lock the other one holds")
            self.turn = 1 - me
            self.cv.notify_all()
            while self.turn != me and not self.free:
                self.cv.wait()
            self.progress = time.monotonic()
        return True

    def _main(self, me):
        with self.cv:
            while self.turn != me and not self.free:
                self.cv.wait()
        self.ids[threading.get_ident()] = me
        try:
            self.result[me] = self.ops[me]()
        except BaseException as e:
            import traceback
            self.error[me] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:])
        finally:
            self.ids.pop(threading.get_ident(), None)
            with self.cv:
                self.done[me] = True
                self.turn = 1 - me
                self.progress = time.monotonic()
                self.cv.notify_all()

    def go(self):
        ev = MON.events.INSTRUCTION if self.opcodes else MON.events.LINE
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "mc")
        MON.register_callback(TOOL, ev, self._event)
        for c in codes():
            MON.set_local_events(TOOL, c, ev)
        locks.ACTIVE[0] = self
        try:
            return self._go()
        finally:
            locks.ACTIVE[0] = None
            MON.register_callback(TOOL, ev, None)

    def _go(self):
        ths = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in (0, 1)]
        for t in ths:
            t.start()
        stalls = 0
        with self.cv:
            while not all(self.done):
                self.cv.wait(0.1)
                if all(self.done):
                    break
                idle = time.monotonic() - self.progress
                if not self.free and idle > STALL_S and not self.done[1 - self.turn]:
                    # the running thread waits for something the other one holds
                    self.turn = 1 - self.turn
                    stalls += 1
                    self.free = stalls > 3
                    self.progress = time.monotonic()
                    self.cv.notify_all()
                elif idle > DEAD_S:
                    raise Deadlock("no thread makes progress")
        for t in ths:
            t.join(5)
        return self
