"""Locks the library itself creates, made visible to the scheduler (mc.sched).

A lock created by library code behaves as the real one; under the controlled
scheduler a thread that cannot take it hands the baton over instead of
blocking, so that a library guarding its caches is explored deterministically.
"""
import os
import sys
import threading

ACTIVE = [None]  # the Run in progress
_REAL = {"Lock": threading.Lock, "RLock": threading.RLock}


class _Lock(object):
    def __init__(self, kind):
        self._kind = kind
        self._real = _REAL[kind]()

    def acquire(self, blocking=True, timeout=-1):
        run = ACTIVE[0]
        me = run.ids.get(threading.get_ident()) if run is not None else None
        if me is None or not blocking or timeout >= 0:
            return self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        while not self._real.acquire(False):
            if not run.blocked(me):
                return self._real.acquire()
        return True

    def release(self):
        self._real.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def install(src):
    prefix = os.path.join(os.path.realpath(src), "tatc") + os.sep

    def factory(kind):
        def make():
            f = sys._getframe(1)
            while f is not None and "pydantic" in f.f_code.co_filename:
                f = f.f_back  # default factories of models
            if f is not None and os.path.realpath(f.f_code.co_filename).startswith(prefix):
                return _Lock(kind)
            return _REAL[kind]()
        return make

    threading.Lock, threading.RLock = factory("Lock"), factory("RLock")
