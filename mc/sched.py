# coding=utf-8
"""A controlled scheduler: real threads that run one at a time and only switch where a schedule says.

Call install() before importing the code under test, so that its locks cooperate.
"""
import _thread
import os
import sys
import threading

RAW_LOCK = _thread.allocate_lock
CURRENT = [None]   # the Schedule that is running


class CoLock(object):
    """A lock that tells the scheduler when a thread would block."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner, self.depth = None, 0
        self.guard = RAW_LOCK()
        self.free = RAW_LOCK()

    def _try(self):
        me = _thread.get_ident()
        with self.guard:
            if self.owner is None:
                self.owner, self.depth = me, 1
                return True
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            return False

    def acquire(self, blocking=True, timeout=-1):
        import time
        t0 = time.time()
        while not self._try():
            if not blocking:
                return False
            if 0 <= timeout <= time.time() - t0:
                return False
            s = CURRENT[0]
            if s is None or not s.blocked():
                time.sleep(0.0005)
        return True

    def release(self):
        with self.guard:
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            if self.reentrant and self.owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self.depth -= 1
            if self.depth == 0:
                self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *_):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        state, self.depth = self.depth, 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.depth = state

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


def install():
    try:
        import pypyjit
        pypyjit.set_param('off')   # traced threads make it compile again and again, slower each time
    except ImportError:
        pass
    threading.Lock = lambda: CoLock()
    threading.RLock = lambda: CoLock(True)


class Deadlock(Exception):
    pass


class Schedule(object):
    """Runs some functions, each in its own thread, switching only at the given events.

    switches: {number of event: thread to run then}; an event is a line (or call) of the code of interest.
    """

    def __init__(self, functions, switches, dirs, granularity='line'):
        self.functions, self.switches = functions, dict(switches)
        self.dirs, self.granularity = tuple(d + os.sep for d in dirs), granularity
        self.results = [None] * len(functions)
        self.done = [False] * len(functions)
        self.waiting = [False] * len(functions)    # blocked in a lock
        self.gates = [RAW_LOCK() for _ in functions]
        for g in self.gates:
            g.acquire()
        self.finished = RAW_LOCK()
        self.finished.acquire()
        self.events = 0
        self.trail = []
        self.switched = 0
        self.idents = {}
        self.deadlock = False

    # Token passing

    def give(self, k):
        self.gates[k].release()

    def next_runnable(self, me, blocked_too):
        n = len(self.functions)
        for d in range(1, n):
            k = (me + d) % n
            if not self.done[k] and (blocked_too or not self.waiting[k]):
                return k
        return None

    def switch(self, me, to):
        self.give(to)
        self.gates[me].acquire()

    def blocked(self):
        """Called by a thread that cannot get a lock; returns when it is worth to try again."""
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return False
        self.waiting[me] = True
        k = self.next_runnable(me, False)
        if k is None:
            self.deadlock = True
            raise Deadlock()
        self.switch(me, k)
        return True

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.dirs):
            return None
        if self.granularity == 'call':
            self.event()
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.event()
        return self.local

    def event(self):
        me = self.idents[_thread.get_ident()]
        # whoever was waiting for a lock can try again when they get the token
        for k in range(len(self.waiting)):
            if k != me:
                self.waiting[k] = False
        n = self.events
        self.events += 1
        if n in self.switches:
            to = self.switches[n]
            if to == 'next':
                to = self.next_runnable(me, True)
            if to is not None and to != me and not self.done[to]:
                self.switched += 1
                self.switch(me, to)

    def body(self, k):
        self.gates[k].acquire()
        self.idents[_thread.get_ident()] = k
        sys.settrace(self.trace)
        try:
            self.results[k] = self.functions[k]()
        except BaseException as e:
            self.results[k] = 'raised', repr(e)
        finally:
            sys.settrace(None)
            self.done[k] = True
            for i in range(len(self.waiting)):
                self.waiting[i] = False
            to = self.next_runnable(k, True)
            if to is None:
                self.finished.release()
            else:
                self.give(to)

    def run(self, timeout=60):
        CURRENT[0] = self
        try:
            for k in range(len(self.functions)):
                _thread.start_new_thread(self.body, (k,))
            self.give(0)
            if not self.finished.acquire(True, timeout):
                raise RuntimeError('the threads do not finish')
        finally:
            CURRENT[0] = None
        return self.results
