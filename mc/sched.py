"""A controlled scheduler for real Python threads.

Threads run one at a time; a trace function makes every executed line (or call) of the code under test a scheduling point, and the
schedule says at which points the running thread is preempted.  Locks created through threading.Lock / RLock after install()
belong to the scheduler, so that a thread waiting for one is a blocked thread and not a hang.
"""
import _thread
import sys
import threading

_active = None


class Deadlock(Exception):
    pass


class CoopLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = _active
        if s is not None and me in s.idents:
            s.point('lock')
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if s is None or me not in s.idents:
                raise Deadlock('lock is held by another thread')
            s.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Stop(BaseException):
    pass


class Run(object):
    """One execution of the thread functions under one schedule."""

    def __init__(self, funcs, first, preempt, scope):
        self.funcs = funcs
        self.preempt = preempt
        self.scope = scope          # code object, event -> None (not traced) | 'line' | 'call'
        self.steps = 0
        self.cur = first
        self.n = len(funcs)
        self.finished = [False] * self.n
        self.blocked = [None] * self.n
        self.results = [None] * self.n
        self.idents = {}
        self.batons = [_thread.allocate_lock() for _ in funcs]
        for b in self.batons:
            b.acquire()
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.error = None
        self.aborted = False
        self.switches = 0
        self.finish_step = [None] * self.n

    def enabled(self, i):
        return not self.finished[i] and (self.blocked[i] is None or self.blocked[i].owner is None)

    def other(self, i):
        for d in range(1, self.n):
            j = (i + d) % self.n
            if self.enabled(j):
                return j
        return None

    def switch(self, i, j):
        self.cur = j
        self.switches += 1
        self.batons[j].release()
        self.batons[i].acquire()
        if self.aborted:
            raise Stop()

    def point(self, what):
        """Called by the running thread."""
        i = self.cur
        self.steps += 1
        if self.steps in self.preempt:
            j = self.other(i)
            if j is not None:
                self.switch(i, j)

    def block(self, lock):
        i = self.cur
        self.blocked[i] = lock
        while lock.owner is not None:
            j = self.other(i)
            if j is None:
                self.error = 'deadlock: every thread waits for a lock'
                self.abort(i)
                raise Stop()
            self.switch(i, j)
        self.blocked[i] = None

    def abort(self, i):
        self.aborted = True
        for j in range(self.n):
            if j != i and not self.finished[j]:
                self.batons[j].release()

    def trace(self, frame, event, arg):
        kind = self.scope(frame)
        if kind is None:
            return None
        if kind == 'call':
            self.point('call')
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.point('line')
        return self.local

    def body(self, i):
        self.batons[i].acquire()
        if self.aborted:
            self.finish(i)
            return
        sys.settrace(self.trace)
        try:
            self.results[i] = self.funcs[i]()
        except Stop:
            pass
        except BaseException as e:
            self.results[i] = ('exc', type(e).__name__)
        finally:
            sys.settrace(None)
        self.finish(i)

    def finish(self, i):
        self.finished[i] = True
        self.finish_step[i] = self.steps
        if all(self.finished):
            self.done.release()
            return
        if self.aborted:
            return
        j = self.other(i)
        if j is None:
            self.error = 'deadlock: the remaining threads wait for a lock that is not released'
            self.aborted = True
            for k in range(self.n):
                if not self.finished[k]:
                    self.batons[k].release()
                    break
            return
        self.cur = j
        self.batons[j].release()

    def go(self, timeout=20):
        global _active
        _active = self
        try:
            for i in range(self.n):
                self.idents[_thread.start_new_thread(self.body, (i,))] = i
            self.batons[self.cur].release()
            if not self.done.acquire(True, timeout):
                self.error = self.error or 'no progress for %d s' % timeout
        finally:
            _active = None
        return self.results
