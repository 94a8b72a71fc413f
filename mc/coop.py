"""Cooperative threads: real OS threads of which exactly one runs at a time, handing over a baton.

The controller (the explorer's own thread) resumes one thread; the thread runs until it blocks in a patched blocking
primitive, reaches a traced scheduling point (only when tracing is on for it) or ends, and hands the baton back.
"""
import _thread
import sys
import traceback

_real_lock = _thread.allocate_lock


class CoopKill(BaseException):
    """unwinds a cooperative thread when its process is killed or the execution is torn down"""


class WouldBlock(Exception):
    """the controller itself ran into a blocking operation: a harness error"""


decide = None  # asked at every scheduling point, in the thread that stands there: hand the baton back?
_current = None  # the CoopThread that has the baton, None while the controller runs
_pool = []


def current():
    return _current


class _OSThread:
    """an OS thread reused for many cooperative threads"""

    def __init__(self):
        self.go = _real_lock()
        self.go.acquire()
        self.back = _real_lock()
        self.back.acquire()
        self.job = None
        self.ident = None
        _thread.start_new_thread(self._main, ())

    def _main(self):
        self.ident = _thread.get_ident()
        while True:
            self.go.acquire()
            job, self.job = self.job, None
            if job is None:
                return
            job._run()
            job = None
            self.back.release()


class CoopThread:
    NEW, READY, BLOCKED, DONE = "new", "ready", "blocked", "done"

    def __init__(self, name, target, proc=None, tracer=None, context=None):
        self.name = name
        self.target = target
        self.proc = proc
        self.state = self.NEW
        self.pred = None
        self.deadline = None
        self.why = ""
        self.exc = None
        self.killed = False
        self.os = None
        self.tracer = tracer  # trace function installed while the thread runs
        self.enter = context  # callable run by the controller before each resume
        self.at = None  # description of the scheduling point it stands at
        self.points = 0
        self.pending = []  # signal handlers to run before it goes on

    # ---- thread side
    def _run(self):
        try:
            if self.killed:
                return
            if self.tracer is not None:
                sys.settrace(self.tracer)
            self.target()
        except CoopKill:
            pass
        except BaseException as e:  # noqa: the thread under test died
            self.exc = e
            self.exc_text = traceback.format_exc()
        finally:
            sys.settrace(None)
            self.state = self.DONE
            self.target = None

    def _yield(self, state):
        self.state = state
        o = self.os
        o.back.release()
        o.go.acquire()
        if self.killed:
            raise CoopKill()
        handled = bool(self.pending)
        while self.pending:
            self.pending.pop(0)()
        return handled

    # ---- controller side
    def runnable(self, now):
        if self.state in (self.NEW, self.READY):
            return True
        if self.state == self.BLOCKED:
            return bool(self.pending) or bool(self.pred())
        return False

    def can_time_out(self):
        return self.state == self.BLOCKED and self.deadline is not None

    def resume(self):
        global _current
        assert self.state != self.DONE and _current is None
        if self.os is None:
            self.os = _pool.pop() if _pool else _OSThread()
            self.os.job = self
        _current = self
        if self.enter is not None:
            self.enter(self)
        o = self.os
        o.go.release()
        o.back.acquire()
        _current = None
        if self.state == self.DONE:
            self.os = None
            _pool.append(o)

    def kill(self):
        if self.state == self.DONE:
            return
        self.killed = True
        if self.os is None:
            self.state = self.DONE
            return
        for _ in range(50):
            if self.state == self.DONE:
                return
            self.resume()
        raise RuntimeError(f"cooperative thread {self.name} refuses to end")


def block(pred, timeout=None, why=""):
    """called by code under test: wait until pred() holds. True if it does, False on (virtual) timeout."""
    t = _current
    if pred():
        return True
    if t is None:
        raise WouldBlock(why)
    if t.killed:
        raise CoopKill()
    if timeout is not None and timeout <= 0:
        return False
    t.pred, t.why = pred, why
    t.deadline = None if timeout is None else (timeout, t.proc.world.now + timeout if t.proc else timeout)
    while t._yield(CoopThread.BLOCKED) and not pred():
        pass  # a signal handler ran: wait on
    t.state = CoopThread.READY
    t.pred = None
    t.deadline = None
    return bool(pred())


def point(desc=None):
    """a scheduling point: hand the baton back, staying runnable"""
    t = _current
    if t is None or t.killed:
        return
    t.at = desc
    t.points += 1
    if decide is not None and not decide(t):
        return
    t._yield(CoopThread.READY)


# ---------------------------------------------------------------- synchronisation primitives
class Lock:
    def __init__(self):
        self._l = False

    def acquire(self, blocking=True, timeout=-1):
        if not self._l:
            self._l = True
            return True
        if not blocking:
            return False
        if not block(lambda: not self._l, None if timeout is None or timeout < 0 else timeout, "lock"):
            return False
        self._l = True
        return True

    def release(self):
        if not self._l:
            raise RuntimeError("release unlocked lock")
        self._l = False

    def locked(self):
        return self._l

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = False


class RLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        return _current if _current is not None else "controller"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if not block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, "rlock"):
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        block(lambda: self._owner is None, None, "rlock")
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0
