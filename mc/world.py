"""The closed world: virtual time, deterministic ids, in-memory network, simulated processes and threads.

`install()` patches the standard library once; every patched call is routed to the World that is active.
The code of /repo is imported afterwards and runs unmodified.
"""
import asyncio
import gc
import itertools
import logging
import logging.config as _logging_config
import multiprocessing.process
import os
import signal
import sys
import threading
import time
import types
import warnings
import uuid

import psutil
import zmq
import zmq.asyncio

warnings.filterwarnings("ignore", message="coroutine .* was never awaited")  # worlds are thrown away unfinished

from . import coop, fakezmq
from .coop import CoopThread
from .simloop import SimLoop

real_time = time.time
real_monotonic = time.monotonic
real_kill = os.kill
real_remove = os.remove

CUR = None  # the active World
_installed = False


class Proc:
    def __init__(self, world, name, pid, obj=None):
        self.world = world
        self.name = name
        self.pid = pid
        self.obj = obj
        self.alive = True
        self.loop = None
        self.sockets = []
        self.threads = []
        self.main = None
        self.signals = {}
        self.exitcode = None
        self.parent = None
        self.visible = True
        self.reaped = False

    def get_loop(self):
        if self.loop is None or self.loop.closed:
            self.loop = SimLoop(self.world, self)
        return self.loop

    def __repr__(self):
        return f"<Proc {self.name}>"


class World:
    def __init__(self, clock=1_000_000.0):
        self.now = clock
        self.net = fakezmq.Net(self)
        self.procs = []
        self.cur_proc = None
        self._pids = itertools.count(1000)
        self._uuid = itertools.count(1)
        self.log = []  # events recorded by user functions and hooks
        self.kills = []
        self.removed = []
        self.gcs = []  # (time, process) of garbage collections
        self.trims = []  # the same of malloc_trim
        self.loops_installed = []  # (process, kind) of event loops other than the built-in one
        self.dead_roots = []
        self.auto_threads = lambda name, thread: True  # start helper threads?
        self.tracer = None
        self.closed = False
        self.on_spawn = None
        self.start_points = False  # is starting a process a scheduling point?

    # ------------------------------------------------------------ activation
    def __enter__(self):
        global CUR
        CUR = self
        fakezmq.WORLD = self
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        global CUR
        if self.closed:
            return
        self.closed = True
        for p in self.procs:
            p.alive = False
            for t in p.threads:
                t.kill()
        for p in self.procs:
            if p.loop is not None:
                p.loop.ready.clear()
                p.loop.timers.clear()
        self.net.conns.clear()

    # ------------------------------------------------------------ processes
    def new_proc(self, name, obj=None):
        p = Proc(self, name, next(self._pids), obj)
        p.parent = self.cur_proc
        self.procs.append(p)
        return p

    def in_proc(self, proc, fn, *args):
        """run fn on the controller thread in proc's context"""
        prev = self.cur_proc
        self.cur_proc = proc
        try:
            return fn(*args)
        finally:
            self.cur_proc = prev

    def spawn(self, procobj):
        p = self.new_proc(getattr(procobj, "name", None) or type(procobj).__name__, procobj)
        procobj._sim_proc = p
        p.main = self.new_thread(p, "main", procobj.run)
        if self.on_spawn is not None:
            self.on_spawn(p)
        return p

    def new_thread(self, proc, name, target):
        t = CoopThread(name, target, proc, tracer=self.tracer, context=self._enter_thread)
        proc.threads.append(t)
        return t

    def _enter_thread(self, t):
        self.cur_proc = t.proc

    def resume(self, t):
        prev = self.cur_proc
        try:
            t.resume()
        finally:
            self.cur_proc = prev
        if t is t.proc.main and t.state == CoopThread.DONE and t.proc.alive:
            self.try_exit(t.proc)

    def try_exit(self, p):
        """the main thread has ended: the process waits for its other threads and its children, serving nothing"""
        if p.alive and p.exitcode is None and p.main.state == CoopThread.DONE:
            if any(t.state != CoopThread.DONE and not getattr(t, "daemonic", False) for t in p.threads):
                return
            if any(c.parent is p and c.alive and c.exitcode is None for c in self.procs):
                return
            p.exitcode = 1 if p.main.exc is not None else 0
            for s in p.sockets:
                s.close()
            if p.parent is not None and p.parent.main is not None:
                self.try_exit(p.parent)

    def ended(self, p):
        return not p.alive or p.exitcode is not None

    def kill(self, proc, sig=signal.SIGKILL):
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = -int(sig)
        for s in proc.sockets:
            s.close()
        if proc.parent is not None and proc.parent.main is not None:
            self.try_exit(proc.parent)
        for t in proc.threads:
            if t is not coop.current():
                self._kill_thread(t)

    def _kill_thread(self, t):
        if coop.current() is None:
            prev = self.cur_proc
            t.kill()
            self.cur_proc = prev
        else:  # killed by another thread: it never runs again; unwound when the world is closed
            t.pred = lambda: False
            t.deadline = None
            if t.state != CoopThread.DONE:
                t.state = CoopThread.BLOCKED

    def proc_by_pid(self, pid):
        for p in self.procs:
            if p.pid == pid:
                return p
        return None

    def os_kill(self, pid, sig):
        if not isinstance(pid, int):
            raise TypeError("an integer is required (got type %s)" % type(pid).__name__)
        self.kills.append((pid, int(sig)))
        p = self.proc_by_pid(pid)
        if p is None or p.reaped:
            raise ProcessLookupError(3, "No such process")
        if self.ended(p):
            return  # a zombie accepts signals
        self.signal(p, sig)

    def signal(self, p, sig):
        """deliver a signal to a simulated process"""
        sig = signal.Signals(sig)
        if sig in (signal.SIGKILL, signal.SIGSTOP):
            self.kill(p, sig)
            return
        if p.loop is not None and sig in p.loop.signals:
            p.loop.signalled.append(sig)  # seen by the next iteration
            return
        h = p.signals.get(sig)
        if h == signal.SIG_IGN:
            return
        m = p.main
        if m is not None and m.state == CoopThread.DONE:
            if not callable(h) and sig != signal.SIGINT:
                self.kill(p, sig)
        elif callable(h):
            m.pending.append(lambda: h(int(sig), None))
        elif sig == signal.SIGINT and m is not None and m.os is not None:
            m.pending.append(_interrupt)
        else:
            self.kill(p, sig)

    # ------------------------------------------------------------ loops
    def can_step(self, proc):
        """a loop runs while the main thread of its process runs it"""
        return proc.alive and proc.loop is not None and (proc.main is None or proc.loop.runners > 0)

    def step_loop(self, proc):
        """one event-loop iteration of a process"""
        if not self.can_step(proc):
            return False
        prev = self.cur_proc
        self.cur_proc = proc
        try:
            return proc.loop.run_once()
        finally:
            self.cur_proc = prev

    def settle(self, proc, quiet=14, limit=400):
        """run a process's loop until idle, or, for a loop that polls, until `quiet` iterations had no outside effect"""
        n = q = 0
        sent = self.net.sent
        k = len(sent)
        while n < limit and self.step_loop(proc):
            n += 1
            if len(sent) != k:
                k, q = len(sent), 0
            else:
                q += 1
                if q >= quiet:
                    break
        return n

    def root_done(self, proc):
        return proc.loop is not None and any(r.done() for r in proc.loop.roots)

    def root_exception(self, proc):
        for r in proc.loop.roots:
            if r.done() and not r.cancelled() and r.exception() is not None:
                return r.exception()
        return None

    @staticmethod
    def rss(pid):
        return (1 << 20) + 4096 * (pid or 0)

    def uuid(self):
        n = next(self._uuid)
        return uuid.UUID(int=(0xA5 << 120) | n)


# ---------------------------------------------------------------- patches
class FakePsutilProcess:
    def __init__(self, pid=None):
        w = CUR
        self.pid = w.cur_proc.pid if pid is None and w is not None and w.cur_proc is not None else pid
        if pid is not None and w is not None:
            p = w.proc_by_pid(pid)
            if p is None:
                raise psutil.NoSuchProcess(pid)

    def cpu_percent(self, interval=None):
        return 10.0

    def memory_info(self):
        return types.SimpleNamespace(rss=World.rss(self.pid), vms=1 << 21)

    def is_running(self):
        p = CUR.proc_by_pid(self.pid)
        return bool(p and p.alive)


def _interrupt():
    raise KeyboardInterrupt()


def _active():
    return CUR is not None and not CUR.closed


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    gc.disable()

    zmq.Context = fakezmq.FakeContext
    zmq.asyncio.Context = fakezmq.FakeAsyncContext

    threading.Lock = coop.Lock
    threading._allocate_lock = coop.Lock
    threading.RLock = coop.RLock
    import queue
    queue.SimpleQueue = queue.Queue

    real = dict(time=time.time, time_ns=time.time_ns, monotonic=time.monotonic, perf_counter=time.perf_counter,
                sleep=time.sleep, monotonic_ns=time.monotonic_ns, perf_counter_ns=time.perf_counter_ns)
    time.time = lambda: CUR.now if _active() else real["time"]()
    time.time_ns = lambda: int(CUR.now * 1e9) if _active() else real["time_ns"]()
    time.monotonic = lambda: CUR.now if _active() else real["monotonic"]()
    time.monotonic_ns = lambda: int(CUR.now * 1e9) if _active() else real["monotonic_ns"]()
    time.perf_counter = lambda: CUR.now if _active() else real["perf_counter"]()
    time.perf_counter_ns = lambda: int(CUR.now * 1e9) if _active() else real["perf_counter_ns"]()

    def sim_sleep(seconds):
        if _active() and coop.current() is not None:
            coop.block(lambda: False, max(seconds, 1e-9), "sleep")
            return
        if _active():
            return
        real["sleep"](seconds)

    time.sleep = sim_sleep
    threading._time = time.monotonic

    uuid.uuid1 = lambda *a, **k: CUR.uuid() if _active() else uuid.UUID(int=1)
    uuid.uuid4 = lambda *a, **k: CUR.uuid() if _active() else uuid.UUID(int=2)

    psutil.Process = FakePsutilProcess

    def sim_kill(pid, sig):
        if _active():
            return CUR.os_kill(pid, sig)
        raise RuntimeError("os.kill outside a world")

    os.kill = sim_kill

    def sim_remove(path, *a, **k):
        if _active():
            CUR.removed.append(path)
            return
        raise RuntimeError("os.remove outside a world")

    os.remove = sim_remove
    os.unlink = sim_remove

    real_getpid = os.getpid
    os.getpid = lambda: CUR.cur_proc.pid if _active() and CUR.cur_proc is not None else real_getpid()

    real_signal = signal.signal

    def sim_signal(sig, handler):
        if _active():
            p = CUR.cur_proc
            old = p.signals.get(sig, signal.SIG_DFL)
            p.signals[sig] = handler
            return old
        return real_signal(sig, handler)

    signal.signal = sim_signal

    # event loops
    real_get = asyncio.get_event_loop

    def get_event_loop():
        r = asyncio.events._get_running_loop()
        if r is not None:
            return r
        if _active() and CUR.cur_proc is not None:
            return CUR.cur_proc.get_loop()
        return real_get()

    def new_event_loop():
        if _active() and CUR.cur_proc is not None:
            CUR.cur_proc.loop = None
            return CUR.cur_proc.get_loop()
        raise RuntimeError("new_event_loop outside a world")

    asyncio.get_event_loop = asyncio.events.get_event_loop = get_event_loop
    asyncio.new_event_loop = asyncio.events.new_event_loop = new_event_loop
    asyncio.set_event_loop = asyncio.events.set_event_loop = lambda loop: None

    # threads
    def t_start(self):
        if not _active():
            raise RuntimeError("thread outside a world")
        w = CUR
        if getattr(self, "_sim_thread", None) is not None:
            raise RuntimeError("threads can only be started once")
        proc = w.cur_proc

        def body():
            self.run()

        self._sim_thread = w.new_thread(proc, type(self).__name__, body)
        self._sim_thread.obj = self
        self._sim_thread.lazy = not w.auto_threads(type(self).__name__, self)
        self._sim_thread.daemonic = bool(self.daemon)

    def t_join(self, timeout=None):
        t = getattr(self, "_sim_thread", None)
        if t is None:
            raise RuntimeError("cannot join thread before it is started")
        coop.block(lambda: t.state == CoopThread.DONE, timeout, "join")

    threading.Thread.start = t_start
    threading.Thread.join = t_join
    threading.Thread.is_alive = lambda self: getattr(self, "_sim_thread", None) is not None and self._sim_thread.state != CoopThread.DONE

    # processes
    BP = multiprocessing.process.BaseProcess

    def p_start(self):
        if not _active():
            raise RuntimeError("process outside a world")
        if getattr(self, "_sim_proc", None) is not None:
            raise AssertionError("cannot start a process twice")
        w = CUR
        if w.start_points and coop.current() is not None:
            coop.point(("start", 0, 0))
            p = w.spawn(self)
            p.visible = False  # the child runs before its parent knows its pid
            coop.point(("start", 1, 0))
            p.visible = True
        else:
            w.spawn(self)

    def p_join(self, timeout=None):
        p = self._sim_proc
        coop.block(lambda: CUR.ended(p), timeout, "pjoin")
        if CUR.ended(p):
            p.reaped = True

    BP.start = p_start
    BP.join = p_join

    def p_pid(self):
        p = getattr(self, "_sim_proc", None)
        if p is not None and p is CUR.cur_proc:
            return p.pid
        return p.pid if p is not None and p.visible else None

    BP.pid = property(p_pid)
    BP.ident = BP.pid
    BP.exitcode = property(lambda self: self._sim_proc.exitcode if getattr(self, "_sim_proc", None) else None)

    def p_is_alive(self):
        p = getattr(self, "_sim_proc", None)
        if p is None or (not p.visible and p is not CUR.cur_proc):
            return False
        if CUR.ended(p):
            p.reaped = True
            return False
        return True

    BP.is_alive = p_is_alive

    def p_send(sig):
        def send(self):
            p = getattr(self, "_sim_proc", None)
            if p is None:
                raise AttributeError("'NoneType' object has no attribute 'terminate'")
            if CUR is not None and p in CUR.procs and not p.reaped:  # (collected after its world ended: nothing to signal)
                CUR.os_kill(p.pid, sig)
        return send

    BP.terminate = p_send(signal.SIGTERM)
    BP.kill = p_send(signal.SIGKILL)

    uv = types.ModuleType("uvloop")

    def uv_used(*a):
        CUR.loops_installed.append((CUR.cur_proc, "uvloop"))

    def uv_new():
        uv_used()
        return new_event_loop()

    uv.install = uv.EventLoopPolicy = uv_used
    uv.new_event_loop = uv_new
    asyncio.set_event_loop_policy = lambda policy: None
    sys.modules["uvloop"] = uv

    # expensive or outward-looking calls
    _logging_config.dictConfig = lambda *a, **k: None
    import tblib.pickling_support
    real_tb = tblib.pickling_support.install
    done = []

    def tb_install(*a, **k):
        if a or k or not done:
            done.append(1)
            return real_tb(*a, **k)

    tblib.pickling_support.install = tb_install

    import ctypes

    def trim(n):
        if _active():
            CUR.trims.append((CUR.now, CUR.cur_proc))
        return 0

    real_load = ctypes.cdll.LoadLibrary
    ctypes.cdll.LoadLibrary = lambda name: types.SimpleNamespace(malloc_trim=trim) if str(name).startswith("libc") else real_load(name)
    gc_collect = gc.collect

    def sim_gc_collect(*a):
        if _active() and coop.current() is not None:
            CUR.gcs.append((CUR.now, CUR.cur_proc))
            return 0
        return gc_collect(*a)

    gc.collect = sim_gc_collect


# ---------------------------------------------------------------- canonical state
import collections  # noqa: E402
import enum  # noqa: E402
import functools  # noqa: E402

_ATOMS = (int, str, bytes, bool, type(None), float)
SKIP_ATTRS = {"_loop", "_statistics", "_context", "_agent_process", "_worker_process", "_process", "_libc", "_latency_us",
              "_binder_monitor", "_monitor_binder", "__orig_class__", "unfinished_tasks"}


class Canon:
    """order- and identity-insensitive snapshot of an object graph as nested tuples"""

    def __init__(self, world=None):
        self.memo = {}
        self.world = world
        self.keep = []

    def c(self, o):
        t = type(o)
        if t in (int, str, bytes, bool, type(None)):
            return o
        if t is float:
            if self.world is not None and 9e5 < o < 9e6:  # a time stamp: relative to now
                return ("T", round(o - self.world.now, 3))
            return round(o, 6)
        i = id(o)
        if i in self.memo:
            return ("@", self.memo[i])
        if isinstance(o, enum.Enum):
            return (t.__name__, o.name)
        if t in (tuple,):
            return ("t",) + tuple(self.c(x) for x in o)
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type, types.ModuleType)):
            return ("f", getattr(o, "__qualname__", getattr(o, "__name__", "?")))
        if isinstance(o, functools.partial):
            return ("partial", self.c(o.func), self.c(o.args))
        self.memo[i] = len(self.memo)
        self.keep.append(o)
        if t is list or t is collections.deque:
            return ("l",) + tuple(self.c(x) for x in o)
        if isinstance(o, dict):
            return ("d",) + tuple((self.c(k), self.c(v)) for k, v in o.items())
        if isinstance(o, (set, frozenset)):
            try:
                return ("s",) + tuple(self.c(x) for x in sorted(o))
            except TypeError:
                return ("s",) + tuple(sorted((self.c(x) for x in o), key=repr))
        if isinstance(o, asyncio.Task):
            return ("task",) + self.coro(o.get_coro()) + (o.done(),)
        if isinstance(o, asyncio.Future):
            return ("fut", o._state, self.c(o._result) if o.done() and not o.cancelled() and o._exception is None else None)
        if isinstance(o, types.CoroutineType):
            return ("coro",) + self.coro(o)
        if isinstance(o, fakezmq.FakeSocket):
            return ("sock", o.closed, tuple(tuple(f) for f in o.inbox), len(o.getters), tuple(tuple(f) for f, _ in o.pending))
        if isinstance(o, (World, SimLoop, Proc, fakezmq.FakeContext, fakezmq.Net, fakezmq.Conn, logging.Logger, FakePsutilProcess,
                          coop.CoopThread, threading.Thread)) and not hasattr(o, "_sim_walk"):
            if isinstance(o, threading.Thread):
                return self.obj(o, skip={"_target", "_args", "_kwargs", "_sim_thread", "_started", "_stderr", "_invoke_excepthook", "_name"})
            return ("x", t.__name__)
        if isinstance(o, multiprocessing.process.BaseProcess):
            return self.obj(o, skip={"_identity", "_config", "_parent_pid", "_parent_name", "_popen", "_closed", "_name", "_sim_proc"})
        return self.obj(o)

    def obj(self, o, skip=()):
        t = type(o)
        items = []
        d = getattr(o, "__dict__", None)
        if d is not None:
            for k, v in d.items():
                if k in SKIP_ATTRS or k in skip:
                    continue
                items.append((k, self.c(v)))
        for klass in t.__mro__:
            sl = klass.__dict__.get("__slots__", ())
            for k in (sl,) if isinstance(sl, str) else sl:
                if hasattr(o, k) and k not in ("__weakref__", "__dict__"):
                    items.append((k, self.c(getattr(o, k))))
        return ("o", t.__name__, tuple(items))

    def coro(self, co):
        out = []
        while co is not None:
            fr = getattr(co, "cr_frame", None) or getattr(co, "gi_frame", None)
            if fr is None:
                out.append(("end", type(co).__name__))
                break
            out.append((fr.f_code.co_name, fr.f_lasti, tuple((k, self.c(v)) for k, v in fr.f_locals.items())))
            co = getattr(co, "cr_await", None) or getattr(co, "gi_yieldfrom", None)
            if co is not None and not (hasattr(co, "cr_frame") or hasattr(co, "gi_frame")):
                out.append(self.c(co) if isinstance(co, asyncio.Future) else ("await", type(co).__name__))
                break
        return tuple(out)

    def thread(self, t):
        if t.state == CoopThread.DONE:
            return ("done", type(t.exc).__name__)
        if t.os is None or t.state == CoopThread.NEW:
            return ("new",)
        fr = sys._current_frames().get(t.os.ident)
        out = []
        while fr is not None:
            mod = fr.f_globals.get("__name__", "")
            if mod.startswith("scaled"):
                out.append((fr.f_code.co_name, fr.f_lasti, tuple((k, self.c(v)) for k, v in fr.f_locals.items())))
            fr = fr.f_back
        return (t.state, tuple(out), t.deadline is not None)

    def loop(self, loop):
        def ready_desc(h):
            cb = h._callback
            o = getattr(cb, "__self__", None)
            if isinstance(o, asyncio.Task):
                return ("step",) + self.coro(o.get_coro())
            return ("cb", getattr(cb, "__qualname__", type(cb).__name__))
        now = loop.world.now
        timers = tuple(sorted(round(w - now, 6) for w, _, h in loop.timers if not h._cancelled))
        live = tuple(self.c(t) for t in loop.tasks if not t.done())
        return (tuple(ready_desc(h) for h in loop.ready if not h._cancelled), timers, live)


def import_scaled():
    install()
    import scaled  # noqa
    import scaled.client  # noqa
    import scaled.scheduler.main  # noqa
    import scaled.worker.worker  # noqa
    return scaled
