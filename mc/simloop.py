"""A deterministic asyncio event loop: FIFO ready queue, timers on the world's virtual clock, stepped by the explorer."""
import asyncio
import heapq
import itertools
from asyncio import events, futures, tasks
from collections import deque

from . import coop


class SimLoop(asyncio.AbstractEventLoop):
    def __init__(self, world, proc):
        self.world = world
        self.proc = proc
        self.ready = deque()
        self.timers = []
        self._seq = itertools.count()
        self.errors = []
        self.signals = {}
        self.signalled = []
        self.closed = False
        self.iterations = 0
        self.roots = []
        self.runners = 0
        self.tasks = []

    # -- scheduling
    def call_soon(self, callback, *args, context=None):
        h = events.Handle(callback, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_at(self, when, callback, *args, context=None):
        h = events.TimerHandle(when, callback, args, self, context)
        heapq.heappush(self.timers, (when, next(self._seq), h))
        h._scheduled = True
        return h

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.time() + delay, callback, *args, context=context)

    def _timer_handle_cancelled(self, handle):
        pass

    def time(self):
        return self.world.now

    def create_future(self):
        return futures.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        if context is None:
            t = tasks.Task(coro, loop=self, name=name)
        else:
            t = tasks.Task(coro, loop=self, name=name, context=context)
        if len(self.tasks) > 16:
            self.tasks = [x for x in self.tasks if not x.done()]
        self.tasks.append(t)
        return t

    def set_task_factory(self, f):
        pass

    def get_task_factory(self):
        return None

    def get_debug(self):
        return False

    def set_debug(self, on):
        pass

    def is_running(self):
        return events._get_running_loop() is self

    def is_closed(self):
        return self.closed

    def close(self):
        self.closed = True

    def stop(self):
        pass

    async def shutdown_asyncgens(self):
        pass

    async def shutdown_default_executor(self, timeout=None):
        pass

    def call_exception_handler(self, context):
        exc = context.get("exception")
        if exc is not None and "never retrieved" not in context.get("message", ""):
            self.errors.append(exc)

    def default_exception_handler(self, context):
        pass

    def set_exception_handler(self, h):
        pass

    def get_exception_handler(self):
        return None

    def add_signal_handler(self, sig, callback, *args):
        self.signals[sig] = (callback, args)

    def remove_signal_handler(self, sig):
        return self.signals.pop(sig, None) is not None

    def run_in_executor(self, executor, func, *args):
        f = self.create_future()
        try:
            f.set_result(func(*args))
        except Exception as e:  # noqa
            f.set_exception(e)
        return f

    def run_until_complete(self, fut):
        """called by code under test in its process's thread; the explorer steps the loop"""
        fut = tasks.ensure_future(fut, loop=self)
        self.roots.append(fut)
        if coop.current() is None:
            return None
        self.runners += 1
        try:
            coop.block(fut.done, None, "run_until_complete")
        finally:
            self.runners -= 1
        return fut.result()

    def run_forever(self):
        self.runners += 1
        try:
            coop.block(lambda: False, None, "run_forever")
        finally:
            self.runners -= 1

    # -- explorer side
    def due(self):
        while self.timers and self.timers[0][2]._cancelled:
            heapq.heappop(self.timers)
        return bool(self.timers) and self.timers[0][0] <= self.world.now + 1e-9

    def next_timer(self):
        while self.timers and self.timers[0][2]._cancelled:
            heapq.heappop(self.timers)
        return self.timers[0][0] if self.timers else None

    def has_work(self):
        return bool(self.ready) or bool(self.signalled) or self.due()

    def run_once(self):
        """one iteration, as asyncio's _run_once: collect due timers, then run what was ready"""
        while self.signalled:
            cb, args = self.signals[self.signalled.pop(0)]
            self.call_soon(cb, *args)
        while self.due():
            _, _, h = heapq.heappop(self.timers)
            h._scheduled = False
            self.ready.append(h)
        n = len(self.ready)
        if not n:
            return False
        self.iterations += 1
        prev = events._get_running_loop()
        events._set_running_loop(self)
        try:
            for _ in range(n):
                h = self.ready.popleft()
                if not h._cancelled:
                    h._run()
        finally:
            events._set_running_loop(prev)
        return True
