"""L5: IndexedQueue (C21) and the allocator (C11, C12) against plain reference structures, breadth first."""
import asyncio

from . import world
from .explore import Violation
from .registry import bfs_scenario
from .world import Canon, World, import_scaled

import_scaled()

from scaled.scheduler.allocators.queued import QueuedAllocator  # noqa: E402
from scaled.utility.queues.async_indexed_queue import IndexedQueue  # noqa: E402


class Clash:
    """hashes like any other Clash, equal only to itself"""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        return False

    def __repr__(self):
        return self.name


A, Bb = Clash("A"), Clash("B")
ITEMS = {
    "ids": [b"t1", b"t2", b"t3"],
    "hash": [-1, -2, 0],
    "equal": [1, 2, True],
    "clash": [A, Bb, 7],
    "falsy": ["", None, ()],
    "mixed": [-1, -2, 1.0],
}


class QueueSim:
    def __init__(self, items, maxsize, waiters, external_remove=True):
        self.items = items
        self.maxsize = maxsize
        self.max_waiters = waiters
        self.w = World().__enter__()
        self.p = self.w.new_proc("p")
        self.w.cur_proc = self.p
        self.loop = self.p.get_loop()
        self.q = IndexedQueue(maxsize)
        self.model = []
        self.tasks = []  # [kind, item index, task, outcome]
        self.check()

    # ---- reference
    def index(self, x):
        for i, y in enumerate(self.model):
            if y is x or y == x:
                return i
        return None

    def m_put(self, x, ok, exc):
        full = 0 < self.maxsize <= len(self.model)
        known = self.index(x) is not None
        if ok:
            if full or known:
                raise Violation("C21", f"put({x!r}) was accepted although the queue {'is full' if full else 'holds it'}: {self.model!r}")
            self.model.append(x)
        elif isinstance(exc, asyncio.QueueFull):
            if not full:
                raise Violation("C21", f"put({x!r}) refused as full with {self.model!r}, maxsize {self.maxsize}")
        elif isinstance(exc, KeyError):
            if not known:
                raise Violation("C21", f"put({x!r}) refused as a duplicate of {self.model!r}")
        else:
            raise Violation("C21", f"put({x!r}) into {self.model!r} raised {exc!r}")

    def m_get(self, ok, val, exc):
        if ok:
            if not self.model:
                raise Violation("C21", f"get() returned {val!r} from an empty queue")
            want = self.model.pop(0)
            if val is not want:
                raise Violation("C21", f"get() returned {val!r} instead of {want!r}")
        elif isinstance(exc, asyncio.QueueEmpty):
            if self.model:
                raise Violation("C21", f"get() found the queue empty, it holds {self.model!r}")
        else:
            raise Violation("C21", f"get() from {self.model!r} raised {exc!r}")

    def check(self):
        q, m = self.q, self.model
        if q.qsize() != len(m) or len(q) != len(m):
            raise Violation("C21", f"size {q.qsize()}/{len(q)} of a queue holding {m!r}")
        if q.empty() != (not m) or q.full() != (0 < self.maxsize <= len(m)):
            raise Violation("C21", f"empty/full {q.empty()}/{q.full()} of a queue holding {m!r}, maxsize {self.maxsize}")
        for x in self.items + [b"never", -3]:
            if (x in q) != (self.index(x) is not None):
                raise Violation("C21", f"{x!r} in queue is {x in q}, it holds {m!r}")

    # ---- actions
    def actions(self):
        out = []
        if self.loop.has_work():
            out.append(("run",))
        for i in range(len(self.items)):
            out.append(("put_nowait", i))
            out.append(("remove", i))
        out.append(("get_nowait",))
        live = [i for i, t in enumerate(self.tasks) if not t[2].done()]
        if len(live) < self.max_waiters:
            for i in range(len(self.items)):
                out.append(("put", i))
            out.append(("get",))
        for n, i in enumerate(live):
            out.append(("cancel", n))
        return out

    async def _put(self, rec, x):
        try:
            await self.q.put(x)
        except (asyncio.CancelledError, GeneratorExit):
            raise
        except BaseException as e:  # noqa
            rec[3] = "refused"
            self.m_put(x, False, e)
            return
        rec[3] = "done"
        self.m_put(x, True, None)

    async def _get(self, rec):
        try:
            v = await self.q.get()
        except (asyncio.CancelledError, GeneratorExit):
            raise
        except BaseException as e:  # noqa
            self.m_get(False, None, e)
            return
        rec[3] = "done"
        self.m_get(True, v, None)

    def do(self, a):
        op = a[0]
        if op == "run":
            self.w.step_loop(self.p)
            for t in self.tasks:
                if t[2].done() and not t[2].cancelled() and t[2].exception() is not None:
                    raise t[2].exception()
            self.tasks = [t for t in self.tasks if not t[2].done()]
        elif op == "put_nowait":
            x = self.items[a[1]]
            try:
                self.q.put_nowait(x)
            except Exception as e:  # noqa
                self.m_put(x, False, e)
            else:
                self.m_put(x, True, None)
        elif op == "get_nowait":
            try:
                v = self.q.get_nowait()
            except Exception as e:  # noqa
                self.m_get(False, None, e)
            else:
                self.m_get(True, v, None)
        elif op == "remove":
            x = self.items[a[1]]
            i = self.index(x)
            try:
                self.q.remove(x)
            except KeyError:
                if i is not None:
                    raise Violation("C21", f"remove({x!r}) found nothing in {self.model!r}")
            except Exception as e:  # noqa
                raise Violation("C21", f"remove({x!r}) from {self.model!r} raised {e!r}")
            else:
                if i is None:
                    raise Violation("C21", f"remove({x!r}) succeeded on {self.model!r}")
                del self.model[i]
        elif op in ("put", "get"):
            rec = [op, a[1] if len(a) > 1 else None, None, None]
            rec[2] = self.loop.create_task(self._put(rec, self.items[a[1]]) if op == "put" else self._get(rec))
            self.tasks.append(rec)
        elif op == "cancel":
            [t for t in self.tasks if not t[2].done()][a[1]][2].cancel()
        self.check()
        self.idle_check()

    def idle_check(self):
        if self.loop.has_work():
            return
        getters = [t for t in self.tasks if t[0] == "get" and not t[2].done()]
        putters = [t for t in self.tasks if t[0] == "put" and not t[2].done()]
        if self.model and getters:
            raise Violation("C21", f"a getter waits although the queue holds {self.model!r}")
        if putters and not 0 < self.maxsize <= len(self.model):
            raise Violation("C21", f"a putter of {self.items[putters[0][1]]!r} waits although there is room: {self.model!r}, maxsize {self.maxsize}")

    def drain(self):
        for _ in range(60):
            if not self.loop.has_work():
                break
            self.do(("run",))
        while self.model:
            self.do(("get_nowait",))
            while self.loop.has_work():
                self.do(("run",))

    def key(self):
        c = Canon(self.w)
        internals = tuple((k, c.c(v)) for k, v in sorted(vars(self.q).items()) if k not in ("_unfinished_tasks", "_finished", "_loop"))
        return (tuple(next(i for i, y in enumerate(self.items) if y is x) for x in self.model), internals,
                tuple((t[0], t[1], t[3], c.c(t[2])) for t in self.tasks), repr(c.loop(self.loop)[0]))

    def outcome(self):
        return repr(self.model)

    def close(self):
        self.w.close()


def qscen(name, items, maxsize, waiters, quick, thorough):
    bfs_scenario("queue/" + name, ["C21"], lambda: QueueSim(ITEMS[items], maxsize, waiters), quick=quick and dict(max_states=quick, max_depth=12),
                 thorough=dict(max_states=thorough, max_depth=20), weight=2)


for m in (0, 1, 2):
    for it in ITEMS:
        qscen(f"{it}-{m}", it, m, 2 if it != "ids" else 3, 12000 if it == "ids" else 6000, 150000)


# ---------------------------------------------------------------- allocator
class AllocSim:
    def __init__(self, workers, tasks, cap):
        self.ws, self.ts, self.cap = [b"w%d" % i for i in range(workers)], [b"t%d" % i for i in range(tasks)], cap
        self.a = QueuedAllocator(cap)
        self.model = {}

    def sync(self, co):
        try:
            co.send(None)
        except StopIteration as e:
            return e.value
        raise Violation("C11", "the allocator waits for something")

    def where(self, t):
        return next((w for w, ts in self.model.items() if t in ts), None)

    def actions(self):
        out = []
        for w in self.ws:
            out += [("add", w), ("rm", w)]
        known = [t for t in self.ts if self.where(t)]
        free = [t for t in self.ts if not self.where(t)]
        out += [("assign", t) for t in known[:1] + free[:1]]
        out += [("done", t) for t in known + free[:1]]
        return out

    def do(self, a):
        op, x = a
        m = self.model
        if op == "add":
            r = self.sync(self.a.add_worker(x))
            if bool(r) != (x not in m):
                raise Violation("C11", f"add_worker({x}) answered {r} with workers {sorted(m)}")
            m.setdefault(x, set())
        elif op == "rm":
            r = self.a.remove_worker(x)
            if sorted(r) != sorted(m.pop(x, set())):
                raise Violation("C11", f"remove_worker({x}) returned {r}")
        elif op == "assign":
            can = bool(m) and min(map(len, m.values())) < self.cap
            if bool(self.a.has_available_worker()) != can:
                raise Violation(["C11", "C14"], f"has_available_worker is {not can} with {m}")
            r = self.sync(self.a.assign_task(x))
            old = self.where(x)
            if not can:
                if r is not None and r != old:
                    raise Violation("C11", f"assigned to {r} without room: {m}")
            elif old is not None:
                if r != old:
                    raise Violation("C11", f"a task held by {old} was assigned to {r}")
            else:
                if r not in m or len(m[r]) >= self.cap or len(m[r]) != min(map(len, m.values())):
                    raise Violation("C11", f"assigned to {r} with loads {[(w, len(s)) for w, s in m.items()]}, capacity {self.cap}")
                m[r].add(x)
        else:
            r = self.a.remove_task(x)
            old = self.where(x)
            if r != old:
                raise Violation("C11", f"remove_task({x}) answered {r} instead of {old}")
            if old is not None:
                m[old].discard(x)
        self.check()

    def check(self):
        m, a = self.model, self.a
        if set(a.get_worker_ids()) != set(m):
            raise Violation("C11", f"workers {a.get_worker_ids()} instead of {set(m)}")
        for t in self.ts:
            if a.get_assigned_worker(t) != self.where(t):
                raise Violation("C11", f"{t} assigned to {a.get_assigned_worker(t)} instead of {self.where(t)}")
        st = a.statistics()
        want = {w: {"free": self.cap - len(s), "sent": len(s)} for w, s in m.items()}
        if st != want:
            raise Violation("C22", f"statistics {st} instead of {want}")
        got = a.balance()
        loads = {w: len(s) for w, s in m.items()}
        exp = {}
        if loads and any(loads.values()) and not all(loads.values()):
            total, n = sum(loads.values()), len(loads)
            exp = {w: -((total - k * n) // n) for w, k in loads.items() if k * n > total}
        if dict(got) != exp:
            raise Violation("C12", f"balance advice {dict(got)} instead of {exp} for loads {loads}")

    def drain(self):
        for t in self.ts:
            if self.where(t):
                self.do(("done", t))

    def key(self):
        c = Canon()
        # task names do not matter
        ren = {}
        for w in self.model:
            for t in sorted(self.model[w]):
                ren[t] = len(ren)
        q = self.a
        heap = getattr(getattr(q, "_worker_queue", None), "_queue", None)
        return (tuple((w, len(s)) for w, s in self.model.items()), c.c(heap) if heap is not None else c.c(vars(q)))

    def outcome(self):
        return repr(sorted((w, len(s)) for w, s in self.model.items()))

    def close(self):
        pass


for w, t, cap in ((2, 4, 1), (2, 5, 3), (3, 7, 3), (4, 7, 2), (5, 6, 2)):
    bfs_scenario(f"alloc/{w}w{cap}", ["C11", "C12"], lambda w=w, t=t, cap=cap: AllocSim(w, t, cap),
                 quick=dict(max_states=4000, max_depth=40) if w < 5 else None, thorough=dict(max_states=60000, max_depth=60), weight=2)
