"""L4: everything real: clients with their receive threads, the scheduler, worker agents and their processors.

A move is one message arriving (its receiver then works until it waits), the next call of a user, the end of a running function, one
second of clock, the death or departure of a worker, a worker not being heard for a while. By default messages arrive in turn, then users go on, then functions end; any
other choice costs one `delay`; deaths, departures and seconds are free choices up to their number."""
import signal

import zmq

from . import coop, fakezmq, workfn
from . import world as W
from .coop import CoopThread
from .explore import Violation
from .world import Canon, World

W.import_scaled()
from scaled.client import Client  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.scheduler.main import scheduler_main  # noqa: E402
from scaled.utility import exceptions as EXC  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402
from scaled.worker.worker import Worker  # noqa: E402

ADDR = "tcp://127.0.0.1:1"
f, g, h = workfn.f, workfn.g, workfn.h
GRAPHS = {
    "chain": {"x": 1, "a": (f, "x"), "b": (g, "a", "a"), "c": (h, "b", "x")},
    "diamond": {"x": 1, "a": (f, "x"), "b": (g, "a"), "c": (h, "a"), "d": (f, "c", "b", "x")},
    "fork": {"x": 1, "y": 2, "a": (f, "x"), "b": (g, "y"), "c": (h, "b", "a")},
    "bad": {"x": 1, "z": "boom1", "a": (f, "x"), "b": (g, "z"), "c": (h, "b", "a"), "d": (f, "c")},
    "badlate": {"x": 1, "z": "boom1", "a": (f, "x"), "b": (g, "a", "z"), "c": (h, "a"), "d": (f, "b", "c")},
}


class JobError(Exception):
    pass


def value(name, args):
    """what calling it directly gives"""
    if "boom" in repr(args):
        raise JobError(f"{name}{args!r}")
    return (name, *args)


def evaluate(graph, key, calls):
    """sequential evaluation; calls: collects every call made"""
    memo = {}

    def ev(k):
        if k not in memo:
            v = graph[k]
            if isinstance(v, tuple):
                args = tuple(ev(x) for x in v[1:])
                calls.append((v[0].__name__, args))
                v = value(v[0].__name__, args)
            memo[k] = v
        return memo[k]
    return ev(key)


class Hd:
    def __init__(self, what, future, want):
        self.what, self.future, self.want = what, future, want
        self.user = False  # cancelled by the user
        self.seen = None


class Job:
    """a running user function"""

    def __init__(self, proc, call):
        self.proc, self.call, self.open = proc, call, False


class FullSim:
    def __init__(self, programs, workers=1, joined=None, delays=1, kills=0, quits=0, ticks=0, holds=0, cap=2, lb=0, trig=1, limit=-1, timeout=5, death=1000,
                 retention=1000, wretention=1000, probe=True, ops_first=True):
        self.order = ("net", "op", "fin") if ops_first else ("net", "fin", "op")
        self.programs, self.delays, self.left = programs, delays, dict(kills=kills, quits=quits, ticks=ticks, holds=holds)
        self.held = None
        self.limit = limit
        self.w = w = World().__enter__()
        self.last = 0
        self.probe = probe
        w.auto_threads = lambda name, t: name != "CacheCleaner"
        workfn.SIM[0] = self
        self.running = []
        self.starts = {}
        self.allowed = {}  # call -> how often without losses
        self.lost = 0
        self.bad = []
        self.handles = []
        self.users = []
        self.may_raise = False
        self.sched = w.new_proc("sched")
        loop = w.in_proc(self.sched, self.sched.get_loop)
        coro = w.in_proc(self.sched, lambda: scheduler_main(
            address=ZMQConfig.from_string(ADDR), io_threads=1, max_number_of_tasks_waiting=limit, per_worker_queue_size=cap,
            worker_timeout_seconds=timeout, function_retention_seconds=retention, load_balance_seconds=lb, load_balance_trigger_times=trig))
        self.root = loop.create_task(coro)
        loop.roots.append(self.root)
        w.settle(self.sched)
        self.agents = []
        self.spec = (death, wretention)
        self.nworkers = workers
        for _ in range(workers if joined is None else joined):
            self.join()
        self.clients = []
        for i in range(len(programs)):
            p = w.new_proc("client")
            c = w.in_proc(p, Client, ADDR)
            self.clients.append((p, c, p.threads[0]))
            self.wake(i)
        self.at = [0] * len(programs)
        self.stopped = [False] * len(programs)
        self.quiet(False)
        self.base = self.residue()

    # ------------------------------------------------------------ workers
    def join(self):
        death, wretention = self.spec
        p = self.w.spawn(Worker("builtin", ZMQConfig.from_string(ADDR), 1, 100000, 1 << 40, DefaultSerializer(), wretention, death))
        self.agents.append(p)
        self.w.resume(p.main)
        self.settle_agent(p)

    def procs_of(self, agent):
        return [p for p in self.w.procs if p.parent is agent and p is not agent]

    def conn_of(self, proc):
        for i, c in enumerate(self.w.net.conns):
            if c.client is not None and c.client.proc is proc:
                return i
        return None

    def settle_agent(self, a):
        """the agent and its processors until both wait"""
        w = self.w
        for _ in range(2000):
            n = False
            if not w.ended(a):
                if a.main.runnable(w.now):
                    w.resume(a.main)
                    n = True
                if w.step_loop(a):
                    n = True
            for p in self.procs_of(a):
                if not p.alive:
                    continue
                i = self.conn_of(p)
                if i is not None:
                    c = w.net.conns[i]
                    while c.s2c and c.c_open:
                        w.net.deliver(i, "s2c")
                        n = True
                    while (i, "c2s") in w.net.deliverable():
                        w.net.deliver(i, "c2s")
                        n = True
                t = p.main
                if t.state != CoopThread.DONE and t.runnable(w.now):
                    w.resume(t)
                    n = True
                for t in p.threads[1:]:  # the clean-up thread
                    if t.state == CoopThread.NEW or t.state == CoopThread.BLOCKED and t.deadline is not None and t.deadline[1] <= w.now:
                        w.resume(t)
                    if t.state == CoopThread.DONE and p.alive:
                        raise Violation(["C18", "C17", "*"], f"the clean-up thread ended: {t.exc!r}")
            if not n:
                return
        raise Violation(["C15", "C17", "*"], "a worker never comes to rest")

    def execute(self, name, args):
        p = self.w.cur_proc
        call = (name, args)
        if call not in self.allowed:
            self.bad.append((["C01", "C05", "C17", "C09"], f"{name}{args} runs, nobody asked for that"))
        for j in self.running:
            if j.proc.parent is p.parent and j.proc.alive:
                self.bad.append((["C15"], f"{call} runs while the worker runs {j.call}"))
        self.starts[call] = self.starts.get(call, 0) + 1
        j = Job(p, call)
        self.running.append(j)
        coop.block(lambda: j.open, None, "job")
        t = coop.current()
        if t is not None and t.killed:
            raise coop.CoopKill()
        self.running.remove(j)
        return value(name, args)

    # ------------------------------------------------------------ clients
    def wake(self, i):
        p, c, t = self.clients[i]
        for _ in range(50):
            if t.state == CoopThread.DONE:
                break
            self.w.resume(t)
            if not t.runnable(self.w.now):
                break
        self.run_users()
        self.look()

    def run_users(self):
        for _ in range(50):
            n = False
            for rec in self.users:
                t = rec["thread"]
                if t.state != CoopThread.DONE and t.runnable(self.w.now):
                    self.w.resume(t)
                    n = True
            if not n:
                return

    def allow(self, call):
        self.allowed[call] = self.allowed.get(call, 0) + 1

    def want(self, fn):
        try:
            return ("value", fn())
        except JobError as e:
            return ("exc", "JobError", str(e))

    def op(self, i):
        op = self.programs[i][self.at[i]]
        self.at[i] += 1
        if op[0] in ("tick", "join"):
            return getattr(self, op[0])()
        p, c, t = self.clients[i]
        self.w.in_proc(p, lambda: getattr(self, "op_" + op[0])(i, c, *op[1:]))
        self.wake(i)

    def refused(self, i, what, e):
        if not (self.stopped[i] and isinstance(e, EXC.ScaledDisconnect)):
            raise Violation(["C01", "C09", "C08", "*"], f"{what} failed: {e!r}")

    def op_submit(self, i, c, fn, n):
        self.allow((fn, (n,)))
        try:
            fut = c.submit(getattr(workfn, fn), n)
        except Exception as e:  # noqa
            return self.refused(i, (fn, n), e)
        self.handles.append((i, Hd((fn, n), fut, self.want(lambda: value(fn, (n,))))))

    def op_get(self, i, c, name, keys):
        graph = GRAPHS[name]
        try:
            futs = c.get(graph, list(keys), block=False)
        except Exception as e:  # noqa
            return self.refused(i, (name, keys), e)
        if set(futs) != set(keys):
            raise Violation(["C25", "C05", "*"], f"get returned {sorted(futs)} for {keys}")
        calls = []
        whole = ("value", None)
        for k in graph:
            try:
                evaluate(graph, k, calls)
            except JobError as e:
                if whole[0] == "value":
                    whole = ("exc", "JobError", str(e))
        for call in dict.fromkeys(calls):
            self.allow(call)
        for k in dict.fromkeys(keys):
            if whole[0] == "exc" and isinstance(graph[k], tuple):
                self.handles.append((i, Hd((name, k), futs[k], whole)))
            else:
                self.handles.append((i, Hd((name, k), futs[k], self.want(lambda: evaluate(graph, k, [])))))

    def op_map(self, i, c, fn, ns):
        for n in ns:
            self.allow((fn, (n,)))
        rec = {"i": i, "op": (fn, ns), "state": "run"}

        def body():
            try:
                rec["value"] = c.map(getattr(workfn, fn), ((n,) for n in ns))
                rec["state"] = "returned"
            except Exception as e:  # noqa
                rec["value"] = e
                rec["state"] = "raised"
        rec["thread"] = self.w.new_thread(self.clients[i][0], "user", body)
        self.users.append(rec)
        if any("boom" in repr(n) for n in ns):
            self.stopped[i] = True  # map disconnects when one fails
        self.run_users()

    def op_cancel(self, i, c, what):
        for k, hd in self.handles:
            if k == i and hd.what == what:
                if hd.future.cancel():
                    hd.user = True

    def op_disconnect(self, i, c):
        self.stopped[i] = True
        c.disconnect()

    def look(self):
        """futures answer once and rightly"""
        for i, hd in self.handles:
            got = self.state(hd.future)
            if hd.seen is not None and got != hd.seen:
                raise Violation(["C01", "C10", "*"], f"the future of {hd.what} changes from {hd.seen} to {got}")
            hd.seen = got
            if got is None or got == hd.want:
                continue
            if got == ("cancelled",) and hd.user:
                continue
            if got[:2] == ("exc", "ScaledDisconnect") and self.stopped[i]:
                continue
            if got[:2] == ("exc", "ScaledNoWorker") and self.limit >= 0:
                continue
            raise Violation(["C01", "C05", "C06", "C02", "C10", "*"], f"the future of {hd.what} is {got} instead of {hd.want}")
        for i, (p, c, t) in enumerate(self.clients):
            if t.state == CoopThread.DONE:
                if t.exc is not None:
                    raise Violation(["C10", "C09", "C08", "*"], f"the receive thread died: {t.exc!r}")
                if not self.stopped[i]:
                    raise Violation(["C10", "C09", "*"], "the receive thread ended")
        for rec in self.users:
            fn, ns = rec["op"]
            if rec["state"] == "returned" and rec["value"] != [value(fn, (n,)) for n in ns]:
                raise Violation(["C01", "*"], f"map returned {rec['value']}")
            if rec["state"] == "raised" and not self.stopped[rec["i"]]:
                raise Violation(["C01", "*"], f"map raised {rec['value']!r}")

    @staticmethod
    def state(fut):
        if fut.cancelled():
            return ("cancelled",)
        if not fut.done():
            return None
        e = fut.exception()
        if e is None:
            return ("value", fut.result())
        return ("exc", type(e).__name__, str(e)) if not isinstance(e, EXC.ScaledDisconnect) else ("exc", "ScaledDisconnect")

    # ------------------------------------------------------------ moves
    def net(self):
        out = []
        for i, d in self.w.net.deliverable():
            if self.w.net.conns[i].address == ADDR and i != self.held:
                out.append(("net", i, d))
        return out

    def moves(self):
        out = self.net()
        for j, x in enumerate(self.running):
            if x.proc.alive and not x.open:
                out.append(("fin", j))
        for i in range(len(self.programs)):
            if self.at[i] < len(self.programs[i]):
                out.append(("op", i))
        return out

    def default(self, out):
        n = len(self.w.net.conns)
        return min(out, key=lambda a: self.order.index(a[0]) * 1000 + ((a[1] - self.last - 1) % n if a[0] == "net" else a[1]))

    def actions(self):
        out = self.moves()
        if not self.delays and out:
            out = [self.default(out)]
        if self.left["ticks"]:
            out.append(("tick",))
        for k, p in enumerate(self.agents):
            if not self.w.ended(p) and not self.leaving(p):
                if self.left["kills"]:
                    out.append(("kill", k))
                if self.left["quits"]:
                    out.append(("quit", k))
                if self.left["holds"]:
                    out.append(("hold", k))
        if self.held is not None:
            out.append(("release",))
        if len(self.agents) < self.nworkers:
            out.append(("join",))
        return out

    def leaving(self, p):
        return bool(p.loop and p.loop.signalled) or getattr(p, "told", False)

    def do(self, a):
        k = a[0]
        if k in ("net", "fin", "op"):
            if self.delays and a != self.default(self.moves()):
                self.delays -= 1
            if k == "net":
                self.last = a[1]
        if k == "net":
            self.deliver(a[1], a[2])
        elif k == "fin":
            self.finish(self.running[a[1]])
        elif k == "op":
            self.op(a[1])
        elif k == "tick":
            self.left["ticks"] -= 1
            self.tick()
        elif k == "join":
            self.join()
        elif k == "hold":
            self.left["holds"] -= 1
            self.lost += 1
            self.held = self.conn_of(self.agents[a[1]])
        elif k == "release":
            self.held = None
        elif k == "kill":
            self.left["kills"] -= 1
            self.lost += 1
            p = self.agents[a[1]]
            for x in self.procs_of(p):
                self.w.kill(x)
            self.w.kill(p)
            self.forget()
        elif k == "quit":
            self.left["quits"] -= 1
            self.lost += 1
            p = self.agents[a[1]]
            p.told = True
            self.w.signal(p, signal.SIGINT)
            self.settle_agent(p)
            self.forget()
        self.after()

    def forget(self):
        self.running = [j for j in self.running if j.proc.alive]

    def deliver(self, i, d):
        c = self.w.net.conns[i]
        self.w.net.deliver(i, d)
        if d == "c2s":
            self.w.settle(self.sched)
            return
        p = c.client.proc
        if p in self.agents:
            self.settle_agent(p)
            self.forget()
        else:
            self.wake([x[0] for x in self.clients].index(p))

    def finish(self, j):
        j.open = True
        self.settle_agent(j.proc.parent)

    def tick(self):
        self.w.now += 1.0
        self.w.settle(self.sched)
        for p in self.agents:
            if not self.w.ended(p):
                self.settle_agent(p)
        self.forget()

    def after(self):
        if self.bad:
            raise Violation(*self.bad[0])
        if self.w.root_done(self.sched):
            raise Violation(["C04", "C02", "C01", "*"], f"the scheduler ended: {self.w.root_exception(self.sched)!r}")
        for t in self.sched.loop.tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                raise Violation(["C04", "C02", "C01", "*"], f"a loop of the scheduler died: {t.exception()!r}")
        for p in self.agents:
            if p.alive and not self.leaving(p):
                if p.loop.errors:
                    raise Violation(["C15", "C16", "C17", "*"], f"an agent failed: {p.loop.errors[0]!r}")
                if self.w.root_done(p):
                    raise Violation(["C15", "C16", "C17", "C24", "*"], f"an agent ended: {self.w.root_exception(p)!r}")
                for x in self.procs_of(p):
                    if x.alive and x.main.state == CoopThread.DONE:
                        raise Violation(["C17", "C15", "*"], f"a processor ended: {x.main.exc!r}")
        self.look()

    # ------------------------------------------------------------ to the end
    def quiet(self, ops=True):
        for _ in range(3000):
            out = self.moves() if ops else self.net()
            if not out:
                return
            a = self.default(out)
            if a[0] == "net":
                self.last = a[1]
                self.deliver(a[1], a[2])
            elif a[0] == "fin":
                self.finish(self.running[a[1]])
            else:
                self.op(a[1])
            self.after()
        raise Violation(["C01", "C02", "*"], "the system never comes to rest")

    def drain(self):
        self.held = None
        self.quiet()
        for k in range(12):
            if k >= 3 and self.settled():
                break
            if not any(not self.w.ended(p) and not self.leaving(p) for p in self.agents):
                self.join()
            self.tick()
            self.quiet()
        for i, hd in self.handles:
            if not hd.future.done():
                raise Violation(["C01", "C02", "C05", "C06", "C08", "C12", "*"], f"the future of {hd.what} never completes")
        for rec in self.users:
            if rec["state"] == "run":
                raise Violation(["C01", "C02", "C08", "*"], f"map of {rec['op']} never returns")
        if not self.lost:
            for call, n in self.starts.items():
                if n > self.allowed[call]:
                    raise Violation(["C01", "C05", "C12", "C15"], f"{call} ran {n} times, called {self.allowed[call]} times")
        if self.probe:
            self.run_probe()
        left = self.residue()
        grown = {k: (self.base.get(k, 0), v) for k, v in left.items() if v > self.base.get(k, 0)}
        if grown:
            raise Violation("C23", f"left behind after everything has ended: {grown}")

    def settled(self):
        return all(hd.future.done() for _, hd in self.handles) and all(rec["state"] != "run" for rec in self.users)

    def run_probe(self):
        """a new client's task works"""
        p = self.w.new_proc("client")
        c = self.w.in_proc(p, Client, ADDR)
        self.clients.append((p, c, p.threads[0]))
        self.programs = self.programs + [[]]
        self.at.append(0)
        self.stopped.append(False)
        i = len(self.clients) - 1
        self.wake(i)
        for n in ("p1", "p2"):
            self.w.in_proc(p, lambda: self.op_submit(i, c, "f", n))
            self.wake(i)
        self.quiet()
        for _ in range(6):
            if self.settled():
                break
            self.tick()
            self.quiet()
        for k, hd in self.handles:
            if not hd.future.done():
                raise Violation(["C04", "C01", "C02", "C15", "*"], f"a call made after this history is never answered: {hd.what}")
        self.stopped[i] = True
        self.w.in_proc(p, c.disconnect)
        self.wake(i)
        self.quiet()
        for _ in range(2):
            self.tick()
            self.quiet()

    def residue(self):
        """how much the scheduler, the agents and the clients hold per kind of thing"""
        out = {}

        def size(name, o):
            for k, v in vars(o).items():
                if "statistic" in k or "function" in k or "_client" in k and "task" not in k:
                    continue
                if isinstance(v, dict) and v and all(callable(x) for x in v):
                    continue
                if isinstance(v, dict):
                    n = sum(len(x) if hasattr(x, "__len__") and not isinstance(x, (str, bytes)) else 1 for x in v.values())
                elif hasattr(v, "__len__") and not isinstance(v, (str, bytes)):
                    n = len(v)
                else:
                    continue
                key = f"{name}{type(o).__name__}.{k}"
                out[key] = out.get(key, 0) + n
        seen = set()

        def walk(name, o, depth=0):
            if id(o) in seen or depth > 4 or not type(o).__module__.startswith("scaled.") or type(o).__module__.startswith("scaled.protocol"):
                return
            seen.add(id(o))
            if not hasattr(o, "__dict__"):
                return
            size(name, o)
            for v in list(vars(o).values()):
                walk(name, v, depth + 1)
        co = self.root.get_coro()
        fr = co.cr_frame
        for v in list(fr.f_locals.values()) if fr is not None else ():
            walk("scheduler ", v)
        for p in self.agents:
            if not self.w.ended(p):
                for v in vars(p.obj).values():
                    walk("agent ", v)
        return out

    # ------------------------------------------------------------ state
    def key(self):
        c = Canon(self.w)
        agents = []
        for p in self.agents:
            agents.append((p.alive, p.exitcode, c.loop(p.loop) if p.alive else None, c.c({k: v for k, v in vars(p.obj).items() if type(v).__module__.startswith("scaled.")}) if p.alive else None,
                           tuple((x.alive, tuple((c.thread(t), t.deadline and t.deadline[1] - self.w.now) for t in x.threads), c.c(x.obj) if x.alive else None) for x in self.procs_of(p))))
        conns = tuple((x.c_open, tuple(map(tuple, x.c2s)), tuple(map(tuple, x.s2c))) for x in self.w.net.conns)
        clients = tuple((c.c(cl), c.thread(t)) for p, cl, t in self.clients)
        users = tuple((r["state"], c.thread(r["thread"])) for r in self.users)
        sched = (c.loop(self.sched.loop), c.c(list(self.sched.loop.roots)), c.c(list(self.sched.sockets)))
        return (self.delays, self.held, self.delays and self.last, tuple(self.left.items()), tuple(self.at), tuple(self.stopped), tuple(sorted((repr(k), v) for k, v in self.starts.items())),
                tuple((j.call, j.open, self.w.procs.index(j.proc)) for j in self.running), tuple((hd.seen, hd.user) for _, hd in self.handles), self.lost,
                repr(agents), repr(conns), repr(clients), repr(users), repr(sched))

    def outcome(self):
        return repr(([hd.seen for _, hd in self.handles], sorted((repr(k), v) for k, v in self.starts.items()), [r["state"] for r in self.users]))

    def close(self):
        for p, c, t in self.clients:
            if hasattr(c, "_stop_event"):
                c._stop_event.set()
        self.w.close()
