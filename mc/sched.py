"""L1: the real scheduler in a closed world with abstract clients and workers, and a reference model judging it."""
import json
import math
from collections import deque

from . import world as W
from .explore import Prune, Violation

W.import_scaled()
from scaled.io import config as _cfg  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.scheduler.main import scheduler_main  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

ADDR = "tcp://127.0.0.1:1"
ALL = {"C%02d" % i for i in range(1, 30)}
FINAL = {M.TaskStatus.Success, M.TaskStatus.Failed, M.TaskStatus.Canceled, M.TaskStatus.NotFound}
S, F, C, N = M.TaskStatus.Success, M.TaskStatus.Failed, M.TaskStatus.Canceled, M.TaskStatus.NotFound
TICK = float(getattr(_cfg, "CLEANUP_INTERVAL_SECONDS", 1))


def enc(msg):
    return [M.PROTOCOL.inverse[type(msg)].value, *[W.fakezmq.to_bytes(x) for x in msg.serialize()]]


def dec(frames):
    return M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:]))


class Spec:
    limit = -1
    cap = 2
    timeout = 3
    retention = 5
    lb = 0
    trig = 2
    clients = {}
    order = "program"  # or "free": any order of a client's operations
    workers = {}  # name -> string of abilities: f fail, c crash, l leave, m mute/unmute, g give back, G any number, d duplicate results
    joined = ()
    setup = ()
    ticks = 0
    jumps = 0
    burst = 0
    faults = 0
    dups = 0
    graphs = {}
    names = {}  # function id -> name
    quiet_cancel = False
    leak = 0  # epochs of the residue check
    status = True
    adv = ()  # other clock steps
    advs = 0
    auto_hb = True
    hbs = 0
    probe = True
    exotic = None

    def __init__(self, **kw):
        for k, v in kw.items():
            assert hasattr(type(self), k), k
            setattr(self, k, v)


class T:
    __slots__ = ("name", "tid", "client", "fid", "args", "subs", "echoes", "rejects", "st", "worker", "cancelled", "cancel_to", "outs",
                 "results", "graph", "node", "starts", "last_state", "status", "accepted", "losses", "gives")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def key(self):
        return (self.tid, self.subs, self.echoes, self.rejects, self.st, self.worker, self.cancelled, self.cancel_to, self.outs,
                self.starts, self.last_state and self.last_state.name, self.status and self.status.name,
                tuple(sorted((s.name, r) for s, r in self.results)), self.losses)


class Wk:
    def __init__(self, name, abil, conn, ident):
        self.name, self.abil, self.conn, self.ident = name, abil, conn, ident
        self.n = "123z".find(name[-1]) + 1  # what its heartbeats say depends on it
        self.alive, self.muted, self.left = True, False, False
        self.held = []
        self.last = None  # last result message sent
        self.pre_tick_hb = True

    def key(self):
        return (self.name, self.alive, self.muted, self.left, tuple(t.task_id for t in self.held),
                self.last and self.last.task_id, tuple(tuple(f) for f in self.conn.s2c))


class G:
    __slots__ = ("name", "gid", "client", "nodes", "targets", "st", "outs", "cancelled", "why", "fns")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def key(self):
        return (self.gid, self.st, self.outs, self.cancelled)


class SchedSim:
    def __init__(self, spec):
        self.spec = s = spec
        self.w = W.World()
        self.w.__enter__()
        self.proc = self.w.new_proc("sched")
        loop = self.w.in_proc(self.proc, self.proc.get_loop)
        self.t0 = self.w.now
        coro = self.w.in_proc(self.proc, lambda: scheduler_main(
            address=ZMQConfig.from_string(ADDR), io_threads=1, max_number_of_tasks_waiting=s.limit,
            per_worker_queue_size=s.cap, worker_timeout_seconds=s.timeout, function_retention_seconds=s.retention,
            load_balance_seconds=s.lb, load_balance_trigger_times=s.trig))
        self.root = loop.create_task(coro)
        loop.roots.append(self.root)
        self.pos = 0
        self.trace = []
        # reference state
        self.tasks = {}  # tid -> T
        self.graphs = {}  # gid -> G
        self.gnames = {}
        self.conn_w = {}  # ident -> last heartbeat time of connected workers
        self.out = {}  # ident -> set of tids outstanding
        self.funcs = {}  # fid -> dict
        self.info = {}  # worker -> its last heartbeat
        self.totals = {S: 0, F: 0, C: 0, N: 0}
        self.advice, self.advice_n = None, 0
        self.last_in = None
        self.expect = []  # outputs owed right now
        self.exact = True
        self.fault_seen = False
        # environment
        self.conns = {}
        self.wk = {}
        self.epoch = 0
        self.in_tick = False
        self.expired = set()
        self.balance_seen = {}
        self.reports = []
        self.draining = False
        self.settle()
        self.reset_env()
        for op in s.setup:
            self.client_op(*op) if op[0] != "join" else self.join(op[1])
        self.absorb()
        self.trace = []

    def reset_env(self):
        s = self.spec
        self.todo = {c: list(range(len(ops))) for c, ops in s.clients.items()}
        self.left = dict(ticks=s.ticks, jumps=s.jumps, burst=s.burst, faults=s.faults, dups=s.dups, advs=s.advs, hbs=s.hbs)
        self.pending_burst = False
        for name in s.joined:
            self.join(name)

    # ------------------------------------------------------------------ plumbing
    def close(self):
        self.w.close()

    def conn(self, ident):
        if ident not in self.conns:
            self.conns[ident] = self.w.net.connect(ADDR, None, ident)
        return self.conns[ident]

    def inject(self, ident, msg, settle=True):
        self.inject_frames(ident, enc(msg), settle)

    def inject_frames(self, ident, frames, settle=True):
        c = self.conn(ident)
        c.c2s.append(list(frames))
        self.w.net.deliver(self.w.net.conns.index(c), "c2s")
        if settle:
            self.settle()

    degraded = False

    def settle(self):
        self.w.settle(self.proc)
        self.pending_burst = False
        if self.degraded:
            return
        self.consume()
        self.after()

    def fail(self, props, msg):
        raise Violation(props, msg)

    def dead(self):
        loop = self.proc.loop
        if self.root.done():
            e = None if self.root.cancelled() else self.root.exception()
            return f"scheduler stopped: {type(e).__name__}: {e}"
        for t in loop.tasks:
            if t.done() and not t.cancelled() and t.exception() is not None:
                e = t.exception()
                return f"a scheduler service loop died: {type(e).__name__}: {e}"
        return None

    # ------------------------------------------------------------------ names
    def sfx(self):
        return "" if self.epoch == 0 else "#%d" % self.epoch

    def tid(self, name):
        return (name + self.sfx()).encode()

    def wid(self, name):
        return (name + self.sfx()).encode()

    def cid(self, name):
        return name.encode()

    # ------------------------------------------------------------------ environment actions
    def join(self, name):
        ident = self.wid(name)
        self.wk[name] = Wk(name, self.spec.workers.get(name, ""), self.conn(ident), ident)
        self.heartbeat(self.wk[name])

    def heartbeat(self, wk, settle=True):
        self.inject(wk.ident, M.Heartbeat(
            0.1 * wk.n, (1 << 20) + wk.n, 0.25 * wk.n, (1 << 21) + wk.n, len(wk.held), 100 * wk.n, wk.n != 1, bool(wk.held), len(wk.held) > 1), settle)

    def absorb(self):
        """abstract workers take in everything that needs no decision"""
        for wk in self.wk.values():
            if not wk.alive:
                wk.conn.s2c.clear()
                continue
            q = wk.conn.s2c
            while q:
                m = dec(q[0])
                if isinstance(m, (M.TaskCancel, M.BalanceRequest)):
                    break
                q.popleft()
                if isinstance(m, M.Task):
                    wk.held.append(m)
        for ident, c in self.conns.items():
            if not any(wk.conn is c for wk in self.wk.values()):
                c.s2c.clear()

    def result_bytes(self, task):
        return b"R[" + task.function_id + b"|" + b",".join(a.data for a in task.function_args) + b"]"

    def actions(self):
        s, out = self.spec, []
        burst = self.left["burst"] > 0
        base = []
        for c, todo in self.todo.items():
            if todo:
                for i in (todo if s.order == "free" else todo[:1]):
                    base.append(("op", c, i))
        for name, wk in self.wk.items():
            if not wk.alive:
                continue
            if wk.held:
                base.append(("fin", name, "S"))
                if "f" in wk.abil:
                    base.append(("fin", name, "F"))
            if wk.conn.s2c:
                m = dec(wk.conn.s2c[0])
                if isinstance(m, M.BalanceRequest) and "G" in wk.abil:
                    for k in range(0, min(m.number_of_tasks, max(0, len(wk.held) - 1)) + 1):
                        base.append(("recv", name, k))
                else:
                    base.append(("recv", name, -1))
                    if "n" in wk.abil and isinstance(m, M.TaskCancel):
                        base.append(("lost", name))  # it knows nothing of the task
            if "d" in wk.abil and wk.last is not None and self.left["dups"]:
                base.append(("dup", name))
            if self.left["hbs"]:
                base.append(("hb", name))
        out += base
        if burst:
            out += [("+",) + a for a in base]
        if self.left["faults"]:
            for name, wk in self.wk.items():
                if wk.alive:
                    for ab, act in (("c", "crash"), ("l", "leave")):
                        if ab in wk.abil:
                            out.append((act, name))
                    if "m" in wk.abil and not wk.muted:
                        out.append(("mute", name))
        for name, wk in self.wk.items():
            if wk.alive and wk.muted:
                out.append(("unmute", name))
        for name in s.workers:
            if name not in self.wk:
                out.append(("join", name))
        if self.left["ticks"]:
            out.append(("tick",))
        if self.left["jumps"] and any((not wk.alive or wk.muted) and wk.ident in self.conn_w for wk in self.wk.values()):
            out.append(("jump",))
        if self.left["advs"]:
            for d in s.adv:
                out.append(("adv", d))
        return out

    def do(self, a):
        self.trace.append(a)
        settle = True
        if a[0] == "+":
            self.left["burst"] -= 1
            self.exact = False
            settle = False
            a = a[1:]
        k = a[0]
        if k == "op":
            _, c, i = a
            self.todo[c].remove(i)
            self.client_op(*self.spec.clients[c][i], client=c, settle=settle)
        elif k == "fin":
            wk = self.wk[a[1]]
            t = wk.held.pop(0)
            r = M.TaskResult(t.task_id, S if a[2] == "S" else F, 0.5, self.result_bytes(t) if a[2] == "S" else b"E[" + t.task_id + b"]")
            wk.last = r
            self.inject(wk.ident, r, settle)
        elif k == "dup":
            self.left["dups"] -= 1
            wk = self.wk[a[1]]
            self.inject(wk.ident, wk.last, settle)
        elif k == "lost":
            wk = self.wk[a[1]]
            wk.held = [t for t in wk.held if t.task_id != dec(wk.conn.s2c[0]).task_id]
            self.worker_recv(wk, -1, settle)
        elif k == "recv":
            self.worker_recv(self.wk[a[1]], a[2], settle)
        elif k == "crash":
            self.left["faults"] -= 1
            self.fault_seen = True
            wk = self.wk[a[1]]
            wk.alive = False
            wk.held = []
            wk.conn.s2c.clear()
        elif k == "leave":
            self.left["faults"] -= 1
            self.fault_seen = True
            wk = self.wk[a[1]]
            wk.alive, wk.left = False, True
            wk.held = []
            self.inject(wk.ident, M.DisconnectRequest(wk.ident), settle)
        elif k == "mute":
            self.left["faults"] -= 1
            self.fault_seen = True
            self.wk[a[1]].muted = True
        elif k == "unmute":
            self.wk[a[1]].muted = False
            self.heartbeat(self.wk[a[1]], settle)
        elif k == "hb":
            self.left["hbs"] -= 1
            self.heartbeat(self.wk[a[1]], settle)
        elif k == "join":
            self.join(a[1])
        elif k == "tick":
            self.left["ticks"] -= 1
            self.tick()
        elif k == "jump":
            self.left["jumps"] -= 1
            for _ in range(int(self.spec.timeout / TICK) + 2):
                self.tick()
        elif k == "adv":
            self.left["advs"] -= 1
            self.advance(a[1])
        else:
            raise AssertionError(a)
        self.absorb()

    def worker_recv(self, wk, k, settle=True):
        m = dec(wk.conn.s2c.popleft())
        if isinstance(m, M.TaskCancel):
            held = [t for t in wk.held if t.task_id == m.task_id]
            if held:
                wk.held.remove(held[0])
                r = M.TaskResult(m.task_id, C, 0, b"")
            else:
                r = M.TaskResult(m.task_id, N, 0, b"")
            self.inject(wk.ident, r, settle)
        else:
            n = min(m.number_of_tasks, max(0, len(wk.held) - 1)) if k < 0 else k
            back = wk.held[1:1 + n]
            del wk.held[1:1 + n]
            self.inject(wk.ident, M.BalanceResponse([t.task_id for t in back]), settle)

    def client_op(self, kind, *args, client=None, settle=True):
        if kind == "task":
            name, fn = args[:2]
            targs = [M.Argument(M.ArgumentType.Data, x) for x in (args[2] if len(args) > 2 else (name.encode(),))]
            client = client or "c1"
            self.inject(self.cid(client), M.Task(self.tid(name), fn.encode(), targs), settle)
        elif kind == "cancel":
            self.inject(self.cid(client or "c1"), M.TaskCancel(self.tid(args[0])), settle)
        elif kind == "func":
            rtype, fn = args[:2]
            fid = fn.encode()
            add = rtype == "Add"
            other = b"" if client in (None, "c1") else client.encode()  # every client has its own idea of what the function is
            self.inject(self.cid(client or "c1"), M.FunctionRequest(
                M.FunctionRequestType[rtype], fid, self.spec.names.get(fn, fn + "_name").encode() + other if add else b"",
                b"code-" + fid + other if add else b""), settle)
        elif kind == "graph":
            self.inject(self.cid(client or "c1"), self.graph_message(args[0]), settle)
        elif kind == "gcancel":
            self.inject(self.cid(client or "c1"), M.GraphTaskCancel(self.tid(args[0])), settle)
        elif kind == "raw":
            self.inject_frames(self.cid(client or "c1"), args[0], settle)
        elif kind == "rawmsg":
            self.inject(args[1] if len(args) > 1 else self.cid(client or "c1"), args[0](self), settle)
        else:
            raise AssertionError(kind)

    def graph_message(self, name):
        g = self.spec.graphs[name]
        nodes = []
        fns = {}
        for n, (fn, args) in g["nodes"].items():
            fns[fn.encode()] = (self.spec.names.get(fn, fn + "_name").encode(), b"code-" + fn.encode())
            nodes.append(M.Task(self.tid(name + "." + n), fn.encode(), [
                M.Argument(M.ArgumentType.Data, a) if isinstance(a, bytes) else M.Argument(M.ArgumentType.Task, self.tid(name + "." + a))
                for a in args]))
        return M.GraphTask(self.tid(name), fns, [self.tid(name + "." + n) for n in g["targets"]], nodes)

    def tick(self):
        """one second passes: live workers heartbeat, then the scheduler's timers run"""
        if self.spec.auto_hb or self.draining:
            for wk in list(self.wk.values()):
                if wk.alive and not wk.muted:
                    self.heartbeat(wk)
        self.advance(TICK)

    def advance(self, d):
        end = round(self.w.now + d, 6)
        while self.w.now < end:
            el = self.w.now - self.t0
            nxt = round(self.t0 + (math.floor(el / TICK + 1e-9) + 1) * TICK, 6)
            self.w.now = min(nxt, end)
            if not self.degraded:
                self.maintenance()
            self.settle()
            self.in_tick = False

    # ------------------------------------------------------------------ reference: inputs
    def maintenance(self):
        """what the scheduler has to do at this instant, if a check is due now"""
        self.reports = []
        el = self.w.now - self.t0
        if abs(el / TICK - round(el / TICK)) > 1e-9:
            return
        self.in_tick = True
        if self.spec.lb > 0:
            self.ref_balance()
        self.expired = {i for i, t in self.conn_w.items() if self.w.now - t > self.spec.timeout}
        for i in sorted(self.expired):
            self.ref_lose(i)

    def ref_balance(self):
        loads = {i: len(ts) for i, ts in self.out.items()}
        adv = {}
        if loads and any(loads.values()) and not all(loads.values()):
            mean = sum(loads.values()) / len(loads)
            adv = {i: math.ceil(n - mean) for i, n in loads.items() if n > mean}
        if adv == self.advice:
            self.advice_n += 1
        else:
            self.advice, self.advice_n = adv, 1
        if adv and self.advice_n == self.spec.trig:
            for i, n in adv.items():
                self.expect.append(("balance", i, n))

    def ref_lose(self, ident):
        self.conn_w.pop(ident, None)
        for tid in sorted(self.out.pop(ident, ())):
            t = self.tasks[tid]
            t.losses = (t.losses or 0) + 1
            self.ref_back(t)

    def ref_back(self, t):
        """a task comes back to the scheduler unfinished"""
        t.worker = None
        if t.cancelled:
            self.ref_done(t, C, None)
        else:
            t.st = "wait"

    def ref_function_use(self, fid, tid):
        f = self.funcs.get(fid)
        if f is not None:
            f["lo"] = f["hi"] = self.w.now
            f["users"].add(tid)

    def ref_done(self, t, status, data):
        if t.worker is not None:
            self.out.get(t.worker, set()).discard(t.tid)
        t.worker = None
        t.st = "done"
        t.status = status
        self.totals[status] += 1
        f = self.funcs.get(t.fid)
        if f is not None and t.tid in f["users"]:
            f["users"].discard(t.tid)
            f["hi"] = self.w.now
        if t.graph is None:
            self.expect.append(("result", t.client, t.tid, status, data))
            return
        g = self.graphs[t.graph]
        if g.st != "run":
            return
        if status == S:
            self.ref_graph_ready(g)
            if all(self.tasks[x].st == "done" for x in g.nodes):
                g.st = "done"
                self.expect.append(("graph", g.client, g.gid, S, [self.node_value(x) for x in g.targets]))
        else:
            g.st = "failed"
            self.expect.append(("graph", g.client, g.gid, status, data))
            self.ref_graph_end(g)

    def node_value(self, tid):
        t = self.tasks[tid]
        return b"R[" + t.fid + b"|" + b",".join(a.data if a.type == M.ArgumentType.Data else self.node_value(a.data) for a in t.args) + b"]"

    def ref_graph_ready(self, g):
        for x in g.nodes:
            t = self.tasks[x]
            if t.st == "inactive" and all(self.tasks[a.data].st == "done" and self.tasks[a.data].status == S for a in t.args
                                          if a.type == M.ArgumentType.Task):
                t.st = "wait"
                t.accepted = True
                self.ref_function_use(t.fid, t.tid)

    def ref_graph_end(self, g):
        for x in g.nodes:
            t = self.tasks[x]
            if t.st == "inactive":
                t.st = "dropped"
                f = self.funcs.get(t.fid)
                if f is not None and t.tid in f["users"]:
                    f["users"].discard(t.tid)
                    f["hi"] = self.w.now
            elif t.st == "wait":
                t.cancelled = True
                self.ref_done(t, C, b"")
            elif t.st == "at":
                t.cancelled = True

    def ref_input(self, ident, frames):
        try:
            m = dec(frames)
        except Exception:  # noqa: malformed: nothing may happen
            return
        name = self.last_in = type(m).__name__
        h = getattr(self, "in_" + name, None)
        if h is not None:
            h(ident, m)

    def in_Heartbeat(self, ident, m):
        if ident not in self.conn_w:
            self.out[ident] = set()
        self.conn_w[ident] = self.w.now
        self.info[ident] = m
        self.expect.append(("hbecho", ident))

    def in_DisconnectRequest(self, ident, m):
        if m.worker in self.conn_w:
            self.ref_lose(m.worker)

    def free_worker(self):
        return any(len(ts) < self.spec.cap for ts in self.out.values())

    def in_Task(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is not None and t.st not in ("rejected", "done"):
            t.subs += 1
            self.expect.append(("echo", ident, m.task_id, {"Duplicated"}))
            return
        waiting = sum(1 for x in self.tasks.values() if x.st == "wait")
        why = set()
        if m.function_id not in self.funcs:
            why.add("FunctionNotExists")
        if 0 <= self.spec.limit <= waiting and not self.free_worker():
            why.add("NoWorker")
        if t is not None and t.st == "done":
            raise Prune()  # task ids of finished tasks are not used again
        if t is not None:
            t.subs += 1
            t.client = ident
            t.outs = 0
            t.cancelled, t.cancel_to, t.starts, t.results, t.accepted, t.last_state = False, None, 0, set(), False, None
        else:
            t = self.tasks[m.task_id] = T(tid=m.task_id, client=ident, fid=m.function_id, args=m.function_args, subs=1, echoes=0, rejects=0,
                                          st="new", cancelled=False, outs=0, results=set(), starts=0)
        if why and not self.exact:
            why.add("SubmitOK")
        if not why and not self.exact and self.spec.limit >= 0:
            why = {"SubmitOK", "NoWorker"}
        self.expect.append(("echo", ident, m.task_id, why or {"SubmitOK"}))
        if why and "SubmitOK" not in why:
            t.st = "rejected"
        elif not why:
            t.st = "wait"
            t.accepted = True
            self.ref_function_use(m.function_id, m.task_id)
        else:
            t.st = "new"

    def in_TaskCancel(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is None:
            return
        if t.st == "wait" and self.exact:
            t.cancelled = True
            self.ref_done(t, C, b"")
        elif t.st in ("wait", "at", "new"):
            t.cancelled = True

    def in_TaskResult(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is None:
            return
        if m.status not in FINAL:
            return
        t.results.add((m.status, m.result))
        if t.st == "at":
            self.ref_done(t, m.status, m.result)

    def in_BalanceResponse(self, ident, m):
        for tid in m.task_ids:
            t = self.tasks.get(tid)
            if t is not None and t.st == "at" and t.worker == ident:
                self.out[ident].discard(tid)
                t.gives = (t.gives or 0) + 1
                self.ref_back(t)

    def in_GraphTask(self, ident, m):
        if m.task_id in self.graphs:
            return
        bad = self.bad_graph(m)
        if bad:
            self.expect.append(("graph?", ident, m.task_id))
            return
        for fid, (nm, content) in m.functions.items():
            self.ref_func_add(fid, nm, content)
        g = G(name=m.task_id.decode(), gid=m.task_id, client=ident, nodes=[t.task_id for t in m.graph], targets=list(m.targets), st="run",
              outs=0, cancelled=False, fns=set(m.functions))
        self.graphs[m.task_id] = g
        for t in m.graph:
            self.tasks[t.task_id] = T(tid=t.task_id, client=ident, fid=t.function_id, args=list(t.function_args), subs=0, echoes=0, rejects=0,
                                      st="inactive", cancelled=False, outs=0, results=set(), graph=m.task_id, starts=0)
            self.ref_function_use(t.function_id, t.task_id)
        self.ref_graph_ready(g)
        if not g.nodes:
            g.st = "done"
            self.expect.append(("graph", ident, g.gid, S, []))

    def bad_graph(self, m):
        ids = [t.task_id for t in m.graph]
        if len(set(ids)) != len(ids) or any(i in self.tasks for i in ids) or any(t not in ids for t in m.targets):
            return True
        deps = {t.task_id: {a.data for a in t.function_args if a.type == M.ArgumentType.Task} for t in m.graph}
        if any(d not in deps for ds in deps.values() for d in ds):
            return True
        if any(t.function_id not in m.functions and t.function_id not in self.funcs for t in m.graph):
            return True
        left = dict(deps)
        while left:
            free = [k for k, v in left.items() if not (v & set(left))]
            if not free:
                return True
            for k in free:
                del left[k]
        return False

    def in_GraphTaskCancel(self, ident, m):
        g = self.graphs.get(m.task_id)
        if g is None or g.st != "run":
            return
        g.st = "cancelled"
        g.cancelled = True
        self.ref_graph_end(g)

    def ref_func_add(self, fid, name, content):
        f = self.funcs.get(fid)
        if f is None:
            self.funcs[fid] = dict(name=name, content=content, lo=self.w.now, hi=self.w.now, users=set())
            return "OK"
        f["lo"] = f["hi"] = self.w.now
        return "Duplicated"

    def in_FunctionRequest(self, ident, m):
        f = self.funcs.get(m.function_id)
        R = M.FunctionRequestType
        if m.type == R.Check:
            self.expect.append(("func", ident, m.function_id, "OK" if f else "NotExists", None))
        elif m.type == R.Add:
            self.expect.append(("func", ident, m.function_id, self.ref_func_add(m.function_id, m.function_name, m.content), None))
        elif m.type == R.Request:
            if f:
                self.expect.append(("func", ident, m.function_id, "OK", (f["name"], f["content"])))
            else:
                self.expect.append(("func", ident, m.function_id, "NotExists", None))
        elif m.type == R.Delete:
            if not f:
                st = "NotExists"
            elif f["users"]:
                st = "StillHaveTask"
            else:
                st = "OK"
                del self.funcs[m.function_id]
            self.expect.append(("func", ident, m.function_id, st, None))

    # ------------------------------------------------------------------ reference: outputs
    def consume(self):
        log = self.w.net.sent
        binder = None
        while self.pos < len(log):
            kind, who, frames = log[self.pos]
            self.pos += 1
            if kind == "recv":
                self.ref_input(frames[0], frames[1:])
            elif kind == "router":
                try:
                    m = dec(frames)
                except Exception as e:  # noqa
                    self.fail({"C19", "C04"}, f"the scheduler sent an undecodable message {frames[:3]}: {e}")
                self.output(who, m)
            elif kind == "pub":
                self.published(dec(frames))

    def take(self, pred):
        for i, e in enumerate(self.expect):
            if pred(e):
                return self.expect.pop(i)
        return None

    def output(self, ident, m):
        h = getattr(self, "out_" + type(m).__name__, None)
        if h is None:
            self.fail({"C03", "C04"}, f"unexpected {type(m).__name__} sent to {ident!r}")
        h(ident, m)

    def out_HeartbeatEcho(self, ident, m):
        if not self.take(lambda e: e[0] == "hbecho" and e[1] == ident):
            self.fail("C24", f"heartbeat echo to {ident!r} without a heartbeat")

    def out_DisconnectResponse(self, ident, m):
        pass

    def out_TaskEcho(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is not None and t.graph is not None:
            if ident != t.client:
                self.fail("C03", f"echo of a graph node went to {ident!r}")
            if m.status == M.TaskEchoStatus.NoWorker or m.status == M.TaskEchoStatus.FunctionNotExists:
                self.fail({"C05", "C06", "C14", "C13"}, f"node {m.task_id!r} of an accepted graph was rejected: {m.status.name}")
            return
        e = self.take(lambda e: e[0] == "echo" and e[1] == ident and e[2] == m.task_id)
        if t is None or e is None:
            self.fail("C03", f"echo {m.status.name} for {m.task_id!r} to {ident!r}: nothing submitted or already answered")
        if m.status.name not in e[3]:
            self.fail({"C14", "C03", "C13"} if "NotExists" in m.status.name + str(e[3]) else {"C14", "C03"},
                      f"submission of {m.task_id!r} answered {m.status.name}, expected {sorted(e[3])}")
        t.echoes += 1
        if m.status == M.TaskEchoStatus.SubmitOK:
            if t.st in ("new", "rejected"):
                t.st, t.accepted = "wait", True
                self.ref_function_use(t.fid, t.tid)
        elif m.status != M.TaskEchoStatus.Duplicated:
            t.st = "rejected"
            t.cancelled = False
            t.rejects += 1

    def out_TaskResult(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is None:
            self.fail("C03", f"outcome for unknown task {m.task_id!r} sent to {ident!r}")
        if ident != t.client:
            self.fail("C03", f"outcome of {m.task_id!r} (client {t.client!r}) sent to {ident!r}")
        if t.graph is not None:
            return
        if not t.accepted:
            self.fail({"C03", "C14"}, f"outcome for {m.task_id!r} which was not accepted")
        if t.outs:
            self.fail("C03", f"second outcome {m.status.name} for {m.task_id!r}")
        t.outs += 1
        if m.status in (C, N) and not t.cancelled and m.status not in {x for x, _ in t.results}:
            self.fail({"C03", "C07", "C02"}, f"{m.task_id!r} ended {m.status.name} though nobody cancelled it")
        e = self.take(lambda e: e[0] == "result" and e[2] == m.task_id)
        if e is None:
            if not self.exact and m.status == C and t.cancelled:
                self.ref_done(t, C, b"")
                e = self.take(lambda e: e[0] == "result" and e[2] == m.task_id)
            else:
                self.fail({"C03", "C01"}, f"outcome {m.status.name} for {m.task_id!r} out of nowhere (reference state {t.st})")
        if m.status != e[3] and not (t.cancelled and {m.status, e[3]} <= FINAL and m.status in (C, N)):
            self.fail({"C03", "C01", "C22"}, f"outcome {m.status.name} for {m.task_id!r}, expected {e[3].name}")
        if m.status in (S, F) and e[4] is not None and m.result != e[4]:
            self.fail({"C03", "C01"}, f"outcome of {m.task_id!r} carries {m.result!r}, the worker sent {e[4]!r}")

    def out_GraphTaskResult(self, ident, m):
        if self.take(lambda e: e[0] == "graph?" and e[1] == ident and e[2] == m.task_id):
            return
        g = self.graphs.get(m.task_id)
        if g is None or ident != g.client:
            self.fail({"C03", "C06"}, f"graph outcome for {m.task_id!r} sent to {ident!r}")
        g.outs += 1
        if g.outs > 1:
            self.fail({"C03", "C06"}, f"second outcome for graph {m.task_id!r}")
        e = self.take(lambda e: e[0] == "graph" and e[2] == m.task_id)
        if e is None:
            if g.cancelled and m.status == C:
                return
            self.fail({"C05", "C06"}, f"graph {m.task_id!r} got outcome {m.status.name} in reference state {g.st}")
        if m.status != e[3]:
            self.fail({"C05", "C06"}, f"graph {m.task_id!r} got outcome {m.status.name}, expected {e[3].name}")
        if e[3] == S:
            if list(m.results) != e[4]:
                self.fail("C05", f"graph {m.task_id!r} delivered {list(m.results)!r}, sequential evaluation gives {e[4]!r}")
        elif e[3] == F and (not m.results or m.results[0] != e[4]):
            self.fail("C06", f"graph {m.task_id!r} failed with {list(m.results)!r}, the node raised {e[4]!r}")

    def out_Task(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is None or (t.graph is None and not t.accepted):
            self.fail({"C11", "C03", "C14"}, f"task {m.task_id!r}, not accepted, sent to worker {ident!r}")
        isnode = t.graph is not None
        if t.st in ("done", "dropped"):
            self.fail({"C06", "C05"} if isnode and not (t.st == "done" and t.status == S) else {"C07"} if t.cancelled else {"C02", "C05", "C11"},
                      f"task {m.task_id!r}, already ended ({t.st} {t.status}), sent to worker {ident!r}")
        if t.st == "inactive":
            self.fail({"C05"}, f"node {m.task_id!r} sent before its dependencies finished")
        if t.cancelled and self.exact:
            self.fail({"C06"} if isnode else {"C07"}, f"task {m.task_id!r} sent to a worker after its cancel")
        if t.st == "at":
            p = {"C11"}
            p |= {"C05"} if isnode else set()
            p |= {"C12"} if self.last_in == "BalanceResponse" else set()
            p |= {"C02"} if t.losses else set()
            self.fail(p, f"task {m.task_id!r} sent to {ident!r} while outstanding at {t.worker!r}")
        if isnode:
            want = [a.data if a.type == M.ArgumentType.Data else self.node_value(a.data) for a in t.args]
            if [a.data for a in m.function_args] != want or any(a.type != M.ArgumentType.Data for a in m.function_args) or m.function_id != t.fid:
                self.fail("C05", f"node {m.task_id!r} runs {m.function_id!r}{[a.data for a in m.function_args]!r}, expected {t.fid!r}{want!r}")
        elif m.function_id != t.fid or list(m.function_args) != list(t.args):
            self.fail({"C01"}, f"task {m.task_id!r} altered on its way to the worker")
        if t.fid not in self.funcs:
            self.fail("C13", f"task {m.task_id!r} sent while the scheduler's function {t.fid!r} should be gone")
        if ident not in self.conn_w:
            if self.exact:
                self.fail({"C11", "C24"}, f"task {m.task_id!r} sent to {ident!r} which is not connected")
        elif self.exact:
            load = len(self.out[ident])
            if load >= self.spec.cap:
                self.fail("C11", f"worker {ident!r} has {load} outstanding tasks, its limit is {self.spec.cap}, and gets {m.task_id!r}")
            low = min(len(x) for x in self.out.values())
            if load > low:
                self.fail("C11", f"task {m.task_id!r} sent to {ident!r} with {load} outstanding, another worker has {low}")
        t.st, t.worker, t.cancel_to = "at", ident, None
        t.starts += 1
        if isnode and t.starts > 1 + (t.losses or 0) + (t.gives or 0):
            self.fail("C05", f"node {m.task_id!r} started {t.starts} times with {t.losses or 0} losses")
        self.out.setdefault(ident, set()).add(m.task_id)
        if not self.exact and len(self.out[ident]) > self.spec.cap:
            self.fail("C11", f"worker {ident!r} has {len(self.out[ident])} outstanding tasks, its limit is {self.spec.cap}")

    def out_TaskCancel(self, ident, m):
        t = self.tasks.get(m.task_id)
        if t is None:
            self.fail("C07", f"cancel for unknown {m.task_id!r} sent to {ident!r}")
        if not t.cancelled:
            self.fail({"C07", "C06", "C03"}, f"{m.task_id!r} is cancelled at {ident!r} though nobody asked")
        if t.st == "at" and t.worker == ident:
            t.cancel_to = ident
        elif t.st == "at" and self.exact:
            self.fail("C07", f"cancel of {m.task_id!r} sent to {ident!r}, it is at {t.worker!r}")

    def out_BalanceRequest(self, ident, m):
        if not self.take(lambda e: e == ("balance", ident, m.number_of_tasks)):
            self.fail("C12", f"worker {ident!r} asked to give back {m.number_of_tasks}: expected {[e for e in self.expect if e[0] == 'balance']} "
                             f"(advice seen {self.advice_n} times)")

    def out_FunctionResponse(self, ident, m):
        e = self.take(lambda e: e[0] == "func" and e[1] == ident and e[2] == m.function_id)
        if e is None:
            if any(m.function_id in g.fns and ident == g.client for g in self.graphs.values()) and m.status.name in ("OK", "Duplicated"):
                return
            self.fail("C13", f"unexpected function response {m.status.name} for {m.function_id!r} to {ident!r}")
        if m.status.name != e[3]:
            self.fail("C13", f"function request about {m.function_id!r} answered {m.status.name}, expected {e[3]}")
        if e[4] is not None and (m.function_name, m.content) != e[4]:
            self.fail("C13", f"function {m.function_id!r} delivered as {(m.function_name, m.content)!r}, registered {e[4]!r}")

    def out_FunctionRequest(self, ident, m):
        if m.type != M.FunctionRequestType.Delete:
            self.fail("C13", f"function request {m.type} sent to {ident!r}")
        f = self.funcs.get(m.function_id)
        if f is None:
            return  # already dropped at this check; every connected worker is told
        if f["users"]:
            self.fail("C13", f"function {m.function_id!r} dropped while {sorted(f['users'])} need it")
        if not (self.w.now - f["lo"] > self.spec.retention):
            self.fail("C13", f"function {m.function_id!r} dropped {self.w.now - f['lo']} s after its last use, retention {self.spec.retention}")
        self.told = getattr(self, "told", set())
        del self.funcs[m.function_id]

    # ------------------------------------------------------------------ monitor stream
    ALLOWED = None

    def published(self, m):
        if isinstance(m, M.TaskState):
            t = self.tasks.get(m.task_id)
            if t is None:
                self.fail("C22", f"state {m.status.name} published for unknown task {m.task_id!r}")
            st, old = m.status, t.last_state
            I, R, X = M.TaskStatus.Inactive, M.TaskStatus.Running, M.TaskStatus.Canceling
            ok = {None: {I}, I: {R, C}, R: {I, X} | FINAL, X: {X, I} | FINAL}.get(old, set())
            if old in FINAL and t.accepted and t.last_state is None:
                ok = {I}
            if st not in ok:
                self.fail("C22", f"state of {m.task_id!r} published as {st.name} after {old and old.name}")
            f = self.funcs.get(t.fid)
            if f is not None and m.function_name != f["name"]:
                self.fail("C22", f"state of {m.task_id!r} published with function {m.function_name!r}, expected {f['name']!r}")
            t.last_state = st
        elif isinstance(m, M.SchedulerState):
            self.reports.append(m)

    # ------------------------------------------------------------------ settled-state invariants
    def after(self):
        dead = self.dead()
        if dead:
            self.fail(ALL, dead)
        # functions whose time has come
        if self.in_tick:
            for fid, f in list(self.funcs.items()):
                if not f["users"] and self.w.now - f["hi"] > self.spec.retention:
                    if self.conn_w:
                        self.fail("C13", f"function {fid!r} unused for {self.w.now - f['hi']} s is still kept (or workers were not told)")
                    del self.funcs[fid]
                elif not f["users"] and self.w.now - f["lo"] > self.spec.retention:
                    f["maybe"] = True  # the scheduler may or may not have dropped it
                    if not self.conn_w:
                        raise Prune()
        for e in self.expect:
            props = {"echo": {"C03", "C14"}, "result": {"C03", "C07", "C01"}, "graph": {"C05", "C06"}, "hbecho": {"C24"}, "func": {"C13"},
                     "balance": {"C12"}, "graph?": {"C04"}}[e[0]]
            if e[0] == "graph?":
                continue
            if e[0] == "graph" and e[3] != S:
                props = {"C06", "C03"}
            self.fail(props, f"missing: {e}")
        self.expect = []
        room = [i for i, ts in self.out.items() if len(ts) < self.spec.cap]
        for t in self.tasks.values():
            if t.st == "wait" and room:
                isnode = t.graph is not None
                p = {"C11", "C02"} if t.losses else {"C11"}
                if self.in_tick and self.expired:
                    p.add("C24")
                if isnode:
                    p.add("C05")
                self.fail(p, f"task {t.tid!r} waits while {sorted(room)} have room")
            if t.cancelled and t.st == "at" and t.cancel_to != t.worker:
                self.fail({"C06"} if t.graph is not None else {"C07"}, f"cancelled task {t.tid!r} is at {t.worker!r} which was never told")
            if t.cancelled and t.st == "wait":
                self.fail({"C06"} if t.graph is not None else {"C07"}, f"cancelled task {t.tid!r} is still waiting to be started")
            if t.accepted and t.last_state is not None or t.accepted:
                want = {"wait": {"Inactive"}, "at": {"Canceling" if t.cancelled else "Running"}, "done": {t.status.name if t.status else None}}.get(t.st)
                got = t.last_state.name if t.last_state else None
                if want is not None and got not in want and not (t.cancelled and t.st == "done" and got in ("Canceled", "NotFound", "Success", "Failed")):
                    self.fail({"C22", "C07"} if t.cancelled and t.graph is None else {"C22", "C06"} if t.cancelled else "C22",
                              f"task {t.tid!r} is {t.st} ({t.status and t.status.name}) but its last published state is {got}")
        if self.reports and self.in_tick and not self.expired and self.exact:
            self.check_report(json.loads(self.reports[-1].data))
        self.reports = []
        self.expired = set()

    def check_report(self, d):
        if not self.spec.status:
            return
        tm = d["task_manager"]
        want = dict(unassigned=sum(t.st == "wait" for t in self.tasks.values()), running=sum(t.st == "at" for t in self.tasks.values()),
                    success=self.totals[S], failed=self.totals[F], canceled=self.totals[C], not_found=self.totals[N])
        for k, v in want.items():
            if tm.get(k) != v:
                self.fail("C22", f"status report says {k}={tm.get(k)}, actually {v}")
        ws = {x["worker"].encode(): x for x in d["worker_manager"]}
        if set(ws) != set(self.conn_w):
            self.fail({"C22", "C24"}, f"status report lists workers {sorted(ws)}, connected are {sorted(self.conn_w)}")
        for i, x in ws.items():
            n = len(self.out[i])
            if x["sent"] != n or x["free"] != self.spec.cap - n:
                self.fail("C22", f"status report says worker {i!r} sent={x['sent']} free={x['free']}, it holds {n} of {self.spec.cap}")
            h = self.info[i]
            want = dict(queued=h.queued_tasks, lag=h.latency_us, agt_rss=h.agent_rss, rss=h.worker_rss, last=int(self.w.now - self.conn_w[i]),
                        ITL="".join(str(int(b)) for b in (h.initialized, h.has_task, h.task_lock)))
            got = {k: x.get(k) for k in want}
            if got != want or abs(x["agt_cpu"] - h.agent_cpu) > 0.002 or abs(x["cpu"] - h.worker_cpu) > 0.002:
                self.fail({"C22", "C24"}, f"status report says of worker {i!r} {x}, its last heartbeat, {want['last']} s ago, said {h}")
        p = {"C22"}
        if any(t.cancelled and t.graph is None for t in self.tasks.values()):
            p.add("C07")  # whose book-keeping has to be released
        if any(g.st in ("cancelled", "failed") for g in self.graphs.values()):
            p.add("C06")
        cl, most = {}, {}
        for t in self.tasks.values():
            if t.accepted and t.st in ("wait", "at"):
                cl[t.client.decode()] = cl.get(t.client.decode(), 0) + 1
        most = dict(cl)
        for g in self.graphs.values():
            if g.st not in ("done", "cancelled", "failed"):  # a graph may count as one of its client's
                most[g.client.decode()] = most.get(g.client.decode(), 0) + 1
        if {k: v for k, v in d["client_manager"].items() if v} not in (cl, most):
            self.fail(p, f"status report says clients hold {d['client_manager']}, actually {cl}")
        fn = {}
        for f in self.funcs.values():
            if f["users"]:
                fn[f["name"].decode()] = fn.get(f["name"].decode(), 0) + len(f["users"])
        if {k: v for k, v in d["function_manager"].items() if v} != fn:
            self.fail(p | {"C13"}, f"status report says functions have tasks {d['function_manager']}, actually {fn}")

    # ------------------------------------------------------------------ exploration interface
    def key(self):
        cn = W.Canon(self.w)
        el = self.w.now - self.t0
        return (cn.loop(self.proc.loop), tuple(cn.c(r) for r in self.proc.loop.roots), cn.c([s for s in self.proc.sockets]),
                tuple((c, tuple(v)) for c, v in self.todo.items()), tuple(self.left.items()),
                tuple(t.key() for t in self.tasks.values()), tuple(g.key() for g in self.graphs.values()),
                tuple((i, round(self.w.now - t, 3), tuple(sorted(self.out[i]))) for i, t in self.conn_w.items()),
                tuple((i, round(self.w.now - f["lo"], 3), round(self.w.now - f["hi"], 3), tuple(sorted(f["users"]))) for i, f in self.funcs.items()),
                tuple(wk.key() for wk in self.wk.values()), self.exact, self.advice and tuple(self.advice.items()), self.advice_n,
                round(el % TICK, 6), self.fault_seen)

    def outcome(self):
        return (tuple((t.tid, t.st, t.status and t.status.name) for t in self.tasks.values()), tuple(g.key() for g in self.graphs.values()))

    def unfinished(self):
        for t in self.tasks.values():
            if t.graph is None and t.accepted and not t.outs:
                yield t
            elif t.graph is not None and t.st in ("wait", "at"):
                yield t
        for g in self.graphs.values():
            if g.st == "run":
                yield g

    def drain(self):
        self.draining = True
        self.finish_all()
        if self.spec.status:
            self.tick()
            self.absorb()
        if self.spec.probe:
            self.run_probe()
        if self.spec.leak:
            self.check_leak()

    def finish_all(self):
        if self.pending():
            self.settle()
        self.absorb()
        self.left = {k: 0 for k in self.left}
        for wk in self.wk.values():
            wk.muted = False
        if not any(wk.alive for wk in self.wk.values()):
            self.join("wz")
        for rnd in range(40):
            for wk in list(self.wk.values()):
                for _ in range(40):
                    self.absorb()
                    if wk.alive and wk.conn.s2c:
                        self.worker_recv(wk, -1)
                    elif wk.alive and wk.held:
                        t = wk.held.pop(0)
                        self.inject(wk.ident, M.TaskResult(t.task_id, S, 0.5, self.result_bytes(t)))
                    else:
                        break
            self.absorb()
            if not any(True for _ in self.unfinished()) and not any(wk.alive and (wk.held or wk.conn.s2c) for wk in self.wk.values()):
                break
            self.tick()
        else:
            u = next(self.unfinished(), None)
            if isinstance(u, G):
                self.fail({"C05", "C06", "C02"}, f"graph {u.gid!r} never ends")
            if u is not None:
                p = {"C06", "C05"} if u.graph is not None else {"C07", "C03"} if u.cancelled else {"C01", "C02", "C03"}
                self.fail(p, f"task {u.tid!r} ({u.st}) never ends although a worker is alive")
            self.fail(ALL, "the system never comes to rest")

    def pending(self):
        return bool(self.proc.loop.ready) or any(s.inbox for s in self.proc.sockets)

    def run_probe(self):
        """a new client's task on a live worker completes"""
        try:
            if not any(wk.alive for wk in self.wk.values()):
                self.join("wz")
            for wk in list(self.wk.values()):
                if wk.alive and wk.ident not in self.conn_w:
                    self.heartbeat(wk)
            n = self.epoch
            self.client_op("func", "Add", "pf", client="probe")
            self.client_op("task", "probe-task", "pf", client="probe")
            self.absorb()
            tid = self.tid("probe-task")
            for _ in range(int(self.spec.timeout / TICK) + 2):
                if self.tasks[tid].st == "at" and any(wk.alive and wk.ident == self.tasks[tid].worker for wk in self.wk.values()):
                    break
                self.tick()
                self.absorb()
            for wk in list(self.wk.values()):
                while wk.alive and wk.held:
                    t = wk.held.pop(0)
                    self.inject(wk.ident, M.TaskResult(t.task_id, S, 0.5, self.result_bytes(t)))
            if not self.tasks[tid].outs:
                self.fail({"C04", "C11"}, "after this history a new client's task does not complete")
        except Violation as v:
            v.props |= {"C04"}
            raise

    # ------------------------------------------------------------------ after a violation of another property
    def salvage(self):
        """the reference no longer fits, so nothing is compared with it; what needs none is still decided: the scheduler serves,
        every accepted task and graph ends exactly once, at its client"""
        self.degraded = True
        self.check_dead()
        self.left = {k: 0 for k in self.left}
        for wk in self.wk.values():
            wk.muted = False
        if not any(wk.alive for wk in self.wk.values()):
            self.join("wz")
        self.serve(int(self.spec.timeout / TICK) + 8)
        acc, out, cancelled = {}, {}, set()
        owner, copies = {}, {}
        for kind, who, frames in self.w.net.sent:
            if kind == "pub":
                continue
            try:
                m = dec(frames[1:] if kind == "recv" else frames)
            except Exception:  # noqa
                continue
            if kind == "recv":
                if isinstance(m, M.Task):
                    owner.setdefault(m.task_id, set()).add(frames[0])
                elif isinstance(m, M.GraphTask):
                    copies[m.task_id] = copies.get(m.task_id, 0) + 1
                    for t in m.graph:
                        owner.setdefault(t.task_id, set()).add(frames[0])
                elif isinstance(m, (M.TaskCancel, M.GraphTaskCancel)):
                    cancelled.add(m.task_id)
            elif isinstance(m, M.TaskEcho) and m.status == M.TaskEchoStatus.SubmitOK:
                acc[m.task_id] = acc.get(m.task_id, 0) + 1
            elif isinstance(m, M.TaskResult):
                out[m.task_id] = out.get(m.task_id, 0) + 1
                if who not in owner.get(m.task_id, ()):
                    self.fail("C03", f"outcome of {m.task_id!r} sent to {who!r}")
            elif isinstance(m, M.GraphTaskResult):
                out[m.task_id] = out.get(m.task_id, 0) + 1
        for tid, n in acc.items():
            if tid in owner and self.tasks.get(tid) is not None and self.tasks[tid].graph is None:
                k = out.get(tid, 0)
                if k > n:
                    self.fail("C03", f"{k} outcomes of {tid!r} accepted {n} times")
                if k < n:
                    self.fail({"C07", "C03"} if tid in cancelled else {"C01", "C02", "C03"}, f"task {tid!r} never ends although a worker is alive")
        for g in self.graphs.values():
            k = out.get(g.gid, 0)
            if k > copies.get(g.gid, 0):
                self.fail({"C03", "C06"}, f"{k} outcomes of graph {g.gid!r}")
            if k == 0 and g.gid not in cancelled:
                self.fail({"C05", "C06", "C02"}, f"graph {g.gid!r} never ends")
        before = len(self.w.net.sent)
        self.inject(b"probe", M.FunctionRequest(M.FunctionRequestType.Add, b"pf", b"pf_name", b"code-pf"))
        self.inject(b"probe", M.Task(b"probe-task", b"pf", []))
        self.serve(4)
        for kind, who, frames in self.w.net.sent[before:]:
            if kind == "router" and who == b"probe":
                m = dec(frames)
                if isinstance(m, M.TaskResult) and m.task_id == b"probe-task" and m.status == S:
                    return
        self.fail("C04", "after this history a new client's task does not complete")

    def check_dead(self):
        d = self.dead()
        if d:
            self.fail(ALL, d)

    def serve(self, rounds):
        """workers take and finish whatever they get"""
        for rnd in range(rounds):
            for wk in list(self.wk.values()):
                for _ in range(60):
                    self.absorb()
                    if wk.alive and wk.conn.s2c:
                        self.worker_recv(wk, -1)
                    elif wk.alive and wk.held:
                        t = wk.held.pop(0)
                        self.inject(wk.ident, M.TaskResult(t.task_id, S, 0.5, self.result_bytes(t)))
                    else:
                        break
            self.draining = True
            self.tick()
            self.check_dead()

    # ------------------------------------------------------------------ residue
    def measure(self):
        """number of elements in every container reachable from the scheduler, per place"""
        sizes = {}
        seen = set()
        stack = []
        for t in self.proc.loop.tasks:
            if not t.done():
                co = t.get_coro()
                while co is not None and getattr(co, "cr_frame", None) is not None:
                    for k, v in co.cr_frame.f_locals.items():
                        stack.append((co.cr_frame.f_code.co_name + "." + k, v))
                    co = getattr(co, "cr_await", None)
        sizes["tasks"] = sum(1 for t in self.proc.loop.tasks if not t.done())
        while stack:
            path, o = stack.pop()
            if isinstance(o, (int, str, bytes, float, bool, type(None), type, W.World, W.SimLoop, W.Proc)) or id(o) in seen or callable(o) and not hasattr(o, "__dict__"):
                continue
            seen.add(id(o))
            if type(o).__module__.startswith(("mc.", "asyncio")) and not isinstance(o, W.asyncio.Queue):
                continue
            if isinstance(o, dict):
                sizes[path] = sizes.get(path, 0) + len(o)
                for k, v in o.items():
                    stack.append((path + "{}", k))
                    stack.append((path + "{}", v))
            elif isinstance(o, (list, tuple, set, frozenset, deque)):
                if not isinstance(o, tuple):
                    sizes[path] = sizes.get(path, 0) + len(o)
                for v in o:
                    stack.append((path + "[]", v))
            else:
                d = getattr(o, "__dict__", None)
                if d:
                    for k, v in d.items():
                        stack.append((f"{type(o).__name__}.{k}", v))
                for kl in type(o).__mro__:
                    sl = kl.__dict__.get("__slots__", ())
                    for k in (sl,) if isinstance(sl, str) else sl:
                        if hasattr(o, k):
                            stack.append((f"{type(o).__name__}.{k}", getattr(o, k)))
        return sizes

    def quiesce(self):
        """idle long enough for retention and time-outs; then every worker leaves"""
        for _ in range(int(max(self.spec.retention, self.spec.timeout) / TICK) + 3):
            self.tick()
        self.absorb()
        for wk in list(self.wk.values()):
            if wk.alive:
                wk.alive = False
                self.inject(wk.ident, M.DisconnectRequest(wk.ident))
        for _ in range(int(self.spec.timeout / TICK) + 2):
            self.tick()
        if self.expect or self.conn_w:
            self.fail({"C23", "C24"}, "workers remain after they left")

    def check_leak(self):
        trace = [a for a in self.trace]
        sizes = []
        for e in range(3):
            if e:
                self.epoch = e
                self.wk = {}
                self.exact = True
                self.advice, self.advice_n = None, 0
                self.reset_env()
                for op in self.spec.setup:
                    self.client_op(*op) if op[0] != "join" else self.join(op[1])
                self.absorb()
                for a in trace:
                    self.do(a)
                self.finish_all()
                if self.spec.probe:
                    self.run_probe()
            self.quiesce()
            sizes.append(self.measure())
            self.trace = list(trace)
        grow = {k: (sizes[0].get(k, 0), sizes[1].get(k, 0), sizes[2].get(k, 0)) for k in sizes[2]
                if sizes[0].get(k, 0) < sizes[1].get(k, 0) < sizes[2].get(k, 0)}
        if grow:
            self.fail("C23", f"state left behind grows when the history is repeated: {grow}")
