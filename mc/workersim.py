"""L2: a real worker agent with its real processors against a scheduler played by the harness, judged by what it is sent and sends."""
import pickle

import cloudpickle
import zmq

from . import coop, fakezmq, workfn
from . import world as W
from .coop import CoopThread
from .explore import Violation
from .world import Canon, World

W.import_scaled()
from scaled.protocol.python import message as M  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402
from scaled.worker.worker import Worker  # noqa: E402

ADDR = "tcp://127.0.0.1:1"
S, F, C, N = M.TaskStatus.Success, M.TaskStatus.Failed, M.TaskStatus.Canceled, M.TaskStatus.NotFound
FR, FQ = M.FunctionResponseType, M.FunctionRequestType
FIDS = {n: n.encode() * 16 for n in "fgh"}
NAMES = {v: k for k, v in FIDS.items()}
CONTENT = {n: cloudpickle.dumps(getattr(workfn, n)) for n in "fgh"}


class JobError(Exception):
    pass


def enc(msg):
    return [M.PROTOCOL.inverse[type(msg)].value, *[fakezmq.to_bytes(x) for x in msg.serialize()]]


def dec(frames):
    return M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:]))


class Job:
    """one life of a task at the worker: from receiving it to answering it"""

    def __init__(self, tid, n):
        self.tid, self.n = tid, n
        self.sent = False  # to the processor
        self.started = 0
        self.ended = None  # "result", "cancelled", "given"

    def key(self):
        return (self.tid, self.sent, self.started, self.ended)


class WorkerWorld:
    def __init__(self, hb=1000, death=100000, retention=1000, gc=100000, tracer=None, start=True):
        self.w = w = World().__enter__()
        w.tracer = tracer
        w.auto_threads = lambda name, t: name != "CacheCleaner"
        workfn.SIM[0] = self
        self.hp = w.new_proc("scheduler")
        w.cur_proc = self.hp
        self.router = fakezmq.FakeContext().socket(zmq.ROUTER)
        self.router.bind(ADDR)
        w.cur_proc = None
        self.hb, self.death = hb, death
        self.specs = {}  # tid -> (function, args)
        self.gates = set()  # tids that wait for "finish"
        self.opened = set()
        self.jobs = []
        self.held = {}  # tid -> Job
        self.cancels = []
        self.balances = []
        self.func_due = []
        self.func_asked = 0
        self.results = {}
        self.heartbeats = 0
        self.echo_due = 0
        self.disconnected = 0
        self.stopping = False
        self.running = {}  # pid -> tid
        self.pos = 0
        self.inits = set()
        self.lost = set()
        self.trace = []
        worker = Worker("builtin", ZMQConfig.from_string(ADDR), hb, gc, 1 << 40, DefaultSerializer(), retention, death)
        self.ap = w.spawn(worker)
        self.worker = worker
        w.resume(self.ap.main)
        if self.ap.main.exc is not None:
            raise Violation("C15", f"the agent does not start: {self.ap.main.exc!r}")
        self.ext = next(i for i, c in enumerate(w.net.conns) if c.address == ADDR)
        self.conn = w.net.conns[self.ext]
        self.last_echo = w.now

    # ------------------------------------------------------------ what runs
    def processors(self):
        return [p for p in self.w.procs if p not in (self.ap, self.hp)]

    def alive(self):
        return [p for p in self.processors() if p.alive]

    def conn_of(self, p):
        for i, c in enumerate(self.w.net.conns):
            if c.client is not None and c.client.proc is p:
                return i
        return None

    def execute(self, name, args):
        p = self.w.cur_proc
        tid, how = args[0], args[1]
        if self.specs[tid][0] != name or tuple(self.specs[tid][1]) != args:
            raise Violation(["C15", "C18", "C17", "C01", "*"], f"{tid} runs as {name}{args}")
        job = self.held.get(tid)
        busy = [t for pid, t in self.running.items() if self.w.proc_by_pid(pid).alive]
        if job is None or not job.sent:
            given = [j for j in self.jobs if j.tid == tid and j.ended == "given"]
            self.fail(["C15", "C12", "C16"] if given else ["C15", "C16"], f"{tid} runs although the worker does not hold it any more")
        elif busy:
            self.fail(["C15", "C16"], f"{tid} runs while {busy[0]} is running")
        else:
            job.started += 1
            if job.started > 1:
                self.fail("C15", f"{tid} runs twice")
        self.running[p.pid] = tid
        if tid in self.gates:
            coop.block(lambda: tid in self.opened, None, "job")
        t = coop.current()
        if t is not None and t.killed:
            raise coop.CoopKill()
        self.running.pop(p.pid, None)
        return self.behave(tid, how)

    def behave(self, tid, how):
        if how == "ok":
            return ("res", tid)
        raise JobError(tid)

    def expected(self, tid, m):
        """is this the answer the task must get?"""
        how = self.specs[tid][1][1]
        if how == "ok":
            return m.status == S and pickle.loads(m.result) == ("res", tid)
        if m.status != F:
            return False
        e = pickle.loads(m.result)
        return type(e).__name__ == "JobError" and str(e) == tid

    def fail(self, props, msg):
        self.trace.append((props, msg))

    # ------------------------------------------------------------ the scheduler's side
    def send(self, m):
        self.router.send_multipart([self.conn.identity, *enc(m)])
        while self.conn.s2c:
            self.w.net.deliver(self.ext, "s2c")

    def send_task(self, tid, fn="f", how="ok", gate=False):
        self.specs[tid] = (fn, (tid, how))
        if gate:
            self.gates.add(tid)
        self.send(M.Task(tid.encode(), FIDS[fn], [M.Argument(M.ArgumentType.Data, pickle.dumps(a)) for a in self.specs[tid][1]]))

    # ------------------------------------------------------------ reference: follows everything the agent received and sent
    def follow(self):
        log = self.w.net.sent
        ext, inner = self.conn.client, self.inner()
        while self.pos < len(log):
            kind, who, frames = log[self.pos]
            self.pos += 1
            if kind == "recv" and who is ext:
                self.got(dec(frames))
            elif kind == "conn" and who == self.conn.identity:
                self.said(dec(frames))
            elif kind == "pair":
                self.passed(dec(frames))
            elif kind == "recv" and who is inner:
                m = dec(frames)
                if isinstance(m, M.TaskResult) and m.task_id == b"":
                    self.inits.add(len(self.processors()))
        while self.conn.c2s:
            self.conn.c2s.popleft()
        if self.trace:
            props, msg = self.trace[0]
            raise Violation(props, msg)

    def inner(self):
        for s in self.ap.sockets:
            if s.socket_type == zmq.PAIR:
                return s

    def got(self, m):
        if isinstance(m, M.Task):
            tid = m.task_id.decode()
            if tid not in self.held:
                job = self.held[tid] = Job(tid, len(self.jobs))
                self.jobs.append(job)
        elif isinstance(m, M.TaskCancel):
            self.cancels.append(m.task_id.decode())
        elif isinstance(m, M.BalanceRequest):
            self.balances.append(m.number_of_tasks)
        elif isinstance(m, M.HeartbeatEcho):
            self.last_echo = self.w.now

    def end(self, tid, how):
        self.held.pop(tid).ended = how

    def said(self, m):
        if isinstance(m, M.TaskResult):
            tid = m.task_id.decode()
            if m.status in (C, N):
                if tid not in self.cancels:
                    self.fail(["C16", "C15"], f"{tid} was answered {m.status.name} without a cancel to answer")
                    return
                self.cancels.remove(tid)
                if tid in self.held:
                    if m.status == N:
                        self.fail(["C16", "C07", "C15"], f"cancelling {tid} was answered NotFound while the worker holds it")
                    else:
                        self.end(tid, "cancelled")
                elif m.status == C:
                    self.fail(["C16", "C15"], f"cancelling {tid} was answered Canceled although the worker does not hold it")
                return
            job = self.held.get(tid)
            if job is None:
                self.fail(["C15", "C16"], f"{tid} was answered {m.status.name} although the worker does not hold it")
                return
            if not self.result_ok(job, m):
                self.fail(["C15", "C17", "C16", "C01", "*"], f"{tid} was answered {m.status.name} with {m.result[:80]!r}")
            self.results.setdefault(tid, []).append(m)
            self.end(tid, "result")
        elif isinstance(m, M.BalanceResponse):
            if not self.balances:
                self.fail(["C12", "C15"], "a balance response nobody asked for")
                return
            n = self.balances.pop(0)
            ids = [t.decode() for t in m.task_ids]
            queued = [t for t, j in self.held.items() if not j.sent]
            if len(ids) > n:
                self.fail("C12", f"gave back {len(ids)} tasks, asked for {n}")
            elif len(ids) < min(n, len(queued) - 1):
                self.fail("C12", f"gave back {len(ids)} of {len(queued)} tasks not started, asked for {n}")
            for t in ids:
                if t not in self.held:
                    self.fail(["C12", "C15"], f"gave back {t} which the worker does not hold")
                    return
                if self.held[t].sent:
                    self.fail(["C12", "C15"], f"gave back {t} which is started")
                self.end(t, "given")
        elif isinstance(m, M.FunctionRequest):
            if m.type != FQ.Request:
                self.fail("C15", f"sent {m}")
            else:
                self.func_due.append(NAMES[m.function_id])
                self.func_asked += 1
        elif isinstance(m, M.Heartbeat):
            self.heartbeats += 1
            if self.echo_due:
                self.fail("C24", "a heartbeat while the one before is not answered")
            self.echo_due = 1
            self.check_heartbeat(m)
        elif isinstance(m, M.DisconnectRequest):
            self.disconnected += 1
            if m.worker != self.conn.identity:
                self.fail(["C24", "C26"], "left under another name")
            if self.disconnected > 1:
                self.fail(["C24", "C26"], "left twice")
        else:
            self.fail("C15", f"sent {m}")

    def result_ok(self, job, m):
        return job.started and self.expected(job.tid, m)

    def check_heartbeat(self, m):
        pass

    def passed(self, m):
        """agent to processor"""
        if isinstance(m, M.Task):
            tid = m.task_id.decode()
            job = self.held.get(tid)
            if job is None:
                self.fail(["C15", "C16", "C12"], f"{tid} goes to the processor although the worker does not hold it")
                return
            if job.sent:
                self.fail(["C15", "C16"], f"{tid} goes to the processor twice")
            for other in self.held.values():
                if other is not job and other.sent:
                    self.fail(["C15", "C16"], f"{tid} goes to the processor while {other.tid} is there")
                elif other is not job and other.n < job.n:
                    self.fail("C15", f"{tid} goes to the processor before {other.tid}, which came first")
            job.sent = True

    def check_agent(self):
        if self.ap.loop.errors:
            raise Violation(["C15", "C16", "C17", "*"], f"the agent failed: {self.ap.loop.errors[0]!r}")
        if self.w.root_done(self.ap) and not self.stopping:
            raise Violation(["C15", "C16", "C17", "*"], f"the agent ended: {self.w.root_exception(self.ap)!r}")
        for p in self.processors():
            if p.alive and p.main.state == CoopThread.DONE:
                raise Violation(["C17", "C15", "C16", "*"], f"the processor ended: {p.main.exc!r}")
        if len(self.alive()) > 1:
            raise Violation(["C16", "C15", "*"], f"{len(self.alive())} processors are alive")
        if not self.stopping and not self.alive():
            raise Violation(["C16", "*"], "no processor is alive")

    def close(self):
        self.w.close()


class WorkerSim(WorkerWorld):
    """actions: the next scripted message of the scheduler, one step of the agent's loop, one message into the agent from a
    processor, one step of a processor, the end of a running function, an answer to a function request, loss of what a
    killed processor had sent"""

    def __init__(self, ops, fine=True, func=("ok",), none=0, lose=True, early=False, free=False, **kw):
        """free: the scheduler's messages may come in every order"""
        super().__init__(**kw)
        self.free = list(range(len(ops))) if free else None
        self.ops, self.fine, self.func, self.none, self.lose = ops, fine, func, none, lose
        self.at = 0
        self.base = None
        if not early:
            self.quiet()
        self.base = self.residue()

    def actions(self):
        out = []
        if self.free is not None:
            for i in self.free:
                if self.ops[i] not in [self.ops[j] for j in self.free if j < i]:
                    out.append(("op", i))
        elif self.at < len(self.ops):
            out.append(("op",))
        if self.fine and self.ap.loop.has_work():
            out.append(("step",))
        for i, d in self.w.net.deliverable():
            if d == "c2s" and i != self.ext:
                out.append(("in", i))
        for k, p in enumerate(self.processors()):
            if p.alive and self.can_step(p):
                out.append(("proc", k))
            elif not p.alive and self.lose and k not in self.lost:
                i = self.conn_of(p)
                if i is not None and self.w.net.conns[i].c2s:
                    out.append(("lose", k))
        for tid in self.running.values():
            if tid in self.gates and tid not in self.opened:
                out.append(("finish", tid))
        if self.func_due:
            for r in self.func:
                if r != "none" or self.none:
                    out.append(("func", r))
        return out

    def can_step(self, p):
        t = p.main
        if t.state == CoopThread.DONE:
            return False
        if t.state == CoopThread.NEW:
            return True
        i = self.conn_of(p)
        if i is not None and self.w.net.conns[i].s2c and t.why == "poll":
            return True
        return t.runnable(self.w.now)

    def do(self, a):
        k = a[0]
        if k == "op":
            if self.free is not None:
                self.free.remove(a[1])
                op = self.ops[a[1]]
            else:
                op = self.ops[self.at]
                self.at += 1
            getattr(self, "op_" + op[0])(*op[1:])
        elif k == "step":
            self.w.step_loop(self.ap)
        elif k == "in":
            self.w.net.deliver(a[1], "c2s")
        elif k == "proc":
            self.step_proc(self.processors()[a[1]])
        elif k == "finish":
            self.opened.add(a[1])
            for p in self.alive():
                if p.main.state == CoopThread.BLOCKED and p.main.why == "job" and p.main.runnable(self.w.now):
                    self.w.resume(p.main)
        elif k == "func":
            self.op_function(a[1])
        elif k == "lose":
            self.lost.add(a[1])
            self.w.net.conns[self.conn_of(self.processors()[a[1]])].c2s.clear()
        self.after()

    def after(self):
        self.follow()
        if not self.fine:
            for _ in range(300):
                if not self.w.step_loop(self.ap):
                    break
                self.follow()
        self.check_agent()

    def step_proc(self, p):
        t = p.main
        i = self.conn_of(p)
        if i is not None and self.w.net.conns[i].s2c:
            self.w.net.deliver(i, "s2c")
        if t.runnable(self.w.now):
            self.w.resume(t)
        if t.state == CoopThread.DONE and t.exc is not None and isinstance(t.exc, Violation):
            raise t.exc

    # scheduler's operations
    def op_task(self, tid, fn="f", how="ok", gate=True):
        self.send_task(tid, fn, how, gate)

    def op_cancel(self, tid):
        self.send(M.TaskCancel(tid.encode()))

    def op_balance(self, n):
        self.send(M.BalanceRequest(n))

    def op_delete(self, fn):
        self.send(M.FunctionRequest(FQ.Delete, FIDS[fn], b"", b""))

    def op_echo(self):
        self.echo_due = 0
        self.send(M.HeartbeatEcho())

    def op_response(self, fn):
        """a response nobody waits for any more"""
        self.send(M.FunctionResponse(FR.OK, FIDS[fn], fn.encode(), CONTENT[fn]))

    def op_function(self, how):
        fn = self.func_due.pop(0)
        if how == "ok":
            self.send(M.FunctionResponse(FR.OK, FIDS[fn], fn.encode(), CONTENT[fn]))
        else:
            self.none -= 1
            self.noted_missing(fn)
            self.send(M.FunctionResponse(FR.NotExists, FIDS[fn], b"", b""))

    def noted_missing(self, fn):
        self.missing = getattr(self, "missing", set()) | {fn}

    def result_ok(self, job, m):
        fn = self.specs[job.tid][0]
        if fn in getattr(self, "missing", ()) and not job.started:
            return m.status == F and isinstance(pickle.loads(m.result), Exception)
        return super().result_ok(job, m)

    # ------------------------------------------------------------ to the end
    def quiet(self, limit=400):
        """let everything that can happen without the scheduler's operations happen"""
        for _ in range(limit):
            n = False
            if self.w.step_loop(self.ap):
                n = True
                self.follow()
                self.check_agent()
            for i, d in self.w.net.deliverable():
                if d == "c2s" and i != self.ext:
                    self.w.net.deliver(i, "c2s")
                    n = True
                    break
            for p in self.alive():
                if self.can_step(p):
                    self.step_proc(p)
                    n = True
            for tid in list(self.running.values()):
                if tid in self.gates and tid not in self.opened:
                    self.do(("finish", tid))
                    n = True
            while self.func_due:
                self.op_function("ok")
                n = True
            self.follow()
            self.check_agent()
            if not n:
                return
        raise Violation(["C15", "C16", "*"], "the worker never comes to rest")

    def drain(self):
        self.quiet()
        if self.held:
            raise Violation(["C15", "C16", "C17", "C01", "*"], f"{sorted(self.held)} are never answered")
        if self.cancels:
            raise Violation(["C16", "C15", "*"], f"cancelling {self.cancels} is never answered")
        if self.balances:
            raise Violation(["C12", "C15", "*"], "a balance request is never answered")
        left = self.residue()
        if left != self.base:
            raise Violation("C23", f"the worker holds {left} instead of {self.base}")
        for i, fn in enumerate("fg"):
            tid = f"probe{i}"
            self.send_task(tid, fn)
            self.quiet()
            r = self.results.get(tid, [])
            if len(r) != 1 or r[0].status != S:
                raise Violation(["C15", "C16", "C17", "*"], f"a task sent after this history is answered {r}")

    def residue(self):
        """per-task state of the agent"""
        out = {}
        for name, o in vars(self.worker).items():
            if type(o).__module__.startswith("scaled.worker"):
                for k, v in vars(o).items():
                    if "statistic" in k:
                        continue
                    if hasattr(v, "__len__") and not isinstance(v, (str, bytes)):
                        out[f"{name}.{k}"] = len(v)
                    elif type(v).__module__.startswith("scaled.") and hasattr(v, "task"):
                        out[f"{name}.{k}.task"] = v.task is not None
        return out

    def key(self):
        c = Canon(self.w)
        procs = tuple((p.alive, c.thread(p.main), c.c(p.obj) if p.alive else None) for p in self.processors())
        conns = tuple((x.c_open, tuple(map(tuple, x.c2s)), tuple(map(tuple, x.s2c))) for x in self.w.net.conns)
        socks = tuple((s.socket_type, tuple(map(tuple, s.inbox))) for p in self.w.procs if p.alive for s in p.sockets if not s.closed)
        return (self.at, self.free and tuple(sorted(repr(self.ops[i]) for i in self.free)), self.none, tuple(j.key() for j in self.jobs), tuple(self.held), tuple(self.cancels), tuple(self.balances), tuple(self.func_due),
                tuple(sorted(self.opened)), tuple(sorted(self.lost)), repr(procs), repr(conns), repr(socks), self.loop_key(c), repr(c.c(self.worker_state())))

    def worker_state(self):
        return {k: v for k, v in vars(self.worker).items() if type(v).__module__.startswith("scaled.")}

    def loop_key(self, c):
        out = []
        for t in self.ap.loop.tasks:
            if not t.done():
                out.append(repr(c.coro(t.get_coro())))
        ready = tuple(getattr(h._callback, "__qualname__", type(h._callback).__name__) for h in self.ap.loop.ready)
        return (tuple(out), ready)

    def outcome(self):
        return repr([j.key() for j in self.jobs])
