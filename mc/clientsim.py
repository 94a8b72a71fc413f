"""L3: the real Client (its receive thread and user threads included) against a scheduler played by the harness."""
import pickle
from concurrent.futures import CancelledError

from . import fakezmq
from . import world as W
from .coop import CoopThread
from .threads import make_tracer, schedule
from .explore import Prune, Violation
from .world import Canon, World

W.import_scaled()

import zmq  # noqa: E402
import cloudpickle  # noqa: E402
from scaled.client import Client  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.utility import exceptions as EXC  # noqa: E402

ADDR = "tcp://127.0.0.1:1"
S, F, C, N = M.TaskStatus.Success, M.TaskStatus.Failed, M.TaskStatus.Canceled, M.TaskStatus.NotFound
E = M.TaskEchoStatus
FR = M.FunctionResponseType
ALL = ["C01", "C08", "C09", "C10"]

NS = {"__name__": "not_importable"}
exec("\n".join(f"def {n}(*a):\n    return ('{n}', a)" for n in ("f", "g", "na", "nb", "nc", "f2")), NS)
NS["f2"].__name__ = NS["f2"].__qualname__ = "f"  # another function of the same name


def tag(content):
    """which of these functions it is"""
    return cloudpickle.loads(content)()[0]


GRAPHS = {
    "chain": {"x": 1, "a": (NS["na"], "x"), "b": (NS["nb"], "a", "a"), "c": (NS["nc"], "b")},
    "two": {"a": (NS["na"],), "b": (NS["nb"],), "y": 5},
    "names": {"a": (NS["f2"],), "b": (NS["f"], "a")},
    "same": {"a": (NS["f"],), "b": (NS["nb"], "a")},
}


class Boom(Exception):
    pass


def bad_load():
    raise ValueError("cannot be rebuilt")


class BadLoad:
    def __reduce__(self):
        return bad_load, ()


BAD_VALUE = pickle.dumps(BadLoad())
NOT_EXC = pickle.dumps(17)


class H:
    """one future the client handed out"""

    def __init__(self, key, what, future):
        self.key, self.what, self.future = key, what, future
        self.out = None  # None: pending; ("value", v), ("exc", type or None), ("cancelled",), ("disconnect",)
        self.echoed = False
        self.seen = []

    def observe(self):
        f = self.future
        if f.cancelled():
            return ("cancelled",)
        if not f.done():
            return None
        e = f.exception()
        if e is None:
            return ("value", f.result())
        if isinstance(e, EXC.ScaledDisconnect):
            return ("disconnect",)
        return ("exc", type(e).__name__, str(e))


class Sent:
    """one task or graph the server has seen"""

    def __init__(self, key, tid, msg):
        self.key, self.tid, self.msg = key, tid, msg
        self.n = 1
        self.echo_due = 1
        self.accepted = False
        self.rejected = False
        self.finished = 0
        self.cancelled = False
        self.fne = 0
        self.bad = False  # some answer was not a success


class ClientWorld:
    def __init__(self, tracer=None):
        self.w = World().__enter__()
        self.w.tracer = tracer
        self.cp = self.w.new_proc("client")
        self.hp = self.w.new_proc("server")
        self.w.cur_proc = self.hp
        self.router = fakezmq.FakeContext().socket(zmq.ROUTER)
        self.router.bind(ADDR)
        self.w.cur_proc = None
        self.client = self.w.in_proc(self.cp, Client, ADDR)
        self.ct = self.cp.threads[0]
        self.conn = self.w.net.conns[0]
        self.functions = {}  # fid -> name, as registered at the server now
        self.func_adds = {}  # fid -> number of adds seen
        self.func_due = []  # responses owed
        self.added_ever = {}
        self.sent = {}  # key -> Sent
        self.by_tid = {}
        self.handles = {}  # key -> [H]
        self.cancels = set()
        self.stopped = False  # disconnect was asked for
        self.recv_pos = 0
        self.users = []
        self.returned = {}
        self.user_errors = {}

    # ------------------------------------------------------------ server side
    def server_take(self):
        """the server reads everything that has been sent"""
        while self.conn.c2s:
            self.w.net.deliver(0, "c2s")
        while self.router.inbox:
            cid, kind, *data = self.router.inbox.popleft()
            m = M.PROTOCOL[M.MessageType(kind)].deserialize(data)
            if isinstance(m, M.FunctionRequest):
                if m.type != M.FunctionRequestType.Add:
                    raise Violation("C09", f"unexpected {m}")
                name = tag(m.content)
                if m.function_name.decode() != NS[name].__name__:
                    raise Violation("C09", f"function {name} was registered as {m.function_name!r}")
                self.func_due.append((m.function_id, m.function_id in self.functions))
                if m.function_id not in self.functions:
                    self.functions[m.function_id] = self.added_ever[m.function_id] = name
            elif isinstance(m, M.Task):
                args = tuple(pickle.loads(a.data) for a in m.function_args)
                if m.function_id not in self.added_ever:
                    raise Violation(["C09", "*"], f"the task with arguments {args} reached the scheduler without its function")
                key = (self.added_ever[m.function_id],) + args
                s = self.sent.get(key)
                if s is None:
                    self.sent[key] = self.by_tid[m.task_id] = s = Sent(key, m.task_id, m)
                else:
                    if s.tid != m.task_id or s.msg != m:
                        raise Violation("C09", f"the task {key} reached the scheduler with another id or content")
                    s.n += 1
                    s.echo_due += 1
                    if s.n > 1 + s.fne:
                        raise Violation("C09", f"the task {key} was sent {s.n} times, its function was missing {s.fne} times")
            elif isinstance(m, M.GraphTask):
                for fid, (n, content) in m.functions.items():
                    if NS[tag(content)].__name__ != n.decode():
                        raise Violation("C09", "graph function registered under another name")
                key = ("graph", self.graph_key(m))
                if m.task_id in self.by_tid:
                    raise Violation("C09", "a graph was sent twice")
                while key in self.sent:
                    key = key + ("again",)
                self.sent[key] = self.by_tid[m.task_id] = s = Sent(key, m.task_id, m)
                s.accepted = True
                s.echo_due = 0
            elif isinstance(m, (M.TaskCancel, M.GraphTaskCancel)):
                self.cancels.add(m.task_id)
                if m.task_id in self.by_tid:
                    s = self.by_tid[m.task_id]
                    s.cancelled = True
                    if isinstance(s.msg, M.GraphTask) != isinstance(m, M.GraphTaskCancel):
                        raise Violation("C08", f"{s.key} was cancelled with {m}")
            else:
                raise Violation("C09", f"the client sent {m}")

    @staticmethod
    def graph_key(m):
        """which graph and which targets"""
        names = {t.task_id: tag(m.functions[t.function_id][1]) for t in m.graph}
        return (tuple(sorted(names.values())), tuple(names[t] for t in m.targets))

    def node_values(self, s):
        names = {t.task_id: tag(s.msg.functions[t.function_id][1]) for t in s.msg.graph}
        return [("node", names[t]) for t in s.msg.targets]

    def send(self, m):
        self.router.send_multipart([self.conn.identity, M.PROTOCOL.inverse[type(m)].value, *m.serialize()])
        while self.conn.s2c:
            self.w.net.deliver(0, "s2c")

    # replies; each also says what it does to the futures once the client has processed it
    def reply_function(self):
        fid, dup = self.func_due.pop(0)
        self.send(M.FunctionResponse(FR.Duplicated if dup else FR.OK, fid, b"", b""))

    def reply_echo(self, s, status):
        s.echo_due -= 1
        if status == E.SubmitOK:
            s.accepted = True
        elif status == E.NoWorker:
            s.rejected = True
        elif status == E.FunctionNotExists:
            s.fne += 1
            self.functions.pop(s.msg.function_id, None)
        self.send(M.TaskEcho(s.tid, status))

    def reply_result(self, s, how):
        s.finished += 1
        s.bad = s.bad or how != "ok"
        if isinstance(s.msg, M.GraphTask):
            st, data = {"ok": (S, [pickle.dumps(v) for v in self.node_values(s)]), "fail": (F, [pickle.dumps(Boom(repr(s.key)))]),
                        "badvalue": (S, [BAD_VALUE] + [pickle.dumps(v) for v in self.node_values(s)][1:]), "badexc": (F, [BAD_VALUE]), "notexc": (F, [NOT_EXC]),
                        "canceled": (C, [b""]), "notfound": (N, [b""])}[how]
            self.send(M.GraphTaskResult(s.tid, st, data))
            return
        st, data = {"ok": (S, pickle.dumps(("res",) + s.key)), "fail": (F, pickle.dumps(Boom(repr(s.key)))), "badvalue": (S, BAD_VALUE), "badexc": (F, BAD_VALUE),
                    "notexc": (F, NOT_EXC), "canceled": (C, b""), "notfound": (N, b"")}[how]
        self.send(M.TaskResult(s.tid, st, 0.5, data))

    # ------------------------------------------------------------ reference: what the receive thread has processed
    def absorb(self):
        log = self.w.net.sent
        while self.recv_pos < len(log):
            kind, sock, frames = log[self.recv_pos]
            self.recv_pos += 1
            if kind == "recv" and sock is not self.router:
                self.processed(M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:])))

    def processed(self, m):
        if isinstance(m, (M.TaskEcho, M.TaskResult, M.GraphTaskResult)):
            s = self.by_tid.get(m.task_id)
            if s is None:
                return
            hs = self.handles.get(s.key, [])
            for h in hs:
                h.seen.append(m)
        if isinstance(m, M.TaskEcho):
            for h in hs:
                if m.status == E.SubmitOK and h.out is None:
                    h.echoed = True
                elif m.status == E.NoWorker and h.out is None and not h.echoed:
                    h.out = ("exc", None, None)
        elif isinstance(m, M.TaskResult):
            for h in hs:
                if h.out is None:
                    h.out = self.outcome_of(m.status, m.result)
        elif isinstance(m, M.GraphTaskResult):
            for i, h in enumerate(hs):
                if h.out is None:
                    j = h.what[1] if m.status == S else 0
                    h.out = self.outcome_of(m.status, m.results[j])

    @staticmethod
    def outcome_of(status, data):
        if status == S:
            return ("exc", None, None) if data == BAD_VALUE else ("value", pickle.loads(data))
        if status == F:
            if data in (BAD_VALUE, NOT_EXC):
                return ("exc", None, None)
            e = pickle.loads(data)
            return ("exc", type(e).__name__, str(e))
        return ("ended",)

    def check_handles(self, final=False):
        for hs in self.handles.values():
            for h in hs:
                got, want = h.observe(), h.out
                ok = got == want
                if want is not None and want[0] == "exc" and want[1] is None:
                    ok = got is not None and got[0] == "exc"
                if want is not None and want[0] == "ended":
                    ok = got is not None and got[0] in ("exc", "cancelled")
                if want is not None and want[0] == "user":
                    ok = got == ("cancelled",)
                if not ok:
                    props = ["C01", "C10", "C09", "*"] if not self.stopped else ["C08"]
                    if got == ("disconnect",) and want is not None:
                        props = ["C08"]
                    raise Violation(props, f"the future of {h.key} is {got} instead of {want}")

    def check_alive(self):
        if self.ct.state == CoopThread.DONE:
            if self.ct.exc is not None:
                raise Violation(["C10", "C09", "C08", "*"], f"the receive thread died: {self.ct.exc!r}")
            if not self.may_have_stopped():
                raise Violation(["C09", "C10", "*"], "the receive thread ended")

    def may_have_stopped(self):
        return self.stopped

    # ------------------------------------------------------------ user operations (run in the calling thread)
    def op_submit(self, f, n):
        key = (f, n)
        try:
            fut = self.client.submit(NS[f], n)
        except Exception as e:  # noqa
            self.submit_refused(key, e)
            return None
        h = H(key, ("task",), fut)
        self.handles.setdefault(key, []).append(h)
        return h

    def submit_refused(self, key, e):
        if not (isinstance(e, EXC.ScaledDisconnect) and self.may_have_stopped()):
            raise Violation(["C09", "C08", "C01", "*"], f"submitting {key} failed: {e!r}")

    def register_get(self, gname, keys, futures):
        g = GRAPHS[gname]
        names = {k: v[0]()[0] for k, v in g.items() if isinstance(v, tuple)}
        targets = [k for k in dict.fromkeys(keys) if k in names]
        gk = ("graph", (tuple(sorted(names.values())), tuple(names[k] for k in targets)))
        while gk in self.handles:
            gk = gk + ("again",)
        hs = []
        for i, k in enumerate(targets):
            hs.append(H(gk, ("node", i), futures[k]))
        self.handles[gk] = hs
        for k in set(keys) - set(targets):
            if not futures[k].done() or futures[k].result() != g[k]:
                raise Violation(["C25", "C09"], f"the constant {k} was answered with {futures[k]}")

    def op_get(self, gname, keys):
        try:
            futures = self.client.get(GRAPHS[gname], list(keys), block=False)
        except Exception as e:  # noqa
            if not (isinstance(e, EXC.ScaledDisconnect) and self.may_have_stopped()):
                raise Violation(["C09", "C08", "C25", "*"], f"get failed: {e!r}")
            return
        if set(futures) != set(keys):
            raise Violation("C25", f"get returned the keys {sorted(futures)} for {keys}")
        self.register_get(gname, keys, futures)

    def op_disconnect(self):
        self.stopped = True
        self.client.disconnect()

    def op_cancel(self, key):
        for h in self.handles.get(key, []):
            r = h.future.cancel()
            if h.out is None and not h.echoed:
                if not r:
                    raise Violation(["C10"], f"the pending future of {key} refused to be cancelled")
                h.out = ("user",)

    def residue(self):
        n = {}
        for k, v in vars(self.client).items():
            if isinstance(v, (dict, list, set)) and not (isinstance(v, dict) and v and all(callable(x) for x in v)):
                n[k] = len(v)
        return n

    def close(self):
        self.client._stop_event.set() if hasattr(self.client, "_stop_event") else None
        self.w.close()


class ClientSim(ClientWorld):
    """message level: every order of user operations, server answers and wake-ups of the receive thread"""

    def __init__(self, ops, echoes=("ok",), results=("ok",), dups=0, strays=0, wild=0, fne=1):
        super().__init__()
        self.ops, self.echoes, self.results = ops, echoes, results
        self.fne = fne
        self.dups, self.strays, self.wild = dups, strays, wild
        self.pos = 0
        self.exited = False

    def actions(self):
        out = []
        if self.pos < len(self.ops):
            out.append(("op",))
        if self.ct.state != CoopThread.DONE:
            out.append(("wake",))
        if self.func_due:
            out.append(("func",))
        for key, s in self.sent.items():
            if s.echo_due:
                for e in self.echoes:
                    if e == "missing" and s.fne >= self.fne:
                        continue
                    out.append(("echo", key, e))
            if (s.accepted or self.wild) and s.finished <= (self.dups > 0) and (s.finished == 0 or self.dups) and not s.rejected:
                for r in self.results:
                    out.append(("result", key, r))
        if self.strays:
            for i in range(3):
                out.append(("stray", i))
        return out

    ECHO = {"ok": E.SubmitOK, "noworker": E.NoWorker, "missing": E.FunctionNotExists, "dup": E.Duplicated}

    def do(self, a):
        k = a[0]
        if k == "op":
            op = self.ops[self.pos]
            self.pos += 1
            self.user(op)
        elif k == "wake":
            self.wake()
        elif k == "func":
            self.reply_function()
        elif k == "echo":
            s = self.sent[a[1]]
            if a[2] == "dup":
                s.echo_due -= 1
                s.accepted = True
                self.send(M.TaskEcho(s.tid, E.Duplicated))
            else:
                self.reply_echo(s, self.ECHO[a[2]])
        elif k == "result":
            s = self.sent[a[1]]
            if s.finished:
                self.dups -= 1
            if not s.accepted:
                self.wild -= 1
            self.reply_result(s, a[2])
        elif k == "stray":
            self.strays -= 1
            self.send([M.TaskResult(b"unknown", S, 0, b""), M.TaskEcho(b"unknown", E.SubmitOK), M.GraphTaskResult(b"unknown", S, [])][a[1]])
        self.after()

    def wake(self):
        t = self.ct
        self.w.resume(t)
        if t.state == CoopThread.BLOCKED and t.runnable(self.w.now):
            self.w.resume(t)

    def user(self, op):
        name, args = op[0], op[1:]
        if name in ("map", "getblock", "wait"):
            rec = {"op": op, "state": "run"}
            rec["thread"] = self.w.new_thread(self.cp, "user", lambda: self.blocking(rec))
            self.users.append(rec)
            return
        if name == "chain":
            h = self.w.in_proc(self.cp, self.op_submit, args[0], args[1])
            if h is not None:
                h.future.add_done_callback(lambda f: f.cancelled() or self.op_submit(args[0], args[2]))
            return
        if name == "badcallback":
            h = self.w.in_proc(self.cp, self.op_submit, args[0], args[1])
            if h is not None:
                h.future.add_done_callback(lambda f: 1 / 0)
            return
        self.w.in_proc(self.cp, lambda: getattr(self, "op_" + name)(*args))

    def blocking(self, rec):
        op = rec["op"]
        try:
            if op[0] == "map":
                rec["value"] = self.client.map(NS[op[1]], ((n,) for n in op[2]))
            elif op[0] == "getblock":
                rec["value"] = self.client.get(GRAPHS[op[1]], list(op[2]))
            rec["state"] = "returned"
        except Exception as e:  # noqa
            rec["state"] = "raised"
            rec["value"] = e

    def may_have_stopped(self):
        """map and get disconnect when they fail"""
        if not self.stopped:
            for rec in self.users:
                op = rec["op"]
                for s in self.sent.values():
                    if (s.rejected or s.bad) and (s.key[0] == op[1] if op[0] == "map" else s.key[0] == "graph"):
                        self.stopped = True
        return self.stopped

    def run_users(self):
        for _ in range(20):
            n = False
            for rec in self.users:
                t = rec["thread"]
                if t.state != CoopThread.DONE and t.runnable(self.w.now):
                    self.w.resume(t)
                    n = True
            if not n:
                return

    def after(self):
        self.run_users()
        self.absorb()
        self.server_take()
        self.check_alive()
        for rec in self.users:
            if rec["state"] == "raised" and not self.stopped:
                self.stopped = True  # map and get disconnect when they fail
        self.on_exit()
        self.check_handles()
        self.check_users()

    def on_exit(self):
        if self.ct.state == CoopThread.DONE and not self.exited:
            self.exited = True
            for hs in self.handles.values():
                for h in hs:
                    if h.out is None:
                        h.out = ("disconnect",)
            for s in self.sent.values():
                hs = self.handles.get(s.key)
                if hs is None:
                    continue
                ended = any(isinstance(m, (M.TaskResult, M.GraphTaskResult)) or getattr(m, "status", None) == E.NoWorker for h in hs for m in h.seen)
                if not ended and not s.cancelled:
                    raise Violation("C08", f"{s.key} is outstanding and was not cancelled when the client disconnected")

    def check_users(self):
        for rec in self.users:
            op = rec["op"]
            if op[0] == "map":
                keys = [(op[1], n) for n in op[2]]
                if rec["state"] == "returned":
                    want = [("res",) + k for k in keys]
                    if rec["value"] != want:
                        raise Violation("C01", f"map returned {rec['value']} instead of {want}")
                elif rec["state"] == "raised":
                    if isinstance(rec["value"], EXC.ScaledDisconnect) and not self.stopped:
                        raise Violation(["C01", "C08"], f"map raised {rec['value']!r}")
            elif op[0] == "getblock" and rec["state"] == "returned":
                g = GRAPHS[op[1]]
                want = {k: ("node", g[k][0].__name__) if isinstance(g[k], tuple) else g[k] for k in op[2]}
                if rec["value"] != want:
                    raise Violation(["C25", "C05", "C01"], f"get returned {rec['value']} instead of {want}")

    def finish_benign(self):
        """answer everything with success and let the client work until nothing happens"""
        for _ in range(60):
            n = self.state_mark()
            while self.func_due:
                self.do(("func",))
            for s in list(self.sent.values()):
                while s.echo_due:
                    self.do(("echo", s.key, "ok"))
                if s.accepted and not s.finished:
                    self.do(("result", s.key, "ok"))
            if self.ct.state != CoopThread.DONE:
                self.do(("wake",))
            if n == self.state_mark() and not self.func_due:
                break

    def state_mark(self):
        return (len(self.w.net.sent), tuple((s.key, s.finished, s.echo_due) for s in self.sent.values()), tuple(r["state"] for r in self.users), self.ct.state)

    def drain(self):
        while self.pos < len(self.ops):
            self.do(("op",))
            self.do(("wake",)) if self.ct.state != CoopThread.DONE else None
        self.finish_benign()
        for hs in self.handles.values():
            for h in hs:
                if not h.future.done():
                    raise Violation(["C01", "C08", "C09", "C10", "*"], f"the future of {h.key} never completes")
        for rec in self.users:
            if rec["state"] == "run":
                raise Violation(["C01", "C08", "*"], f"{rec['op']} never returns")
        left = {k: v for k, v in self.residue().items() if v}
        if left:
            raise Violation("C23", f"the client still holds {left}")
        if not self.stopped:
            self.user(("submit", "f", "probe"))
            self.after()
            self.finish_benign()
            h = self.handles[("f", "probe")][0]
            if h.observe() != ("value", ("res", "f", "probe")):
                raise Violation(["C10", "C09", "*"], f"a task submitted after this history ended with {h.observe()}")
            self.user(("disconnect",))
            self.after()
        for _ in range(3):
            if self.ct.state != CoopThread.DONE:
                self.do(("wake",))
        if self.ct.state != CoopThread.DONE:
            raise Violation(["C08", "*"], "the receive thread does not end after disconnect")
        # nothing may hang now
        done = []

        def late():
            try:
                done.append(self.client.submit(NS["f"], "late"))
            except Exception as e:  # noqa
                done.append(e)
            try:
                done.extend(self.client.get(GRAPHS["two"], ["a"], block=False).values())
            except Exception as e:  # noqa
                done.append(e)

        t = self.w.new_thread(self.cp, "late", late)
        self.w.resume(t)
        if t.state != CoopThread.DONE:
            raise Violation("C08", "submitting after disconnect blocks")
        for f in done:
            if not isinstance(f, Exception) and not f.done():
                raise Violation(["C08", "*"], "a future handed out after disconnect never completes")

    def key(self):
        c = Canon(self.w)
        return (self.pos, self.dups, self.strays, self.wild, tuple((s.key, s.n, s.echo_due, s.accepted, s.rejected, s.finished, s.cancelled, s.fne) for s in self.sent.values()),
                tuple(self.functions), tuple(self.func_due), tuple((h.key, repr(h.out), h.echoed) for hs in self.handles.values() for h in hs),
                self.stopped, self.exited, repr(c.c(vars(self.client))), repr(c.thread(self.ct)), repr(c.c(self.conn.client)),
                tuple((r["state"], repr(c.thread(r["thread"]))) for r in self.users))

    def outcome(self):
        return repr(sorted((str(h.key), str(h.out)) for hs in self.handles.values() for h in hs))


# ---------------------------------------------------------------- thread level
class ThreadRun(ClientWorld):
    """one execution: user threads, the receive thread, and a server that answers at once"""

    def __init__(self, programs, files, opcodes, fne=(), results=None, noworker=()):
        self.recording = False
        super().__init__(make_tracer(files, opcodes))
        self.programs = programs
        self.fne = set(fne)
        self.noworker = set(noworker)
        self.how = results or {}
        self.threads = []
        self.disconnected_by = None
        for i, prog in enumerate(programs):
            self.threads.append(self.w.new_thread(self.cp, f"user{i}", lambda prog=prog: self.program(prog)))
        self.errors = []

    def program(self, prog):
        for op in prog:
            name, args = op[0], op[1:]
            if name == "map":
                try:
                    v = self.client.map(NS[args[0]], [(n,) for n in args[1]])
                except EXC.ScaledDisconnect:
                    if not self.stopped:
                        raise
                    continue
                want = [("res", args[0], n) for n in args[1]]
                if v != want:
                    self.errors.append(Violation("C01", f"map returned {v} instead of {want}"))
            elif name == "getblock":
                try:
                    v = self.client.get(GRAPHS[args[0]], list(args[1]))
                except EXC.ScaledDisconnect:
                    if not self.stopped:
                        raise
                    continue
                g = GRAPHS[args[0]]
                want = {k: ("node", g[k][0].__name__) if isinstance(g[k], tuple) else g[k] for k in args[1]}
                if v != want:
                    self.errors.append(Violation(["C25", "C01", "C09"], f"get returned {v} instead of {want}"))
            elif name == "wait":
                for h in self.handles.get(args[0], []):
                    try:
                        h.future.result()
                    except (Exception, CancelledError):  # noqa
                        pass
            elif name == "cancel":
                for h in self.handles.get(args[0], []):
                    h.out = ("maybe",) if h.future.cancel() else None
            else:
                getattr(self, "op_" + name)(*args)

    def server(self):
        self.server_take()
        while self.func_due:
            self.reply_function()
            self.server_take()
        for s in list(self.sent.values()):
            while s.echo_due:
                if s.key in self.fne and not s.fne:
                    self.reply_echo(s, E.FunctionNotExists)
                elif s.key in self.noworker:
                    self.reply_echo(s, E.NoWorker)
                else:
                    self.reply_echo(s, E.SubmitOK)
            if s.accepted and not s.finished:
                self.reply_result(s, self.how.get(s.key, "ok"))

    def run(self, ch):
        everyone = self.threads + [self.ct]

        def environment():
            if self.conn.c2s or self.router.inbox or self.func_due:
                self.server()
            if self.errors:
                raise self.errors[0]

        def died(t):
            raise Violation(["C09", "C08", "C10", "*"], f"thread {t.name} died: {t.exc!r}")

        schedule(self.w, ch, lambda: everyone, environment, died, lambda: len(self.w.net.sent), ["C09", "C08"])
        return self.finish(everyone)

    def finish(self, everyone):
        for t in self.threads:
            if t.state != CoopThread.DONE:
                raise Violation(["C08", "C09"] if self.stopped else ["C09"], f"{t.name} hangs ({t.why})")
        ended = self.ct.state == CoopThread.DONE
        if ended != self.stopped:
            raise Violation(["C08", "C09"], "the receive thread ended" if ended else "the receive thread does not end after disconnect")
        outs = []
        for hs in self.handles.values():
            for h in hs:
                got = h.observe()
                if got is None:
                    raise Violation(["C08"] if self.stopped else ["C09", "C01"], f"the future of {h.key} never completes")
                s = self.sent.get(h.key)
                how = self.how.get(h.key, "ok")
                if h.key in self.noworker:
                    ok = got[0] == "exc"
                elif h.what[0] == "task":
                    ok = got == (("value", ("res",) + h.key) if how == "ok" else ("exc", "Boom", repr(h.key)))
                else:
                    ok = s is not None and got == (("value", self.node_values(s)[h.what[1]]) if how == "ok" else ("exc", "Boom", repr(h.key)))
                if not ok and got == ("disconnect",) and self.stopped:
                    ok = True
                    if s is not None and not s.cancelled:
                        raise Violation("C08", f"{h.key} was outstanding at disconnect and was not cancelled")
                if not ok and h.out == ("maybe",) and got == ("cancelled",):
                    ok = True
                if not ok:
                    raise Violation(["C01", "C09"], f"the future of {h.key} ended with {got}")
                if s is None and got != ("disconnect",) and got != ("cancelled",):
                    raise Violation(["C09", "*"], f"{h.key} never reached the scheduler")
                outs.append((str(h.key), got[0]))
        if not self.stopped:
            for s in self.sent.values():
                if s.n != 1 + s.fne:
                    raise Violation("C09", f"{s.key} was sent {s.n} times")
            left = {k: v for k, v in self.residue().items() if v}
            if left:
                raise Violation(["C09", "C23"], f"the client still holds {left}")
        return tuple(sorted(outs)), tuple(str(k) for k in self.sent), len(self.cancels)
