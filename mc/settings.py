"""What each setting does, measured on the processes each way of starting the system starts (C27)."""
import contextlib
import io
import itertools
import os
import pickle
import sys

import cloudpickle
import zmq

from . import coop, fakezmq, workfn
from . import world as W
from .coop import CoopThread
from .explore import Violation
from .workersim import CONTENT, FIDS, FQ, FR, M, dec, enc
from .world import World

W.import_scaled()
from scaled.cluster.cluster import Cluster  # noqa: E402
from scaled.cluster.combo import SchedulerClusterCombo  # noqa: E402
from scaled.cluster.scheduler import SchedulerProcess  # noqa: E402
from scaled.entry_points import cluster as cluster_entry  # noqa: E402
from scaled.entry_points import scheduler as scheduler_entry  # noqa: E402
from scaled.io import config as CFG  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

E = M.TaskEchoStatus


class Mark(DefaultSerializer):
    """a serializer of the user: what it wrote can be told from what others wrote"""
    used = []

    @staticmethod
    def serialize_result(result):
        Mark.used.append("result")
        return b"MARK" + pickle.dumps(result)

    @staticmethod
    def deserialize_function(payload):
        Mark.used.append("function")
        return cloudpickle.loads(payload)


CLUSTER_DEFAULTS = dict(n=CFG.DEFAULT_NUMBER_OF_WORKER, hb=CFG.DEFAULT_HEARTBEAT_INTERVAL_SECONDS, ret=CFG.DEFAULT_WORKER_FUNCTION_RETENTION_SECONDS,
                        death=CFG.DEFAULT_DEATH_TIMEOUT_SECONDS, gc=CFG.DEFAULT_GARBAGE_COLLECT_INTERVAL_SECONDS, trim=CFG.DEFAULT_TRIM_MEMORY_THRESHOLD_BYTES,
                        loop="builtin")
SCHED_DEFAULTS = dict(io=CFG.DEFAULT_IO_THREADS, limit=CFG.DEFAULT_MAX_NUMBER_OF_TASKS_WAITING, timeout=CFG.DEFAULT_WORKER_TIMEOUT_SECONDS,
                      ret=CFG.DEFAULT_FUNCTION_RETENTION_SECONDS, lb=CFG.DEFAULT_LOAD_BALANCE_SECONDS, trig=CFG.DEFAULT_LOAD_BALANCE_TRIGGER_TIMES,
                      queue=CFG.DEFAULT_PER_WORKER_QUEUE_SIZE, loop="builtin")
C_LONG = dict(n="--num-of-workers", hb="--heartbeat-interval", ret="--function-retention-seconds", death="--death-timeout-seconds",
              gc="--garbage-collect-interval-seconds", trim="--trim-memory-threshold-bytes", loop="--event-loop")
C_SHORT = dict(n="-n", hb="-hi", ret="-ft", death="-dt", gc="-gc", trim="-tm", loop="-el")
S_LONG = dict(io="--io-threads", limit="--max-number-of-tasks-waiting", timeout="--worker-timeout-seconds", ret="--function-retention-seconds",
              lb="--load-balance-seconds", trig="--load-balance-trigger-times", queue="--per-worker-queue-size", loop="--event-loop")
S_SHORT = dict(io="--io-threads", limit="-mt", timeout="-wt", ret="-ft", lb="-ls", trig="-lbt", queue="-qs", loop="-e")
COMBO = dict(n="n_workers", hb="heartbeat_interval_seconds", ret="function_retention_seconds", death="death_timeout_seconds", gc="garbage_collect_interval_seconds",
             trim="trim_memory_threshold_bytes", loop="event_loop", io="io_threads", limit="max_number_of_tasks_waiting", timeout="worker_timeout_seconds",
             lb="load_balance_seconds", trig="load_balance_trigger_times", queue="per_worker_queue_size")


class Box:
    """a closed world in which one of these ways is taken"""

    def __init__(self, skip=()):
        self.w = w = World().__enter__()
        workfn.SIM[0] = self
        self.skip = skip
        self.ran = []
        self.beats, self.left, self.asked, self.results = {}, {}, {}, {}
        self.echo = True
        self.hp = None
        self.last_echo = {}

    def close(self):
        self.w.close()

    def execute(self, name, args):
        self.ran.append((name, args))
        return ("res", *args)

    def shell(self, argv, main):
        """a command line program"""
        p = self.w.new_proc("shell")

        def body():
            old, sys.argv = sys.argv, argv
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    main()
            finally:
                sys.argv = old
        p.main = self.w.new_thread(p, "main", body)
        self.w.resume(p.main)
        return p

    def procs(self, name=None):
        return [p for p in self.w.procs if p is not self.hp and p.name not in self.skip and (name is None or p.name == name)]

    def rest(self):
        w = self.w
        for _ in range(4000):
            n = False
            for p in self.procs():
                for t in p.threads:
                    if not p.alive or t.state == CoopThread.DONE:
                        continue
                    if t.runnable(w.now) or t.deadline is not None and t.why == "sleep" and t.deadline[1] <= w.now + 1e-9:
                        w.resume(t)
                        n = True
                if p.alive and p.exitcode is None and w.can_step(p):
                    k = len(w.net.sent)
                    if self.is_sched(p):
                        w.settle(p)
                        n = n or len(w.net.sent) != k
                    elif w.step_loop(p):
                        n = True
            n = self.follow() or n
            for i, d in w.net.deliverable():
                w.net.deliver(i, d)
                n = True
            if not n:
                return
        raise Violation("C27", "the system never comes to rest")

    def is_sched(self, p):
        return p.name == "Scheduler" or p.name == "shell" and any(s.socket_type == zmq.ROUTER for s in p.sockets)

    def tick(self):
        self.w.now += 1.0
        self.rest()

    # the scheduler's place taken by the harness
    def serve(self, address):
        self.hp = self.w.new_proc("harness")
        self.w.cur_proc = self.hp
        self.router = fakezmq.FakeContext().socket(zmq.ROUTER)
        self.router.bind(address)
        self.w.cur_proc = None
        self.address = address

    def follow(self):
        if self.hp is None:
            return False
        n = False
        for i, c in enumerate(self.w.net.conns):
            if c.address != self.address:
                continue
            while c.c2s:
                n = True
                m = dec(c.c2s.popleft())
                p = c.client.proc
                if isinstance(m, M.Heartbeat):
                    self.beats.setdefault(p, []).append(self.w.now)
                    if self.echo:
                        c.s2c.append(enc(M.HeartbeatEcho()))
                        self.last_echo[p] = self.w.now
                elif isinstance(m, M.DisconnectRequest):
                    self.left[p] = self.w.now
                elif isinstance(m, M.FunctionRequest):
                    self.asked[p] = self.asked.get(p, 0) + 1
                    c.s2c.append(enc(M.FunctionResponse(FR.OK, m.function_id, b"f", CONTENT["f"])))
                elif isinstance(m, M.TaskResult):
                    self.results[m.task_id] = m
        return n

    def conn_of(self, p):
        for c in self.w.net.conns:
            if c.client is not None and c.client.proc is p and c.address == self.address:
                return c


def need(ok, msg):
    if not ok:
        raise Violation("C27", msg)


# ---------------------------------------------------------------- ways of starting
def cli_args(names, s, keys, address):
    out = []
    for k in keys:
        out += [names[k], str(s[k])]
    return out + [address]


def start_cluster(way, s, keys, address, box, serializer):
    if way in ("long", "short"):
        p = box.shell(["scaled_cluster", *cli_args(C_LONG if way == "long" else C_SHORT, s, keys, address)], cluster_entry.main)
        need(p.main.exc is None, f"scaled_cluster {keys} fails: {p.main.exc!r}")
        return
    u = box.w.new_proc("user")
    if way == "object":
        c = Cluster(ZMQConfig.from_string(address), s["n"], s["hb"], s["ret"], s["death"], s["gc"], s["trim"], s["loop"], serializer)
        box.keep = c
        box.w.in_proc(u, c.start)
        return
    kw = {COMBO[k]: s[k] for k in keys if k != "n"}
    box.keep = box.w.in_proc(u, lambda: SchedulerClusterCombo(address, s["n"], serializer=serializer, **kw))


def start_sched(way, s, keys, address, box):
    if way in ("long", "short"):
        p = box.shell(["scaled_scheduler", *cli_args(S_LONG if way == "long" else S_SHORT, s, keys, address)], scheduler_entry.main)
        need(p.main.exc is None, f"scaled_scheduler {keys} fails: {p.main.exc!r}")
        return
    u = box.w.new_proc("user")
    if way == "object":
        c = SchedulerProcess(address=ZMQConfig.from_string(address), io_threads=s["io"], max_number_of_tasks_waiting=s["limit"], per_worker_queue_size=s["queue"],
                             worker_timeout_seconds=s["timeout"], function_retention_seconds=s["ret"], load_balance_seconds=s["lb"],
                             load_balance_trigger_times=s["trig"], event_loop=s["loop"])
        box.keep = c
        box.w.in_proc(u, c.start)
        return
    kw = {COMBO[k]: s[k] for k in keys}
    box.keep = box.w.in_proc(u, lambda: SchedulerClusterCombo(address, 1, **kw))


# ---------------------------------------------------------------- measuring
def cluster_case(case):
    way, over, address, own = case
    keys = [k for k, _ in over]
    s = {**CLUSTER_DEFAULTS, **dict(over)}
    if way == "combo" and "ret" not in keys:
        s["ret"] = CFG.DEFAULT_FUNCTION_RETENTION_SECONDS  # the combo has one setting for scheduler and workers
    serializer = Mark() if own and way in ("object", "combo") else DefaultSerializer()
    Mark.used.clear()
    box = Box(skip=("Scheduler",))
    try:
        box.serve(address)
        start_cluster(way, s, keys, address, box, serializer)
        box.rest()
        return measure_cluster(box, s, address, isinstance(serializer, Mark))
    finally:
        box.close()


def measure_cluster(box, s, address, mark):
    w = box.w
    agents = box.procs("Agent")
    need(len(agents) == s["n"], f"{len(agents)} workers are started, {s['n']} were asked for")
    for a in agents:
        need(box.conn_of(a) is not None, f"a worker does not connect to {address}")
    uv = {p for p, _ in w.loops_installed}
    for a in agents:
        need((a in uv) == (s["loop"] == "uvloop"), f"event loop {s['loop']} was asked for, uvloop is {'used' if a in uv else 'not used'} by a worker")
    # heartbeats, garbage collection
    start = w.now
    gc = s["gc"]
    for _ in range(max(3 * s["hb"], 2 * gc + 1)):
        box.tick()
    for a in agents:
        b = box.beats.get(a, [])
        need(len(b) >= 2 and all(y - x == s["hb"] for x, y in zip(b, b[1:])) and b[0] - start <= s["hb"],
             f"heartbeats at {[x - start for x in b]} s with an interval of {s['hb']} s")
    for a in agents:
        for p in [x for x in box.procs("Processor") if x.parent is a]:
            times = [t - start for t, q in w.gcs if q is p]
            need(len(times) >= 2 and times == [gc * (i + 1) for i in range(len(times))] and times[-1] > w.now - start - gc, f"garbage collection at {times} s with an interval of {gc} s")
            trims = [t - start for t, q in w.trims if q is p]
            want = times if World.rss(p.pid) >= s["trim"] else []
            need(trims == want, f"memory is trimmed at {trims} s, threshold {s['trim']}, used {World.rss(p.pid)}")
    # functions kept by the worker
    a = agents[-1]

    def run(tid):
        before = box.asked.get(a, 0)
        box.conn_of(a).s2c.append(enc(M.Task(tid, FIDS["f"], [M.Argument(M.ArgumentType.Data, pickle.dumps(tid))])))
        box.rest()
        r = box.results.get(tid)
        want = (b"MARK" if mark else b"") + pickle.dumps(("res", tid))
        need(r is not None and r.status == M.TaskStatus.Success and (r.result == want or not mark and pickle.loads(r.result) == ("res", tid)),
             f"a task is answered {r}")
        return box.asked.get(a, 0) - before
    need(run(b"t1") == 1, "a function is called that was never fetched")
    for _ in range(s["ret"]):
        box.tick()
    need(run(b"t2") == 0, f"a function unused for {s['ret']} s is forgotten, retention is {s['ret']} s")
    for _ in range(s["ret"] + 2):
        box.tick()
    need(run(b"t3") == 1, f"a function unused for {s['ret'] + 2} s is still kept, retention is {s['ret']} s")
    if mark:
        need("function" in Mark.used and "result" in Mark.used, "the serializer is not used")
    # losing the scheduler
    box.echo = False
    for _ in range(s["death"] + s["hb"] + 3):
        box.tick()
    for a in agents:
        d = box.left.get(a)
        need(d is not None, f"a worker has not left {s['death'] + 3} s after hearing from the scheduler for the last time, death timeout {s['death']} s")
        need(d - box.last_echo[a] == s["death"], f"a worker leaves {d - box.last_echo[a]} s after hearing from the scheduler, death timeout {s['death']} s")
    return (len(agents), tuple(len(box.beats[a]) for a in agents))


def sched_case(case):
    way, over, address, own = case
    keys = [k for k, _ in over]
    s = {**SCHED_DEFAULTS, **dict(over)}
    out = []
    for part in (measure_admission, measure_timeout, measure_balance):
        box = Box(skip=("WorkerMaster",))
        try:
            start_sched(way, s, keys, address, box)
            box.rest()
            out.append(part(Sched(box, address), s))
        finally:
            box.close()
    return out


class Sched:
    """peers of the scheduler"""

    def __init__(self, box, address):
        self.box, self.w, self.address = box, box.w, address
        need(address in self.w.net.binds, f"nothing listens at {address}, but at {sorted(self.w.net.binds)}")
        self.sock = self.w.net.binds[address]
        self.proc = self.sock.proc
        self.conns = {}
        self.got = {}

    def send(self, who, m):
        if who not in self.conns:
            self.conns[who] = self.w.net.connect(self.address, None, who)
        c = self.conns[who]
        c.c2s.append(enc(m))
        self.work()

    def work(self):
        while any(self.w.net.conns[i].address == self.address for i, d in self.w.net.deliverable() if d == "c2s"):
            for i, d in self.w.net.deliverable():
                if d == "c2s":
                    self.w.net.deliver(i, d)
        self.w.settle(self.proc)
        for who, c in self.conns.items():
            while c.s2c:
                self.got.setdefault(who, []).append((self.w.now, dec(c.s2c.popleft())))

    def heartbeat(self, who):
        self.send(who, M.Heartbeat(0.1, 1, 0.1, 1, 0, 1, True, False, False))

    def tick(self, *alive):
        self.w.now += 1.0
        self.work()
        for who in alive:
            self.heartbeat(who)

    def of(self, who, kind):
        return [(t, m) for t, m in self.got.get(who, []) if isinstance(m, kind)]

    def submit(self, tid):
        self.send(b"client", M.Task(tid, FIDS["f"], []))
        e = self.of(b"client", M.TaskEcho)[-1][1]
        need(e.task_id == tid, "a submission is not answered")
        return e.status

    def add(self, name):
        self.send(b"client", M.FunctionRequest(FQ.Add, FIDS[name], name.encode(), CONTENT[name]))


def measure_admission(x, s):
    w = x.w
    need(x.sock.ctx.io_threads == s["io"], f"{x.sock.ctx.io_threads} io threads are used, {s['io']} were asked for")
    host, port = x.address[6:].split(":")
    monitor = f"ipc:///tmp/{host}_{port}_monitor"
    need(monitor in w.net.binds and w.net.binds[monitor].socket_type == zmq.PUB, f"no status is published at {monitor}")
    uv = any(p is x.proc for p, _ in w.loops_installed)
    need(uv == (s["loop"] == "uvloop"), f"event loop {s['loop']} was asked for, uvloop is {'used' if uv else 'not used'} by the scheduler")
    x.heartbeat(b"w1")
    x.add("f")
    q, limit = min(s["queue"], 40), s["limit"]
    n = q + (limit if limit >= 0 else 0) + 3
    status = [x.submit(b"t%d" % i) for i in range(n)]
    sent = len(x.of(b"w1", M.Task))
    if s["queue"] > q:
        need(sent == n and set(status) == {E.SubmitOK}, f"{sent} of {n} tasks go to the worker, queue size {s['queue']}")
        return sent
    need(sent == q, f"{sent} tasks go to the worker, queue size {q}")
    ok = n if limit < 0 else q + limit
    need(status == [E.SubmitOK] * ok + [E.NoWorker] * (n - ok), f"{status.count(E.SubmitOK)} of {n} submissions are accepted, queue size {q}, waiting limit {limit}")
    return (sent, ok)


def measure_timeout(x, s):
    w = x.w
    x.heartbeat(b"w1")
    x.add("f")
    x.add("g")
    x.submit(b"t0")
    need(len(x.of(b"w1", M.Task)) == 1, "the task is not sent to the worker")
    t0 = w.now
    for _ in range(max(s["timeout"], s["ret"]) + 4):
        x.tick(b"w2")
    moved = [t - t0 for t, m in x.of(b"w2", M.Task)]
    need(moved == [s["timeout"] + 1], f"the task of a silent worker is given to another one after {moved} s, worker timeout {s['timeout']} s")
    gone = [t - t0 for t, m in x.of(b"w2", M.FunctionRequest) if m.function_id == FIDS["g"]]
    need(gone == [s["ret"] + 1], f"an unused function is dropped after {gone} s, retention {s['ret']} s")
    return (moved, gone)


def measure_balance(x, s):
    x.heartbeat(b"w1")
    x.add("f")
    for i in range(3):
        x.submit(b"t%d" % i)
    if len(x.of(b"w1", M.Task)) != 3:
        return None  # (queue too short)
    x.heartbeat(b"w2")
    t0 = x.w.now
    n = s["trig"] + 4
    for _ in range(n):
        x.tick(b"w1", b"w2")
    asked = [t - t0 for t, m in x.of(b"w1", M.BalanceRequest)]
    want = [] if s["lb"] <= 0 else [s["trig"]]
    need(asked == want, f"the busy worker is asked to give tasks back after {asked} s, balancing {s['lb']}, trigger times {s['trig']}")
    return asked


# ---------------------------------------------------------------- cases
A1, A2 = "tcp://127.0.0.1:7001", "tcp://10.1.2.3:99"
CA = dict(n=2, hb=3, ret=5, death=7, gc=4, trim=1, loop="uvloop")
CB = dict(n=1, hb=1, ret=3, death=11, gc=6, trim=1 << 50, loop="builtin")
SA = dict(io=3, limit=4, timeout=5, ret=7, lb=1, trig=3, queue=6, loop="uvloop")
SB = dict(io=2, limit=0, timeout=8, ret=2, lb=0, trig=1, queue=3, loop="builtin")
MORE = dict(n=(3,), hb=(2,), ret=(1, 9), death=(2, 4), gc=(2, 9), trim=(3 << 20, 6 << 20), loop=(), io=(5,), limit=(-1, 1), timeout=(1, 3), lb=(2,), trig=(2, 4), queue=(1, 4))


def cases(side, deep=False, pairs=False):
    for way, over, address, own in itertools.chain(all_cases(side, deep), pair_cases(side) if pairs else ()):
        s = {**CLUSTER_DEFAULTS, **dict(over)}
        if side == "scheduler" or s["hb"] < s["death"]:  # (a worker that waits longer between heartbeats than it lives makes no sense)
            yield way, over, address, own


def all_cases(side, deep):
    a, b = (CA, CB) if side == "cluster" else (SA, SB)
    for way in ("long", "short", "object", "combo"):
        for i, base in enumerate((a, b)):
            yield (way, tuple(base.items()), (A1, A2)[i], i == 0)
        yield (way, (("n", 2),) if side == "cluster" else (), A1, False)  # defaults
        for k in a:
            yield (way, tuple({**b, k: a[k]}.items()), A2, False)  # each one on its own
            if deep:
                yield (way, tuple({**a, k: b[k]}.items()), A1, True)
                for v in MORE[k]:
                    yield (way, tuple({**a, k: v}.items()), A1, True)
                    yield (way, tuple({**b, k: v}.items()), A2, True)
                if k != "n":
                    yield (way, (("n", 1), (k, a[k])) if side == "cluster" else ((k, a[k]),), A1, False)  # the others by default


def pair_cases(side):
    """every two settings changed together, the others by default or not"""
    a, b = (CA, CB) if side == "cluster" else (SA, SB)
    for way in ("long", "short", "object", "combo"):
        for j, k in itertools.combinations(a, 2):
            for u in {a[j], b[j], *MORE[j]}:
                for v in {a[k], b[k], *MORE[k]}:
                    yield (way, tuple({**b, j: u, k: v}.items()), A2, False)
                    yield (way, tuple({**a, j: u, k: v}.items()), A1, True)
                    if side == "scheduler":
                        yield (way, ((j, u), (k, v)), A1, False)


BAD = [
    ("cluster", ["-n", "two", A1]), ("cluster", ["-n", "2", "nowhere"]), ("cluster", ["-n", "2", "http://127.0.0.1:1"]), ("cluster", ["-n", "2", "tcp://127.0.0.1"]),
    ("cluster", ["-n", "2", "tcp://127.0.0.1:x"]), ("cluster", ["-n", "2", "-el", "other", A1]), ("cluster", ["-n", "2", "-hi", "1.5", A1]), ("cluster", ["-n", "2"]),
    ("cluster", ["-n", "2", "--no-such", "1", A1]),
    ("scheduler", ["nowhere"]), ("scheduler", ["tcp://127.0.0.1"]), ("scheduler", ["ipc:///tmp/x"]), ("scheduler", ["inproc://x"]), ("scheduler", ["-e", "other", A1]),
    ("scheduler", ["-qs", "many", A1]), ("scheduler", ["-mt", "", A1]), ("scheduler", []), ("scheduler", ["tcp://127.0.0.1:"]),
]


def bad_case(case):
    kind, args = case
    box = Box()
    try:
        p = box.shell(["prog", *args], cluster_entry.main if kind == "cluster" else scheduler_entry.main)
        box.rest()
        if p.loop is not None:
            for r in p.loop.roots:
                if r.done() and r.exception() is not None and p.main.state != CoopThread.DONE:
                    box.w.resume(p.main)
        need(p.main.state == CoopThread.DONE and p.main.exc is not None, f"{kind} {args} is not refused")
        need(not box.w.net.conns and not box.w.net.binds and not box.procs("Agent"), f"{kind} {args} starts something")
        return type(p.main.exc).__name__
    finally:
        box.close()


def address_case(case):
    """an address written and read again"""
    text, want = case
    try:
        c = ZMQConfig.from_string(text)
        got = (c.type.value, c.host, c.port)
        need(c.to_address() == text or want is None, f"{text} is written as {c.to_address()}")
        need(ZMQConfig.from_string(c.to_address()) == c, f"{c.to_address()} is read as {ZMQConfig.from_string(c.to_address())}")
    except (ValueError, TypeError):
        got = None
    need(got == want, f"the address {text!r} is read as {got}")
    return got


ADDRESSES = [
    ("tcp://127.0.0.1:80", ("tcp", "127.0.0.1", 80)), ("tcp://host.name:65535", ("tcp", "host.name", 65535)), ("ipc:///tmp/a_b", ("ipc", "/tmp/a_b", None)),
    ("ipc:///tmp/127.0.0.1_80_monitor", ("ipc", "/tmp/127.0.0.1_80_monitor", None)), ("inproc://x", ("inproc", "x", None)), ("tcp://0.0.0.0:1", ("tcp", "0.0.0.0", 1)),
    ("tcp://*:5", ("tcp", "*", 5)), ("ipc:///tmp/with:colon", ("ipc", "/tmp/with:colon", None)),
    ("127.0.0.1:80", None), ("udp://127.0.0.1:80", None), ("tcp://127.0.0.1", None), ("tcp://127.0.0.1:", None), ("tcp://127.0.0.1:a", None), ("", None), ("://", None),
]
