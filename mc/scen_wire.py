"""L5: every message class x field alphabets, through the codec and through the real connectors (C19)."""
import itertools
import struct

from .world import World, import_scaled

import_scaled()

from scaled.io.async_binder import AsyncBinder  # noqa: E402
from scaled.io.async_connector import AsyncConnector  # noqa: E402
from scaled.io.sync_connector import SyncConnector  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

import threading  # noqa: E402
import zmq  # noqa: E402
import zmq.asyncio  # noqa: E402

from .explore import Violation  # noqa: E402
from .registry import enum_scenario  # noqa: E402
from .world import coop  # noqa: E402

ONE = struct.pack("I", 1)
B = [b"", b"T", b"TK", b"\x00", ONE, b"id" * 8, bytes(range(256)) * 300, struct.pack("I", 0), b"S", b"\xff\xfe", b"D"]
S = [b"", b"T", ONE, b"\x00\x00", b"D"]  # for lists
T = [b"", ONE]


def lists(items, n):
    return [list(x) for k in range(n + 1) for x in itertools.product(items, repeat=k)]


def args(items, n):
    return lists([M.Argument(t, d) for t in M.ArgumentType for d in items], n)


def tasks(n):
    one = [M.Task(i, f, a) for i in T for f in T for a in args(T, 1)]
    few = [M.Task(i, b"f", a) for i in T for a in args([b""], 1)]
    return [[]] + [[t] for t in one] + [list(x) for x in itertools.product(few, repeat=2)] + (
        [list(x) for x in itertools.product(few, repeat=3)] if n > 2 else [])


def functions(n):
    vals = [(a, b) for a in T for b in T]
    out = [{}]
    for ids in itertools.chain.from_iterable(itertools.permutations([b"", ONE, b"f"], k) for k in range(1, n + 1)):
        for v in itertools.product(vals, repeat=len(ids)):
            out.append(dict(zip(ids, v)))
    return out


CPU = [0.0, 0.001, 0.57, 64.0, 65.535, 65.536, 1000.25]
RSS = [0, 1, 2 ** 31, 2 ** 32, 2 ** 41]
QUEUED = [0, 1, 1000, 65535, 65536, 10 ** 6]
LAT = [0, 17, -5, 2 ** 32, 10 ** 12]
BOOL = [False, True]
DUR = [0, 0.0, 0.25, 1e-9, 3.3, 1e6, 1e9]
INTS = [0, 1, 2, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1]

SPECS = {
    "Argument": None,
    "Task": [B, B, args(S, 3)],
    "TaskEcho": [B, list(M.TaskEchoStatus)],
    "TaskCancel": [B],
    "TaskResult": [B, list(M.TaskStatus), DUR, B],
    "GraphTask": [[b"", ONE, b"g"], functions(2), lists([b"", ONE, b"t"], 2), tasks(2)],
    "GraphTaskEcho": [B, list(M.TaskEchoStatus)],
    "GraphTaskCancel": [B],
    "GraphTaskResult": [B, list(M.TaskStatus), lists(S, 4)],
    "BalanceRequest": [INTS],
    "BalanceResponse": [lists(S, 5)],
    "Heartbeat": [CPU, RSS, CPU, RSS, QUEUED, LAT, BOOL, BOOL, BOOL],
    "HeartbeatEcho": [],
    "FunctionRequest": [list(M.FunctionRequestType), B, B, B],
    "FunctionResponse": [list(M.FunctionResponseType), B, B, B],
    "DisconnectRequest": [B],
    "DisconnectResponse": [B],
    "WorkerTaskRequest": [],
    "SchedulerState": [B],
    "TaskState": [B, B, list(M.TaskStatus)],
    "GraphTaskState": [B, B, list(M.NodeTaskType), [set(x) for k in range(4) for x in itertools.combinations(S, k)]],
}


def build(case):
    name, idx = case[0], case[1]
    return getattr(M, name)(*[SPECS[name][i][j] for i, j in enumerate(idx)])


def picks(n, limit):
    """all indices of an alphabet, or a spread of `limit` of them"""
    if n <= limit:
        return list(range(n))
    return sorted({round(i * (n - 1) / (limit - 1)) for i in range(limit)})


def indices(name, per_class):
    spec = SPECS[name]
    sizes = [len(a) for a in spec]
    lim = max(sizes or [1])

    def total():
        p = 1
        for s in sizes:
            p *= min(s, lim)
        return p

    while total() > per_class and lim > 2:
        lim -= 1
    yield from itertools.product(*[picks(s, lim) for s in sizes])
    # every value of every field at least once, and all pairs of values of any two fields
    for a, b in itertools.combinations(range(len(sizes)), 2):
        if sizes[a] * sizes[b] > per_class:
            continue
        for i in range(sizes[a]):
            for j in range(sizes[b]):
                x = [0] * len(sizes)
                x[a], x[b] = i, j
                yield tuple(x)
    for a in range(len(sizes)):
        for i in range(sizes[a]):
            x = [0] * len(sizes)
            x[a] = i
            yield tuple(x)


def norm(o):
    """what the receiver has to see: exact, but for the wire precision of durations and cpu shares"""
    if isinstance(o, M.TaskResult):
        return ("TaskResult", o.task_id, o.status, struct.pack("f", o.duration), o.result)
    if isinstance(o, M.Heartbeat):
        return ("Heartbeat", o.agent_rss, o.worker_rss, o.queued_tasks, o.latency_us, bool(o.initialized), bool(o.has_task), bool(o.task_lock))
    d = vars(o)

    def n(v):
        if isinstance(v, (M.Task, M.Argument)):
            return norm(v)
        if isinstance(v, list):
            return tuple(n(x) for x in v)
        if isinstance(v, tuple):
            return tuple(n(x) for x in v)
        if isinstance(v, dict):
            return ("dict",) + tuple((k, n(x)) for k, x in v.items())
        if isinstance(v, (set, frozenset)):
            return frozenset(v)
        if isinstance(v, bytes):
            return bytes(v)
        return v
    return (type(o).__name__,) + tuple(n(v) for v in d.values())


def same(sent, got, where):
    if type(sent) is not type(got):
        raise Violation("C19", f"{where}: {sent!r:.200} arrived as a {type(got).__name__}")
    if norm(sent) != norm(got):
        raise Violation("C19", f"{where}: sent {sent!r:.300}, arrived {got!r:.300}")
    if isinstance(sent, M.Heartbeat):
        for k in ("agent_cpu", "worker_cpu"):
            if abs(getattr(sent, k) - getattr(got, k)) > 0.0011:
                raise Violation("C19", f"{where}: {k} {getattr(sent, k)} arrived as {getattr(got, k)}")


SEEN = {}


def classes():
    names = {c.__name__ for c in M.PROTOCOL.values() if c.__name__ in SPECS}
    assert len(names) > 15
    return sorted(names)


def codec_cases(per_class):
    SEEN.clear()
    for name in classes():
        for idx in dict.fromkeys(indices(name, per_class)):
            yield (name, idx)


def codec(case):
    m = build(case)
    before = norm(m)
    kind = M.PROTOCOL.inverse[type(m)]
    try:
        frames = m.serialize()
    except Exception as e:  # noqa
        raise Violation("C19", f"{m!r:.300} cannot be encoded: {e!r}")
    if not all(isinstance(f, (bytes, bytearray, memoryview)) for f in frames) or not frames:
        raise Violation("C19", f"{m!r:.300} is encoded as {frames!r:.300}")
    data = [bytes(f) for f in frames]
    try:
        got = M.PROTOCOL[M.MessageType(kind.value)].deserialize(data)
    except Exception as e:  # noqa
        raise Violation("C19", f"{m!r:.300} cannot be decoded: {e!r}")
    same(m, got, "codec")
    if norm(m) != before:
        raise Violation("C19", f"encoding changed the message {m!r:.300}")
    wire = (kind.value, *data)
    key = (before, round(m.agent_cpu * 1000), round(m.worker_cpu * 1000)) if isinstance(m, M.Heartbeat) else before
    if type(m) is M.GraphTask or type(m) is M.Task or len(wire) < 40:
        w = wire if sum(map(len, wire)) < 200 else hash(wire)
        old = SEEN.setdefault(w, key)
        if old != key and not isinstance(m, (M.GraphTaskState, M.Heartbeat)):
            raise Violation("C19", f"{old!r:.300} and {key!r:.300} share the encoding {wire!r:.300}")
    return wire[:3] if len(wire[0]) < 50 else 0


enum_scenario("wire/codec", ["C19"], codec_cases, codec, quick=dict(per_class=20000), thorough=dict(per_class=400000), weight=2,
              about="all products of field alphabets per message class")


class Link:
    """binder, asynchronous and synchronous connectors of one world"""

    def __init__(self):
        self.w = World().__enter__()
        self.p = self.w.new_proc("p")
        self.got = []
        self.w.in_proc(self.p, self._setup)

    def _setup(self):
        async def from_dealer(source, m):
            self.got.append((source, m))

        async def from_peer(m):
            self.got.append((None, m))

        def sync_in(m):
            self.got.append((None, m))

        a = ZMQConfig.from_string("tcp://127.0.0.1:1")
        b = ZMQConfig.from_string("ipc:///tmp/x")
        self.binder = AsyncBinder(address=a, io_threads=1)
        self.binder.register(from_dealer)
        self.conn = AsyncConnector(context=zmq.asyncio.Context(), socket_type=zmq.DEALER, address=a, bind_or_connect="connect", callback=from_peer)
        self.stop = threading.Event()
        self.sync = SyncConnector(stop_event=self.stop, context=zmq.Context(), socket_type=zmq.DEALER, bind_or_connect="connect", address=a,
                                  callback=sync_in, exit_callback=None, daemonic=True)
        self.pair = AsyncConnector(context=zmq.asyncio.Context(), socket_type=zmq.PAIR, address=b, bind_or_connect="bind", callback=from_peer)
        self.sp = SyncConnector(stop_event=self.stop, context=zmq.Context(), socket_type=zmq.PAIR, bind_or_connect="connect", address=b,
                                callback=sync_in, exit_callback=None, daemonic=True)
        self.pub_msgs = []
        loop = self.p.get_loop()
        for o in (self.binder, self.conn, self.pair):
            loop.create_task(self._serve(o))
        self.threads = [self.w.new_thread(self.p, "s", self.sync.run), self.w.new_thread(self.p, "sp", self.sp.run)]

    async def _serve(self, o):
        while True:
            await o.routine()

    def run(self):
        for _ in range(40):
            moved = False
            while self.w.net.deliverable():
                self.w.net.deliver(*self.w.net.deliverable()[0])
                moved = True
            while self.w.step_loop(self.p):
                moved = True
            for t in self.threads:
                if t.runnable(self.w.now):
                    self.w.resume(t)
                    moved = True
            if not moved:
                break

    def send(self, how, m):
        loop = self.p.get_loop()
        if how == "dealer":
            loop.create_task(self.conn.send(m))
        elif how == "router":
            loop.create_task(self.binder.send(self.conn.identity, m))
        elif how == "router-sync":
            loop.create_task(self.binder.send(self.sync.identity, m))
        elif how == "pair":
            loop.create_task(self.pair.send(m))
        elif how == "sync-now":
            self.w.in_proc(self.p, self.sync.send_immediately, m)
        elif how == "pair-now":
            self.w.in_proc(self.p, self.sp.send_immediately, m)
        elif how == "sync-queued":
            self.w.in_proc(self.p, self.sync.send, m)
            self.tick(0)
        elif how == "pair-queued":
            self.w.in_proc(self.p, self.sp.send, m)
            self.tick(1)

    def tick(self, i):
        """let a connector's thread wake up from its poll"""
        t = self.threads[i]
        if t.state == coop.CoopThread.NEW:
            self.w.resume(t)
        if t.can_time_out():
            self.w.resume(t)


HOWS = ["dealer", "router", "router-sync", "pair", "sync-now", "pair-now", "sync-queued", "pair-queued"]
LINK = []


def link_cases(per_class):
    for h in range(len(HOWS)):
        for name in classes():
            for idx in dict.fromkeys(indices(name, per_class)):
                yield (name, idx, h)


def transport(case):
    if not LINK:
        LINK.append(Link())
        LINK[0].run()
    link = LINK[0]
    how = HOWS[case[2]]
    m = build(case)
    del link.got[:]
    errors = len(link.p.get_loop().errors)
    # a message before and one after, so that framing mistakes show
    first, last = M.TaskCancel(b"first"), M.TaskCancel(b"last")
    for x in (first, m, last):
        try:
            link.send(how, x)
        except Exception as e:  # noqa
            raise Violation("C19", f"{how}: sending {x!r:.300} failed: {e!r}")
        if "queued" not in how:
            link.run()
    link.run()
    if len(link.p.get_loop().errors) > errors or any(t.exc for t in link.threads):
        e = (link.p.get_loop().errors + [t.exc for t in link.threads if t.exc])[-1]
        raise Violation("C19", f"{how}: sending {m!r:.300} failed: {e!r}")
    got = [g for _, g in link.got]
    if len(got) != 3:
        raise Violation("C19", f"{how}: sent 3 messages with {m!r:.300} in the middle, {len(got)} arrived: {got!r:.300}")
    for x, g in zip((first, m, last), got):
        same(x, g, how)
    if how in ("dealer", "sync-now", "sync-queued"):
        want = link.conn.identity if how == "dealer" else link.sync.identity
        if any(s != want for s, _ in link.got):
            raise Violation("C19", f"{how}: {m!r:.300} arrived as if from {link.got[1][0]!r}")
    return how


enum_scenario("wire/transport", ["C19"], link_cases, transport, quick=dict(per_class=60), thorough=dict(per_class=1500), weight=2,
              about="every message class through AsyncBinder, AsyncConnector and SyncConnector, both ways")
