"""The monitor program (C28): the real scaled_top fed with reports, drawing into real curses windows of any size."""
import curses
import io
import itertools
import contextlib
import json
import os
import signal
import sys

import zmq

from . import world as W
from .explore import Violation
from .settings import Box, Sched, start_sched, SCHED_DEFAULTS
from .workersim import CONTENT, FIDS, FQ, M, enc

W.import_scaled()
from scaled.entry_points import top  # noqa: E402
from scaled.protocol.python.message import MessageType, SchedulerState, TaskState  # noqa: E402

_up = []


def curses_up():
    """curses without a terminal: only windows are drawn into, nothing is ever sent to a terminal"""
    if _up:
        return
    os.environ.update(TERM="xterm", LINES="200", COLUMNS="500")
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_RDWR)
    term = signal.getsignal(signal.SIGTERM)
    os.dup2(null, 1)
    try:
        curses.initscr()
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)
        signal.signal(signal.SIGTERM, term or signal.SIG_DFL)
    _up.append(1)


class Screen:
    """a terminal of the given size on which keys are pressed"""

    def __init__(self, rows, cols, keys=()):
        curses_up()
        self.win = curses.newwin(rows, cols, 0, 0)
        self.rows, self.cols = rows, cols
        self.keys = list(keys)
        self.shown = None
        self.shows = 0

    def getch(self, *a):
        return self.keys.pop(0) if self.keys else -1

    def refresh(self, *a):
        self.shown = [self.win.instr(i, 0).decode(errors="replace").rstrip() for i in range(self.rows)]
        self.shows += 1

    def nodelay(self, flag):
        pass

    def __getattr__(self, name):
        return getattr(self.win, name)


class Feed:
    """what a subscriber of the scheduler's status receives; then nothing more"""

    def __init__(self, messages):
        self.messages = list(messages)
        self.connected, self.subscribed, self.timeout = [], [], -1
        self.closed = False

    # context
    def __call__(self, *a, **k):
        return self

    instance = __call__

    def socket(self, kind):
        need(kind == zmq.SUB, f"the monitor opens a socket of type {kind}")
        return self

    def term(self, *a):
        pass

    def destroy(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    # socket
    def setsockopt(self, k, v):
        if k == zmq.RCVTIMEO:
            self.timeout = v
        elif k == zmq.SUBSCRIBE:
            self.subscribe(v)

    setsockopt_string = set = setsockopt

    @property
    def rcvtimeo(self):
        return self.timeout

    @rcvtimeo.setter
    def rcvtimeo(self, v):
        self.timeout = v

    RCVTIMEO = rcvtimeo

    def connect(self, address):
        self.connected.append(address)

    def subscribe(self, topic):
        self.subscribed.append(topic if isinstance(topic, bytes) else topic.encode())

    def recv_multipart(self, flags=0, copy=True, **k):
        need(self.connected and b"" in self.subscribed, "the monitor waits without being subscribed")
        if self.messages:
            m = self.messages.pop(0)
            if m == "INTERRUPT":
                raise KeyboardInterrupt
            return list(m)
        need(self.timeout >= 0, "the monitor waits for ever for a scheduler that is gone")
        raise zmq.Again()

    def poll(self, timeout=None, flags=0):
        return 1 if self.messages else 0

    def close(self, *a, **k):
        self.closed = True


def need(ok, msg):
    if not ok:
        raise Violation("C28", msg)


def run_top(messages, screen, argv=("ipc:///tmp/m",)):
    """-> how it ended"""
    feed = Feed(messages)
    old, oldctx, old_argv = zmq.Context, top.curses.wrapper, sys.argv
    zmq.Context, sys.argv = feed, ["scaled_top", *argv]
    top.curses.wrapper = lambda f, *a, **k: f(screen, *a, **k)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            top.main()
        end = "returned"
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        end = e
    finally:
        zmq.Context, top.curses.wrapper, sys.argv = old, oldctx, old_argv
    return end, feed


def watch(reports, rows, cols, keys, extra=()):
    """shows them one after another and then loses the scheduler"""
    messages = [enc(SchedulerState(json.dumps(r).encode())) for r in reports]
    screen = Screen(rows, cols, keys)
    end, feed = run_top([*messages, *extra], screen)
    need(isinstance(end, TimeoutError), f"the monitor ends with {end!r} after {len(reports) - len(feed.messages)} reports of {len(reports)}"
         f" on a terminal of {rows}x{cols}, keys {keys}; last report {reports[-1] if reports else None}")
    need(not feed.messages, "the monitor does not read every report")
    need(feed.connected == ["ipc:///tmp/m"], f"the monitor connects to {feed.connected}")
    return screen


# ---------------------------------------------------------------- reading the screen
UNITS = {"b": 1, "k": 1 << 10, "m": 1 << 20, "g": 1 << 30, "t": 1 << 40}


def is_bytes(text, v):
    u = UNITS.get(text[-1:])
    if u is None:
        return False
    n = text[:-1]
    if "." in n:
        return abs(float(n) * u - v) <= 0.051 * u and 1 <= float(n) <= 1024
    return int(n) * u <= v < (int(n) + 1) * u and int(n) < 1024


def is_percent(text, v):
    return text.endswith("%") and abs(float(text[:-1]) - v * 100) <= 0.051


def is_lag(text, v):
    """microseconds"""
    for u, f in (("us", 1), ("ms", 1000), ("s", 1000000)):
        if text.endswith(u):
            n = text[:-len(u)]
            if n.endswith("+"):
                return v >= float(n[:-1]) * f
            if "." in n:
                return abs(float(n) * f - v) <= 0.051 * f
            return int(n) * f <= v < (int(n) + 1) * f
    return False


def is_last(text, v):
    if v <= 5:
        return text == ""
    return text == f"({v}s)" if v <= 60 else text.startswith("(60") and text.endswith("s)")


COLUMNS = {"n": "worker", "C": "agt_cpu", "M": "agt_rss", "c": "cpu", "m": "rss", "f": "free", "w": "sent", "d": "queued", "l": "lag"}


def check_screen(screen, report, sort_by):
    """a terminal large enough shows the whole report"""
    lines = screen.shown
    need(lines is not None, "nothing is shown")
    text = "\n".join(lines).rstrip()
    shown = f"{text!r} shown for {report}"
    cut = [i for i, x in enumerate(lines) if x and set(x.strip()) == {"-"}]
    need(len(cut) == 1, f"no separator: {shown}")
    bars = [i for i, c in enumerate(lines[0]) if c == "|"] + [len(lines[0]) + 1000]
    head = [[x[a + 1:b].split() for a, b in zip([-1] + bars, bars)] for x in lines[:cut[0]]]
    blocks = [("scheduler", report["scheduler"]), ("task_manager", report["task_manager"]), ("scheduler_sent", report["binder"]["sent"]),
              ("scheduler_received", report["binder"]["received"])]
    for i, (title, data) in enumerate(blocks):
        cells = [row[i] for row in head if i < len(row) and row[i]]
        need(cells[:1] == [[title]], f"table {title} missing: {shown}")
        got = {c[0]: c[1] for c in cells[1:] if len(c) == 2}
        need(len(got) == len(cells) - 1 and set(got) == set(data), f"table {title} has {cells}: {shown}")
        for k, v in data.items():
            ok = is_percent(got[k], v) if k == "cpu" and i == 0 else is_bytes(got[k], v) if k == "rss" and i == 0 else got[k] == f"{v:,}"
            need(ok, f"{title} {k} is {v} and shown as {got[k]}")
    n = len(report["worker_manager"])
    total = [i for i, x in enumerate(lines) if x.startswith("Total ")]
    need(len(total) == 1 and lines[total[0]].split()[1] == str(n), f"total of {n} workers: {shown}")
    body = lines[total[0] + 1:]
    while body and not body[-1]:
        body.pop()
    at = body[0].find("|")  # (names of workers contain it too)
    need(at > 0, f"tables are not separated: {shown}")
    left, right = [x[:at].split() for x in body], [x[at + 1:].split() for x in body]
    # workers
    rows = [x for x in left if x]
    if n == 0:
        need(rows == [["No", "workers"]], f"{rows} shown without workers")
    else:
        header, rows = rows[0], rows[1:]
        marked = [h for h in header if h.startswith("[")]
        need(marked == [f"[{sort_by}]"], f"sorted by {sort_by}, marked {marked}")
        names = [h.strip("[]") for h in header]
        need(len(rows) == n, f"{len(rows)} of {n} workers shown: {shown}")
        parsed = []
        for r in rows:
            r = list(r)
            k = names.index("lag")
            last = r.pop(k) if r[k].startswith("(") else ""
            need(len(r) == len(names), f"row {r}: {shown}")
            parsed.append((dict(zip(names, r)), last))
        left_over = list(report["worker_manager"])
        order = []
        for r, last in parsed:
            hit = max((x for x in left_over if same_row(r, last, x)), key=lambda x: x[sort_by], default=None)
            need(hit is not None, f"the row {r} {last} matches no worker of {left_over}: {shown}")
            left_over.remove(hit)
            order.append(hit[sort_by])
        need(all(x >= y for x, y in zip(order, order[1:])), f"workers are shown in the order {order} of {sort_by}")
    # clients and functions
    cells = [r for r in right if r]
    want = [("client_manager", report["client_manager"]), ("func_to_num_tasks", report["function_manager"])]
    at = 0
    for title, data in want:
        need(at < len(cells) and cells[at] == [title], f"table {title} missing: {shown}")
        at += 1
        expect = sorted((trunc(k, 18), str(v)) for k, v in data.items())
        got = sorted(tuple(c) for c in cells[at:at + len(data)])
        need(got == expect, f"{title} is {data} and shown as {got}")
        at += len(data)
    need(at == len(cells), f"more is shown than reported: {cells[at:]}")


def trunc(s, n):
    return s if len(s) <= n else s[:n] + "+"


def same_row(r, last, x):
    return (r["worker"] == trunc(x["worker"], 24) and is_percent(r["agt_cpu"], x["agt_cpu"]) and is_percent(r["cpu"], x["cpu"]) and is_bytes(r["agt_rss"], x["agt_rss"])
            and is_bytes(r["rss"], x["rss"]) and all(r[k] == str(x[k]) for k in ("free", "sent", "queued", "ITL")) and is_lag(r["lag"], x["lag"]) and is_last(last, x["last"]))


# ---------------------------------------------------------------- reports
def worker(i, **k):
    base = dict(worker=f"host|W{i}", agt_cpu=0.25, agt_rss=3 << 20, cpu=1.5, rss=5 << 30, free=7, sent=2, queued=1, lag=1500, last=1, ITL="110")
    return {**base, **k}


def report(workers=(), clients=None, functions=None, sent=None, received=None, cpu=0.1, rss=50 << 20, tm=(1, 2, 3, 4, 5, 6)):
    return {
        "binder": {"sent": sent if sent is not None else {"Task": 12345678, "HeartbeatEcho": 1}, "received": received if received is not None else {"Heartbeat": 3}},
        "client_manager": clients if clients is not None else {"client|1": 2},
        "function_manager": functions if functions is not None else {"f": 1},
        "task_manager": dict(zip(("unassigned", "running", "success", "failed", "canceled", "not_found"), tm)),
        "worker_manager": [dict(w) for w in workers],
        "scheduler": {"cpu": cpu, "rss": rss},
    }


LONG = "a-very-long-host-name-indeed|worker-number-one|123456789"
VALUES = dict(
    cpu=(0, 0.0004, 0.001, 1, 7.999, 65.535, 640), agt_cpu=(0, 0.5, 65.535), rss=(0, 1, 1023, 1024, (1 << 20) - 1, 1 << 20, 1 << 30, (1 << 40) - 1, 1 << 40, 1023 << 40),
    agt_rss=(0, 1 << 20), free=(0, 1, 1000, 10 ** 6), sent=(0, 1000), queued=(0, 65535), ITL=("000", "111"),
    lag=(0, 1, 49, 50, 999, 1000, 1001, 999999, 10 ** 6, 999 * 10 ** 6, 10 ** 9 - 1, 10 ** 9, 10 ** 9 + 1, 3 * 10 ** 9, 10 ** 12, (1 << 32) - 1), last=(0, 5, 6, 59, 60, 61, 10 ** 6),
    worker=("w", LONG, LONG + "2", "x" * 24, "x" * 25, "\\xff\\xfe|w"),
)
KEYS = {**{c: ord(c) for c in "nCMcmfwdl"}, "none": -1, "x": ord("x"), "resize": curses.KEY_RESIZE}


def value_cases(deep=False):
    for k, vs in VALUES.items():
        for v in vs:
            yield ((worker(1, **{k: v}),), {}, k)
            yield ((worker(1, **{k: v}), worker(2)), {}, k)
            for u in vs if deep or len(vs) < 8 else ():
                yield ((worker(1, **{k: v}), worker(2, **{k: u}), worker(3)), {}, k)
    for n in (0, 1, 2, 5, 30):
        yield (tuple(worker(i, cpu=i % 3, lag=i * 7, queued=-i % 4 + 4) for i in range(n)), {}, "cpu")
        for m in (0, 1, 2, 40):
            for many in ({"sent": {f"m{i}": 10 ** i for i in range(m)}}, {"received": {f"m{i}": i for i in range(m)}}, {"clients": {f"c{i}": i for i in range(m)}},
                         {"functions": {f"f{i}": i for i in range(m)}}, {"clients": {}, "functions": {}, "sent": {}, "received": {}},
                         {"clients": {LONG + str(i): i for i in range(m)}, "functions": {"g" * (15 + i): i for i in range(m)}}):
                yield (tuple(worker(i) for i in range(n)), many, "cpu")
    for v in (0, 1, 999, 1000, 10 ** 9):
        yield ((worker(1),), {"tm": (v, 0, v, 1, v, 2)}, "cpu")
    for c, r in itertools.product((0, 0.99999, 12.5), (0, 1023, 1024, 1 << 20, (1 << 30) - 1, 1 << 40)):
        yield ((worker(1),), {"cpu": c, "rss": r}, "cpu")


def value_case(case):
    workers, more, key = case
    more = dict(more)
    r = report(workers, **more)
    for k in {key, "cpu", "lag", "worker"} - {"last", "ITL"}:
        press = next(KEYS[c] for c, v in COLUMNS.items() if v == k)
        rows = 20 + max(len(workers), len(r["client_manager"]) + len(r["function_manager"])) + max(6, len(r["binder"]["sent"]), len(r["binder"]["received"]))
        s = watch([r], rows, 300, [press])
        check_screen(s, r, k)
    return "ok"


def key_cases(n=3):
    yield from itertools.product(KEYS, repeat=n)


def key_case(keys):
    """the last choice counts, whatever else is pressed"""
    rs = [report(tuple(worker(i, cpu=(i + t) % 3, rss=(2 * i + t) % 5, lag=(i * 3 + t) % 4, queued=(i + 2 * t) % 3, sent=i, free=9 - i) for i in range(1, 4)))
          for t in range(len(keys))]
    s = Screen(60, 300, [KEYS[k] for k in keys])
    by = "cpu"
    cfg = []
    real = s.refresh

    def refresh(*a):
        real(*a)
        t = len(cfg)
        nonlocal by
        by = COLUMNS.get(keys[t], by)
        check_screen(s, rs[t], by)
        cfg.append(by)
    s.refresh = refresh
    end, feed = run_top([enc(SchedulerState(json.dumps(r).encode())) for r in rs], s)
    need(isinstance(end, TimeoutError), f"the monitor ends with {end!r} on keys {keys}")
    need(len(cfg) == len(keys), f"{len(cfg)} of {len(keys)} reports are shown")
    return tuple(cfg)


SIZED = [report(), report(tuple(worker(i) for i in range(3)))]


def size_cases(rows=30, cols=170):
    for r in range(1, rows + 1):
        for c in range(1, cols + 1):
            yield (r, c)


def size_case(case):
    r, c = case
    out = []
    for rep in SIZED:
        s = watch([rep, rep], r, c, [])
        out.append(s.shows)
    return tuple(out)


def grow_case(case):
    """too small first, then large enough"""
    r, c = case
    rep = SIZED[1]
    s = Screen(100, 300)
    small = curses.newwin(r, c, 0, 0)
    wins = [small, s.win]
    s.win = small
    s.rows = r
    n = [0]
    real = s.refresh

    def refresh(*x):
        real(*x)
        n[0] += 1
        s.win, s.rows = wins[1], 100
    s.refresh = refresh
    end, _ = run_top([enc(SchedulerState(json.dumps(rep).encode()))] * 3, s)
    need(isinstance(end, TimeoutError), f"the monitor ends with {end!r}")
    check_screen(s, rep, "cpu")
    return n[0]


# ---------------------------------------------------------------- what else arrives
def enders():
    for n in (1, 2, 3):
        for seq in itertools.product(range(4), repeat=n):
            for stop in ("INTERRUPT", None):
                yield (tuple(seq), stop)


def ender_case(case):
    """anything may be published beside the reports; ending is orderly"""
    seq, stop = case
    good = enc(SchedulerState(json.dumps(SIZED[1]).encode()))
    others = [good, enc(M.HeartbeatEcho()), enc(TaskState(b"t", b"f", M.TaskStatus.Running)), [b"x"]]
    msgs = [others[i] for i in seq]
    s = Screen(60, 300)
    end, feed = run_top(msgs + ([stop] if stop else []), s, ("--timeout", "3", "tcp://127.0.0.1:9"))
    need(feed.connected == ["tcp://127.0.0.1:9"], f"connects to {feed.connected}")
    need(feed.timeout == 3000, f"waits {feed.timeout} ms, 3 s were asked for")
    need(end == "returned" if stop else isinstance(end, TimeoutError), f"ends with {end!r}")
    need(s.shows == sum(i == 0 for i in seq), f"{s.shows} reports shown")
    return s.shows


# ---------------------------------------------------------------- reports of the real scheduler
BEATS = [dict(), dict(queued=3, has_task=True, lock=True, lat=10 ** 7), dict(cpu=9.5, rss=1 << 33, lat=4 * 10 ** 9, init=False)]
OPS = ["hb1a", "hb1b", "hb1c", "hb2a", "client", "fn", "task", "result", "fail", "leave1", "tick", "silent"]


def live_cases(depth=3, prefix=()):
    yield from (tuple(prefix) + x for x in itertools.product(OPS, repeat=depth))


def live_case(ops):
    """every report of the real scheduler is shown as it is"""
    box = Box(skip=("WorkerMaster",))
    try:
        start_sched("object", {**SCHED_DEFAULTS, "timeout": 3}, (), "tcp://127.0.0.1:7001", box)
        box.rest()
        x = Sched(box, "tcp://127.0.0.1:7001")
        n = 0
        for op in ops:
            if op.startswith("hb"):
                k = BEATS["abc".index(op[3])]
                x.send(b"host|" + op[2].encode(), M.Heartbeat(0.1, 1 << 20, k.get("cpu", 0.2), k.get("rss", 1 << 21), k.get("queued", 0), k.get("lat", 100), k.get("init", True),
                                                              k.get("has_task", False), k.get("lock", False)))
            elif op == "client":
                x.send(b"client|2", M.FunctionRequest(FQ.Add, FIDS["g"], b"g", CONTENT["g"]))
            elif op == "fn":
                x.add("f")
            elif op == "task":
                n += 1
                x.send(b"client", M.Task(b"t%d" % n, FIDS["f"], []))
            elif op in ("result", "fail"):
                for who in list(x.conns):
                    for _, m in x.of(who, M.Task):
                        x.send(who, M.TaskResult(m.task_id, M.TaskStatus.Success if op == "result" else M.TaskStatus.Failed, 1.0, b"r"))
            elif op == "leave1":
                x.send(b"host|1", M.DisconnectRequest(b"host|1"))
            elif op == "silent":
                for _ in range(5):
                    x.tick()
            elif op == "tick":
                x.tick()
        x.tick()
        frames = [f for f in box.w.net.pub if f[0] == MessageType.SchedulerState.value]
        need(frames, "no report is published")
        rep = json.loads(frames[-1][1])
        frames_all = [list(f) for f in box.w.net.pub]
    finally:
        box.close()
    s = Screen(40, 250)
    end, feed = run_top(frames_all, s)
    need(isinstance(end, TimeoutError) and not feed.messages, f"the monitor ends with {end!r} on {rep}")
    check_screen(s, rep, "cpu")
    return (len(rep["worker_manager"]), s.shows)
