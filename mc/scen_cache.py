"""C18: the processor's main thread against its clean-up thread, bytecode by bytecode."""
import pickle

import cloudpickle
import zmq

from . import coop, fakezmq, workfn
from . import world as W
from .coop import CoopThread
from .explore import Violation
from .registry import dfs_scenario
from .threads import make_tracer, schedule
from .workersim import FIDS, FQ, FR, M, NAMES, S, DefaultSerializer, ZMQConfig, dec, enc
from .world import World

from scaled.io.config import CLEANUP_INTERVAL_SECONDS as STEP
from scaled.utility.zmq_config import ZMQType
from scaled.worker.agent.processor.processor import Processor

P = ["C18"]
FILES = ("scaled/worker/agent/processor/processor.py", "scaled/worker/agent/processor/cache_cleaner.py")
CODE = {("f", 1): cloudpickle.dumps(workfn.f), ("f", 2): cloudpickle.dumps(workfn.h), ("g", 1): cloudpickle.dumps(workfn.g)}
RUNS = {("f", 1): "f", ("f", 2): "h", ("g", 1): "g"}


class Run:
    """script: ("task", fn) | ("delete", fn) | ("wait", clean-up intervals) | ("burst", fn, ...)"""

    def __init__(self, script, retention, gc=100000, opcodes=True, files=FILES, free=1):
        self.w = w = World().__enter__()
        w.tracer = make_tracer(files, opcodes)
        workfn.SIM[0] = self
        self.script = script
        self.hp = w.new_proc("agent")
        w.cur_proc = self.hp
        self.sock = fakezmq.FakeContext().socket(zmq.PAIR)
        addr = ZMQConfig(ZMQType.ipc, host="/tmp/none")
        self.sock.bind(addr.to_address())
        self.p = w.spawn(Processor("builtin", addr, gc, 1, retention, DefaultSerializer()))
        w.cur_proc = None
        self.version = {"f": 1, "g": 1}
        self.sent = []  # (tid, fn, version)
        self.answers = {}
        self.asked = []
        self.calls = []
        self.ready = False
        self.free = free
        self.armed = False
        self.err = None
        tr, w.tracer = w.tracer, None
        self.feeder = w.new_thread(self.hp, "feeder", self.feed)
        w.tracer = tr
        self.retention = retention

    def execute(self, name, args):
        self.calls.append((name, args[0]))
        return (name, args[0])

    def put(self, m):
        self.sock.send_multipart(enc(m))
        for i, d in self.w.net.deliverable():
            if d == "s2c":
                self.w.net.deliver(i, d)

    def task(self, fn):
        tid = f"t{len(self.sent)}"
        self.sent.append((tid, fn, self.version[fn]))
        self.put(M.Task(tid.encode(), FIDS[fn], [M.Argument(M.ArgumentType.Data, pickle.dumps(tid))]))

    def feed(self):
        coop.block(lambda: self.ready, None, "feed")
        t0 = None
        for i, op in enumerate(self.script):
            self.armed = i >= self.free
            if op[0] == "task":
                self.task(op[1])
                coop.block(lambda: len(self.answers) == len(self.sent), None, "answer")
            elif op[0] == "delete":
                self.version[op[1]] += 1
                self.put(M.FunctionRequest(FQ.Delete, FIDS[op[1]], b"", b""))
            elif op[0] == "wait":
                t0 = self.w.now + op[1]
                coop.block(lambda: self.w.now >= t0 - 1e-9, op[1], "wait")

    def environment(self):
        while True:
            d = [x for x in self.w.net.deliverable() if x[1] == "c2s"]
            for i, way in d:
                self.w.net.deliver(i, way)
            if not self.sock.inbox:
                return
            while self.sock.inbox:
                m = dec(self.sock.inbox.popleft())
                if isinstance(m, M.FunctionRequest):
                    fn = NAMES[m.function_id]
                    self.asked.append(fn)
                    self.put(M.FunctionResponse(FR.OK, FIDS[fn], fn.encode(), CODE[(fn, self.version[fn])]))
                elif m.task_id == b"":
                    self.ready = True
                else:
                    tid = m.task_id.decode()
                    if tid in self.answers:
                        raise Violation(P, f"{tid} was answered twice")
                    fn, v = next((f, v) for t, f, v in self.sent if t == tid)
                    self.answers[tid] = m
                    if m.status != S:
                        raise Violation(P, f"{tid} failed: {pickle.loads(m.result)!r}")
                    if pickle.loads(m.result) != (RUNS[(fn, v)], tid):
                        raise Violation(P, f"{tid} was answered {pickle.loads(m.result)}, the function is {RUNS[(fn, v)]}")

    def died(self, t):
        raise Violation(P, f"the {'clean-up' if t is not self.p.main else 'processor'} thread died: {t.exc!r}")

    def threads(self):
        return self.p.threads + [self.feeder]

    def over(self):
        return self.feeder.state == CoopThread.DONE

    def run(self, ch):
        schedule(self.w, ch, self.threads, self.environment, self.died, lambda: (len(self.w.net.sent), self.feeder.state), P, until=self.over, armed=lambda: self.armed)
        if self.feeder.state != CoopThread.DONE:
            raise Violation(P, f"tasks are never answered: {[t for t, *_ in self.sent if t not in self.answers]}")
        cleaners = [t for t in self.p.threads if t is not self.p.main]
        if not cleaners or any(t.state == CoopThread.DONE for t in cleaners):
            raise Violation(P, "the clean-up thread ended")
        return tuple(self.asked), tuple(self.calls)


class Dropped(Run):
    """afterwards: unused functions get dropped, so they are asked for again"""

    def run(self, ch):
        out = super().run(ch)
        from .explore import Chooser
        names = sorted({fn for _, fn, _ in self.sent})
        n = len(self.asked)
        self.script = [("wait", self.retention + 2 * STEP + 0.5)]
        for fn in names:
            self.script.append(("task", fn))
        self.w.tracer = None
        self.feeder = self.w.new_thread(self.hp, "feeder", self.feed)
        schedule(self.w, Chooser((), 0), self.threads, self.environment, self.died, lambda: (len(self.w.net.sent), self.feeder.state), P, until=self.over)
        if self.feeder.state != CoopThread.DONE:
            raise Violation(P, "a task sent later is never answered")
        if sorted(self.asked[n:]) != names:
            raise Violation(P, f"{names} were unused for longer than the retention time; the processor asked for {self.asked[n:]} when they were used again")
        return out


def cache(name, script, retention, tbound=1, weight=2, deep=True, **kw):
    for label, files, bound in (("", FILES, 1), ("/cleaner", FILES[1:], 2)):
        def run(ch, files=files):
            r = Dropped(script, retention, files=files, **kw)
            try:
                return r.run(ch)
            finally:
                r.w.close()

        dfs_scenario("cache/" + name + label, P, run, quick=dict(bound=bound, max_execs=60000) if deep or bound == 1 else None, thorough=dict(bound=1 + tbound, max_execs=3000000), weight=weight)


T, W_ = "task", "wait"
cache("again", [(T, "f"), (W_, STEP), (T, "f")], 0.5 * STEP)
cache("two", [(T, "f"), (T, "g"), (W_, STEP), (T, "f")], 0.5 * STEP, free=2)
cache("new", [(T, "f"), (W_, STEP), (T, "g")], 0.5 * STEP)
cache("delete", [(T, "f"), (W_, STEP), ("delete", "f"), (T, "f")], 0.5 * STEP)
cache("delete-first", [(T, "f"), ("delete", "f"), (T, "f"), (W_, STEP), (T, "f")], 0.5 * STEP, deep=False)
cache("kept", [(T, "f"), (W_, STEP), (T, "f"), (W_, STEP), (T, "f")], 1.5 * STEP, free=2)
cache("zero", [(T, "f"), (W_, STEP), (T, "f"), (T, "g")], 0, deep=False)
cache("memory", [(T, "f"), (W_, STEP), (T, "f")], 0.5 * STEP, gc=0, deep=False)
