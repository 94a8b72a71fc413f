"""L2 scenarios: the real worker agent and its processors."""
import signal

from .explore import Violation
from .registry import bfs_scenario
from .workersim import M, S, WorkerSim


def wk(name, props, ops, quick=1500, thorough=None, weight=1, **kw):
    bfs_scenario("worker/" + name, props.split(), lambda: WorkerSim(ops, **kw), quick=quick and dict(max_states=quick, max_depth=60),
                 thorough=dict(max_states=thorough or (quick or 2000) * 20, max_depth=80), weight=weight)


T, X, B = "task", "cancel", "balance"
wk("one", "C15 C16 C23", [(T, "a")])
wk("two", "C15 C23", [(T, "a"), (T, "b")])
wk("three", "C15", [(T, "a"), (T, "b"), (T, "c")], quick=600)
wk("two-functions", "C15 C18", [(T, "a"), (T, "b", "g"), (T, "c")], quick=800)
wk("failing", "C15 C17", [(T, "a", "f", "err"), (T, "b"), (T, "c", "g", "err")], quick=800)
wk("cancel-one", "C15 C16 C23 C07", [(T, "a"), (X, "a")])
wk("cancel-next", "C15 C16 C07", [(T, "a"), (X, "a"), (T, "b")], quick=2500, weight=2)
wk("cancel-first", "C15 C16 C07", [(T, "a"), (T, "b"), (X, "a")], quick=2500, weight=2)
wk("cancel-second", "C15 C16 C07", [(T, "a"), (T, "b"), (X, "b")], quick=2500, weight=2)
wk("cancel-middle", "C16 C15", [(T, "a"), (T, "b"), (T, "c"), (X, "b")], quick=1200, weight=2)
wk("cancel-both", "C16 C15 C07", [(T, "a"), (T, "b"), (X, "a"), (X, "b")], quick=2500, weight=2)
wk("cancel-twice", "C16 C15 C07", [(T, "a"), (X, "a"), (X, "a"), (T, "b")], quick=2000, weight=2)
wk("cancel-unknown", "C16 C15 C07", [(X, "z"), (T, "a"), (X, "y"), (T, "b")], quick=1500)
wk("cancel-other-function", "C16 C15 C18", [(T, "a"), (X, "a"), (T, "b", "g")], quick=2000, weight=2)
wk("cancel-again", "C16 C15", [(T, "a"), (X, "a"), (T, "b"), (X, "b"), (T, "c")], quick=1800, weight=2)
wk("cancel-resend", "C16 C15", [(T, "a"), (X, "a"), (T, "a")], quick=2000, weight=2)
wk("cancel-early", "C15 C16 C07", [(T, "a"), (X, "a"), (T, "b")], early=True, quick=2500, weight=2)
wk("cancel-early-two", "C15 C16", [(T, "a"), (T, "b"), (X, "a"), (X, "b")], early=True, quick=2000, weight=2)
wk("early", "C15 C16 C12", [(T, "a"), (B, 1), (T, "b")], early=True, quick=1500)
wk("balance", "C15 C12 C23", [(T, "a"), (T, "b"), (B, 1)], quick=1500)
wk("balance-all", "C15 C12", [(T, "a"), (T, "b"), (T, "c"), (B, 5)], quick=1500)
wk("balance-some", "C15 C12", [(T, "a"), (T, "b"), (T, "c"), (B, 1), (B, 1)], quick=1500)
wk("balance-none", "C15 C12", [(B, 0), (B, 2), (T, "a"), (B, 0)], quick=1000)
wk("balance-cancel", "C15 C12 C16 C07", [(T, "a"), (T, "b"), (B, 1), (X, "b")], quick=2500, weight=2)
wk("cancel-balance", "C15 C12 C16 C07", [(T, "a"), (T, "b"), (X, "a"), (B, 1)], quick=2500, weight=2)
wk("balance-return", "C15 C12", [(T, "a"), (T, "b"), (B, 2), (T, "b")], quick=1500)
wk("repeated", "C15", [(T, "a"), (T, "a")], quick=1500)
wk("repeated-second", "C15", [(T, "a"), (T, "b"), (T, "b"), (T, "c")], quick=1200)
wk("repeated-cancel", "C15 C16", [(T, "a"), (T, "a"), (X, "a"), (T, "b")], quick=1500)
wk("delete", "C15 C18 C13", [(T, "a"), ("delete", "f"), (T, "b")], quick=1500)
wk("delete-unknown", "C15 C13", [("delete", "g"), (T, "a"), ("delete", "g")], quick=800)
wk("delete-early", "C15 C13", [("delete", "f"), (T, "a")], early=True, quick=800)
wk("stale", "C15 C16", [("response", "f"), (T, "a"), ("response", "f"), (T, "b", "g")], quick=1500)
wk("stale-cancel", "C16 C15", [(T, "a"), (X, "a"), ("response", "f"), (T, "b")], quick=2000, weight=2)
wk("missing", "C15", [(T, "a"), (T, "b", "g"), (T, "c")], func=("ok", "none"), none=1, quick=1200)
# every order of the scheduler's messages, the agent's loop running to rest between two events
wk("orders-cancel", "C16 C15 C07", [(T, "a"), (T, "b"), (X, "a"), (X, "b"), (X, "b"), (X, "b")], free=True, fine=False, quick=3000, weight=2)
wk("orders-balance", "C15 C12 C16", [(T, "a"), (T, "b"), (T, "c"), (X, "b"), (B, 1), (B, 2)], free=True, fine=False, quick=3000, weight=2)
wk("orders-resend", "C15 C16 C12", [(T, "a"), (T, "b"), (T, "b"), (X, "b"), (B, 1)], free=True, fine=False, quick=3000, weight=2)
wk("orders-functions", "C15 C16 C18", [(T, "a"), (T, "b", "g"), (T, "c"), (X, "a"), ("delete", "f")], free=True, fine=False, quick=3000, weight=2)


class HeartSim(WorkerSim):
    """half seconds pass one by one, the scheduler answers heartbeats or does not: the reference knows when heartbeats are due,
    what they must say, and when the worker must give up"""

    def __init__(self, ops, ticks, hb=1, death=2, quits=False, early=False, jump=False):
        self.ticks, self.quits, self.jump = ticks, quits, jump
        self.due = self.seen = 0
        self.quit = None
        super().__init__(ops, fine=False, hb=hb, death=death, early=early)
        self.t0 = self.last = self.w.now
        self.beats = 1
        self.after()

    def quiet(self, limit=400):
        super().quiet(limit)

    def actions(self):
        if self.quit:
            return []
        out = super().actions()
        if self.ticks:
            out.append(("tick", 1))
            if self.jump:
                out.append(("tick", 6))
        if self.echo_due:
            out.append(("echo",))
        if self.quits:
            out.append(("sigint",))
        return out

    def do(self, a):
        if a[0] == "tick":
            self.ticks -= 1
            for _ in range(a[1]):
                self.half()
                if self.quit:
                    break
        elif a[0] == "echo":
            if self.in_flight:
                self.last = self.w.now
                self.in_flight = False
                self.latency = int((self.w.now - self.sent_at) * 500000)
            self.op_echo()
            self.after()
        elif a[0] == "sigint":
            self.stopping = True
            self.w.signal(self.ap, signal.SIGINT)
            self.gone()
        else:
            super().do(a)

    latency = 0
    in_flight = True  # the first heartbeat goes out with the start of the agent

    def half(self):
        w = self.w
        w.now += 0.5
        t = w.now - self.t0
        whole = t == int(t)
        if whole and int(t) % self.hb == 0 and not self.in_flight:
            self.beats += 1
            self.in_flight = True
        if whole and w.now - self.last >= self.death:
            self.stopping = True
            self.gone()
            return
        self.after()

    def gone(self):
        for _ in range(60):
            if not self.w.step_loop(self.ap):
                break
        self.quit = True
        self.follow()
        self.check_agent()
        if not self.w.root_done(self.ap):
            raise Violation(["C24", "C26"], f"the agent does not quit, {self.w.now - self.last} s after it last heard of the scheduler")
        if self.w.root_exception(self.ap) is not None:
            raise Violation(["C24", "C26"], f"the agent ended with {self.w.root_exception(self.ap)!r}")
        if self.disconnected != 1:
            raise Violation(["C24", "C26"], "the agent quit without telling the scheduler")
        if self.alive():
            raise Violation(["C26", "C24"], "the agent quit and left its processor running")

    def after(self):
        super().after()
        if not self.quit and self.w.root_done(self.ap):
            raise Violation("C24", f"the agent quit {self.w.now - self.last} s after it last heard of the scheduler")
        if not self.quit and self.heartbeats != self.beats:
            raise Violation("C24", f"{self.heartbeats} heartbeats were sent, {self.beats} were due")

    def check_agent(self):
        if self.quit:
            return
        if self.w.root_done(self.ap) and not self.stopping:
            raise Violation(["C24", "C15", "C16"], f"the agent quit {self.w.now - self.last} s after it last heard of the scheduler, with {self.w.root_exception(self.ap)!r}")
        super().check_agent()

    def check_heartbeat(self, m):
        p = self.processors()
        held = list(self.held.values())
        cur = [j for j in held if j.sent]
        want = dict(queued=len(held) - len(cur), initialized=len(p) in self.inits, has=bool(cur), lock=bool(cur))
        got = dict(queued=m.queued_tasks, initialized=m.initialized, has=m.has_task, lock=m.task_lock)
        if m.worker_rss != self.w.rss(p[-1].pid) or m.agent_rss != self.w.rss(self.ap.pid):
            self.fail(["C24", "C22"], f"a heartbeat reports rss {m.worker_rss} and {m.agent_rss}")
        if got != want:
            self.fail(["C24", "C22"], f"a heartbeat says {got}, it is {want}")
        if abs(m.latency_us - self.latency) > 1:
            self.fail(["C24", "C22"], f"a heartbeat says {m.latency_us} us latency, the last round trip took {2 * self.latency} us")
        self.sent_at = self.w.now

    def drain(self):
        if not self.quit:
            super().drain()

    def key(self):
        return super().key() + (self.ticks, self.echo_due, self.in_flight, self.quit, self.latency, self.in_flight and self.w.now - self.sent_at, self.w.now - self.last, self.w.now - self.t0)


def hb(name, props, ops, ticks, quick=3000, **kw):
    bfs_scenario("beat/" + name, props.split(), lambda: HeartSim(ops, ticks, **kw), quick=dict(max_states=quick, max_depth=60),
                 thorough=dict(max_states=quick * 20, max_depth=80), weight=2)


hb("idle", "C24", [], 12)
hb("idle-3", "C24", [], 14, hb=2, death=3)
hb("short-death", "C24", [], 8, hb=2, death=1)
hb("jump", "C24", [], 6, death=4, jump=True)
hb("tasks", "C24 C22", [(T, "a"), (T, "b")], 5, death=4)
hb("cancel", "C24 C22", [(T, "a"), (T, "b"), (X, "a")], 4, death=4)
hb("early", "C24 C22", [(T, "a"), (T, "b")], 5, death=4, early=True)
hb("quit", "C26 C24", [(T, "a"), (T, "b")], 5, death=2, quits=True)
hb("lost", "C26 C24", [(T, "a"), (T, "b"), (X, "a")], 5, death=2)
hb("quit-cancel", "C26", [(T, "a"), (X, "a"), (T, "b")], 1, death=2, quits=True)
hb("quit-early", "C26", [(T, "a"), (X, "a")], 1, death=2, quits=True, early=True)
