"""L2: a real cluster process, its worker agents and processors (and, for the combo, the scheduler), told to stop at any moment."""
import signal

import cloudpickle
import zmq

from . import coop, fakezmq, threads
from . import world as W
from .coop import CoopThread
from .explore import Violation
from .world import Canon, World
from .workersim import CONTENT, FIDS, FQ, FR, M, dec, enc

W.import_scaled()
from scaled.cluster.cluster import Cluster  # noqa: E402
from scaled.cluster.combo import SchedulerClusterCombo  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

ADDR = "tcp://127.0.0.1:1"
FILES = ("scaled/cluster/cluster.py", "scaled/worker/worker.py", "scaled/cluster/combo.py")


class ClusterSim:
    """Actions: the main thread of a process goes on to its next line (cluster, agents) or until it blocks; the loop of an agent
    runs (one iteration when `fine`, else to rest); a message from a processor to its agent; a signal to the cluster, or to all of
    its processes as from a terminal; the crash of an agent; a task for an agent.

    coarse: agents start up to rest in one step, processors always run to rest.
    delays: by default a process goes on until it waits, then the next one does; any other choice costs one of these."""

    def __init__(self, n, sigs=(signal.SIGTERM,), signals=1, group=False, crash=0, tasks=0, fine=False, coarse=False, combo=False, ready=False, delays=None):
        self.delays = delays
        self.last = 0
        self.n, self.sigs, self.signals, self.group, self.crash, self.tasks = n, sigs, signals, group, crash, tasks
        self.fine, self.coarse, self.combo = fine, coarse, combo
        self.told = False
        self.user_told = 0
        self.crashed = set()
        self.w = w = World().__enter__()
        w.start_points = True
        w.tracer = threads.make_tracer(FILES, opcodes=False)
        w.auto_threads = lambda name, t: name != "CacheCleaner"
        coop.decide = self.decide
        self.pos = 0
        self.beats = {}
        self.left = {}
        self.user = None
        if combo:
            self.hp = None
            self.user = w.new_proc("user")
            self.combos = []

            def user():
                c = SchedulerClusterCombo(address=ADDR, n_workers=n)
                self.combos.append(c)
                coop.block(lambda: self.user_told > 0, None, "user")
                c.shutdown()
            self.user.main = w.new_thread(self.user, "user", user)
            self.cp = None
        else:
            self.hp = w.new_proc("scheduler")
            w.cur_proc = self.hp
            self.router = fakezmq.FakeContext().socket(zmq.ROUTER)
            self.router.bind(ADDR)
            w.cur_proc = None
            self.cluster = Cluster(ZMQConfig.from_string(ADDR), n, 1000, 1000, 100000, 100000, 1 << 40, "builtin", DefaultSerializer())
            self.cp = w.spawn(self.cluster)
        if ready:
            self.rest()

    def decide(self, t):
        if self.draining:
            return False
        name = t.proc.name
        if name == "Agent" and self.coarse:
            return False
        return True

    draining = False

    # ------------------------------------------------------------ processes
    def procs(self, name=None):
        return [p for p in self.w.procs if p is not self.hp and (name is None or p.name == name)]

    def can_main(self, p):
        t = p.main
        return p.alive and t.state != CoopThread.DONE and t.runnable(self.w.now)

    def actions(self):
        out = []
        for i, p in enumerate(self.procs()):
            if self.can_main(p):
                out.append(("main", i))
            if p.alive and p.exitcode is None and self.w.can_step(p) and p.loop.has_work() and p.name != "Scheduler":
                out.append(("loop", i))
        for i, d in self.w.net.deliverable():
            if not (d == "c2s" and self.w.net.conns[i].address == ADDR):
                out.append(("net", i, d))
        if self.delays == 0 and out:
            out = [self.default(out)]
        if self.signals:
            if self.combo:
                if not self.user_told and self.combos:
                    out.append(("shutdown",))
            else:
                if not self.w.ended(self.cp):
                    for s in self.sigs:
                        out.append(("sig", int(s)))
                        if self.group:
                            out.append(("group", int(s)))
        if self.crash and not self.told:
            for i, p in enumerate(self.procs("Agent")):
                if not self.w.ended(p):
                    out.append(("crash", i))
        if self.tasks:
            for i, p in enumerate(self.procs("Agent")):
                if p.pid in self.beats and not self.w.ended(p):
                    out.append(("task", i))
        return out

    def default(self, out):
        n = len(self.w.procs)
        return min(out, key=lambda a: (a[0] == "net", (a[1] - self.last) % n if a[0] != "net" else a[1:]))

    def do(self, a):
        w = self.w
        k = a[0]
        if k in ("main", "loop", "net"):
            if self.delays:
                out = [x for x in self.actions() if x[0] in ("main", "loop", "net")]
                if a != self.default(out):
                    self.delays -= 1
            if k != "net":
                self.last = a[1]
        if k == "main":
            w.resume(self.procs()[a[1]].main)
        elif k == "loop":
            self.step(self.procs()[a[1]])
        elif k == "net":
            w.net.deliver(a[1], a[2])
        elif k == "sig":
            self.signals -= 1
            self.tell()
            w.signal(self.cp, a[1])
        elif k == "group":
            self.signals -= 1
            self.tell()
            for p in self.procs():
                if not w.ended(p):
                    w.signal(p, a[1])
        elif k == "shutdown":
            self.signals -= 1
            self.user_told = 1
            self.tell()
        elif k == "crash":
            self.crash -= 1
            p = self.procs("Agent")[a[1]]
            self.crashed.add(p)
            w.kill(p)
        elif k == "task":
            self.tasks -= 1
            p = self.procs("Agent")[a[1]]
            c = self.conn(p)
            fid = FIDS["f"]
            c.s2c.append(enc(M.Task(b"t%d" % self.tasks, fid, [])))
        self.follow()
        if self.coarse:
            self.settle_processors()

    def settle_processors(self):
        """processors on their own, and what they and their agents tell each other"""
        self.draining = True
        again = True
        while again:
            again = False
            for p in self.procs("Processor"):
                if self.can_main(p):
                    self.w.resume(p.main)
                    again = True
                if p.alive and p.exitcode is None and self.w.can_step(p) and p.loop.has_work():
                    self.step(p)
                    again = True
            for i, d in self.w.net.deliverable():
                if self.w.net.conns[i].address != ADDR:
                    self.w.net.deliver(i, d)
                    again = True
                    break
        self.draining = False

    def tell(self):
        self.told = True

    def conn(self, p):
        for c in self.w.net.conns:
            if c.address == ADDR and c.client is not None and c.client.proc is p:
                return c

    def step(self, p):
        for _ in range(1 if self.fine else 300):
            if not self.w.step_loop(p):
                break

    def follow(self):
        """what the scheduler hears"""
        if self.combo:
            return
        for p in self.w.procs:
            c = self.conn(p)
            if c is None:
                continue
            while c.c2s:
                m = dec(c.c2s.popleft())
                if isinstance(m, M.Heartbeat):
                    self.beats[p.pid] = self.beats.get(p.pid, 0) + 1
                elif isinstance(m, M.DisconnectRequest):
                    self.left[p.pid] = self.left.get(p.pid, 0) + 1
                    if m.worker != c.identity or self.left[p.pid] > 1:
                        raise Violation("C26", f"a worker announces its departure {self.left[p.pid]} times, as {m.worker!r}")
                elif isinstance(m, M.FunctionRequest):
                    c.s2c.append(enc(M.FunctionResponse(FR.OK, m.function_id, b"f", CONTENT["f"])))

    def rest(self, limit=3000):
        """let everything that can happen happen"""
        self.draining = True
        w = self.w
        for _ in range(limit):
            n = False
            for p in self.procs():
                if self.can_main(p):
                    w.resume(p.main)
                    n = True
                if p.alive and p.exitcode is None and self.w.can_step(p):
                    if p.name == "Scheduler":
                        k = len(w.net.sent)
                        w.settle(p)
                        n = n or len(w.net.sent) != k
                    elif w.step_loop(p):
                        n = True
                self.follow()
            for i, d in w.net.deliverable():
                w.net.deliver(i, d)
                n = True
                break
            if not n:
                self.draining = False
                return
        self.draining = False
        raise Violation("C26", "the cluster never comes to rest")

    def drain(self):
        if not self.told:
            self.rest()
            self.check_up()
            if self.combo:
                self.user_told = 1
            else:
                self.w.signal(self.cp, self.sigs[0])
            self.told = True
        self.rest()
        left = []
        orphans = [p for p in self.procs() if p.parent in self.crashed]
        for p in self.procs():
            if p not in orphans and not self.w.ended(p) and p is not self.user:
                left.append(p.name)
        if left:
            why = [f"{p.name}: {p.main.exc!r}" for p in self.procs() if p.main.exc is not None]
            raise Violation("C26", f"{left} never end after the cluster was told to stop ({'; '.join(why)})")
        for p in self.procs("Agent"):
            if p.pid in self.beats and p not in self.crashed and not self.left.get(p.pid):
                raise Violation("C26", f"a worker ended without announcing it ({p.main.exc!r})")
        if self.user is not None and self.user.main.exc is not None:
            raise Violation("C26", f"shutdown raises {self.user.main.exc!r}")

    def check_up(self):
        """not told to stop: everything is there"""
        if self.crashed or self.combo:
            return
        ups = [p for p in self.procs("Agent") if not self.w.ended(p)]
        if len(ups) != self.n or len(self.beats) != self.n:
            raise Violation("C26", f"{len(ups)} of {self.n} workers are up, {len(self.beats)} were heard of")

    def key(self):
        c = Canon(self.w)
        out = []
        for p in self.procs():
            m = p.main
            loop = None
            if p.loop is not None:
                loop = (tuple(repr(c.coro(t.get_coro())) for t in p.loop.tasks if not t.done()), len(p.loop.ready), tuple(map(int, p.loop.signalled)))
            out.append((p.name, p.alive, p.exitcode, p.visible, p.reaped, self.where(m), len(m.pending), loop, p in self.crashed))
        conns = tuple((x.c_open, tuple(map(tuple, x.c2s)), tuple(map(tuple, x.s2c))) for x in self.w.net.conns)
        return (repr(out), repr(conns), self.delays, self.delays is not None and self.last, self.signals, self.crash, self.tasks, self.user_told, tuple(sorted(self.beats)), tuple(sorted(self.left.items())))

    def where(self, t):
        import sys
        if t.state == CoopThread.DONE:
            return ("done", type(t.exc).__name__)
        if t.os is None or t.state == CoopThread.NEW:
            return ("new",)
        fr = sys._current_frames().get(t.os.ident)
        out = []
        while fr is not None:
            if fr.f_globals.get("__name__", "").startswith("scaled"):
                out.append((fr.f_code.co_name, fr.f_lasti, tuple((k, v) for k, v in fr.f_locals.items() if isinstance(v, (int, bytes)))))
            fr = fr.f_back
        return (t.state, t.why if t.state == CoopThread.BLOCKED else "", tuple(out))

    def outcome(self):
        return repr([(p.name, self.w.ended(p), p.exitcode) for p in self.procs()])

    def close(self):
        coop.decide = None
        self.w.close()
