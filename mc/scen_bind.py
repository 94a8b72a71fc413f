"""L5: every small signature x call, submitted through the real Client and run by the real Processor (C20)."""
import functools
import itertools

from . import world
from .coop import CoopThread
from .explore import Violation
from .registry import enum_scenario
from .run import listed
from .world import World, import_scaled

import_scaled()

import zmq  # noqa: E402
from scaled.client import Client  # noqa: E402
from scaled.protocol.python import message as M  # noqa: E402
from scaled.protocol.python.serializer.default import DefaultSerializer  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402
from scaled.worker.agent.processor.processor import Processor  # noqa: E402

from . import fakezmq  # noqa: E402

PROTO = {k.value: v for k, v in M.PROTOCOL.items()}


class Rig:
    """real client - relay - real processor"""

    ADDR = "tcp://127.0.0.1:1"

    def __init__(self):
        self.w = World().__enter__()
        self.cp = self.w.new_proc("client")
        self.hp = self.w.new_proc("relay")
        self.w.auto_threads = lambda name, t: name != "CacheCleaner"
        self.w.cur_proc = self.hp
        ctx = fakezmq.FakeContext()
        self.router = ctx.socket(zmq.ROUTER)
        self.router.bind(self.ADDR)
        self.pair = ctx.socket(zmq.PAIR)
        ipc = ZMQConfig.from_string("ipc:///tmp/y")
        self.pair.bind(ipc.to_address())
        self.client = self.w.in_proc(self.cp, Client, self.ADDR)
        self.w.in_proc(self.cp, Processor(event_loop="builtin", address=ipc, garbage_collect_interval_seconds=30, trim_memory_threshold_bytes=1 << 30,
                                          function_retention_seconds=1000000, serializer=DefaultSerializer()).start)
        self.pp = self.w.procs[-1]
        self.cid = None
        self.functions = {}
        self.ct = self.cp.threads[0]
        self.pt = self.pp.main
        self.errors = []
        self.pump()

    def wake(self, t):
        if t.state == CoopThread.NEW or t.runnable(self.w.now):
            self.w.resume(t)
            return True
        if t.state == CoopThread.DONE:
            raise Violation(["C10", "C17", "C20"], f"thread {t.name} of {t.proc.name} ended: {t.exc!r}")
        return False

    def tick(self, t):
        if t.can_time_out():
            self.w.resume(t)

    def relay(self):
        n = False
        while self.router.inbox:
            n = True
            cid, kind, *data = self.router.inbox.popleft()
            m = PROTO[kind].deserialize(data)
            if isinstance(m, M.FunctionRequest):
                self.functions[m.function_id] = m
                self.reply(cid, M.FunctionResponse(M.FunctionResponseType.OK, m.function_id, b"", b""))
            elif isinstance(m, M.Task):
                self.cid = cid
                self.reply(cid, M.TaskEcho(m.task_id, M.TaskEchoStatus.SubmitOK))
                self.pair.send_multipart([kind, *data])
        while self.pair.inbox:
            n = True
            kind, *data = self.pair.inbox.popleft()
            m = PROTO[kind].deserialize(data)
            if isinstance(m, M.FunctionRequest):
                f = self.functions[m.function_id]
                r = M.FunctionResponse(M.FunctionResponseType.OK, f.function_id, f.function_name, f.content)
                self.pair.send_multipart([M.MessageType.FunctionResponse.value, *r.serialize()])
            elif m.task_id:
                self.router.send_multipart([self.cid, kind, *data])
        return n

    def reply(self, cid, m):
        self.router.send_multipart([cid, M.PROTOCOL.inverse[type(m)].value, *m.serialize()])

    def pump(self):
        self.tick(self.ct)
        for _ in range(50):
            n = False
            for d in self.w.net.deliverable():
                self.w.net.deliver(*d)
                n = True
            n = self.relay() or n
            n = self.wake(self.ct) or n
            n = self.wake(self.pt) or n
            if not n:
                return
            if self.w.net.conns[0].s2c or self.w.net.conns[0].c2s:
                continue
            self.tick(self.ct)

    def call(self, fn, args, kwargs):
        del self.w.net.sent[:]
        try:
            f = self.w.in_proc(self.cp, lambda: self.client.submit(fn, *args, **kwargs))
        except TypeError as e:
            return ("TypeError", "submit", str(e))
        for _ in range(5):
            self.pump()
            if f.done():
                break
        if not f.done():
            raise Violation("C20", f"{fn} called with {args} {kwargs}: no outcome")
        e = f.exception()
        if e is None:
            return ("value", f.result())
        return (type(e).__name__, "future", str(e))


RIG = []


def rig():
    if not RIG or RIG[0][1] > 3000:
        if RIG:
            RIG[0][0].w.close()
        RIG[:] = [[Rig(), 0]]
    RIG[0][1] += 1
    return RIG[0][0]


def direct(fn, args, kwargs):
    try:
        return ("value", fn(*args, **kwargs))
    except TypeError as e:
        return ("TypeError", "direct", str(e))


# ---------------------------------------------------------------- plain functions
def signatures(most):
    for n in range(most + 1):
        for po in range(n + 1):
            for nd in range(n + 1):  # the last nd parameters have defaults
                for var in (0, 1):
                    for ko in ("", "k", "kd"):
                        for kw in (0, 1):
                            yield (n, po, nd, var, ko, kw)


@functools.lru_cache(400)
def make(sig):
    n, po, nd, var, ko, kw = sig
    names = "abcdef"[:n]
    parts = []
    for i, x in enumerate(names):
        parts.append(x + (f"='{x}0'" if i >= n - nd else ""))
        if i == po - 1:
            parts.append("/")
    if var:
        parts.append("*args")
    elif ko:
        parts.append("*")
    if ko:
        parts.append("k" + ("='k0'" if ko == "kd" else ""))
    if kw:
        parts.append("**kw")
    ret = ", ".join([f"('{x}', {x})" for x in names] + (["('args', args)"] if var else []) + (["('k', k)"] if ko else []) +
                    (["('kw', sorted(kw.items()))"] if kw else []))
    src = f"def f({', '.join(parts)}):\n    return [{ret}]\n"
    env = {"__name__": "not_importable"}
    exec(src, env)
    return env["f"], src.splitlines()[0]


def calls(sig, kmax, amax):
    n, po, nd, var, ko, kw = sig
    names = list("abcdef"[:n]) + (["k"] if ko else []) + ["z"]
    for na in range(min(n + 1, amax) + 1):
        for k in range(kmax + 1):
            for ks in itertools.combinations(names, k):
                yield na, ks
                if k > 1:
                    yield na, ks[::-1]


def bind_cases(most, kmax, part, parts):
    i = 0
    for sig in signatures(most):
        i += 1
        if i % parts != part:
            continue
        for na, ks in calls(sig, kmax, most + 1):
            yield (sig, na, ks)


def positional_possible(sig, na, ks):
    """the call can be written with positional arguments only, no parameter before a given one lacking a value"""
    n, po, nd, var, ko, kw = sig
    if any(k not in "abcdef"[po:n] for k in ks):
        return False
    return True


def bind(case):
    sig, na, ks = case[0], case[1], case[2]
    fn, text = make(tuple(sig))
    args = tuple(range(1, na + 1))
    kwargs = {k: "K" + k for k in ks}
    want = direct(fn, args, kwargs)
    got = rig().call(fn, args, kwargs)
    what = f"{text} called with {args} {kwargs}"
    judge(what, want, got, positional_possible(sig, na, ks))
    return want[0], got[0]


def judge(what, want, got, must_run):
    if got[0] not in ("value", "TypeError"):
        raise Violation("C20", f"{what}: ended with {got}")
    if got[0] == "value" and want[0] != "value":
        raise Violation("C20", f"{what}: a direct call raises {want[2]}, but it ran: {got[1]}")
    if got[0] == "value" and got[1] != want[1]:
        raise Violation("C20", f"{what}: bound {got[1]} instead of {want[1]}")
    if got[0] != "value" and want[0] == "value" and must_run:
        raise Violation(["C20", "C01"], f"{what}: refused: {got}")


PARTS = 6
for part in range(PARTS):
    enum_scenario(f"bind/functions-{part}", ["C20"], functools.partial(bind_cases, part=part, parts=PARTS), bind,
                  quick=dict(most=4, kmax=3), thorough=dict(most=6, kmax=4), weight=3)


# ---------------------------------------------------------------- other callables
NS = {"__name__": "not_importable"}
exec("""
import functools

def base(a, b=20, c=30):
    return [a, b, c]

def kwonly(a, *, k, m=5):
    return [a, k, m]

def posonly(a, b=2, /, c=3):
    return [a, b, c]

def varia(a, *args, **kw):
    return [a, args, sorted(kw.items())]

class Box:
    def __init__(self, a, b=2, *, k=3):
        self.v = [a, b, k]
    def method(self, x, y=9, z=8):
        return [self.v, x, y, z]
    @classmethod
    def cm(cls, x, y=9):
        return [cls.__name__, x, y]
    @staticmethod
    def sm(x, y=9):
        return [x, y]
    def __call__(self, x, b=4):
        return [self.v, x, b]

def wrapping(f):
    @functools.wraps(f)
    def inner(*args, **kw):
        return ["w", f(*args, **kw)]
    return inner

wrapped = wrapping(base)
lam = lambda a, b=1, c=2: [a, b, c]
p_pos = functools.partial(base, 1)
p_kw = functools.partial(base, b=5)
p_last = functools.partial(base, c=5)
p_ko = functools.partial(kwonly, k=5)
box = Box(1)
meth = box.method
cm = Box.cm
cmi = box.cm
sm = Box.sm
""", NS)
CALLABLES = {k: NS[k] for k in ("base", "kwonly", "posonly", "varia", "wrapped", "lam", "p_pos", "p_kw", "p_last", "p_ko", "box", "meth", "cm", "cmi", "sm")}
CALLABLES.update({"sum": sum, "max": max, "min": min, "pow": pow, "divmod": divmod, "int": int, "str": str, "sorted": sorted, "dict": dict, "round": round,
                  "isinstance": isinstance, "abs": abs, "complex": complex, "list": list})
POOLS = {"sum": [[1, 2], 3], "max": [1, 5], "sorted": [[3, 1]], "dict": [[("q", 1)]], "int": ["11", 2], "list": [(1,)], "isinstance": [1]}


def callable_cases(kmax):
    for name in CALLABLES:
        names = ["a", "b", "c", "k", "m", "x", "y", "z", "base", "exp", "mod", "start", "default", "key", "reverse", "ndigits", "real", "imag", "number"]
        for na in range(5):
            for k in range(kmax + 1):
                for ks in itertools.combinations(names, k):
                    yield (name, na, ks)


def call_callable(case):
    name, na, ks = case[0], case[1], case[2]
    fn = CALLABLES[name]
    pool = POOLS.get(name, []) + [4, 3, 2, 1, 0]
    args = tuple(pool[:na])
    kwargs = {k: (2 if k != "key" and k != "reverse" else (None if k == "key" else True)) for k in ks}
    try:
        want = ("value", fn(*args, **kwargs))
    except TypeError as e:
        want = ("TypeError", "direct", str(e))
    except Exception as e:  # noqa
        want = (type(e).__name__, "direct", str(e))
    got = rig().call(fn, args, kwargs)
    what = f"{name} called with {args} {kwargs}"
    if want[0] not in ("value", "TypeError"):
        if got[0] not in (want[0], "TypeError"):
            raise Violation("C20", f"{what}: {got} instead of {want}")
        return want[0], got[0]
    judge(what, want, got, not ks)
    return want[0], got[0]


enum_scenario("bind/callables", ["C20"], callable_cases, call_callable, quick=dict(kmax=2), thorough=dict(kmax=4), weight=3)

# ---------------------------------------------------------------- one function after another through one client and processor
SEQ = [("base", (1,), {"c": 2}), ("lam", (1,), {"c": 2}), ("posonly", (1,), {"c": 7}), ("meth", (1,), {"z": 2}), ("varia", (1, 2), {}), ("base", (3, 2), {}), ("p_kw", (1,), {})]


def seq_cases(length):
    return itertools.product(range(len(SEQ)), repeat=length)


def run_seq(case):
    r = rig()
    for i in case:
        name, args, kwargs = SEQ[i]
        judge(f"{name}{args}{kwargs} in sequence {case}", direct(CALLABLES[name], args, kwargs), r.call(CALLABLES[name], args, dict(kwargs)), True)
    return case


enum_scenario("bind/sequences", ["C20", "C01"], seq_cases, run_seq, quick=dict(length=3), thorough=dict(length=4), weight=2)

# ---------------------------------------------------------------- defaults compared by identity
exec("""
MISSING = object()

def two(a=MISSING, b=0):
    return [a is MISSING, b]

def three(a, b=MISSING, c=0):
    return [a, b is MISSING, c]

def tail(a, b=0, c=MISSING):
    return [a, b, c is MISSING]
""", NS)
IDENT = [("two", (), {}), ("two", (), {"b": 1}), ("two", (1,), {"b": 1}), ("two", (), {"a": 1}), ("two", (1, 2), {}), ("three", (1,), {}),
         ("three", (1,), {"c": 2}), ("three", (), {"a": 1}), ("three", (), {"c": 2, "a": 1}), ("three", (1, 2), {"c": 5}), ("tail", (1,), {}),
         ("tail", (1,), {"b": 2}), ("tail", (), {"a": 2, "b": 5}), ("tail", (1, 2), {})]


def ident(case):
    name, args, kwargs = IDENT[case]
    want = direct(NS[name], args, kwargs)
    got = rig().call(NS[name], args, dict(kwargs))
    what = f"{name}{args}{kwargs} with a default compared by identity"
    if listed("C20", what) and want[0] == got[0] == "value" and got[1] == [False if x is True else x for x in want[1]]:
        return "known"
    judge(what, want, got, True)
    return got


enum_scenario("bind/identity", ["C20"], lambda: range(len(IDENT)), ident, quick=dict(), thorough=dict())
