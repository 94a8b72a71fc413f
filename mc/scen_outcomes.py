"""C17: every short sequence of outcomes a function can have at a worker."""
import _thread
import asyncio
import itertools
import pickle

from . import coop, workfn
from .explore import Violation
from .registry import enum_scenario
from .workersim import CONTENT, FIDS, FQ, FR, F, M, NAMES, S, WorkerSim

P = ["C17"]


class Plain(Exception):
    def __init__(self, a, b):
        super().__init__(f"plain {a} {b}")


class Hidden(Exception):
    """cannot be pickled"""

    def __reduce__(self):
        raise TypeError("no pickling of this")


class Unbuildable(Exception):
    """can be pickled, cannot be rebuilt"""

    def __reduce__(self):
        return Unbuildable.build, ()

    @staticmethod
    def build():
        raise RuntimeError("not here")


class NotText(Exception):
    def __str__(self):
        raise ValueError("no text")


class BadEverything(Exception):
    def __reduce__(self):
        raise TypeError("no pickling of this")

    def __str__(self):
        raise ValueError("no text")

    __repr__ = __str__


class BaseOnly(BaseException):
    pass


class Carries(Exception):
    """holds something that cannot be pickled"""


class BadResult:
    def __reduce__(self):
        raise ValueError("result refuses to be pickled")


class BadArg:
    def __reduce__(self):
        return bad_arg, ()


def bad_arg():
    raise LookupError("argument cannot be rebuilt")


def bad_function():
    raise LookupError("function cannot be rebuilt")


class BadFunction:
    def __reduce__(self):
        return bad_function, ()


def deep(n):
    return deep(n + 1) + 1 if n < 100000 else 0


def _raise(e):
    raise e


def _chain():
    try:
        raise KeyError("inner")
    except KeyError as e:
        raise Hidden("outer") from e


VALUES = {"value": 42, "none": None, "falsy": "", "exc-value": ValueError("returned"), "big": b"x" * 100000, "class": dict}
RAISES = {
    "error": lambda: _raise(ValueError("wrong")),
    "key": lambda: _raise(KeyError("k")),
    "plain": lambda: _raise(Plain(1, 2)),
    "hidden": lambda: _raise(Hidden("secret")),
    "unbuildable": lambda: _raise(Unbuildable("x")),
    "nottext": lambda: _raise(NotText("x")),
    "badeverything": lambda: _raise(BadEverything()),
    "carries": lambda: _raise(Carries(_thread.allocate_lock())),
    "chain": _chain,
    "exit": lambda: _raise(SystemExit(3)),
    "exit0": lambda: _raise(SystemExit()),
    "genexit": lambda: _raise(GeneratorExit()),
    "cancelled": lambda: _raise(asyncio.CancelledError()),
    "base": lambda: _raise(BaseOnly("x")),
    "assert": lambda: _raise(AssertionError()),
    "stop": lambda: _raise(StopIteration(1)),
    "deep": lambda: deep(0),
    "zmq": lambda: _raise(__import__("zmq").ZMQError(11, "from the function")),
    "timeout": lambda: _raise(TimeoutError("from the function")),
}
RESULTS = {"lock": lambda: _thread.allocate_lock(), "badresult": lambda: BadResult(), "lambda": lambda: (lambda: 1), "gen": lambda: (i for i in ())}
TYPES = {"error": "ValueError", "key": "KeyError", "plain": "Plain", "hidden": "Hidden", "unbuildable": "Unbuildable", "nottext": "NotText", "badeverything": "BadEverything",
         "carries": "Carries", "chain": "Hidden", "exit": "SystemExit", "exit0": "SystemExit", "genexit": "GeneratorExit", "cancelled": "CancelledError", "base": "BaseOnly",
         "assert": "AssertionError", "stop": "StopIteration", "deep": "RecursionError", "zmq": "ZMQError", "timeout": "TimeoutError"}
OTHER = ["badarg", "garbagearg", "badfn", "garbagefn", "notcallable", "arity"]
ALL = list(VALUES) + list(RAISES) + list(RESULTS) + OTHER
SMALL = ["value", "error", "hidden", "unbuildable", "badeverything", "exit", "base", "zmq", "lock", "badarg", "badfn", "garbagefn", "notcallable", "arity"]
OFID = b"O" * 16


class OutSim(WorkerSim):
    def __init__(self):
        super().__init__([], fine=False)
        self.contents = {}

    def outcome_of(self, tag):
        if tag in VALUES:
            return VALUES[tag]
        if tag in RESULTS:
            return RESULTS[tag]()
        return RAISES[tag]()

    def execute(self, name, args):
        return ("res", args[0])

    def said(self, m):
        if isinstance(m, M.FunctionRequest):
            self.func_due.append(m.function_id)
        elif isinstance(m, M.TaskResult):
            self.results.setdefault(m.task_id.decode(), []).append(m)
            self.held.pop(m.task_id.decode(), None)
        elif not isinstance(m, M.Heartbeat):
            raise Violation(P, f"sent {m}")

    def passed(self, m):
        pass

    def op_function(self, how):
        fid = self.func_due.pop(0)
        self.send(M.FunctionResponse(FR.OK, fid, b"name", self.contents[fid]))

    def submit(self, tid, tag):
        import cloudpickle
        fid, args = OFID, [pickle.dumps(tag)]
        content = cloudpickle.dumps(workfn.outcome)
        if tag == "badarg":
            args = [pickle.dumps(BadArg())]
        elif tag == "garbagearg":
            args = [b"\x80garbage"]
        elif tag == "arity":
            args = [pickle.dumps("value")] * 2
        elif tag == "badfn":
            fid, content = b"B" * 16, pickle.dumps(BadFunction())
        elif tag == "garbagefn":
            fid, content = b"G" * 16, b"\x80garbage"
        elif tag == "notcallable":
            fid, content = b"N" * 16, pickle.dumps(7)
        elif tag == "probe":
            fid, content, args = FIDS["f"], CONTENT["f"], [pickle.dumps("probe"), pickle.dumps("ok")]
        self.contents[fid] = content
        self.send(M.Task(tid.encode(), fid, [M.Argument(M.ArgumentType.Data, a) for a in args]))


def same(a, b):
    return type(a) is type(b) and (a == b or (isinstance(a, Exception) and repr(a) == repr(b)))


def judge(tag, m):
    if tag in VALUES:
        if m.status != S or not same(pickle.loads(m.result), VALUES[tag]):
            return "its value"
        return None
    if m.status != F:
        return "a failure"
    try:
        e = pickle.loads(m.result)
    except BaseException as x:  # noqa
        return f"an exception the client can load ({x!r})"
    if not isinstance(e, BaseException):
        return "an exception"
    text = f"{type(e).__name__} "
    try:
        text += f"{e} {e!r}"
    except Exception:  # noqa
        pass
    if tag in TYPES and TYPES[tag] not in text:
        return f"an exception that tells of {TYPES[tag]}"
    if tag == "error" and not (type(e) is ValueError and str(e) == "wrong"):
        return "the exception it raised"
    if tag in ("badarg", "badfn") and "cannot be rebuilt" not in text:
        return "an exception that tells what happened"
    return None


def check(case):
    burst, tags = case
    sim = OutSim()
    try:
        seq = [(f"t{i}", t) for i, t in enumerate(tags)] + [("p", "probe")]
        for tid, tag in seq:
            sim.submit(tid, tag)
            if not burst:
                sim.quiet()
        sim.quiet()
        out = []
        for tid, tag in seq:
            r = sim.results.get(tid, [])
            if len(r) != 1:
                raise Violation(P, f"{tags}: the task {tag!r} at position {tid} was answered {len(r)} times")
            m = r[0]
            if tag == "probe":
                ok = m.status == S and pickle.loads(m.result) == ("res", "probe")
                if not ok:
                    raise Violation(P, f"after {tags} a task is answered {m.status.name}")
            else:
                want = judge(tag, m)
                if want:
                    raise Violation(P, f"{tags}: the task {tag!r} was answered {m.status.name} instead of with {want}")
            out.append(m.status.name)
        return out
    finally:
        sim.close()


def cases(n, tags, both):
    tags = {"all": ALL, "small": SMALL}[tags]
    for k in range(1, n + 1):
        for seq in itertools.product(tags, repeat=k):
            yield False, seq
            if both:
                yield True, seq


enum_scenario("outcomes/pairs", P, cases, check, quick=dict(n=2, tags="all", both=False), thorough=dict(n=2, tags="all", both=True), weight=3)
enum_scenario("outcomes/triples", P, cases, check, quick=dict(n=3, tags="small", both=False), thorough=dict(n=4, tags="small", both=False), weight=3)
enum_scenario("outcomes/queued", P, lambda n, tags: (c for c in cases(n, tags, True) if c[0]), check, quick=dict(n=2, tags="small"), thorough=dict(n=3, tags="all"), weight=2)
