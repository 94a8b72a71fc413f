"""Thread-level exploration: every bytecode of the traced files that can touch shared state is a scheduling point."""
import dis
import sys

from . import coop
from .coop import CoopThread
from .explore import Violation

_NAMES = {"LOAD_ATTR", "STORE_ATTR", "LOAD_METHOD", "CALL", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR", "CONTAINS_OP", "FOR_ITER", "BEFORE_WITH",
          "CALL_FUNCTION_EX", "DELETE_ATTR", "STORE_GLOBAL", "DICT_MERGE", "LIST_EXTEND", "CALL_KW"}
_PURE = {"isinstance", "issubclass", "len", "callable", "str", "repr", "type", "range", "bool", "int", "getattr", "id", "hash", "super"}
_warm = []
_points = {}
_stored = {}


def _codes(code):
    yield code
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            yield from _codes(c)


def _stored_attributes(filename):
    """attributes that something other than a constructor assigns in this file: reading any other one commutes with everything"""
    r = _stored.get(filename)
    if r is None:
        r = _stored[filename] = set()
        with open(filename) as f:
            code = compile(f.read(), filename, "exec")
        for c in _codes(code):
            if c.co_name != "__init__":
                r.update(i.argval for i in dis.get_instructions(c) if i.opname in ("STORE_ATTR", "DELETE_ATTR"))
    return r


def _callee(ins, i):
    """the instruction that put the callee of the CALL ins[i] on the stack, if straight-line code did"""
    need = ins[i].arg + 2
    while i > 0 and need > 0:
        i -= 1
        x = ins[i]
        if x.opname in ("CACHE", "PRECALL", "RESUME", "KW_NAMES", "EXTENDED_ARG"):
            continue
        if x.is_jump_target or "JUMP" in x.opname:
            return None
        need -= dis.stack_effect(x.opcode, x.arg)
        if need < 0:
            return None
    return ins[i]


def _pure_call(ins, i, glob):
    c = _callee(ins, i)
    if c is None or c.opname != "LOAD_GLOBAL":
        return False
    name = c.argval
    if name in glob:
        v = glob[name]
        return isinstance(v, type) and (v.__module__ or "").startswith("scaled.protocol")
    return name in _PURE


def _points_of(frame, shared):
    code = frame.f_code
    p = _points.get(code)
    if p is None:
        p = _points[code] = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname not in _NAMES:
                continue
            if x.opname == "LOAD_ATTR" and (x.arg & 1 or x.argval not in shared):
                continue
            if x.opname == "CALL" and _pure_call(ins, i, frame.f_globals):
                continue
            p.add(x.offset)
    return p


def make_tracer(files, opcodes=True):
    if not _warm:  # CPython 3.12 turns opcode events on at the first settrace after some frame asked for them
        _warm.append(1)

        def warm(frame, event, arg):
            frame.f_trace_opcodes = True
            return warm

        for _ in range(3):
            sys.settrace(warm)
            (lambda: 1 + 1)()
            sys.settrace(None)

    shared = set()
    for m in list(sys.modules.values()):
        path = getattr(m, "__file__", None) or ""
        if path.endswith(files):
            shared |= _stored_attributes(path)
    visits = {}  # at most two points per instruction and activation: more turns of a loop add nothing but length

    def local(frame, event, arg):
        if event == "opcode" and opcodes:
            i = frame.f_lasti
            if i in _points_of(frame, shared):
                seen = visits.get(frame)
                if seen is None:
                    seen = visits[frame] = {}
                n = seen.get(i, 0)
                if n < 2:
                    seen[i] = n + 1
                    coop.point((frame.f_code.co_name, frame.f_lineno, i))
        elif event == "return":
            visits.pop(frame, None)
        elif event == "line" and not opcodes:
            coop.point((frame.f_code.co_name, frame.f_lineno, frame.f_lasti))
        return local

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.endswith(files):
            if opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None
    return tracer


def schedule(w, ch, threads, environment, died, mark, props, max_steps=60000, until=None, armed=None):
    """Run until nothing can happen any more (or `until` holds). Choices only while `armed` holds. Switching away from a thread that could go on, and letting a timeout pass while
    some thread could run, cost one deviation each."""
    st = {"next": None, "steps": 0, "err": None, "last": None}

    def options(cur):
        everyone = threads()
        ready = [t for t in everyone if t is not cur and t.runnable(w.now)]
        timed = [t for t in everyone if t is not cur and t not in ready and t.can_time_out()]
        return ready, timed

    def env():
        try:
            environment()
        except Violation as v:
            st["err"] = st["err"] or v

    def decide(cur):
        st["steps"] += 1
        if st["err"] or st["steps"] > max_steps:
            return True
        env()
        if armed is not None and not armed():
            return False
        ready, timed = options(cur)
        others = ready + timed
        if not others:
            return False
        i = ch.choose([cur] + others, None)
        if i == 0:
            return False
        st["next"] = others[i - 1]
        return True

    idle, m0 = 0, None
    coop.decide = decide
    try:
        while True:
            env()
            if st["err"]:
                raise st["err"]
            if st["steps"] > max_steps:
                if until is not None:
                    return
                raise Violation(props, "the threads never come to rest")
            for t in threads():
                if t.exc is not None:
                    if isinstance(t.exc, Violation):
                        raise t.exc
                    died(t)
            if until is not None and until():
                return
            nxt, st["next"] = st["next"], None
            if nxt is None:
                ready, timed = options(None)
                if not ready and until is not None:
                    if not timed:
                        return
                    nxt = min(timed, key=lambda t: (t.why == "poll", t.deadline[1]))  # a poll that times out only polls again
                elif not ready:
                    m = (mark(), tuple(t.state for t in threads()))
                    if not timed or (m == m0 and idle >= 2 * len(timed)):
                        return
                    idle = idle + 1 if m == m0 else 0
                    m0 = m
                    # round robin over the timeouts
                    nxt = timed[idle % len(timed)]
                else:
                    opts = ready + timed
                    costs = [0] * len(ready) + [1] * len(timed)
                    nxt = opts[ch.choose(opts, costs)] if len(opts) > 1 and (armed is None or armed()) else opts[0]
            st["steps"] += 1
            if nxt.state == CoopThread.BLOCKED and nxt.deadline is not None and not nxt.runnable(w.now):
                w.now = max(w.now, nxt.deadline[1])
            w.resume(nxt)
    finally:
        coop.decide = None
