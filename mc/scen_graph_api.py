"""C25: Client.get over every small graph and key list, on the real client; the answers come from evaluating what it sent."""
import copy
import itertools
from graphlib import CycleError

import cloudpickle
import pickle

from .clientsim import M, S, F, ClientWorld
from .coop import CoopThread
from .explore import Violation
from .registry import enum_scenario

P = "C25"
NAMES = ("a", "b", "c")
NS = {"__name__": "not_importable"}
exec("\n".join(f"def f{n}(*args):\n    return ('f{n}',) + args" for n in NAMES) + "\ndef same(*args):\n    return ('same',) + args\ndef boom(*args):\n    raise KeyError(args)", NS)


class Opaque(tuple):
    """a constant that is a tuple, but not a node"""


CONSTS = {"int": 7, "list": [1, 2], "tuple": (1, "a"), "name": "b", "empty": (), "none": None, "fn": len}


def value_of(graph, k, memo):
    """what key k stands for: the definition in the documentation"""
    if k in memo:
        if memo[k] is memo:
            raise CycleError(k)
        return memo[k]
    memo[k] = memo
    node = graph[k]
    if isinstance(node, tuple) and node and callable(node[0]):
        r = node[0](*[value_of(graph, x, memo) for x in node[1:]])
    else:
        r = node
    memo[k] = r
    return r


def build(spec):
    """spec: ((name, node)...) with node ("const", kind) or (fname, arg...)"""
    g = {}
    for name, node in spec:
        g[name] = CONSTS[node[1]] if node[0] == "const" else (NS[node[0]],) + tuple(node[1:])
    return g


def expectation(graph, keys):
    """(exception type, ...) or the values; every node is looked at, requested or not"""
    for k in keys:
        if k not in graph:
            return (KeyError,)
    undefined = cyclic = False
    for k, node in graph.items():
        if isinstance(node, tuple) and node and callable(node[0]):
            undefined = undefined or any(x not in graph for x in node[1:])
    if not undefined:
        try:
            for k in graph:
                value_of(graph, k, {})
        except CycleError:
            cyclic = True
        except KeyError:
            pass
    if undefined or cyclic:
        return tuple(t for t, b in ((KeyError, undefined), (CycleError, cyclic)) if b)
    return None


class Run(ClientWorld):
    def evaluate(self, m):
        """the scheduler and the workers: evaluate the graph that was sent"""
        fns = {fid: cloudpickle.loads(content) for fid, (_, content) in m.functions.items()}
        tasks = {t.task_id: t for t in m.graph}
        if len(tasks) != len(m.graph) or m.task_id in tasks:
            raise Violation(P, "task ids of the graph are not unique")
        memo = {}

        def ev(tid, depth=0):
            if depth > 10:
                raise Violation(P, "the graph sent is cyclic")
            if tid not in memo:
                t = tasks[tid]
                args = []
                for a in t.function_args:
                    if a.type == M.ArgumentType.Task:
                        if a.data not in tasks:
                            raise Violation(P, "the graph sent refers to a task it does not contain")
                        args.append(ev(a.data, depth + 1))
                    else:
                        args.append(pickle.loads(a.data))
                memo[tid] = fns[t.function_id](*args)
            return memo[tid]

        for t in m.targets:
            if t not in tasks:
                raise Violation(P, "a target is not part of the graph sent")
        try:
            for t in tasks:
                ev(t)
            return M.GraphTaskResult(m.task_id, S, [cloudpickle.dumps(ev(t)) for t in m.targets])
        except KeyError as e:
            return M.GraphTaskResult(m.task_id, F, [cloudpickle.dumps(e)])

    def serve(self):
        """True if something was sent"""
        sent = []
        for _ in range(6):
            if self.ct.state != CoopThread.DONE:
                self.tick()
            while self.conn.c2s:
                self.w.net.deliver(0, "c2s")
            while self.router.inbox:
                cid, kind, *data = self.router.inbox.popleft()
                m = M.PROTOCOL[M.MessageType(kind)].deserialize(data)
                sent.append(m)
                if isinstance(m, M.GraphTask):
                    self.send(self.evaluate(m))
        return sent

    def tick(self):
        t = self.ct
        for _ in range(2):
            if t.state != CoopThread.DONE:
                self.w.resume(t)


def check(case):
    spec, keys, block = case
    graph = build(spec)
    before = copy.copy(graph), list(keys)
    r = Run()
    try:
        out = {}

        def user():
            try:
                out["value"] = r.client.get(graph, list(keys) if not isinstance(keys, str) else keys, block=block)
            except Exception as e:  # noqa
                out["error"] = e

        t = r.w.new_thread(r.cp, "user", user)
        r.w.resume(t)
        sent = r.serve()
        for _ in range(30):
            if t.state == CoopThread.DONE:
                break
            if t.runnable(r.w.now):
                r.w.resume(t)
            else:
                r.tick()
        if t.state != CoopThread.DONE:
            raise Violation(P, "get never returns")
        want = expectation(graph, keys)
        if (graph, list(keys)) != before or list(graph) != list(before[0]):
            raise Violation(P, "get changed the caller's graph")
        if want is not None:
            if not isinstance(out.get("error"), want):
                raise Violation(P, f"get of {dict(spec)} {keys} gave {out} instead of {[x.__name__ for x in want]}")
            if any(not isinstance(m, M.GraphTaskCancel) for m in sent):
                raise Violation(P, f"get refused the graph and yet sent {sent}")
            return want[0].__name__
        memo = {}
        fails = False
        needed = {}
        try:
            for k in graph:
                needed[k] = value_of(graph, k, memo)
        except KeyError:
            fails = True
        value = out.get("value")
        if fails:
            nodes = [k for k in dict.fromkeys(keys) if isinstance(graph[k], tuple) and graph[k] and callable(graph[k][0])]
            if not nodes:
                ok = "value" in out
            elif block:
                ok = isinstance(out.get("error"), KeyError)
            else:
                ok = value is not None and all(isinstance(value[k].exception(), KeyError) for k in nodes)
            if not ok:
                raise Violation(P, f"get of a graph that fails gave {out}")
            return "fails"
        if "error" in out:
            raise Violation(P, f"get of {dict(spec)} {keys} raised {out['error']!r}")
        if not block:
            if not all(f.done() for f in value.values()):
                raise Violation(P, f"get of {dict(spec)} {keys}: not every future completed")
            value = {k: f.result() for k, f in value.items()}
        got = {k: same(v) for k, v in value.items()}
        exp = {k: same(needed[k]) for k in keys}
        if got != exp:
            raise Violation(P, f"get of {dict(spec)} {keys} returned {value} instead of { {k: needed[k] for k in keys} }")
        for m in sent:
            if not isinstance(m, M.GraphTask):
                raise Violation(P, f"get sent {m}")
        if len(sent) > 1:
            raise Violation(P, "get sent the graph more than once")
        return "value"
    finally:
        r.close()


def same(v):
    """comparable form (a function that travelled is another object)"""
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(same(x) for x in v)
    if callable(v):
        return ("fn", v.__name__)
    return v


def nodes(names, maxargs, extra, consts=("int",)):
    for k in consts:
        yield ("const", k)
    for n in range(maxargs + 1):
        for args in itertools.product(names + extra, repeat=n):
            yield args


def graphs(maxnodes, maxargs, extra):
    """every graph over a, b, c: constants, functions of up to maxargs arguments among the names and an undefined one"""
    for n in range(1, maxnodes + 1):
        names = NAMES[:n]
        for combo in itertools.product(list(nodes(names, maxargs if n < 3 else min(maxargs, 2), extra)), repeat=n):
            yield tuple((name, node if node[:1] == ("const",) else ("f" + name,) + node) for name, node in zip(names, combo))


def keylists(names, maxlen, extra):
    for n in range(1, maxlen + 1):
        yield from itertools.product(names + extra, repeat=n)


def cases_small(maxnodes, maxargs, maxkeys):
    for spec in graphs(maxnodes, maxargs, ("u",)):
        names = tuple(n for n, _ in spec)
        for keys in keylists(names, maxkeys, ("u",)):
            for block in (False, True):
                yield spec, keys, block


def cases_three(maxargs, maxkeys, undefined):
    """three nodes: one key list per shape"""
    for spec in graphs(3, maxargs, ("u",) if undefined else ()):
        if len(spec) < 3:
            continue
        for keys in keylists(NAMES, maxkeys, ()) if maxkeys < 3 else [("c", "a", "b")]:
            yield spec, keys, False


def cases_order(full):
    """insertion order, shared functions, tricky constants, failing nodes, repeated arguments"""
    body = {"a": [("const", "int"), ("same",), ("same", "x"), ("boom",)], "b": [("same", "a"), ("same", "a", "a"), ("same", "x", "a"), ("fb", "a")],
            "c": [("same", "b", "a"), ("fc", "b"), ("const", "list")]}
    for x in CONSTS:
        for a in body["a"]:
            for b in body["b"]:
                for c in body["c"]:
                    items = [("x", ("const", x)), ("a", a), ("b", b), ("c", c)]
                    orders = itertools.permutations(items) if full else [items, items[::-1], [items[1], items[0], items[3], items[2]]]
                    for o in orders:
                        for keys in (("c", "x"), ("b",), ("x",), ("a", "c", "a"), ("c", "b", "a", "x"), ()):
                            yield tuple(o), keys, False
                        yield tuple(o), ("c", "a"), True


enum_scenario("get/small", [P], cases_small, check, quick=dict(maxnodes=2, maxargs=2, maxkeys=1), thorough=dict(maxnodes=2, maxargs=3, maxkeys=3), weight=3)
enum_scenario("get/small-keys", [P], cases_small, check, quick=dict(maxnodes=2, maxargs=1, maxkeys=3), thorough=None, weight=2)
enum_scenario("get/three", [P], cases_three, check, quick=dict(maxargs=2, maxkeys=3, undefined=True), thorough=dict(maxargs=2, maxkeys=2, undefined=True), weight=3)
enum_scenario("get/shapes", [P], cases_order, check, quick=dict(full=False), thorough=dict(full=True), weight=3)
