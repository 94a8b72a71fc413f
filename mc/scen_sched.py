"""L1 scenarios: the real scheduler, abstract clients and workers."""
from .registry import bfs_scenario
from . import sched
from .sched import M, Spec, SchedSim


def scen(name, props, quick, thorough=None, weight=1, about="", **spec):
    def make():
        return SchedSim(Spec(**spec))

    s = bfs_scenario("sched/" + name, props.split(), make, quick=quick and dict(max_states=quick),
                     thorough=dict(max_states=thorough or quick * 10), about=about, weight=weight)
    if "leak" not in spec and "C04" not in props.split():  # (histories no client makes are beyond what the others promise)
        # every monitor watches every scenario: a smaller part of each is decided for these, too
        s.extra = dict(C03=250, C04=400, C07=250, C11=250, C13=250, C22=200)


F = (("func", "Add", "f"),)
F2 = (("func", "Add", "f"), ("func", "Add", "g"))

# ---- placement, outcomes, status
scen("basic", "C03 C11 C22 C01", 2500, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f")], "c2": [("task", "t3", "f")]},
     workers={"w1": "f", "w2": "fd"}, joined=("w1",), setup=F, cap=1, ticks=1, dups=1)
scen("placement", "C11 C22", 3000, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 6)]},
     workers={"w1": "", "w2": "", "w3": ""}, joined=("w1", "w2", "w3"), setup=F, cap=3, probe=False)
scen("placement-churn", "C11 C02 C22", 2500, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 5)]},
     workers={"w1": "l", "w2": "l", "w3": ""}, joined=("w1", "w2"), setup=F, cap=2, faults=2)
scen("placement-burst", "C11 C03", 2500, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 5)]},
     workers={"w1": "", "w2": "l"}, joined=("w1", "w2"), setup=F, cap=2, faults=1, burst=3)
scen("no-worker-first", "C11 C07 C22 C02", 2000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1")]},
     workers={"w1": "l", "w2": "c"}, setup=F, cap=1, faults=2, ticks=1, jumps=1)

# ---- losing workers
scen("loss", "C02 C03 C11 C22 C24", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("task", "t3", "f")]},
     workers={"w1": "c", "w2": "l", "w3": ""}, joined=("w1", "w2"), setup=F, cap=2, faults=2, jumps=1, weight=2)
scen("suspect", "C02 C03 C11 C22", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f")]},
     workers={"w1": "mf", "w2": "d"}, joined=("w1", "w2"), setup=F, cap=1, faults=2, jumps=2, dups=1, weight=2)
T123 = tuple(("task", "t%d" % i, "f") for i in (1, 2, 3))
scen("suspect-balance", "C02 C12 C03", 4000, clients={"c1": [("task", "t4", "f")]},
     workers={"w1": "mG", "w2": ""}, joined=("w1",), setup=F + T123, cap=3, faults=1, jumps=1, ticks=2, lb=1, trig=1, weight=2)
scen("suspect-balance-late", "C02 C12 C03 C11", 4000, clients={},
     workers={"w1": "mGl", "w2": "ml"}, joined=("w1",), setup=F + T123, cap=3, faults=2, jumps=2, ticks=1, lb=1, trig=1, weight=2)
scen("loss-burst", "C02 C03 C07", 3000, clients={"c1": [("task", "t1", "f"), ("cancel", "t1"), ("task", "t2", "f")]},
     workers={"w1": "lm", "w2": "c"}, joined=("w1", "w2"), setup=F, cap=1, faults=2, jumps=1, burst=2, weight=2)

# ---- cancelling
scen("cancel", "C07 C03 C22 C02", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1"), ("cancel", "t2")],
                                                 "c2": [("task", "t3", "f")]},
     workers={"w1": "cf"}, joined=("w1",), setup=F, cap=1, faults=1, jumps=1, weight=2)
scen("cancel-lost", "C07 C22 C03 C23", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1"), ("cancel", "t2")]},
     workers={"w1": "nf", "w2": ""}, joined=("w1",), setup=F, cap=2, ticks=1)
scen("cancel-loss", "C07 C02 C03", 3000, clients={"c1": [("task", "t1", "f"), ("cancel", "t1"), ("cancel", "t1")]},
     workers={"w1": "clm", "w2": "clm"}, joined=("w1", "w2"), setup=F, cap=1, faults=2, jumps=2, weight=2)
scen("cancel-balance", "C07 C12 C22", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t2")]},
     workers={"w1": "G", "w2": ""}, joined=("w1",), setup=F, cap=2, lb=1, trig=1, ticks=2, weight=2)
scen("cancel-free", "C07 C03 C04", 3000, order="free", clients={"c1": [("task", "t1", "f"), ("cancel", "t1"), ("cancel", "t2"), ("task", "t2", "f")],
                                                                "c2": [("cancel", "t1")]},
     workers={"w1": ""}, joined=("w1",), setup=F, cap=1, ticks=1)
scen("cancel-burst", "C07 C03", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1"), ("cancel", "t2")]},
     workers={"w1": "", "w2": ""}, joined=("w1",), setup=F, cap=1, burst=3)

# ---- balancing
for trig in (1, 2, 3):
    scen("balance-%d" % trig, "C12 C11", 2500, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 5)]},
         workers={"w1": "G", "w2": "", "w3": ""}, joined=("w1",), setup=F, cap=4, lb=1, trig=trig, ticks=4, probe=False, weight=2)
scen("balance-3w", "C12 C03", 3000, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 8)]},
     workers={"w1": "G", "w2": "", "w3": ""}, joined=("w1", "w2"), setup=F, cap=5, lb=1, trig=2, ticks=3, probe=False, weight=2)
scen("balance-off", "C12", 800, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 4)]},
     workers={"w1": "", "w2": ""}, joined=("w1",), setup=F, cap=4, lb=0, trig=1, ticks=3, probe=False)
scen("balance-loss", "C12 C02", 3000, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 4)]},
     workers={"w1": "Gl", "w2": "l", "w3": ""}, joined=("w1",), setup=F, cap=3, lb=2, trig=2, ticks=3, faults=1, probe=False, weight=2)
scen("balance-dup", "C12 C03", 3000, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 4)]},
     workers={"w1": "Gd", "w2": "fd"}, joined=("w1",), setup=F, cap=3, lb=1, trig=1, ticks=2, dups=1, weight=2)

# ---- functions
R = M.FunctionRequestType
scen("functions", "C13", 3000, clients={"c1": [("func", "Add", "f"), ("func", "Check", "f"), ("func", "Delete", "f"), ("task", "t1", "f")],
                                        "c2": [("func", "Request", "f"), ("func", "Add", "f")]},
     workers={"w1": "f"}, joined=("w1",), order="free", retention=2, ticks=4, probe=False, weight=2)
scen("functions-retention", "C13 C22", 3000, clients={"c1": [("task", "t1", "f"), ("func", "Check", "f"), ("task", "t2", "f"), ("func", "Request", "f")]},
     workers={"w1": "f"}, joined=("w1",), setup=F2, retention=2, ticks=7, probe=False, weight=2)
scen("functions-two", "C13 C22 C14", 3000, clients={"c1": [("task", "t1", "f"), ("task", "t2", "g"), ("func", "Delete", "f"), ("func", "Delete", "g"),
                                                           ("func", "Request", "f"), ("func", "Request", "g")]},
     workers={"w1": "f", "w2": "c"}, joined=("w1",), setup=F2, names={"f": "same", "g": "same"}, retention=1, ticks=2, jumps=1, faults=1, cap=1, weight=2)
scen("functions-cancel", "C13 C07", 2500, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1"), ("func", "Delete", "f"), ("task", "t3", "f")]},
     workers={"w1": "c"}, joined=("w1",), setup=F, retention=1, ticks=3, faults=1, jumps=1, cap=1)
GF = {"g1": {"nodes": {"a": ("f", [b"1"]), "b": ("g", ["a"])}, "targets": ["b"]}}
scen("functions-graph", "C13 C05", 3000, clients={"c1": [("graph", "g1"), ("func", "Delete", "f"), ("func", "Delete", "g"), ("func", "Request", "g")],
                                                  "c2": [("gcancel", "g1")]},
     workers={"w1": "f"}, joined=("w1",), graphs=GF, retention=1, ticks=3, probe=False, weight=2)

# ---- waiting limit
for lim in (0, 1, 2):
    scen("limit-%d" % lim, "C14 C03 C11", 2500, clients={"c1": [("task", "t%d" % i, "f") for i in range(1, 5)] + [("task", "t3", "f")]},
         workers={"w1": "f", "w2": "l"}, joined=("w1",), setup=F, limit=lim, cap=1, faults=1, weight=2)
scen("limit-cancel", "C14 C07 C22", 2500, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1"), ("task", "t3", "f"), ("task", "t3", "f")]},
     workers={"w1": "c"}, setup=F, limit=1, cap=1, faults=1, jumps=1, ticks=1)
scen("limit-function", "C14 C13", 2500, order="free", clients={"c1": [("task", "t1", "f"), ("task", "t1", "f"), ("func", "Add", "f"), ("task", "t2", "f"), ("cancel", "t1")]},
     workers={"w1": ""}, limit=1, cap=1, ticks=1)
scen("duplicate-id", "C03 C14 C01", 2500, clients={"c1": [("task", "t1", "f"), ("task", "t1", "f"), ("cancel", "t1"), ("task", "t1", "f")]},
     workers={"w1": "cd"}, joined=("w1",), setup=F, limit=1, cap=1, dups=1, faults=1, jumps=1)

# ---- graphs
D = b"1"
GR = {
    "chain": {"nodes": {"a": ("f", [D]), "b": ("f", ["a"]), "c": ("g", ["b", b"2", "b"])}, "targets": ["c"]},
    "diamond": {"nodes": {"a": ("f", [D]), "b": ("f", ["a"]), "c": ("g", ["a", "a"]), "d": ("f", ["c", "b"])}, "targets": ["d", "a"]},
    "fan": {"nodes": {"a": ("f", [D]), "b": ("f", [b"2"]), "c": ("f", ["b", "a"])}, "targets": ["c", "b", "c"]},
    "wide": {"nodes": {"a": ("f", [D]), "b": ("f", ["a"]), "c": ("f", ["a"]), "d": ("f", ["a"])}, "targets": ["d", "b", "c"]},
    "rev": {"nodes": {"z": ("f", ["y", "x"]), "y": ("f", ["x"]), "x": ("g", [D])}, "targets": ["x", "z"]},
    "two": {"nodes": {"a": ("f", [D]), "b": ("g", [b"2"])}, "targets": ["b", "a"]},
    "one": {"nodes": {"a": ("f", [])}, "targets": ["a"]},
    "deep": {"nodes": {"a": ("f", [D]), "b": ("f", ["a"]), "c": ("f", ["a", "b"]), "d": ("f", ["b", "c"]), "e": ("g", ["d", "a"])}, "targets": ["e"]},
    "empty": {"nodes": {}, "targets": []},
    "none": {"nodes": {"a": ("f", [D]), "b": ("f", ["a"])}, "targets": []},
}
for g in GR:
    if g in ("empty",):
        continue
    scen("graph-" + g, "C05 C06 C22", 1500, clients={"c1": [("graph", g)], "c2": [("task", "t1", "f")]},
         workers={"w1": "f", "w2": ""}, joined=("w1", "w2"), setup=F, graphs=GR, cap=1, ticks=1, thorough=20000)
for g in ("chain", "diamond", "fan", "two", "deep", "rev"):
    scen("graph-cancel-" + g, "C06 C22 C13", 1500, clients={"c1": [("graph", g), ("gcancel", g), ("gcancel", g)], "c2": [("task", "t1", "f")]},
         workers={"w1": "f", "w2": ""}, joined=("w1",), setup=F, graphs=GR, cap=1, retention=1, ticks=2, thorough=20000)
    scen("graph-loss-" + g, "C05 C02 C06", 1500, clients={"c1": [("graph", g)], "c2": [("task", "t1", "f")]},
         workers={"w1": "c", "w2": "l"}, joined=("w1", "w2"), setup=F, graphs=GR, cap=1, faults=1, jumps=1, thorough=20000)
scen("graph-pair", "C06 C05 C13", 2500, clients={"c1": [("graph", "two"), ("gcancel", "two")], "c2": [("graph", "chain")]},
     workers={"w1": "f", "w2": "f"}, joined=("w1", "w2"), graphs=GR, cap=1, weight=2)
scen("graph-limit", "C05 C14", 2500, clients={"c1": [("graph", "fan")], "c2": [("task", "t1", "f"), ("task", "t2", "f")]},
     workers={"w1": ""}, joined=("w1",), setup=F, graphs=GR, cap=1, limit=1)
scen("graph-fail-cap", "C06 C11", 2500, clients={"c1": [("graph", "wide")], "c2": [("task", "t1", "f")]},
     workers={"w1": "f"}, joined=("w1",), setup=F, graphs=GR, cap=2, burst=2)
scen("graph-fail-loss", "C06 C02 C22", 2500, clients={"c1": [("graph", "two")], "c2": [("task", "t1", "f")]},
     workers={"w1": "fc", "w2": "fl"}, joined=("w1", "w2"), setup=F, graphs=GR, cap=1, faults=1, jumps=1, ticks=1)
scen("graph-same-function", "C05 C13 C22", 2500, clients={"c1": [("graph", "two"), ("graph", "one")], "c2": [("task", "t1", "f")]},
     workers={"w1": "", "w2": ""}, joined=("w1", "w2"), graphs=GR, cap=1, retention=1, ticks=2, names={"f": "same", "g": "same"}, setup=F)
scen("graph-balance", "C05 C12", 2500, clients={"c1": [("graph", "wide")]},
     workers={"w1": "G", "w2": ""}, joined=("w1",), graphs=GR, cap=4, lb=1, trig=1, ticks=2)

# ---- hostile histories
BAD = [
    [],
    [b""],
    [b"T"],
    [b"TK"],
    [b"TK", b""],
    [b"HB"],
    [b"??", b"x"],
    [b"\xff\xfe", b"\xff"],
]


def _types():
    return [x.value for x in M.MessageType]


def _raws():
    out = []
    for t in _types():
        out += [[t], [t, b""], [t, b"\xff"], [t, b"", b""], [t] + [b"\xff\xff\xff\xff"] * 3, [t] + [b""] * 8]
    return out + BAD


for i in range(4):
    part = _raws()[i::4]
    scen("malformed-%d" % i, "C04", 400, clients={"c%d" % (1 + j % 3): [("raw", r) for r in part[j % 3::3]] for j in range(3)},
         workers={"w1": ""}, joined=("w1",), setup=F, limit=-1, thorough=4000)


def rm(fn, ident=None):
    return ("rawmsg", fn) if ident is None else ("rawmsg", fn, ident)


def TR(name, st):
    return lambda sim: M.TaskResult(sim.tid(name), st, 0.5, b"x")


S_, F_, C_, N_ = sched.S, sched.F, sched.C, sched.N
scen("stale-results", "C04 C03", 2500, clients={"c1": [("task", "t1", "f"), ("cancel", "t1")]},
     order="free", workers={"w1": "", "w2": ""}, joined=("w1", "w2"), setup=F, cap=1, status=False,
     graphs=GR, thorough=20000, ticks=1)
for st in (S_, F_, C_, N_):
    scen("stale-" + st.name, "C04 C03 C07", 1500,
         clients={"c1": [("task", "t1", "f"), ("cancel", "t1")], "zz": [rm(TR("t1", st), b"w9"), rm(TR("t9", st), b"w1"), rm(TR("t1", st), b"w1")]},
         workers={"w1": "l"}, joined=("w1",), setup=F, cap=1, faults=1)
for st in (M.TaskStatus.Inactive, M.TaskStatus.Running, M.TaskStatus.Canceling):
    scen("nonfinal-" + st.name, "C04 C03", 1500, clients={"c1": [("task", "t1", "f"), ("graph", "one")], "c2": [("cancel", "t1")],
                                                      "zz": [rm(TR("t1", st), b"w1"), rm(TR("one.a", st), b"w1"), rm(TR("t1", st), b"w9")]},
         workers={"w1": "f"}, joined=("w1",), setup=F, graphs=GR, cap=1, status=False)
scen("unknown-ids", "C04", 3000, order="free", clients={
    "c1": [("cancel", "t9"), ("gcancel", "g9"), ("func", "Delete", "q"), ("func", "Request", "q"), ("func", "Check", "q"),
           rm(lambda s: M.BalanceResponse([b"t9", b"t1"])), rm(lambda s: M.DisconnectRequest(b"w9")), rm(lambda s: M.BalanceResponse([]))],
    "c2": [("task", "t1", "q")]},
    workers={"w1": ""}, joined=("w1",), setup=F, thorough=20000)
scen("client-as-worker", "C04", 2000, clients={
    "c1": [("task", "t1", "f"), rm(lambda s: M.BalanceResponse([s.tid("t1"), s.tid("t1")]), b"w2"),
           rm(lambda s: M.BalanceResponse([s.tid("t1"), s.tid("t1")]), b"w1"), rm(lambda s: M.DisconnectRequest(b"w1"), b"w1"),
           rm(lambda s: M.DisconnectRequest(b"w1"), b"w1")]},
    workers={"w1": "", "w2": ""}, joined=("w1",), setup=F, faults=0, ticks=1)


def graph_msg(gid, nodes, targets, fns=("f",)):
    """nodes: id -> (function, [bytes data or ("ref", id)])"""
    def build(sim):
        return M.GraphTask(sim.tid(gid), {f.encode(): (f.encode() + b"_name", b"code-" + f.encode()) for f in fns},
                           [sim.tid(t) for t in targets],
                           [M.Task(sim.tid(n), f.encode(), [M.Argument(M.ArgumentType.Task, sim.tid(a[1])) if isinstance(a, tuple)
                                                            else M.Argument(M.ArgumentType.Data, a) for a in args]) for n, f, args in nodes])
    return rm(build)


BADG = {
    "cycle": graph_msg("gx", [("gx.a", "f", [("ref", "gx.b")]), ("gx.b", "f", [("ref", "gx.a")])], ["gx.a"]),
    "self": graph_msg("gx", [("gx.a", "f", [("ref", "gx.a")])], ["gx.a"]),
    "dangling": graph_msg("gx", [("gx.a", "f", [("ref", "gx.q")])], ["gx.a"]),
    "target": graph_msg("gx", [("gx.a", "f", [b"1"])], ["gx.q"]),
    "twice": graph_msg("gx", [("gx.a", "f", [b"1"]), ("gx.a", "f", [b"2"])], ["gx.a"]),
    "nofunc": graph_msg("gx", [("gx.a", "q", [b"1"])], ["gx.a"], ()),
    "nodenode": graph_msg("gx", [("two.a", "f", [b"1"])], ["two.a"]),
    "nodetask": graph_msg("gx", [("t1", "f", [b"1"])], ["t1"]),
}
for b, op in BADG.items():
    scen("bad-graph-" + b, "C04", 600, clients={"c1": [op, op, ("gcancel", "gx")], "c2": [("graph", "two"), ("gcancel", "two")], "c3": [("task", "t1", "f")]} if b.startswith("node")
         else {"c1": [op, op, ("gcancel", "gx")], "c2": [("graph", "two")]},
         workers={"w1": "f"}, joined=("w1",), setup=F, graphs=GR, cap=1, thorough=8000)
scen("graph-twice", "C04 C03 C06", 1500, clients={"c1": [("graph", "two"), ("graph", "two"), ("gcancel", "two")]},
     workers={"w1": "f"}, joined=("w1",), setup=F, graphs=GR, cap=1)
scen("graph-node-answers", "C04 C06", 2500, clients={"c1": [("graph", "chain"), ("cancel", "chain.a"), ("gcancel", "chain")],
                                                     "zz": [rm(TR("chain.a", N_), b"w1"), rm(TR("chain.a", C_), b"w1"), rm(TR("chain.b", S_), b"w1")]},
     workers={"w1": "f"}, joined=("w1",), setup=F, graphs=GR, cap=1, status=False)
scen("odd-names", "C04 C22", 800, clients={"c1": [rm(lambda s: M.FunctionRequest(R.Add, b"h", b"\xff\xfe", b"code")), rm(lambda s: M.Task(b"t1", b"h", []), b"\xff"),
                                               rm(lambda s: M.Heartbeat(0.1, 1, 0.1, 1, 0, 0, True, False, False), b"\xfe\xff")]},
     workers={"w1": ""}, joined=("w1",), names={"h": "h"}, ticks=2, status=False)

# ---- time
scen("timeout", "C24 C02", 3000, clients={"c1": [("task", "t1", "f")]}, workers={"w1": "", "w2": ""}, joined=("w1", "w2"), setup=F, cap=1,
     timeout=2, adv=(0.5, 1.0), advs=7, hbs=2, auto_hb=False, weight=2)
scen("timeout-frac", "C24", 2500, clients={}, workers={"w1": ""}, joined=("w1",), timeout=3, adv=(0.25, 1.0), advs=6, hbs=2, auto_hb=False)
scen("rejoin", "C24 C02 C11", 2500, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f")]}, workers={"w1": "mf", "w2": ""}, joined=("w1",), setup=F,
     cap=1, timeout=2, faults=2, jumps=2, ticks=2)

# ---- residue
LK = dict(leak=1, status=False)
scen("leak-tasks", "C23", 350, clients={"c1": [("task", "t1", "f"), ("cancel", "t1"), ("task", "t2", "f")]}, workers={"w1": "fl", "w2": ""},
     joined=("w1",), setup=F, cap=1, faults=1, limit=1, thorough=3000, weight=2, **LK)
scen("leak-loss", "C23", 350, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t1")]}, workers={"w1": "cm", "w2": ""},
     joined=("w1",), setup=F, cap=2, faults=1, jumps=1, thorough=3000, weight=2, **LK)
scen("leak-graph", "C23", 350, clients={"c1": [("graph", "chain"), ("gcancel", "chain")]}, workers={"w1": "fl", "w2": ""},
     joined=("w1",), setup=F, graphs=GR, cap=1, faults=1, thorough=3000, weight=2, **LK)
scen("leak-graph2", "C23", 350, clients={"c1": [("graph", "diamond"), ("gcancel", "diamond")], "c2": [("graph", "two")]}, workers={"w1": "f", "w2": ""},
     joined=("w1", "w2"), setup=F, graphs=GR, cap=1, thorough=3000, weight=2, **LK)
scen("leak-balance", "C23", 300, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("cancel", "t2")]}, workers={"w1": "Gd", "w2": ""},
     joined=("w1",), setup=F, cap=2, lb=1, trig=1, ticks=2, dups=1, thorough=3000, weight=2, **LK)
scen("leak-reject", "C23", 300, clients={"c1": [("task", "t1", "f"), ("task", "t2", "f"), ("task", "t2", "q"), ("cancel", "t2"), ("gcancel", "g9"), ("func", "Delete", "f")]},
     workers={"w1": "f"}, setup=F, limit=1, cap=1, thorough=3000, weight=2, **LK)
