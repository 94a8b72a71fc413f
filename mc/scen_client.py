"""L3 scenarios: the real client."""
from .clientsim import ClientSim, ThreadRun
from .registry import bfs_scenario, dfs_scenario


def msg(name, props, ops, quick, thorough=None, weight=1, **kw):
    bfs_scenario("client/" + name, props.split(), lambda: ClientSim(ops, **kw), quick=quick and dict(max_states=quick, max_depth=40),
                 thorough=dict(max_states=thorough or quick * 12, max_depth=60), weight=weight)


RES = ("ok", "fail")
BADR = ("ok", "fail", "badvalue", "badexc", "notexc", "canceled", "notfound")
msg("submit", "C01 C09 C10 C23", [("submit", "f", 1), ("submit", "f", 2), ("submit", "g", 3)], 2500, results=RES)
msg("echoes", "C10 C01 C09 C23", [("submit", "f", 1), ("submit", "f", 2)], 2500, echoes=("ok", "noworker", "missing", "dup"), results=RES)
msg("bad-results", "C10 C01 C23", [("submit", "f", 1), ("submit", "f", 2)], 2500, results=BADR, dups=1)
msg("wild", "C10 C01", [("submit", "f", 1), ("submit", "g", 2)], 2500, echoes=("ok", "noworker", "dup"), results=RES, dups=1, wild=1, strays=1)
msg("cancel", "C10 C23", [("submit", "f", 1), ("submit", "f", 2), ("cancel", ("f", 1))], 2500, echoes=("ok", "noworker"), results=("ok", "fail", "badvalue", "canceled"))
msg("cancel-missing", "C10 C09", [("submit", "f", 1), ("cancel", ("f", 1)), ("submit", "f", 2)], 2500, echoes=("ok", "missing"), results=("ok",))
msg("graph", "C10 C01 C06 C05 C23 C25", [("get", "chain", ("c", "a")), ("submit", "na", 1), ("get", "two", ("b", "y"))], 2500, results=("ok", "fail", "badvalue", "canceled"), dups=1)
msg("graph-bad", "C10 C06", [("get", "two", ("b", "a", "b")), ("submit", "f", 1)], 2500, results=BADR, dups=1, strays=1)
msg("graph-cancel", "C10 C06", [("get", "two", ("a", "b")), ("cancel", ("graph", (("na", "nb"), ("na", "nb")))), ("submit", "f", 1)], 2500, results=("ok", "fail"))
msg("disconnect", "C08 C23", [("submit", "f", 1), ("submit", "g", 2), ("disconnect",), ("submit", "f", 3)], 3000, echoes=("ok", "noworker"), results=RES)
msg("disconnect-graph", "C08 C23", [("get", "chain", ("c", "a")), ("submit", "f", 1), ("disconnect",), ("get", "two", ("a",))], 3000, results=RES)
msg("disconnect-cancelled", "C08 C10", [("submit", "f", 1), ("submit", "f", 2), ("cancel", ("f", 1)), ("disconnect",)], 3000, results=RES)
msg("disconnect-missing", "C08 C09", [("submit", "f", 1), ("disconnect",), ("submit", "f", 2)], 3000, echoes=("ok", "missing"), results=RES)
msg("disconnect-twice", "C08", [("submit", "f", 1), ("disconnect",), ("disconnect",), ("get", "two", ("a", "b"))], 2000, results=("ok", "badvalue"))
msg("map", "C01 C08", [("map", "f", (1, 2)), ("submit", "f", 3)], 2500, results=RES, weight=2)
msg("map-noworker", "C01 C08 C10", [("map", "f", (1, 2, 3))], 2500, echoes=("ok", "noworker"), results=("ok", "badvalue"), weight=2)
msg("map-disconnect", "C08", [("map", "f", (1, 2)), ("disconnect",), ("getblock", "two", ("a", "y"))], 2500, results=("ok",), weight=2)
msg("get-block", "C01 C25 C06 C08", [("getblock", "chain", ("c", "a", "x")), ("submit", "f", 3)], 2500, results=("ok", "fail", "badvalue"), weight=2)
msg("get-block-disconnect", "C08", [("getblock", "chain", ("c", "a")), ("submit", "f", 1), ("disconnect",)], 2500, results=RES, weight=2)
msg("chain", "C09 C10", [("chain", "f", 1, 2), ("submit", "f", 3)], 2500, echoes=("ok", "noworker"), results=RES)
msg("chain-disconnect", "C08", [("chain", "f", 1, 2), ("submit", "f", 3), ("disconnect",)], 2500, results=RES)
msg("bad-callback", "C10", [("badcallback", "f", 1), ("submit", "f", 3)], 2500, echoes=("ok", "noworker"), results=("ok", "fail", "badvalue"))
msg("many", "C01 C09 C23", [("submit", "f", n) for n in range(1, 5)], 2500, echoes=("ok", "missing"), results=("ok",))
msg("same-name", "C01 C09 C05", [("submit", "f", 1), ("submit", "f2", 1), ("submit", "f2", 2), ("get", "names", ("b", "a"))], 2500, echoes=("ok", "missing"), results=("ok",))

FILES = ("scaled/client.py", "scaled/io/sync_connector.py")


def threads(name, props, programs, bound, tbound, execs=100000, weight=2, opcodes=True, files=FILES, **kw):
    def run(ch):
        r = ThreadRun(programs, files, opcodes, **kw)
        try:
            return r.run(ch)
        finally:
            r.close()

    dfs_scenario("threads/" + name, props.split(), run, quick=bound and dict(bound=bound, max_execs=execs), thorough=dict(bound=tbound, max_execs=execs * 40), weight=weight)


C9, C91, C910 = "C09", "C09 C01", "C09 C10"
threads("two-submits", C91, [[("submit", "f", 1)], [("submit", "f", 2)]], 1, 2)
threads("two-functions", C9, [[("submit", "f", 1), ("submit", "g", 2)], [("submit", "g", 3)]], 1, 2, weight=5)
threads("submit-wait", C9, [[("submit", "f", 1), ("submit", "f", 2), ("wait", ("f", 1)), ("submit", "f", 3)]], 1, 2)
threads("submit-get", C91, [[("submit", "na", 1)], [("get", "two", ("b", "a"))]], 1, 2, weight=5)
threads("get-get", C9, [[("getblock", "two", ("b", "a"))], [("getblock", "chain", ("c", "x"))]], None, 1)
threads("missing", C9, [[("submit", "f", 1)], [("submit", "f", 2)]], 1, 2, fne=[("f", 1)], weight=5)
threads("missing-both", C9, [[("submit", "f", 1), ("submit", "f", 2)]], 1, 2, fne=[("f", 1), ("f", 2)])
threads("no-worker", C910, [[("submit", "f", 1)], [("submit", "f", 2)]], 1, 2, noworker=[("f", 1)])
threads("cancel", C910, [[("submit", "f", 1), ("cancel", ("f", 1)), ("submit", "f", 2)]], 1, 2)
threads("fail", C910, [[("submit", "f", 1)], [("submit", "f", 2)]], 1, 2, results={("f", 1): "fail"})
threads("map", C91, [[("map", "f", (1, 2))], [("submit", "f", 3)]], 1, 2, weight=9)
threads("map-map", C9, [[("map", "f", (1, 2))], [("map", "f", (3, 4))]], None, 1)
threads("three", C9, [[("submit", "f", 1)], [("submit", "f", 2)], [("submit", "f", 3)]], None, 1)
C8 = "C08"
threads("disconnect-submit", C8, [[("submit", "f", 1), ("submit", "f", 2)], [("disconnect",)]], 1, 2)
threads("disconnect-get", C8, [[("get", "two", ("b", "a"))], [("disconnect",)]], 1, 2)
threads("disconnect-getblock", C8, [[("getblock", "two", ("b", "a"))], [("disconnect",)]], 1, 2)
threads("disconnect-map", C8, [[("map", "f", (1, 2))], [("disconnect",)]], 1, 2)
threads("disconnect-missing", C8, [[("submit", "f", 1)], [("disconnect",)]], 1, 2, fne=[("f", 1)])
threads("disconnect-two", C8, [[("submit", "f", 1)], [("submit", "g", 2)], [("disconnect",)]], 1, 2, weight=5)
threads("disconnect-disconnect", C8, [[("submit", "f", 1), ("disconnect",)], [("submit", "g", 2), ("disconnect",)]], 1, 2)
