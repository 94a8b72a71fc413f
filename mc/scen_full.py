"""L4 scenarios: everything real."""
from .fullsim import FullSim
from .registry import bfs_scenario


def full(name, props, programs, delays=1, weight=3, deep=1, **kw):
    bfs_scenario("full/" + name, props.split(), lambda: FullSim(programs, delays=delays, **kw), quick=dict(max_states=1500, max_depth=400),
                 thorough=dict(max_states=30000, max_depth=600), weight=weight)
    if deep:
        bfs_scenario(f"full/{name}-deep", props.split(), lambda: FullSim(programs, delays=delays + deep, **kw), quick=None,
                     thorough=dict(max_states=40000, max_depth=600), weight=weight * 3)


def S(fn, n):
    return ("submit", fn, n)


full("two-clients", "C01 C15 C17", [[S("f", 1), S("g", "boom2"), S("f", 3)], [S("f", 4), S("h", 5)]], workers=2, delays=1)
full("map", "C01", [[("map", "f", (1, 2, 3)), S("g", 4)]], workers=2, delays=2, ops_first=False)
full("kill", "C02 C23", [[S("f", 1), S("f", 2), S("g", 3)]], workers=2, kills=1, delays=0)
full("kill-all", "C02", [[S("f", 1), S("f", 2)]], workers=2, kills=2, delays=0)
full("quit", "C02 C23", [[S("f", 1), S("f", 2), S("g", 3)]], workers=2, quits=1, delays=0)
full("graph", "C05", [[("get", "diamond", ("d", "b")), S("g", 7)]], workers=2, delays=2)
full("graphs", "C05 C23", [[("get", "chain", ("c", "a"))], [("get", "fork", ("c",)), S("f", 9)]], workers=2, delays=1)
full("graph-kill", "C05 C02", [[("get", "fork", ("c", "a"))]], workers=2, kills=1, delays=0)
full("graph-fails", "C06 C05 C23", [[("get", "bad", ("d", "c", "a"))], [("get", "fork", ("c",)), S("f", 9)]], workers=2, delays=1)
full("graph-fails-late", "C06", [[("get", "badlate", ("d", "c"))], [S("f", 9)]], workers=2, delays=2)
full("disconnect", "C08 C23 C07", [[S("f", 1), S("f", 2), ("get", "chain", ("c",)), ("disconnect",)], [S("f", 3), S("g", 4)]], workers=1, delays=1)
full("disconnect-early", "C08 C04", [[S("f", 1), ("get", "fork", ("c",)), ("disconnect",), S("f", 2)], [S("f", 3)]], workers=2, delays=2)
T, J = ("tick",), ("join",)
full("balance", "C12 C01 C15", [[S("f", 1), S("f", 2), S("f", 3), S("f", 4), J, T, T]], workers=0, joined=1, cap=8, lb=1, delays=1)
full("balance-kill", "C02 C12", [[S("f", 1), S("f", 2), S("f", 3), J, T]], workers=0, joined=1, cap=8, lb=1, delays=0, kills=1)
full("cancel", "C10 C01", [[S("f", 1), ("cancel", ("f", 1)), S("f", 2)], [S("g", 3)]], workers=1, delays=1)
full("suspect", "C02 C24 C03 C23", [[S("f", 1), S("f", 2), S("g", 3), T, T, T]], workers=2, holds=1, delays=0, timeout=1)
full("suspect-graph", "C02 C05", [[("get", "fork", ("c", "a")), T, T, T]], workers=2, holds=1, delays=0, timeout=1)
full("forgotten", "C09 C13 C18", [[S("f", 1), T, T, T, S("f", 2), ("map", "g", (3,)), T, T, T, ("get", "chain", ("c",))], [S("f", 4)]], workers=1, delays=1, retention=1, wretention=1,
     ops_first=False)
full("limit", "C14 C03 C10", [[S("f", 1), S("f", 2), S("f", 3)], [S("g", 4), S("g", 5)]], workers=1, delays=1, cap=1, limit=1)
