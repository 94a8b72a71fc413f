"""L5 scenarios: the monitor program (C28)."""
from . import topsim
from .registry import enum_scenario

P = ["C28"]
enum_scenario("top/values", P, topsim.value_cases, topsim.value_case, quick=dict(deep=False), thorough=dict(deep=True))
enum_scenario("top/keys", P, topsim.key_cases, topsim.key_case, quick=dict(n=2), thorough=dict(n=3))
enum_scenario("top/sizes", P, topsim.size_cases, topsim.size_case, quick=dict(rows=14, cols=150), thorough=dict(rows=40, cols=200), weight=3)
enum_scenario("top/grow", P, topsim.size_cases, topsim.grow_case, quick=dict(rows=6, cols=60), thorough=dict(rows=20, cols=120))
enum_scenario("top/ends", P, topsim.enders, topsim.ender_case, quick={}, thorough={})
enum_scenario("top/live", P, topsim.live_cases, topsim.live_case, quick=dict(depth=3, prefix=("hb1a", "fn")), thorough=dict(depth=4, prefix=("fn",)), weight=9)
