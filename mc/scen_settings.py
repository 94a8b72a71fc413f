"""L5 scenarios: settings (C27)."""
from . import settings
from .registry import enum_scenario

enum_scenario("settings/cluster", ["C27"], lambda **k: settings.cases("cluster", **k), settings.cluster_case, quick=dict(deep=True), thorough=dict(deep=True, pairs=True), weight=4)
enum_scenario("settings/scheduler", ["C27"], lambda **k: settings.cases("scheduler", **k), settings.sched_case, quick=dict(deep=True), thorough=dict(deep=True, pairs=True), weight=4)
enum_scenario("settings/refused", ["C27"], lambda: settings.BAD, settings.bad_case, quick={}, thorough={})
enum_scenario("settings/addresses", ["C27"], lambda: settings.ADDRESSES, settings.address_case, quick={}, thorough={})
