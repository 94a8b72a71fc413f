"""Scenarios and the checks made of them."""

SCENARIOS = {}


class Scenario:
    """name; props: the properties it decides; run(prop, bounds, seed) -> Stats; quick/thorough: bounds (None: not in that tier)"""

    def __init__(self, name, props, run, quick, thorough, replay=None, about="", weight=1):
        assert name not in SCENARIOS, name
        self.name, self.props = name, set(props)
        self.run, self.replay = self.about_props(run), replay and self.about_props(replay)
        self.quick, self.thorough, self.about, self.weight = quick, thorough, about, weight
        self.extra = {}  # further properties decided here, property -> number of states for them (quick)
        import sys
        f = sys._getframe(1)
        while f.f_globals['__name__'] == __name__:
            f = f.f_back
        self.module = f.f_globals['__name__']
        SCENARIOS[name] = self

    def decides(self, prop, tier):
        return getattr(self, tier) is not None and (prop in self.props or prop in self.extra)

    def bounds(self, prop, tier):
        b = dict(getattr(self, tier))
        if prop not in self.props:
            b["max_states"] = min(b["max_states"], self.extra[prop] * (1 if tier == "quick" else 10))
        return b

    def about_props(self, f):
        def g(*a):
            from . import explore
            explore.SUBJECT[0] = self.props
            return f(*a)

        return g


def bfs_scenario(name, props, make, quick=None, thorough=None, about="", weight=1, **fixed):
    """make(): a fresh simulation"""
    from . import explore

    def run(prop, bounds, seed, deadline):
        return explore.bfs(make, prop, deadline=deadline, **{**fixed, **bounds})

    def replay(trace):
        sim = make()
        try:
            salvage = bool(trace) and trace[-1] == "SALVAGE"
            try:
                for a in trace[:-1] if salvage else trace:
                    if a == "DRAIN":
                        sim.drain()
                    else:
                        sim.do(_tup(a))
            except explore.Violation as v:
                if not salvage:
                    raise
                print("(after: %s)" % v.message)
            if salvage:
                sim.salvage()
        finally:
            sim.close()

    return Scenario(name, props, run, quick, thorough, replay, about, weight)


def dfs_scenario(name, props, run_one, quick=None, thorough=None, about="", weight=1, **fixed):
    """run_one(chooser) -> outcome"""
    from . import explore

    def run(prop, bounds, seed, deadline):
        return explore.dfs(run_one, prop, deadline=deadline, **{**fixed, **bounds})

    def replay(trace):
        ch = explore.Chooser(tuple(trace), 10 ** 9)
        run_one(ch)

    return Scenario(name, props, run, quick, thorough, replay, about, weight)


def enum_scenario(name, props, cases, check, quick=None, thorough=None, about="", weight=1):
    """cases(bounds) yields cases; check(case) -> outcome, raising Violation"""
    from . import explore

    def run(prop, bounds, seed, deadline):
        st = explore.Stats()
        for case in cases(**bounds):
            if deadline is not None and explore._clock() > deadline:
                st.capped = "time"
                break
            explore.tidy(st.executions)
            st.executions += 1
            try:
                out = check(case)
                st.validated += 1
                st.transitions += 1
                st.outcomes.add(explore.digest(repr(out)))
                if len(st.samples) < 3:
                    st.samples.append([repr(case)[:300], repr(out)[:200]])
            except explore.Prune:
                st.pruned += 1
            except explore.Violation as v:
                if prop in v.props:
                    st.violations.append((case, v.message))
                    break
                for p in v.props:
                    st.other.setdefault(p, v.message[:200])
        st.states = st.executions
        return st

    return Scenario(name, props, run, quick, thorough, lambda case: check(_tup(case)), about, weight)


def _tup(a):
    return tuple(_tup(x) for x in a) if isinstance(a, list) else a


def load():
    import importlib
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.startswith("scen_") and f.endswith(".py"):
            importlib.import_module("mc." + f[:-3])
    return SCENARIOS
