"""Exhaustive exploration: breadth-first explicit-state search by replay, and deviation-bounded stateless search."""
import gc
import hashlib
import marshal
import time
import traceback
from collections import deque

_clock = time.perf_counter


SUBJECT = [set()]  # the properties of the scenario that is running


class Violation(Exception):
    """an observed breach; props: the ids of the properties it breaks"""

    def __init__(self, props, message):
        super().__init__(message)
        self.props = {props} if isinstance(props, str) else set(props)
        if "*" in self.props:  # breaks whatever this scenario is about (something died or never completes)
            self.props = (self.props - {"*"}) | (SUBJECT[0] - {"C22", "C23"})
        self.message = message


class Prune(Exception):
    """the rest of this execution is outside the scenario's assumptions"""


def digest(key):
    try:
        data = marshal.dumps(key, 2)
    except ValueError:
        data = repr(key).encode()
    return hashlib.blake2b(data, digest_size=12).digest()


def tidy(n):
    """collection is off while the code runs (finalizers would make executions differ); now and then between two of them"""
    if n % 400 == 0:
        gc.collect()


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.validated = 0
        self.depth = 0
        self.capped = None
        self.outcomes = set()
        self.samples = []
        self.violations = []  # (trace, message)
        self.other = {}  # breaches of properties this check does not decide
        self.pruned = 0

    def as_dict(self):
        return dict(states=self.states, transitions=self.transitions, executions=self.executions, validated=self.validated,
                    depth=self.depth, capped=self.capped, outcomes=len(self.outcomes), samples=self.samples[:4],
                    violations=self.violations, other=self.other, pruned=self.pruned)


def _note_other(st, v, trace):
    for p in v.props:
        st.other.setdefault(p, v.message[:200])


def bfs(build, prop, max_states=200000, max_depth=60, drain=True, deadline=None, stop_at=1, findings=None, allow=None):
    """Visit every reachable state within the bounds.

    build() -> sim with actions(), do(a), key(), drain(), outcome(), close(). A state is the action list reaching it; the
    real objects are rebuilt and the actions replayed, so a transition is always taken by the real code.
    `prop`: violations of other properties end that branch but are not reported.
    """
    st = Stats()
    seen = set()
    frontier = deque([()])
    first = True
    salvaged = 0
    while frontier:
        if st.states >= max_states:
            st.capped = f"states>={max_states}: every state up to depth {len(frontier[0]) - 1} was visited"
            break
        if deadline is not None and _clock() > deadline:
            st.capped = f"time: every state up to depth {len(frontier[0]) - 1} was visited"
            break
        trace = frontier.popleft()
        tidy(st.executions)
        sim = build()
        try:
            st.executions += 1
            bad = None
            try:
                for a in trace:
                    sim.do(a)
            except Violation as v:
                bad = v
            except Prune:
                st.pruned += 1
                st.transitions += 1
                continue
            if trace:
                st.transitions += 1
            if bad is None:
                k = digest(sim.key())
                if k in seen:
                    continue
                seen.add(k)
                st.states += 1
                st.depth = max(st.depth, len(trace))
                acts = list(sim.actions())
                if len(trace) < max_depth:
                    for a in acts:
                        frontier.append(trace + (a,))
                elif acts:
                    st.capped = f"depth {max_depth}"
                try:
                    if drain:
                        sim.drain()
                        st.validated += 1
                    o = sim.outcome()
                    if o is not None:
                        st.outcomes.add(digest(o))
                except Violation as v:
                    bad = v
                    trace = trace + ("DRAIN",)
                except Prune:
                    st.pruned += 1
                if not acts and bad is None and len(st.samples) < 4:
                    st.samples.append([repr(a) for a in trace])
            if bad is not None:
                if prop not in bad.props:
                    _note_other(st, bad, trace)
                    bad = None
                    if salvaged < 60 and hasattr(sim, "salvage"):
                        # another property fails here, which ends the branch: see what is left of this one
                        salvaged += 1
                        try:
                            sim.salvage()
                        except Violation as v:
                            if prop in v.props:
                                bad, trace = v, trace + ("SALVAGE",)
                    if bad is None:
                        continue
                if findings is not None and findings(bad.message, trace):
                    continue
                st.violations.append(([list(a) if isinstance(a, tuple) else a for a in trace], bad.message))
                if len(st.violations) >= stop_at:
                    break
        finally:
            sim.close()
    # determinism self-test: the last trace gives the same key twice
    if not st.violations:
        ks = []
        for _ in range(2):
            sim = build()
            try:
                for a in trace:
                    if a != "DRAIN":
                        sim.do(a)
                ks.append(digest(sim.key()))
            except (Violation, Prune) as e:
                ks.append(str(e).encode())
            finally:
                sim.close()
        if ks[0] != ks[1]:
            raise RuntimeError(f"non-deterministic replay of {trace}")
    return st


class Chooser:
    """one execution's decisions: replays a prefix, then takes the default"""

    def __init__(self, prefix, bound):
        self.prefix = prefix
        self.bound = bound
        self.taken = []  # (choice, n options, cost so far before it, costs of alternatives)
        self.cost = 0

    def choose(self, options, costs=None, label=None):
        """index into options; costs[i]: deviations that option i spends (default: 0 for option 0, 1 for the rest)"""
        n = len(options)
        if n == 1 and not costs:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at {i} ({label})")
        cs = costs if costs is not None else [0] + [1] * (n - 1)
        self.taken.append((c, n, self.cost, cs))
        self.cost += cs[c]
        return c


def dfs(run, prop, bound, max_execs=100000, deadline=None, stop_at=1, findings=None):
    """Stateless search: every execution whose deviations from the default schedule cost at most `bound`.

    run(chooser) runs one whole execution and returns its outcome (hashable); raises Violation.
    """
    st = Stats()
    work = [()]
    while work:
        if st.executions >= max_execs:
            st.capped = f"executions>={max_execs}"
            break
        if deadline is not None and _clock() > deadline:
            st.capped = "time"
            break
        prefix = work.pop()
        ch = Chooser(prefix, bound)
        tidy(st.executions)
        st.executions += 1
        bad = None
        try:
            out = run(ch)
            st.outcomes.add(digest(out))
        except Violation as v:
            bad = v
        except Prune:
            st.pruned += 1
        st.transitions += len(ch.taken)
        st.depth = max(st.depth, len(ch.taken))
        choices = [t[0] for t in ch.taken]
        if len(st.samples) < 3:
            st.samples.append({"choices": "".join(map(str, choices))[:200], "outcome": repr(out)[:300] if bad is None else bad.message[:300]})
        if bad is not None:
            if prop in bad.props and not (findings is not None and findings(bad.message, tuple(choices))):
                st.violations.append((choices, bad.message))
                if len(st.violations) >= stop_at:
                    break
            elif prop not in bad.props:
                _note_other(st, bad, choices)
        alts = []
        for i in range(len(prefix), len(ch.taken)):
            c, n, cost, cs = ch.taken[i]
            for alt in range(n):
                if alt != c and cost + cs[alt] <= bound:
                    alts.append(tuple(choices[:i]) + (alt,))
        # latest-first on a stack: explore small deviations near the end first; order does not matter for coverage
        work.extend(reversed(alts))
    st.states = len(st.outcomes)
    return st
