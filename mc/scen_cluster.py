"""L2 scenarios: stopping a cluster (C26)."""
import signal

from .clustersim import ClusterSim
from .registry import bfs_scenario

INT, TERM = signal.SIGINT, signal.SIGTERM


def cl(name, n, delays=None, weight=2, **kw):
    bfs_scenario("cluster/" + name, ["C26"], lambda: ClusterSim(n, delays=delays, **kw), quick=dict(max_states=3000, max_depth=400),
                 thorough=dict(max_states=60000, max_depth=600), weight=weight)
    if delays is not None:
        bfs_scenario(f"cluster/{name}-deep", ["C26"], lambda: ClusterSim(n, delays=delays + 1, **kw), quick=None,
                     thorough=dict(max_states=60000, max_depth=600), weight=weight * 3)


cl("one", 1, sigs=(TERM, INT), delays=1)
cl("two", 2, coarse=True, delays=1)
cl("three", 3, coarse=True, delays=0)
cl("two-signals", 1, sigs=(TERM, INT), signals=2, coarse=True, delays=2)
cl("two-workers-two-signals", 2, signals=2, coarse=True, delays=0)
cl("ctrl-c", 1, sigs=(INT,), group=True, delays=0)
cl("crash", 2, crash=1, coarse=True, delays=0)
cl("crash-ready", 2, crash=1, coarse=True, ready=True, signals=2)
cl("busy", 1, tasks=1, ready=True, fine=True, delays=2, sigs=(TERM, INT))
cl("combo", 1, combo=True, coarse=True, delays=1)
