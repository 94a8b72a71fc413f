import json
import subprocess
import sys

COMMON = [
    "sockets deliver in order per connection and without loss while a connection lives (ZeroMQ over TCP); messages are atomic",
    "the in-memory sockets, the virtual clock and the deterministic event loop behave like pyzmq, time and asyncio/uvloop",
    "bounds of each scenario as listed in coverage.scenarios and DESIGN.md",
]
ASSUMPTIONS = {}


def scenarios_of(prop, tier):
    from .run import VERIF, environment
    out = subprocess.run([sys.executable, "-m", "mc.list", prop, tier], cwd=VERIF, env=environment(), capture_output=True, text=True)
    if out.returncode:
        raise SystemExit("cannot list the scenarios:\n" + out.stderr)
    return [tuple(x) for x in json.loads(out.stdout.splitlines()[-1])]
