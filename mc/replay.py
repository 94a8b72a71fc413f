"""Replays one violation: python -m mc.replay FILE (no exploration)"""
import json
import os
import subprocess
import sys


def main():
    from . import explore, registry
    from .worker import unjson
    d = json.load(open(sys.argv[1]))
    registry.load()
    sc = registry.SCENARIOS[d["scenario"]]
    try:
        sc.replay(unjson(d["trace"]))
    except explore.Violation as v:
        print("reproduced:", v.message, "| properties:", sorted(v.props))
        os._exit(1)
    print("not reproduced")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        sys.exit(subprocess.call([sys.executable, "-m", "mc.replay"] + sys.argv[1:]))
    main()
