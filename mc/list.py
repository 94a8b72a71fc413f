"""python -m mc.list PROP TIER: the scenarios of a check, heaviest first"""
import json
import os
import sys


def main():
    from . import registry
    prop, tier = sys.argv[1:3]
    out = []
    for n, s in registry.load().items():
        if prop == "ALL" and getattr(s, tier) is not None or s.decides(prop, tier):
            out.append((-s.weight if prop in s.props else 0, n, s.module))
    out.sort(key=lambda x: x[0])
    print(json.dumps([(n, m) for _, n, m in out]), flush=True)
    os._exit(0)


if __name__ == "__main__":
    main()
