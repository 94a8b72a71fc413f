"""Runs one scenario in its own process: python -m mc.worker PROP SCENARIO TIER SEED SECONDS OUT"""
import importlib
import json
import os
import sys
import traceback


def jsonable(x):
    if isinstance(x, (list, tuple)):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return {"bytes": x.hex()}
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)


def unjson(x):
    if isinstance(x, list):
        return [unjson(y) for y in x]
    if isinstance(x, dict):
        if set(x) == {"bytes"}:
            return bytes.fromhex(x["bytes"])
        return {k: unjson(v) for k, v in x.items()}
    return x


def from_scaled(e):
    """did the exception come out of the code under test?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if "/scaled/" in last and "/verif/" not in last:
            return True
        tb = tb.tb_next
    return False


def main():
    prop, name, tier, seed, seconds, out = sys.argv[1:7]
    from . import explore, registry
    try:
        importlib.import_module(sys.argv[7])
        sc = registry.SCENARIOS[name]
        st = sc.run(prop, sc.bounds(prop, tier), int(seed), explore._clock() + float(seconds))
        res = st.as_dict()
    except Exception as e:  # noqa
        res = {"error": traceback.format_exc(), "from_scaled": from_scaled(e), "summary": f"{type(e).__name__}: {e}"}
    from . import world
    import resource
    res["rss_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    with open(out, "w") as f:
        json.dump(jsonable(res), f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
