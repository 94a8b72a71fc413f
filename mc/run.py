"""Decides one property: python -m mc.run C03 [--tier quick|thorough] [--only SCENARIO] [-v]

Exit 0: held on everything explored; 1 and a VIOLATION line: broken; 2: the check itself failed.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

from . import tables

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def environment():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=VERIF + os.pathsep + os.environ.get("MC_REPO", "/repo"), PYTHONOPTIMIZE="")
    return env


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.strip()[len("finding: property=%s " % prop):])
    return out


def listed(prop, what):
    """is this failure a recorded finding?"""
    return any(k.split(" -- ")[0] == what for k in known_findings(prop))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    total = a.seconds or (780 if tier == "quick" else 6 * 3600)
    todo = tables.scenarios_of(a.prop, tier)
    if a.only:
        todo = [t for t in todo if t[0].startswith(a.only)]
    if not todo:
        print("no scenario for", a.prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="mc-")
    running, results = {}, {}
    order = [t for t in todo]
    queue = list(todo)
    stop = False
    try:
        while queue or running:
            while queue and len(running) < a.jobs and not stop:
                name, module = queue.pop(0)
                left = total - (time.time() - t0)
                if left < 5:
                    results[name] = {"skipped": True}
                    continue
                out = os.path.join(tmp, name.replace("/", "_") + ".json")
                errf = open(out + ".err", "wb")
                p = subprocess.Popen([sys.executable, "-m", "mc.worker", a.prop, name, tier, str(seed), str(left), out, module],
                                     cwd=VERIF, env=environment(), stdout=subprocess.DEVNULL if not a.v else None,
                                     stderr=errf, start_new_session=True)
                errf.close()
                running[name] = (p, out, time.time(), left)
            if stop and queue:
                queue = []
            time.sleep(0.02)
            for name, (p, out, ts, left) in list(running.items()):
                rc = p.poll()
                if rc is None:
                    if time.time() - ts > left + 60:
                        p.kill()
                        p.wait()
                        del running[name]
                        results[name] = {"error": "scenario did not stop in time", "hang": True}
                    continue
                with open(out + ".err", "rb") as f:
                    err = f.read()[-4000:].decode(errors="replace")
                del running[name]
                try:
                    results[name] = json.load(open(out))
                except Exception:  # noqa
                    results[name] = {"error": f"scenario process ended with {rc}: {err[-2000:]}"}
                results[name]["seconds"] = round(time.time() - ts, 1)
                if results[name].get("violations"):
                    stop = True
                if a.v:
                    r = dict(results[name])
                    r.pop("samples", None)
                    print(name, json.dumps(r)[:1500], flush=True)
    finally:
        for name, (p, *_x) in running.items():
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return report(a.prop, tier, seed, order, results, time.time() - t0, partial=bool(a.only))


def report(prop, tier, seed, order, results, wall, partial):
    rc = 0
    done = {n: r for n, r in results.items() if "error" not in r and "skipped" not in r}
    cov = dict(states=sum(r["states"] for r in done.values()), transitions=sum(r["transitions"] for r in done.values()),
               traces_validated_against_impl=sum(r["validated"] or r["executions"] for r in done.values()),
               executions=sum(r["executions"] for r in done.values()),
               distinct_outcomes=sum(r["outcomes"] for r in done.values()),
               samples=[{"scenario": n, "trace": s} for n, r in done.items() for s in r["samples"][:2]][:24] or ["none"],
               exhaustive=bool(done) and all(not r["capped"] for r in done.values()) and len(done) == len(order),
               scenarios={n: {k: r.get(k) for k in ("states", "transitions", "executions", "validated", "depth", "capped", "outcomes", "pruned", "seconds", "rss_mb")}
                          for n, r in done.items()})
    cov["exploration_rule"] = ("every transition is executed by the real code of /repo's working tree; a scenario not listed as capped "
                               "was enumerated completely within its bounds (see DESIGN.md)")
    nviol = 0
    for n in order:
        r = results.get(n[0] if isinstance(n, tuple) else n)
        if not r:
            continue
        name = n[0] if isinstance(n, tuple) else n
        if r.get("error"):
            if r.get("from_scaled"):
                r["violations"] = [["error", "the code under test failed: " + r["summary"]]]
            else:
                print(f"check error in {name}:\n{r['error']}", file=sys.stderr)
                rc = max(rc, 2) if rc != 1 else 1
                continue
        for trace, msg in r.get("violations") or []:
            nviol += 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{name}.json".replace("/", "_"))
            with open(path, "w") as f:
                json.dump({"property": prop, "scenario": name, "trace": trace, "message": msg,
                           "replay": f"cd /verif && /opt/venv/bin/python -m mc.replay {path}"}, f, indent=1)
            print(f"{name}: {msg}")
            print(f"VIOLATION property={prop} replay={path}")
            rc = 1
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for n, r in done.items():
        print(f"{n}: states={r['states']} transitions={r['transitions']} executions={r['executions']} depth={r['depth']} "
              f"outcomes={r['outcomes']}" + (f" CAPPED {r['capped']}" if r["capped"] else " complete"))
    if not partial:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=tables.ASSUMPTIONS.get(prop, tables.COMMON),
                           wall_s=round(wall, 2), violations=nviol), f, indent=1)
    print(f"{prop} {tier}: {cov['states']} states, {cov['transitions']} transitions, {cov['executions']} executions of the real code, "
          f"{len(done)}/{len(order)} scenarios, {wall:.1f} s")
    return rc


if __name__ == "__main__":
    sys.exit(main())
