"""seed(...) writes /verif/seeded/<id>/ from an edit of the current /repo and a demonstration."""
import json
import os
import shutil
import subprocess
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
REPO = "/repo"


def seed(id, prop, edits, needs, breaks, demo):
    """edits: list of (path, old, new); old must occur once"""
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    by_path = {}
    for path, old, new in edits:
        by_path.setdefault(path, []).append((old, new))
    for path, changes in by_path.items():
        text = open(os.path.join(REPO, path)).read()
        for old, new in changes:
            assert text.count(old) == 1, (id, path, text.count(old), old)
            text = text.replace(old, new)
        compile(text, path, "exec")
        tmp = f"/tmp/mkseed_{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(text)
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", os.path.join(REPO, path), tmp],
                           capture_output=True, text=True)
        os.unlink(tmp)
        body = r.stdout[r.stdout.index("@@"):]
        diff += f"diff --git a/{path} b/{path}\n--- a/{path}\n+++ b/{path}\n{body}"
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(textwrap.dedent(demo).lstrip())
    for n in ("h.py", "demo.sh"):
        shutil.copy(os.path.join(HERE, "seedlib", n), os.path.join(d, n))
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    print("wrote", id)
